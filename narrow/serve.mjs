// Runs cases in the 32-bit build: node serve.mjs FILE.wasm
// Request: u32 property, u32 n, n x u64 choices. Answer: u32 length, u8 status, text.
// Status: 0 pass, 1 fail, 2 discard, 3 crash, 4 harness error.
import fs from "node:fs";
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let image = Buffer.alloc(0);
try {
  image = fs.readFileSync("/repo/testdata/testfs1");
} catch {}
let e = null;
function read(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let g;
    try {
      g = fs.readSync(0, b, k, n - k, null);
    } catch (x) {
      if (x.code === "EAGAIN") continue;
      if (x.code === "EOF") process.exit(0);
      throw x;
    }
    if (g === 0) process.exit(0);
    k += g;
  }
  return b;
}
function write(b) {
  let k = 0;
  while (k < b.length) {
    try {
      k += fs.writeSync(1, b, k);
    } catch (x) {
      if (x.code !== "EAGAIN") throw x;
    }
  }
}
for (;;) {
  const h = read(8);
  const tape = read(8 * h.readUInt32LE(4));
  if (!e || e.memory.buffer.byteLength > 512 << 20) {
    e = new WebAssembly.Instance(mod, {}).exports;
    e.init();
    const at = e.room(image.length >> 3) >>> 0;
    Buffer.from(e.memory.buffer).set(image.subarray(0, (image.length >> 3) << 3), at);
    e.image(at, image.length >> 3);
  }
  let status, text;
  try {
    const p = e.room(tape.length / 8) >>> 0;
    Buffer.from(e.memory.buffer).set(tape, p);
    status = e.run(h.readUInt32LE(0), p, tape.length / 8);
    text = Buffer.from(Buffer.from(e.memory.buffer, e.out_ptr() >>> 0, e.out_len()));
  } catch (x) {
    status = 3;
    let m = "";
    try {
      m = Buffer.from(e.memory.buffer, e.out_ptr() >>> 0, e.out_len()).toString();
    } catch {}
    text = Buffer.from((m || "") + "\n" + x);
    e = null;
  }
  const o = Buffer.alloc(5);
  o.writeUInt32LE(text.length + 1, 0);
  o[4] = status;
  write(Buffer.concat([o, text]));
}
