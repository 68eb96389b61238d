//! C22: results do not depend on the pointer width of the platform.
//!
//! The other properties run again inside a 32-bit build of the crate and of this harness (wasm32, run by
//! node): case by case on the very choices of a native case that passed. Both runs must agree.
use super::Prop;
use crate::engine::*;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "C22",
    f: prop,
    quick: 120_000,
    thorough: 6_000_000,
    rule: "a case is a generated case of another property (C01-C10, C12-C16, C18-C21, by weight) that passes on this 64-bit platform; the same choices are run in a 32-bit build (wasm32, node). It must pass there too, without crash or hang, with the same choices consumed, the same labels and the same digest of results. Non-trivial: non-trivial for the inner property.",
    directed: &[],
};

/// The inner properties and their weights.
const INNER: &[(&str, u64)] = &[
    ("C02", 16),
    ("C01", 6),
    ("C18", 14),
    ("C16", 14),
    ("C05", 10),
    ("C07", 10),
    ("C03", 3),
    ("C04", 3),
    ("C06", 5),
    ("C08", 6),
    ("C09", 4),
    ("C10", 6),
    ("C12", 2),
    ("C13", 3),
    ("C14", 2),
    ("C15", 5),
    ("C19", 4),
    ("C20", 3),
    ("C21", 2),
];

struct Narrow {
    child: Child,
    to: ChildStdin,
    from: Receiver<Vec<u8>>,
}
impl Drop for Narrow {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NARROW: RefCell<Option<Narrow>> = const { RefCell::new(None) };
}
fn start() -> Result<Narrow, Fail> {
    let bad = |m: String| Fail { sig: "HARNESS:narrow".into(), msg: m };
    let wasm = std::env::var("VERIF_WASM").map_err(|_| bad("VERIF_WASM is not set".into()))?;
    let script = std::env::var("VERIF_NARROW").map_err(|_| bad("VERIF_NARROW is not set".into()))?;
    let mut child = Command::new("node").arg("--stack-size=3900").arg(script).arg(wasm).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| bad(format!("node: {e}")))?;
    let to = child.stdin.take().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, from) = channel();
    std::thread::spawn(move || loop {
        let mut n = [0u8; 4];
        if out.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if out.read_exact(&mut b).is_err() || tx.send(b).is_err() {
            return;
        }
    });
    Ok(Narrow { child, to, from })
}

const PATIENCE: Duration = Duration::from_secs(25);

/// The answer of the 32-bit build: status byte and text. None: it hangs or died.
fn ask(id: &str, tape: &[u64], trace: bool) -> Result<Option<(u8, String)>, Fail> {
    NARROW.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Some(start()?);
        }
        let c = n.as_mut().unwrap();
        let mut b = Vec::with_capacity(12 + 8 * tape.len());
        b.extend_from_slice(&(id[1..].parse::<u32>().unwrap() | (trace as u32) << 31).to_le_bytes());
        b.extend_from_slice(&(tape.len() as u32).to_le_bytes());
        for t in tape {
            b.extend_from_slice(&t.to_le_bytes());
        }
        let r = if c.to.write_all(&b).and_then(|_| c.to.flush()).is_err() { None } else { c.from.recv_timeout(PATIENCE).ok() };
        match r {
            Some(r) if !r.is_empty() => Ok(Some((r[0], String::from_utf8_lossy(&r[1..]).into_owned()))),
            _ => {
                *n = None;
                Ok(None)
            }
        }
    })
}

/// What both builds must agree on.
pub fn summary(ctx: &Ctx, choices: usize) -> String {
    format!("{} choices, digest {:016x}, {}", choices, digest(), ctx.labels.join(", "))
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let w: Vec<u64> = INNER.iter().map(|x| x.1).collect();
    let (id, _) = INNER[src.weighted(&w)];
    let inner = super::find(id).unwrap();
    let first = src.rec.len();
    let mut c = Ctx { want_desc: ctx.want_desc, ..Default::default() };
    match run_case(inner.f, src, &mut c) {
        Outcome::Pass => {}
        Outcome::Discard => std::panic::panic_any(Overrun),
        Outcome::Harness(m) => fail!("HARNESS", "{id}: {m}"),
        Outcome::Fail(_) => {
            // Not this property's concern.
            ctx.label("already fails on this platform");
            return Ok(());
        }
    }
    let tape = &src.rec[first..];
    let want = summary(&c, tape.len());
    ctx.describe(|| format!("{id}: {}", c.desc));
    ctx.nontrivial = c.nontrivial;
    ctx.label(id);
    compare(id, tape, &want, ctx)
}

fn compare(id: &str, tape: &[u64], want: &str, ctx: &mut Ctx) -> R {
    let name = "32-bit";
    // A second try rules out that the process met its end for a reason of its own.
    let mut answer = ask(id, tape, false)?;
    if answer.is_none() {
        answer = ask(id, tape, false)?;
    }
    match answer {
        None => fail!(format!("{name}-hang:{id}"), "{id}: the {name} build did not answer within {} s", PATIENCE.as_secs()),
        Some((0, got)) if got != want && ctx.want_desc => {
            // Where do they part?
            let inner = super::find(id).unwrap();
            TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
            let _ = run_case(inner.f, &mut Src::replay(tape.to_vec()), &mut Ctx::default());
            let here = TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default();
            let there = match ask(id, tape, true)? {
                Some((_, m)) => m,
                None => String::new(),
            };
            let there: Vec<&str> = there.lines().skip(1).collect();
            let i = here.iter().zip(&there).take_while(|(a, b)| a == b).count();
            fail!(format!("{name}-differs:{id}"), "{id}: result {i} is {:?} in the native build, {:?} in the {name} build ({want} / {got})", here.get(i), there.get(i));
        }
        Some((0, got)) => ck!(got == want, format!("{name}-differs:{id}"), "{id}: the native build has {want}; the {name} build {got}"),
        Some((1, m)) => {
            let sig = m.lines().next().unwrap_or("").to_string();
            fail!(format!("{name}:{id}:{sig}"), "{id} fails in the {name} build: {m}")
        }
        Some((2, _)) => fail!(format!("{name}-overrun:{id}"), "{id}: the {name} build asks for more choices"),
        Some((3, m)) => fail!(format!("{name}-panic:{id}:{}", m.lines().next().unwrap_or("").split(':').take(2).collect::<Vec<_>>().join(":")), "{id}: the {name} build crashes: {m}"),
        Some((s, m)) => fail!("HARNESS:narrow", "{id}: answer {s}: {m}"),
    }
    Ok(())
}
