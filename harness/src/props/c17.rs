//! C17: the example's sector-aligned reader, and the example shell on generated images.
use super::Prop;
use crate::api::*;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[allow(dead_code)]
#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
mod sector_reader;
use sector_reader::SectorReader;

pub static PROP: Prop = Prop {
    id: "C17",
    f: prop,
    quick: 1_500_000,
    thorough: 40_000_000,
    rule: "most cases are histories of reads and seeks through the example's SectorReader over a device of a generated sector size and length, each step compared with the plain device; the device records that it is only accessed at whole sectors. One case in 400 is a session of the example shell (as a process, in a scratch directory) on a generated image: listings, directory changes, extraction of files and streams, and file information are compared with the model. Non-trivial: a history with at least two reads that return bytes, or a session that extracts a file.",
    directed: &[("last-sector", last_sector), ("consecutive-reads", consecutive_reads), ("shell", shell)],
};

const D1: &str = "sector-reader-last-sector";
const D2: &str = "sector-reader-consecutive-reads";

// ---------------------------------------------------------------- the device

struct Device {
    seed: u64,
    len: u64,
    pos: u64,
    sector: u64,
    bad: Option<String>,
    calls: u64,
}
fn byte(seed: u64, p: u64) -> u8 {
    (mix(seed ^ (p / 8)) >> (8 * (p % 8))) as u8
}
impl Device {
    fn bytes(&self, pos: u64, n: u64) -> Vec<u8> {
        (pos..pos.saturating_add(n).min(self.len.max(pos))).map(|p| byte(self.seed, p)).collect()
    }
    fn note(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
}
#[derive(Clone)]
struct Shared(Rc<RefCell<Device>>);
impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        touched();
        let mut d = self.0.borrow_mut();
        d.calls += 1;
        if d.pos % d.sector != 0 || buf.len() as u64 % d.sector != 0 {
            let s = format!("the device is read at {} for {} bytes", d.pos, buf.len());
            d.note(s);
        }
        let n = d.len.saturating_sub(d.pos).min(buf.len() as u64);
        let v = d.bytes(d.pos, n);
        buf[..v.len()].copy_from_slice(&v);
        d.pos += n;
        Ok(n as usize)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        touched();
        let mut d = self.0.borrow_mut();
        d.calls += 1;
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => d.pos.checked_add_signed(n),
            SeekFrom::End(n) => {
                d.note("the device is asked for its end".into());
                d.len.checked_add_signed(n)
            }
        };
        let Some(n) = n else { return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")) };
        if n % d.sector != 0 {
            d.note(format!("the device is positioned at {n}"));
        }
        d.pos = n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Read(u64),
    Seek(SeekFrom),
}

fn history(ctx: &mut Ctx, seed: u64, sector: u64, len: u64, ops: &[Op]) -> R {
    let dev = Shared(Rc::new(RefCell::new(Device { seed, len, pos: 0, sector, bad: None, calls: 0 })));
    let mut r = SectorReader::new(dev.clone(), sector as usize).okay("SectorReader::new")?;
    let mut pos = 0u64;
    let mut reads = 0;
    // After a failed read, everything but the reader's own position is up to it; the history seeks.
    let mut after_error = false;
    for (i, op) in ops.iter().enumerate() {
        let op = match *op {
            Op::Read(_) if after_error => Op::Seek(SeekFrom::Start(pos)),
            o => o,
        };
        match op {
            Op::Read(n) => {
                let inner = dev.0.borrow().pos;
                let mut buf = vec![0xA5u8; n as usize];
                let got = r.read(&mut buf);
                let left = len.saturating_sub(pos);
                let start = pos % sector;
                // What the reader asks of the device: whole sectors, always one more than needed.
                let asked = (start + n) / sector * sector + sector;
                let off_track = inner != pos - start;
                match got {
                    Ok(k) => {
                        let k = k as u64;
                        let right = k <= n && k <= left && (k > 0 || n == 0 || left == 0) && buf[..k as usize] == dev.0.borrow().bytes(pos, k)[..];
                        if right {
                            reads += (k > 0) as u32;
                            ctx.label_if(k > 0 && start != 0, "read from within a sector");
                            ctx.label_if(k > sector, "read over several sectors");
                            ctx.label_if(k > 0 && pos + k == len, "read up to the last byte");
                            pos += k;
                        } else if off_track && k == n && buf == dev.0.borrow().bytes(inner + start, n) {
                            ctx.known(D2);
                            pos += k;
                        } else {
                            fail!("sector-bytes", "step {i}: reading {n} bytes at {pos} of {len} (sectors of {sector}) returns {k} bytes {} instead of {}", hex(&buf[..(k as usize).min(24).min(buf.len())]), hex(&dev.0.borrow().bytes(pos, k.min(24))));
                        }
                    }
                    Err(e) => {
                        after_error = true;
                        let eof = e.kind() == io::ErrorKind::UnexpectedEof;
                        if off_track && eof && inner.saturating_add(asked) > len {
                            ctx.known(D2);
                        } else if eof && inner.saturating_add(asked) > len {
                            ctx.known(D1);
                        } else {
                            fail!("sector-error", "step {i}: reading {n} bytes at {pos} of {len} (sectors of {sector}) fails: {e}");
                        }
                    }
                }
            }
            Op::Seek(p) => {
                let want = match p {
                    SeekFrom::Start(n) => Some(n),
                    SeekFrom::Current(n) => pos.checked_add_signed(n),
                    SeekFrom::End(_) => None,
                };
                let got = r.seek(p);
                match (got, want) {
                    (Ok(g), Some(w)) => {
                        ck!(g == w, "sector-seek", "step {i}: {p:?} at {pos} leads to {g} instead of {w}");
                        pos = w;
                        after_error = false;
                    }
                    (Err(_), None) => ctx.label("refused seek"),
                    // Supporting this would be fine as well.
                    (Ok(g), None) if matches!(p, SeekFrom::End(n) if len.checked_add_signed(n) == Some(g)) => pos = g,
                    (Ok(g), None) => fail!("sector-seek", "step {i}: {p:?} at {pos} is accepted as {g}"),
                    (Err(e), Some(_)) => fail!("sector-seek", "step {i}: {p:?} at {pos} fails: {e}"),
                }
            }
        }
        if let Some(b) = dev.0.borrow_mut().bad.take() {
            fail!("sector-alignment", "step {i} ({op:?}) with sectors of {sector}: {b}");
        }
    }
    ctx.nontrivial |= reads >= 2;
    Ok(())
}

fn last_sector(_: &mut Src, ctx: &mut Ctx) -> R {
    history(ctx, 1, 512, 4096, &[Op::Seek(SeekFrom::Start(3584)), Op::Read(512), Op::Seek(SeekFrom::Start(4090)), Op::Read(12)])
}
fn consecutive_reads(_: &mut Src, ctx: &mut Ctx) -> R {
    history(ctx, 1, 512, 65536, &[Op::Read(100), Op::Read(100), Op::Read(700)])
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(2) {
        let s = src.interesting(20) as usize;
        let d = Shared(Rc::new(RefCell::new(Device { seed: 1, len: 0, pos: 0, sector: 1, bad: None, calls: 0 })));
        let r = SectorReader::new(d, s);
        ck!(r.is_ok() == s.is_power_of_two(), "sector-size", "a sector size of {s} is {}", if r.is_ok() { "accepted" } else { "refused" });
        return Ok(());
    }
    let sh = src.below(13);
    let sector = 1u64 << sh;
    let len = sector * (src.size(0, (40_000 / sector).max(24)) + if src.bool() { 8 } else { 0 });
    let seed = src.u64();
    let mut ops = vec![];
    let n = src.size(1, 24);
    for _ in 0..n {
        let near = |src: &mut Src| -> u64 {
            let base = match src.below(4) {
                0 => 0,
                1 => len,
                2 => sector * src.below(len / sector + 2),
                _ => src.below(len + 1),
            };
            base.saturating_add(src.below(4)).saturating_sub(src.below(4))
        };
        ops.push(match src.weighted(&[4, 4, 2, 1]) {
            0 => {
                let n = match src.below(4) {
                    0 => src.below(10),
                    1 => sector + src.below(3) - 1.min(sector),
                    2 => src.size(0, 3 * sector + 8),
                    _ => sector * src.below(4),
                };
                Op::Read(n)
            }
            1 => Op::Seek(SeekFrom::Start(if src.chance(4) { src.interesting(64) } else { near(src) })),
            2 => Op::Seek(SeekFrom::Current(if src.chance(10) { src.interesting(64) as i64 } else { near(src) as i64 - near(src) as i64 })),
            _ => Op::Seek(SeekFrom::End(src.below(20) as i64 - 10)),
        });
        // Most reads directly follow a seek.
        if matches!(ops.last(), Some(Op::Read(_))) && src.chance(50) {
            let p = near(src);
            let r = ops.pop().unwrap();
            ops.push(Op::Seek(SeekFrom::Start(p)));
            ops.push(r);
        }
    }
    ctx.describe(|| format!("sector {sector} device {len} ops {:?}", &ops[..ops.len().min(12)]));
    history(ctx, seed, sector, len, &ops)
}

// ---------------------------------------------------------------- the shell

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("ntfs-c17-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(p.join("out")).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Names that are safe as file names of the host and as arguments of the shell.
fn host_name(src: &mut Src) -> Vec<u16> {
    let inner: Vec<char> = "abcxyzABCXYZ0189_-. äÉß漢🙂".chars().collect();
    let outer: Vec<char> = "abcdefgKLMNOPäÉ漢🙂".chars().collect();
    let mut s = String::new();
    s.push(*src.pick(&outer));
    for _ in 0..src.size(0, 20) {
        s.push(*src.pick(&inner));
    }
    s.push(*src.pick(&outer));
    utf16(&s)
}
fn swap_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

struct Sub {
    name: Vec<u16>,
    rec: u64,
    /// Names in stored order, whether they are directories.
    list: Vec<(String, bool)>,
    files: Vec<(String, FileM)>,
}

fn gen_shell_file(src: &mut Src, vol: &mut Vol, name: &[u16]) -> FileM {
    let mut attrs = vec![vol.std_attr(src)];
    let f = gen_fn(src, name.to_vec(), 1);
    attrs.push(Attr::res(T_NAME, &[], file_name(&f)));
    if src.chance(90) {
        attrs.push(if src.chance(70) { gen_non(src, vol, T_DATA, &[], 12, false) } else { gen_res(src, vol, T_DATA, &[]) });
    }
    if src.chance(40) {
        let n = host_name(src);
        attrs.push(if src.chance(50) { gen_non(src, vol, T_DATA, &n, 6, false) } else { gen_res(src, vol, T_DATA, &n) });
    }
    gen_file(src, vol, attrs, 1)
}

fn gen_level(src: &mut Src, vol: &mut Vol, rec: Option<u64>, name: Vec<u16>, subs: &[(Vec<u16>, u64)]) -> Sub {
    let mut names: std::collections::BTreeMap<Vec<u16>, (Vec<u16>, Option<u64>, Option<FileM>)> = Default::default();
    for (n, r) in subs {
        names.insert(up(&vol.upcase, n), (n.clone(), Some(*r), None));
    }
    let k = src.range(1, 4);
    for _ in 0..k {
        let n = host_name(src);
        let u = up(&vol.upcase, &n);
        if !names.contains_key(&u) {
            let f = gen_shell_file(src, vol, &n);
            names.insert(u, (n, None, Some(f)));
        }
    }
    // Entries without a file of their own: they are only listed.
    for _ in 0..src.size(0, 60) {
        let n = host_name(src);
        let u = up(&vol.upcase, &n);
        names.entry(u).or_insert((n, None, None));
    }
    let mut ents = vec![];
    let mut list = vec![];
    let mut files = vec![];
    for (n, sub, f) in names.into_values() {
        let mut key = gen_fn(src, n.clone(), 1);
        key.attrs = if sub.is_some() { 0x1000_0000 } else { 0x20 };
        let r = sub.unwrap_or(f.as_ref().map(|f| f.rec).unwrap_or(11));
        let s = String::from_utf16(&n).unwrap();
        list.push((s.clone(), sub.is_some()));
        if let Some(f) = f {
            files.push((s, f));
        }
        ents.push(DirEnt { fref: fref(r, 1), key });
    }
    let o = DirOpts { max_depth: 3, rec, list_pct: 20, named: Some(name.clone()), ..Default::default() };
    let irs = gen_irs(src, vol.geo.cluster).max(1024);
    let d = make_dir(src, vol, &o, irs, ents);
    Sub { name, rec: d.file.rec, list, files }
}

fn shell_bin() -> PathBuf {
    std::env::var("VERIF_SHELL").map(PathBuf::from).unwrap_or_else(|_| Path::new(&std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("shell/target/release/ntfs-shell"))
}

fn shell(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("shell session");
    let mut vol = Vol::new(src, &VolOpts { max_cluster: 4096, spread: 0, upcase: true, records: 60, big_mft: 0, mft_runs: 3, ..Default::default() });
    let sub = if src.chance(70) {
        let n = host_name(src);
        Some(gen_level(src, &mut vol, None, n, &[]))
    } else {
        None
    };
    let subs: Vec<(Vec<u16>, u64)> = sub.iter().map(|s| (s.name.clone(), s.rec)).collect();
    let root = gen_level(src, &mut vol, Some(5), vec![b'.' as u16], &subs);
    vol.finish(src);
    // The reader of the example cannot read the end of a device (see KNOWN-FINDINGS): keep it away.
    let len = vol.disk.len.div_ceil(4096) * 4096 + (256 << 10);
    if len > 24 << 20 {
        std::panic::panic_any(Overrun);
    }
    vol.disk.len = len;
    let scratch = Scratch::new();
    let image = scratch.0.join("image");
    let out = scratch.0.join("out");
    std::fs::write(&image, vol.disk.get(0, len as usize)).expect("image");
    // The session.
    enum Step {
        Dir,
        Cd(String, bool),
        Up,
        Get { arg: String, file: String, want: Option<Body> },
        Info(String, FileM),
        Bad(String),
    }
    let mut steps = vec![];
    let mut level = &root;
    let mut done = std::collections::BTreeSet::new();
    let mut gets = 0;
    for _ in 0..src.range(3, 10) {
        match src.weighted(&[3, 2, 8, 2, 1]) {
            0 => steps.push(Step::Dir),
            1 => {
                if std::ptr::eq(level, &root) {
                    if let Some(s) = &sub {
                        let n = String::from_utf16(&s.name).unwrap();
                        let n = if src.bool() { n } else { swap_case(&n) };
                        // The generated tables need not map ASCII letters onto each other.
                        let there = up(&vol.upcase, &utf16(&n)) == up(&vol.upcase, &s.name);
                        let clash = !there && root.list.iter().any(|(l, _)| up(&vol.upcase, &utf16(l)) == up(&vol.upcase, &utf16(&n)));
                        if clash {
                            continue;
                        }
                        steps.push(Step::Cd(n, there));
                        if there {
                            level = s;
                        }
                    }
                } else {
                    steps.push(Step::Up);
                    level = &root;
                }
            }
            2 => {
                if level.files.is_empty() {
                    continue;
                }
                let (n, f) = src.pick(&level.files);
                let streams: Vec<&LAttr> = f.attrs.iter().filter(|a| a.a.ty == T_DATA).collect();
                let named: Vec<&&LAttr> = streams.iter().filter(|a| !a.a.name.is_empty()).collect();
                let (arg, file, want) = if !named.is_empty() && src.bool() {
                    let s = src.pick(&named);
                    let t = String::from_utf16(&s.a.name).unwrap();
                    (format!("{n}:{t}"), format!("{n}_{t}"), Some(s.a.body.clone()))
                } else {
                    let w = streams.iter().find(|a| a.a.name.is_empty()).map(|a| a.a.body.clone());
                    (n.clone(), n.clone(), w)
                };
                if file.len() > 200 || !done.insert(file.clone()) || want.as_ref().map(|w| w.len() > 8 << 20).unwrap_or(false) {
                    continue;
                }
                gets += want.is_some() as u32;
                steps.push(Step::Get { arg, file, want });
            }
            3 => {
                if !level.files.is_empty() {
                    let (n, f) = src.pick(&level.files).clone();
                    let arg = match src.below(3) {
                        0 => format!("/{}", f.rec),
                        1 => format!("/{:#x}", f.rec),
                        _ => n,
                    };
                    steps.push(Step::Info(arg, f));
                }
            }
            _ => steps.push(Step::Bad(String::from(*src.pick(&["frobnicate", "get", "fileinfo /x", "help", "fsinfo"])))),
        }
    }
    ctx.describe(|| format!("shell on {} image {len} files {:?}", desc_geo(&vol.geo), root.list.iter().take(6).collect::<Vec<_>>()));
    let script: String = steps
        .iter()
        .map(|s| match s {
            Step::Dir => "dir\n".to_string(),
            Step::Cd(n, _) => format!("cd {n}\n"),
            Step::Up => "cd ..\n".into(),
            Step::Get { arg, .. } => format!("get {arg}\n"),
            Step::Info(n, _) => format!("fileinfo {n}\n"),
            Step::Bad(s) => format!("{s}\n"),
        })
        .collect();
    let bin = shell_bin();
    let mut child = match Command::new(&bin).arg(&image).current_dir(&out).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => fail!("HARNESS-shell", "cannot start {}: {e}", bin.display()),
    };
    // Small enough for the pipe.
    let _ = child.stdin.take().unwrap().write_all(script.as_bytes());
    let o = child.wait_with_output().expect("shell output");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let errs = String::from_utf8_lossy(&o.stderr).into_owned();
    let show_all = || format!("script {script:?} errors {:?}", errs.chars().take(600).collect::<String>());
    ck!(o.status.success(), "shell-status", "the shell ends with {:?}; {}", o.status, show_all());
    // One part per prompt.
    let mut parts = text.split("ntfs-shell:\\").skip(1).map(|p| p.split_once("> ").map(|x| x.1).unwrap_or(""));
    let mut level = &root;
    for (i, s) in steps.iter().enumerate() {
        let Some(part) = parts.next() else { fail!("shell-output", "no output of step {i}; {}", show_all()) };
        let lines: Vec<&str> = part.lines().collect();
        match s {
            Step::Dir => {
                let got: Vec<(String, bool)> = lines
                    .iter()
                    .map(|l| match l.strip_prefix("<DIR>") {
                        Some(r) => (r.trim_start().to_string(), true),
                        None => (l.trim_start().to_string(), false),
                    })
                    .collect();
                ck!(got == level.list, "shell-dir", "step {i}: the listing is {got:?}, expected {:?}; {}", level.list, show_all());
            }
            Step::Cd(n, there) => {
                ck!(part.is_empty() == *there, "shell-cd", "step {i}: cd {n} answers {part:?}, the directory {}; {}", if *there { "exists" } else { "does not exist" }, show_all());
                if *there {
                    level = sub.as_ref().unwrap();
                }
            }
            Step::Up => level = &root,
            Step::Get { arg, file, want } => {
                let p = out.join(file);
                let got = std::fs::read(&p).ok();
                match (got, want) {
                    (Some(g), Some(w)) => {
                        let w = w.content(&vol.disk, 0, w.len());
                        ck!(g.len() == w.len(), "shell-get", "step {i}: get {arg} yields {} bytes instead of {}; {}", g.len(), w.len(), show_all());
                        cmp_bytes("shell-get", &format!("get {arg}"), 0, &g, &w)?;
                    }
                    (None, Some(_)) => fail!("shell-get", "step {i}: get {arg} creates no file; {}", show_all()),
                    (g, None) => ck!(g.map(|g| g.is_empty()).unwrap_or(true), "shell-get", "step {i}: get {arg} of a file without such a stream yields data"),
                }
            }
            Step::Info(n, f) => {
                let want: Vec<(String, u64)> = f.attrs.iter().filter(|a| a.a.ty == T_DATA).map(|a| (format!("\"{}\"", String::from_utf16_lossy(&a.a.name)), a.a.body.len())).collect();
                let mut got = vec![];
                let mut at = 0;
                while let Some(j) = lines[at..].iter().position(|l| l.contains(" DATA STREAM ")) {
                    at += j + 1;
                    let val = |k: &str| lines[at..].iter().take(2).find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
                    got.push((val("Name:"), val("Size:").parse().unwrap_or(u64::MAX)));
                }
                let (mut g, mut w) = (got.clone(), want.clone());
                g.sort();
                w.sort();
                ck!(g == w, "shell-fileinfo", "step {i}: fileinfo {n} lists the streams {got:?}, expected {want:?}; {}", show_all());
                let rec = lines.iter().find_map(|l| l.strip_prefix("Record Number:")).map(|x| x.trim().to_string());
                ck!(rec == Some(format!("{:#x}", f.rec)), "shell-fileinfo", "step {i}: fileinfo {n} is about record {rec:?}, expected {:#x}", f.rec);
            }
            Step::Bad(_) => {}
        }
    }
    ctx.nontrivial |= gets > 0;
    ctx.label_if(gets > 0, "shell extraction");
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.below(400) == 399 {
        shell(src, ctx)
    } else {
        histories(src, ctx)
    }
}
