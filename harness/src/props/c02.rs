//! C02: any sequence of reads and seeks behaves like a byte-stream cursor.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::engine::*;
use crate::vol::*;
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRun};
use ntfs::NtfsReadSeek;
use std::io::{Read, Seek, SeekFrom};

pub static PROP: Prop = Prop {
    id: "C02",
    f: prop,
    quick: 1_800_000,
    thorough: 30_000_000,
    rule: "a case is one generated attribute value or data run and a generated history of read, read_exact, seek (start/current/end, aimed at run boundaries, sizes, limits), clone, attach and detach operations, compared step by step with a byte-array cursor. Non-trivial: at least three operations on a non-resident value or data run.",
    directed: &[],
};

type Content<'a> = &'a dyn Fn(u64, u64) -> Vec<u8>;

#[derive(Clone)]
struct Model<'a> {
    pos: u64,
    len: u64,
    content: Content<'a>,
    marks: &'a [u64],
}

trait Cur {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, String>;
    fn read_exact(&mut self, b: &mut [u8]) -> Result<(), String>;
    fn seek(&mut self, p: SeekFrom) -> Result<u64, String>;
    fn pos(&mut self) -> Result<u64, String>;
}
struct Direct<'a, 'd, V>(&'a mut V, &'a mut Dev<'d>);
impl<V: NtfsReadSeek> Cur for Direct<'_, '_, V> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, String> {
        self.0.read(self.1, b).map_err(|e| e.to_string())
    }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<(), String> {
        self.0.read_exact(self.1, b).map_err(|e| e.to_string())
    }
    fn seek(&mut self, p: SeekFrom) -> Result<u64, String> {
        self.0.seek(self.1, p).map_err(|e| e.to_string())
    }
    fn pos(&mut self) -> Result<u64, String> {
        Ok(self.0.stream_position())
    }
}
/// An attached value through the standard traits only.
struct Std<T>(T);
impl<T: Read + Seek> Cur for Std<T> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize, String> {
        self.0.read(b).map_err(|e| e.to_string())
    }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<(), String> {
        self.0.read_exact(b).map_err(|e| e.to_string())
    }
    fn seek(&mut self, p: SeekFrom) -> Result<u64, String> {
        self.0.seek(p).map_err(|e| e.to_string())
    }
    fn pos(&mut self) -> Result<u64, String> {
        self.0.stream_position().map_err(|e| e.to_string())
    }
}

fn gen_target(src: &mut Src, m: &Model) -> u64 {
    let base = match src.weighted(&[4, 2, 2, 1]) {
        0 => *src.pick(m.marks),
        1 => src.range(0, m.len),
        2 => m.pos,
        _ => return src.interesting(64),
    };
    // Distances at which counters of 16, 31 or 32 bits end.
    let base = if m.len > 1 << 16 && src.chance(15) {
        let d = src.range(1, 3) << *src.pick(&[32u32, 31, 16, 33]);
        if src.chance(65) { base.saturating_sub(d) } else { base.saturating_add(d) }
    } else {
        base
    };
    match src.below(3) {
        0 => base,
        1 => base.saturating_add(src.size(0, 6000)),
        _ => base.saturating_sub(src.size(0, 6000)),
    }
}
fn gen_seek(src: &mut Src, m: &Model) -> SeekFrom {
    let t = gen_target(src, m);
    match src.below(3) {
        0 => SeekFrom::Start(t),
        k => {
            let base = if k == 1 { m.pos } else { m.len };
            let d = if src.chance(8) {
                src.interesting(64) as i64
            } else {
                (t as i128 - base as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64
            };
            if k == 1 { SeekFrom::Current(d) } else { SeekFrom::End(d) }
        }
    }
}

fn ops(src: &mut Src, ctx: &mut Ctx, c: &mut dyn Cur, m: &mut Model, n: u64) -> R {
    for _ in 0..n {
        let before = m.pos;
        match src.weighted(&[5, 5, 2, 1]) {
            0 => {
                let n = match src.weighted(&[6, 2, 1]) {
                    0 => src.size(0, 5000),
                    1 => src.size(0, 70_000),
                    _ => {
                        // Up to the next landmark, give or take one byte.
                        let next = m.marks.iter().find(|x| **x > m.pos).copied().unwrap_or(m.pos);
                        (next.saturating_sub(m.pos) + src.below(3)).saturating_sub(1).min(1 << 18)
                    }
                };
                let mut buf = vec![0xCC; n as usize];
                let got = c.read(&mut buf);
                ctx.describe(|| format!("read {n}"));
                let got = match got {
                    Ok(g) => g,
                    Err(e) => fail!("read-error", "read of {n} bytes at {before} of {} failed: {e}", m.len),
                };
                let left = m.len.saturating_sub(m.pos);
                ck!(got as u64 <= n.min(left), "read-count", "read of {n} bytes at {before} of {} returned {got}", m.len);
                ck!(got > 0 || n == 0 || left == 0, "read-nothing", "read of {n} bytes at {before} of {} returned nothing", m.len);
                let want = (m.content)(before, got as u64);
                cmp_bytes("read-bytes", "read", before, &buf[..got], &want)?;
                m.pos += got as u64;
                ctx.label_if(before >= m.len, "read at or past the end");
                ctx.label_if(m.marks.iter().any(|x| *x > before && *x < m.pos), "read across a boundary");
            }
            1 => {
                let p = gen_seek(src, m);
                ctx.describe(|| format!("seek {p:?}"));
                let want = match p {
                    SeekFrom::Start(n) => Some(n),
                    SeekFrom::Current(d) => m.pos.checked_add_signed(d),
                    SeekFrom::End(d) => m.len.checked_add_signed(d),
                };
                match (c.seek(p), want) {
                    (Ok(g), Some(w)) => {
                        ck!(g == w, "seek-result", "seek {p:?} at {before} of {} reports {g}, expected {w}", m.len);
                        ctx.label_if(w < before, "backward seek");
                        ctx.label_if(w > m.len, "seek past the end");
                        m.pos = w;
                    }
                    (Err(_), None) => ctx.label("refused seek"),
                    (Ok(g), None) => fail!("seek-accepted", "seek {p:?} at {before} of {} was accepted: {g}", m.len),
                    (Err(e), Some(w)) => fail!("seek-refused", "seek {p:?} at {before} of {} to {w} failed: {e}", m.len),
                }
            }
            2 => {
                let n = src.size(0, 9000).min(m.len.saturating_sub(m.pos).saturating_add(src.below(3)));
                let mut buf = vec![0xCC; n as usize];
                ctx.describe(|| format!("read_exact {n}"));
                let left = m.len.saturating_sub(m.pos);
                match c.read_exact(&mut buf) {
                    Ok(()) => {
                        ck!(n <= left, "read-exact-short", "read_exact of {n} bytes at {before} of {} succeeded", m.len);
                        cmp_bytes("read-exact-bytes", "read_exact", before, &buf, &(m.content)(before, n))?;
                        m.pos += n;
                    }
                    Err(e) => {
                        ck!(n > left, "read-exact-error", "read_exact of {n} bytes at {before} of {} failed: {e}", m.len);
                        // How much was consumed is unspecified; the position must say it.
                        let p = match c.pos() {
                            Ok(p) => p,
                            Err(e) => fail!("position-error", "stream_position failed: {e}"),
                        };
                        ck!(p >= before && p <= before.max(m.len), "read-exact-position", "position {p} after a failed read_exact at {before} of {}", m.len);
                        m.pos = p;
                    }
                }
            }
            _ => {}
        }
        let p = match c.pos() {
            Ok(p) => p,
            Err(e) => fail!("position-error", "stream_position failed: {e}"),
        };
        ck!(p == m.pos, "position", "stream_position is {p}, expected {}", m.pos);
    }
    Ok(())
}

/// Direct use, interleaved with clones.
fn direct<V: NtfsReadSeek + Clone>(src: &mut Src, ctx: &mut Ctx, v: &mut V, dev: &mut Dev, m: &mut Model) -> R {
    let n = src.size(1, 40);
    ops(src, ctx, &mut Direct(v, dev), m, n)?;
    if src.chance(30) {
        ctx.label("clone");
        ctx.describe(|| "clone".into());
        let mut w = v.clone();
        let mut mw = m.clone();
        for _ in 0..src.range(1, 3) {
            let n = src.size(0, 6);
            ops(src, ctx, &mut Direct(&mut w, dev), &mut mw, n)?;
            ctx.describe(|| "original".into());
            let n = src.size(0, 6);
            ops(src, ctx, &mut Direct(v, dev), m, n)?;
        }
    }
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, ..Default::default() });
    let name: Vec<u16> = if src.bool() { vec![] } else { gen_name(src, 1, 8) };
    let mut attrs = vec![vol.std_attr(src)];
    let max_runs = *src.pick(&[8u64, 20, 60]);
    let huge = src.chance(30);
    attrs.push(if src.chance(85) { gen_non(src, &mut vol, 0x80, &name, max_runs, huge) } else { gen_res(src, &vol, 0x80, &name) });
    if src.chance(30) {
        // Another stream right behind it in the attribute list.
        let nm = crate::enc::utf16("zz#zz");
        attrs.push(gen_non(src, &mut vol, 0x80, &nm, 4, false));
    }
    let f = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    let a = f.attrs[1].clone();
    ctx.describe(|| format!("{}; {}", desc_geo(&vol.geo), desc_attr(&a)));
    body_label(ctx, &a);
    ctx.nontrivial = matches!(a.a.body, Body::Non(_));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, f.rec).okay("Ntfs::file")?;
    let item = find_item(&file, &mut dev, 0x80, &name, 0)?;
    let attr = item.to_attribute().okay("to_attribute")?;
    let v = attr.value(&mut dev).okay("value")?;
    let body = &a.a.body;
    let disk = &vol.disk;
    let content = |off: u64, n: u64| body.content(disk, off, n);
    let marks = landmarks(body);
    let mut m = Model { pos: 0, len: body.len(), content: &content, marks: &marks };
    ck!(v.len() == m.len, "len", "len {} expected {}", v.len(), m.len);
    // Single data runs of a value that has its own run list.
    if let (NtfsAttributeValue::NonResident(nr), Body::Non(s)) = (&v, body) {
        if !s.runs.is_empty() && src.chance(25) {
            ctx.label("single data run");
            let runs: Vec<NtfsDataRun> = {
                let mut out = vec![];
                for r in nr.data_runs().take(s.runs.len() + 1) {
                    out.push(r.okay("data_runs().next")?);
                }
                out
            };
            ck!(runs.len() == s.runs.len(), "run-count", "{} data runs, expected {}", runs.len(), s.runs.len());
            let k = src.usize(0, runs.len() - 1);
            let one = Stream { cluster: s.cluster, runs: vec![s.runs[k].clone()], data: s.runs[k].len * s.cluster, init: s.runs[k].len * s.cluster };
            let content = |off: u64, n: u64| one.content(disk, off, n);
            let marks = [0, one.data];
            let mut m = Model { pos: 0, len: one.data, content: &content, marks: &marks };
            let mut r = runs[k].clone();
            ck!(r.allocated_size() == one.data, "run-size", "data run of {} bytes, expected {}", r.allocated_size(), one.data);
            return direct(src, ctx, &mut r, &mut dev, &mut m);
        }
    }
    let mut v = v;
    match src.weighted(&[5, 2, 3, 2]) {
        0 => direct(src, ctx, &mut v, &mut dev, &mut m)?,
        1 => match v {
            // The inner types on their own.
            NtfsAttributeValue::Resident(mut r) => {
                ck!(r.data() == (m.content)(0, m.len), "resident-data", "data() differs from the stored value");
                ck!(r.len() == m.len && r.is_empty() == (m.len == 0), "len", "len {} of {}, is_empty {}", r.len(), m.len, r.is_empty());
                direct(src, ctx, &mut r, &mut dev, &mut m)?
            }
            NtfsAttributeValue::NonResident(mut r) => {
                ck!(r.len() == m.len && r.is_empty() == (m.len == 0), "len", "len {} of {}, is_empty {}", r.len(), m.len, r.is_empty());
                direct(src, ctx, &mut r, &mut dev, &mut m)?
            }
            NtfsAttributeValue::AttributeListNonResident(mut r) => {
                ck!(r.len() == m.len && r.is_empty() == (m.len == 0), "len", "len {} of {}, is_empty {}", r.len(), m.len, r.is_empty());
                direct(src, ctx, &mut r, &mut dev, &mut m)?
            }
        },
        2 => {
            // Alternate between direct and attached use.
            for _ in 0..src.range(1, 4) {
                let n = src.size(0, 8);
                ops(src, ctx, &mut Direct(&mut v, &mut dev), &mut m, n)?;
                ctx.label("attached");
                ctx.describe(|| "attach".into());
                let mut att = Std(v.attach(&mut dev));
                ck!(att.0.len() == m.len && att.0.is_empty() == (m.len == 0), "attached-len", "attached len {}", att.0.len());
                let n = src.size(1, 16);
                ops(src, ctx, &mut att, &mut m, n)?;
                ctx.describe(|| "detach".into());
                v = att.0.detach();
            }
            direct(src, ctx, &mut v, &mut dev, &mut m)?;
        }
        _ => match v {
            NtfsAttributeValue::NonResident(mut r) => {
                for _ in 0..src.range(1, 3) {
                    ctx.label("attached non-resident");
                    let mut att = Std(r.attach(&mut dev));
                    ck!(att.0.len() == m.len && att.0.is_empty() == (m.len == 0), "attached-len", "attached len {} of {}, is_empty {}", att.0.len(), m.len, att.0.is_empty());
                    let n = src.size(1, 16);
                    ops(src, ctx, &mut att, &mut m, n)?;
                    r = att.0.detach();
                    let n = src.size(0, 6);
                    ops(src, ctx, &mut Direct(&mut r, &mut dev), &mut m, n)?;
                }
            }
            mut v => direct(src, ctx, &mut v, &mut dev, &mut m)?,
        },
    }
    Ok(())
}
