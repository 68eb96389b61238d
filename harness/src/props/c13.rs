//! C13: faults of the underlying reader never turn into wrong data.
use super::Prop;
use crate::api::*;
use crate::disk::{Dev, Disk, Fault};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use crate::world::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::NtfsReadSeek;
use std::io::SeekFrom;

pub static PROP: Prop = Prop {
    id: "C13",
    f: prop,
    quick: 800_000,
    thorough: 40_000_000,
    rule: "a case is a volume with files and directories and a series of queries (19 kinds); each runs once on a perfect reader and then under a generated fault schedule (short reads, interrupts, errors of reads and seeks, premature ends, a truncated device), is continued on the healed reader where it can be, and is repeated; the result must be the perfect one or an error, everything before an error must be a prefix of the perfect result, and values must go on exactly where they report to be. The other half of the cases puts one value or data run through a long series of reads and seeks with faults in between and compares every byte with a cursor. Non-trivial: a fault was hit within a query, or an operation on the value failed.",
    directed: &[],
};

/// `calls`: how many reads the operation needs on a perfect reader.
fn gen_faults(src: &mut Src, calls: u64) -> Vec<Fault> {
    let one = |src: &mut Src| match src.weighted(&[4, 2, 3, 3]) {
        0 => Fault::Error,
        1 => Fault::Interrupted,
        2 => Fault::Eof,
        _ => Fault::Short(src.size(1, 600) as usize),
    };
    match src.weighted(&[5, 3, 3]) {
        0 => {
            // A single fault at the k-th call.
            let k = match src.below(3) {
                0 => src.below(calls.max(1)),
                1 => calls.saturating_sub(1 + src.size(0, 8).min(calls)),
                _ => src.size(0, 400),
            } as usize;
            let mut v = vec![Fault::None; k];
            v.push(one(src));
            if src.chance(25) {
                v.push(one(src));
            }
            v
        }
        1 => {
            // Every read is short.
            let n = src.range(20, 400);
            let m = src.size(1, 800) as usize;
            let fixed = src.bool();
            (0..n).map(|_| Fault::Short(if fixed { m } else { src.size(1, 800) as usize })).collect()
        }
        _ => {
            let n = src.range(1, 120);
            let pct = *src.pick(&[3u64, 20, 60]);
            let skip = if src.bool() { src.below(calls.max(1)) } else { 0 };
            (0..skip + n).map(|i| if i >= skip && src.chance(pct) { one(src) } else { Fault::None }).collect()
        }
    }
}

fn prefix(a: &[u8], b: &[u8]) -> bool {
    a.len() <= b.len() && a == &b[..a.len()]
}

/// One value (or data run) under a long series of reads and seeks, each of which may meet a fault.
fn stream(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 60, mft_runs: 2, big_mft: 0, ..Default::default() });
    let name: Vec<u16> = if src.bool() { vec![] } else { gen_name(src, 1, 8) };
    let mut attrs = vec![vol.std_attr(src)];
    let max_runs = *src.pick(&[8u64, 20, 60]);
    attrs.push(gen_non(src, &mut vol, T_DATA, &name, max_runs, false));
    if src.chance(30) {
        attrs.push(gen_non(src, &mut vol, T_DATA, &utf16("zz#zz"), 4, false));
    }
    let f = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    let a = f.attrs[1].clone();
    ctx.describe(|| format!("{}; {}", desc_geo(&vol.geo), desc_attr(&a)));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, f.rec).okay("Ntfs::file")?;
    let item = find_item(&file, &mut dev, T_DATA, &name, 0)?;
    let attr = item.to_attribute().okay("to_attribute")?;
    let v = attr.value(&mut dev).okay("value")?;
    let body = &a.a.body;
    if let (NtfsAttributeValue::NonResident(nr), Body::Non(s), true) = (&v, body, src.chance(20)) {
        if !s.runs.is_empty() {
            let k = src.usize(0, s.runs.len() - 1);
            let one = Stream { cluster: s.cluster, runs: vec![s.runs[k].clone()], data: s.runs[k].len * s.cluster, init: s.runs[k].len * s.cluster };
            let mut r = nr.data_runs().nth(k).okay("data_runs().nth")?;
            ctx.label("single data run under faults");
            return torture(src, ctx, &mut r, &mut dev, &vol.disk, &Body::Non(one));
        }
    }
    let mut v = v;
    ctx.label_if(matches!(v, NtfsAttributeValue::AttributeListNonResident(_)), "connected value under faults");
    torture(src, ctx, &mut v, &mut dev, &vol.disk, body)
}
fn torture<V: NtfsReadSeek>(src: &mut Src, ctx: &mut Ctx, v: &mut V, dev: &mut Dev, disk: &Disk, body: &Body) -> R {
    let len = body.len();
    let marks = landmarks(body);
    let mut pos = 0u64;
    let mut failed = 0;
    let n = src.range(3, 40);
    for _ in 0..n {
        dev.faults.clear();
        dev.fault_idx = 0;
        dev.cut = u64::MAX;
        dev.seek_faults = src.chance(40);
        let soft = match src.weighted(&[4, 6, 2, 1]) {
            0 => true,
            1 => {
                let k = src.size(0, 6) as usize;
                dev.faults = vec![Fault::None; k];
                let m = src.range(1, 3);
                for _ in 0..m {
                    let f = match src.below(4) {
                        0 | 1 => Fault::Error,
                        2 => Fault::Eof,
                        _ => Fault::Interrupted,
                    };
                    dev.faults.push(f);
                }
                false
            }
            2 => {
                for _ in 0..60 {
                    dev.faults.push(Fault::Short(src.size(1, 900) as usize));
                }
                true
            }
            _ => {
                dev.cut = src.size(0, disk.len);
                false
            }
        };
        let hits = dev.faults_hit;
        match src.weighted(&[6, 3, 1]) {
            0 => {
                let n = match src.below(3) {
                    0 => src.size(1, 3000),
                    1 => src.size(1, 100_000),
                    _ => {
                        let next = marks.iter().find(|x| **x > pos).copied().unwrap_or(pos);
                        (next.saturating_sub(pos) + src.below(3)).clamp(1, 1 << 18)
                    }
                };
                let mut buf = vec![0xCC; n as usize];
                match v.read(dev, &mut buf) {
                    Ok(g) => {
                        let left = len.saturating_sub(pos);
                        ck!(g as u64 <= n.min(left), "read-count", "read of {n} bytes at {pos} of {len} returned {g}");
                        ck!(g > 0 || left == 0, "premature-end", "read of {n} bytes at {pos} of {len} returned nothing (fault hit: {})", dev.faults_hit > hits);
                        let want = body.content(disk, pos, g as u64);
                        cmp_bytes("read-bytes", "read", pos, &buf[..g], &want)?;
                        ctx.label_if(!soft && dev.faults_hit > hits, "bytes before a fault");
                        pos += g as u64;
                        ck!(v.stream_position() == pos, "position", "position {} after a read up to {pos}", v.stream_position());
                    }
                    Err(e) => {
                        ck!(!soft, "error-without-fault", "read of {n} bytes at {pos} of {len} failed: {e}");
                        let p = v.stream_position();
                        ck!(p == pos, "bytes-lost", "position {p} after a failed read at {pos}");
                        failed += 1;
                    }
                }
            }
            1 => {
                let t = src.pick(&marks).saturating_add(src.size(0, 3000)).saturating_sub(src.size(0, 3000));
                let p = match src.below(3) {
                    0 => SeekFrom::Start(t),
                    1 => SeekFrom::Current(t as i64 - pos as i64),
                    _ => SeekFrom::End(t as i64 - len as i64),
                };
                match v.seek(dev, p) {
                    Ok(g) => {
                        ck!(g == t, "seek-result", "seek {p:?} from {pos} reports {g}");
                        pos = t;
                    }
                    Err(e) => {
                        ck!(!soft, "error-without-fault", "seek {p:?} from {pos} failed: {e}");
                        pos = v.stream_position();
                        failed += 1;
                        ctx.label("failed seek");
                    }
                }
                ck!(v.stream_position() == pos, "position", "position {} after a seek to {pos}", v.stream_position());
            }
            _ => {
                let n = src.size(1, 6000).min(len.saturating_sub(pos));
                let mut buf = vec![0xCC; n as usize];
                match v.read_exact(dev, &mut buf) {
                    Ok(()) => {
                        cmp_bytes("read-exact-bytes", "read_exact", pos, &buf, &body.content(disk, pos, n))?;
                        pos += n;
                    }
                    Err(e) => {
                        ck!(!soft, "error-without-fault", "read_exact of {n} bytes at {pos} of {len} failed: {e}");
                        // Some of the bytes were delivered; the position says how many.
                        let p = v.stream_position();
                        ck!(p >= pos && p <= pos + n, "position", "position {p} after a failed read_exact of {n} bytes at {pos}");
                        cmp_bytes("read-exact-bytes", "failed read_exact", pos, &buf[..(p - pos) as usize], &body.content(disk, pos, p - pos))?;
                        pos = p;
                        failed += 1;
                    }
                }
                ck!(v.stream_position() == pos, "position", "position {} instead of {pos}", v.stream_position());
            }
        }
    }
    ctx.nontrivial |= failed > 0;
    ctx.label_if(failed > 0, "cursor went on after errors");
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(50) {
        return stream(src, ctx);
    }
    let w = gen_world(src, false);
    let disk = &w.vol.disk;
    ctx.describe(|| w.describe());
    let mut dev = disk.reader();
    let mut ntfs = open(&mut dev)?;
    if w.up {
        ntfs.read_upcase_table(&mut dev).okay("read_upcase_table")?;
    }
    let nq = src.range(2, 8);
    for _ in 0..nq {
        let q = gen_q(src, &w);
        let c0 = dev.fault_idx;
        let truth = run(&q, &ntfs, &mut dev, false);
        let calls = (dev.fault_idx - c0) as u64;
        let what = format!("{q:?}");
        // Truncated device: everything from some offset on is missing.
        let cut = if src.chance(20) {
            match src.below(3) {
                0 => src.size(0, disk.len),
                1 => {
                    let k = src.below(disk.blobs.len() as u64) as usize;
                    let (p, b) = disk.blobs.iter().nth(k).unwrap();
                    p + src.below(b.len() as u64 + 1)
                }
                _ => disk.len - src.below(20_000).min(disk.len),
            }
        } else {
            u64::MAX
        };
        let faults = if cut == u64::MAX || src.bool() { gen_faults(src, calls) } else { vec![] };
        let go_on = src.bool();
        let seek_faults = src.chance(30);
        let mut d2 = Dev::new(disk);
        d2.cut = cut;
        d2.faults = faults.clone();
        d2.seek_faults = seek_faults;
        d2.pos = src.size(0, 1 << 20);
        let got = run(&q, &ntfs, &mut d2, go_on);
        let hit = d2.faults_hit > 0 || cut != u64::MAX;
        ctx.nontrivial |= d2.faults_hit > 0;
        ctx.describe(|| format!("{what} faults {:?}{} cut {cut}", faults.iter().enumerate().filter(|f| *f.1 != Fault::None).take(6).collect::<Vec<_>>(), if seek_faults { " (seeks too)" } else { "" }));
        let soft = cut == u64::MAX && faults.iter().all(|f| matches!(f, Fault::None | Fault::Short(_)));
        if !hit || soft {
            let same = got.err == truth.err && got.bytes == truth.bytes && got.items.iter().filter(|x| *x != "(error)").eq(truth.items.iter());
            ck!(same, "short-read-result", "{what}: with {} the result is {got:?}, expected {truth:?}", if hit { "short reads" } else { "no fault" });
            ctx.label_if(hit, "short reads only");
        }
        match &got.err {
            None => {
                ck!(got == truth, "wrong-result", "{what}: the reader failed, but the operation reports success with {} instead of {}", brief(&got, &truth), brief(&truth, &got));
                ctx.label_if(hit && !soft, "right result despite a fault");
            }
            Some(_) => {
                ctx.label_if(truth.err.is_none(), "error reported");
                // Everything before the error is right.
                let n = got.items.iter().position(|x| x == "(error)").unwrap_or(got.items.len());
                let head = &got.items[..n];
                ck!(head == &truth.items[..n.min(truth.items.len())], "wrong-before-error", "{what}: before the error: {head:?}, expected {:?}", truth.items);
                ck!(prefix(&got.bytes, &truth.bytes), "wrong-bytes", "{what}: {} bytes around an error differ from the {} right ones at {}", got.bytes.len(), truth.bytes.len(), diff_at(&got.bytes, &truth.bytes));
                if go_on && n < got.items.len() {
                    ctx.label("continued after an error");
                    ck!(subsequence(&got.items, &truth.items), "wrong-after-error", "{what}: after the error: {:?}, expected {:?}", got.items, truth.items);
                    if cut == u64::MAX && matches!(q, Q::Records(_) | Q::ListEntries(_)) {
                        // These iterators meet the same record or entry again.
                        let g = got.items.iter().filter(|x| *x != "(error)").collect::<Vec<_>>();
                        ck!(g.iter().copied().eq(truth.items.iter().take(g.len())), "skipped-after-error", "{what}: after the error: {:?}, expected {:?}", got.items, truth.items);
                        ctx.label(if matches!(q, Q::Records(_)) { "records continued" } else { "list entries continued" });
                    }
                    let value = matches!(q, Q::Value { .. } | Q::RunBytes { .. });
                    if value && cut == u64::MAX && got.items.iter().filter(|x| *x == "(error)").count() <= 3 {
                        ctx.label("value continued after an error");
                        ck!(got.bytes == truth.bytes, "bytes-lost", "{what}: {} bytes after going on, expected {}", got.bytes.len(), truth.bytes.len());
                    }
                }
            }
        }
        // Once more with the working reader, through the same objects.
        d2.faults.clear();
        d2.cut = u64::MAX;
        let again = run(&q, &ntfs, &mut d2, false);
        ck!(again == truth, "after-fault", "{what}: repeated with a working reader: {}, expected {}", brief(&again, &truth), brief(&truth, &again));
    }
    // The table, read by the same object again after a failure.
    if w.up && src.chance(50) {
        let truth = run(&Q::Upcase, &ntfs, &mut dev, false);
        let mut d2 = Dev::new(disk);
        let mut n2 = open(&mut d2)?;
        d2.faults = gen_faults(src, 20);
        if n2.read_upcase_table(&mut d2).is_err() {
            ctx.label("table re-read after a failure");
        }
        d2.faults.clear();
        n2.read_upcase_table(&mut d2).okay("read_upcase_table after a failed one")?;
        let t = table_print(&n2);
        ck!(truth.items == [t.clone()], "table", "the table read after a failure differs: {t} {truth:?}");
    }
    Ok(())
}
fn brief(o: &Out, other: &Out) -> String {
    let i = o.items.iter().zip(&other.items).position(|(a, b)| a != b).unwrap_or(o.items.len().min(other.items.len()));
    format!("{} items, differing from #{i} {:?}, {} bytes (differing at {}), error {:?}", o.items.len(), o.items.get(i), o.bytes.len(), diff_at(&o.bytes, &other.bytes), o.err)
}
