//! C18: data run lists decode exactly; invalid runs are refused for good.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::NtfsReadSeek;
use std::io::SeekFrom;

pub static PROP: Prop = Prop {
    id: "C18",
    f: prop,
    quick: 2_500_000,
    thorough: 400_000_000,
    rule: "a case is a mapping-pairs byte string (built from generated runs of every field width, optionally followed by one of eight kinds of invalid run and by more runs, or mutated, or random) with an end marker or ending with the attribute, for any cluster size; data_runs() is compared run by run with an independent 128-bit decoder, the error behind the last good run is asked for again and again, and the bytes of the value around the runs' boundaries are compared. Non-trivial: at least two runs are decoded, or a run is refused.",
    directed: &[],
};

/// Independent decoder: runs as (position or sparse, byte length), and whether the list then ends or is invalid.
fn decode(b: &[u8], cluster: u64) -> (Vec<(Option<u64>, u64)>, bool, usize) {
    let lim = 1i128 << 64;
    let mut out = vec![];
    let mut o = 0;
    let mut lcn = 0i128;
    loop {
        if o >= b.len() || b[o] == 0 {
            return (out, true, o);
        }
        let (wl, wo) = ((b[o] & 15) as usize, (b[o] >> 4) as usize);
        if wl > 8 || wo > 8 || o + 1 + wl + wo > b.len() {
            return (out, false, o);
        }
        let mut len = 0i128;
        for k in (0..wl).rev() {
            len = len << 8 | b[o + 1 + k] as i128;
        }
        let bytes = len * cluster as i128;
        if len == 0 || bytes >= lim {
            return (out, false, o);
        }
        let mut pos = None;
        if wo > 0 {
            let f = &b[o + 1 + wl..o + 1 + wl + wo];
            let mut d = if f[wo - 1] & 0x80 != 0 { -1i128 } else { 0 };
            for k in (0..wo).rev() {
                d = d << 8 | f[k] as i128;
            }
            let l = lcn + d;
            if l < 0 || (l + len) * cluster as i128 >= lim {
                return (out, false, o);
            }
            lcn = l;
            pos = Some((l * cluster as i128) as u64);
        }
        out.push((pos, bytes as u64));
        o += 1 + wl + wo;
    }
}

fn uwidth(x: u64) -> usize {
    ((64 - x.leading_zeros() as usize) + 7) / 8
}
fn put(out: &mut Vec<u8>, len: u64, wl: usize, d: i64, wo: usize) {
    out.push((wo as u8) << 4 | wl as u8);
    out.extend(&len.to_le_bytes()[..wl]);
    out.extend(&d.to_le_bytes()[..wo]);
}
fn width(src: &mut Src, min: usize) -> usize {
    if src.chance(70) { min.max(1) } else { src.usize(min.max(1), 8) }
}
/// Largest cluster number that is still representable, exclusive.
fn lcn_end(cluster: u64) -> u64 {
    ((1u128 << 64) / cluster as u128) as u64
}

struct Made {
    bytes: Vec<u8>,
    runs: Vec<(Option<u64>, u64)>,
    bad: Option<&'static str>,
}
fn gen_list(src: &mut Src, cluster: u64, cap: usize) -> Made {
    let end = lcn_end(cluster);
    let mut bytes = vec![];
    let mut runs = vec![];
    let mut lcn = 0u64;
    let n = src.size(0, 60);
    let wild = *src.pick(&[10u64, 0, 60]);
    for _ in 0..n {
        if bytes.len() + 17 > cap {
            break;
        }
        let len = if src.chance(wild) { src.interesting(64) % (end - 1) + 1 } else { 1 + src.size(0, 300) };
        let wl = { let m = uwidth(len); width(src, m) };
        if src.chance(20) {
            put(&mut bytes, len, wl, 0, 0);
            runs.push((None, len * cluster));
            continue;
        }
        // The run must end below the limit: end - 1 at most (position + length is representable).
        let top = end - 1 - len.min(end - 1);
        let len = len.min(end - 1);
        let to = match src.weighted(&[5, 2, 2, 1, 1]) {
            0 => (lcn.saturating_add(src.size(0, 5000)).saturating_sub(src.size(0, 5000))).min(top),
            1 => lcn.min(top),
            2 => src.interesting(64).min(top),
            3 => top - src.below(3).min(top),
            _ => src.below(3).min(top),
        };
        // Deltas are signed 64-bit numbers; cluster numbers never exceed 55 bits.
        let d = to as i64 - lcn as i64;
        let wo = { let m = ibytes(d); width(src, m) };
        put(&mut bytes, len, wl, d, wo);
        runs.push((Some(to * cluster), len * cluster));
        lcn = to;
    }
    let mut bad = None;
    if src.chance(45) && bytes.len() + 32 < cap {
        let b = &mut bytes;
        let len = 1 + src.below(300);
        let wl = { let m = uwidth(len); width(src, m) };
        bad = Some(match src.below(9) {
            0 => {
                let (wl, wo) = (src.usize(0, 8), src.usize(0, 8));
                let wo = if wl == 0 { wo.max(1) } else { wo };
                put(b, 0, wl, 1, wo);
                "zero length"
            }
            1 => {
                b.push((src.below(9) as u8) << 4 | src.range(9, 15) as u8);
                b.extend(1..25u8);
                "length field too wide"
            }
            2 => {
                b.push((src.range(9, 15) as u8) << 4 | src.range(1, 8) as u8);
                b.extend(1..25u8);
                "offset field too wide"
            }
            3 => {
                // Cut off by the end of the attribute.
                let (wl, wo) = (src.usize(1, 8), src.usize(0, 8));
                let mut t = vec![];
                put(&mut t, 1, wl, 1, wo);
                t.truncate(src.usize(1, wl + wo));
                b.extend(&t);
                return Made { bytes, runs, bad: Some("cut off by the end") };
            }
            4 => {
                let x = end.saturating_add(src.interesting(64) % (u64::MAX - end));
                put(b, x, uwidth(x), 0, 0);
                "length not representable"
            }
            5 => {
                let neg = -(lcn as i64) - 1 - src.size(0, 1 << 40) as i64;
                put(b, len, wl, neg, ibytes(neg));
                "negative cluster number"
            }
            6 => {
                let room = i64::MAX as u64 - end;
                let to = end + src.interesting(63) % room.max(1);
                let d = (to as i64).saturating_sub(lcn as i64);
                if (lcn as i128 + d as i128) < end as i128 {
                    put(b, 0, 1, 1, 1);
                    "zero length"
                } else {
                    put(b, len, wl, d, ibytes(d));
                    "cluster number too large"
                }
            }
            7 => {
                // The last cluster(s): start representable, end not.
                let to = end - 1 - src.below(len);
                let d = to as i64 - lcn as i64;
                put(b, len, wl, d, ibytes(d));
                "end not representable"
            }
            _ => {
                let d = *src.pick(&[i64::MIN, i64::MIN + 1, -(lcn as i64) - 1]);
                put(b, len, wl, d, 8);
                "negative cluster number"
            }
        });
        // Something that looks fine must not be reached.
        if src.bool() {
            put(&mut bytes, 2, 1, 5, 1);
        }
    }
    Made { bytes, runs, bad }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 24, mft_runs: 1, big_mft: 0, max_frs: 4096, ..Default::default() });
    let cluster = vol.cluster();
    let in_list = src.chance(25);
    let cap = vol.cap() - 80 - 72 - 72 - if in_list { 48 } else { 0 } - 40;
    let mode = src.weighted(&[7, 2, 1]);
    let mut made = gen_list(src, cluster, cap);
    let mut flush = made.bad == Some("cut off by the end");
    if !flush {
        if src.chance(25) {
            flush = true;
        } else {
            made.bytes.push(0);
            let n = src.size(0, 24) as usize;
            let j = junk(src, n);
            made.bytes.extend(j);
        }
    }
    match mode {
        0 => {}
        1 => {
            for _ in 0..src.range(1, 3) {
                if !made.bytes.is_empty() {
                    let i = src.usize(0, made.bytes.len() - 1);
                    made.bytes[i] = match src.below(3) {
                        0 => src.below(256) as u8,
                        1 => made.bytes[i] ^ 1 << src.below(8),
                        _ => *src.pick(&[0u8, 0x11, 0x80, 0xFF, 0x18, 0x81, 0x88, 0x89, 0x98]),
                    };
                }
            }
        }
        _ => {
            let n = src.size(0, cap as u64) as usize;
            made.bytes = (0..n)
                .map(|_| match src.below(3) {
                    0 => (src.below(9) << 4 | src.below(9)) as u8,
                    1 => src.below(3) as u8,
                    _ => src.below(256) as u8,
                })
                .collect();
        }
    }
    made.bytes.truncate(cap);
    let mut bytes = made.bytes.clone();
    if !flush {
        // The builder pads the attribute with zeros, which a reader sees as well.
        while bytes.len() % 8 != 0 {
            bytes.push(0);
        }
    }
    let (runs, good_end, _) = decode(&bytes, cluster);
    if mode == 0 {
        // The generator and the oracle must agree on what was built.
        ck!(runs == made.runs, "HARNESS-runs", "oracle {runs:?} built {:?} bytes {:x?}", made.runs, bytes);
        ck!(good_end == made.bad.is_none(), "HARNESS-end", "oracle end {good_end} built {:?} bytes {:x?}", made.bad, bytes);
        if let Some(b) = made.bad {
            ctx.label(b);
        }
    } else {
        ctx.label(if mode == 1 { "mutated list" } else { "random list" });
    }
    // Sizes: a bit more than what the good runs hold, so that the invalid run is needed.
    let total: u128 = runs.iter().map(|r| r.1 as u128).sum();
    let small = total < 1 << 62;
    let data = if small { total as u64 + if good_end { 0 } else { src.range(1, 5000) } } else { 1 << 62 };
    let s = Stream { cluster, runs: vec![], data, init: data };
    let mut a = Attr::non(T_DATA, &[], s);
    a.raw = Some((made.bytes.clone(), flush));
    let std = vol.std_attr(src);
    let rec = vol.new_rec(src);
    let f = vol.add_file(src, FileSpec { rec, seq: 1, links: 1, flags: 1, attrs: vec![std, a], list_pct: if in_list { 100 } else { 0 }, list_non_pct: 30, stay_pct: if in_list { 0 } else { 100 } });
    vol.finish(src);
    vol.disk.len = u64::MAX;
    ctx.describe(|| format!("cluster {cluster} list {:02x?}{} => {} runs, {}", &made.bytes[..made.bytes.len().min(60)], if flush { " (end of attribute)" } else { "" }, runs.len(), if good_end { "end" } else { "invalid" }));
    ctx.nontrivial = runs.len() > 1 || !good_end;
    ctx.label_if(flush && good_end, "no end marker");
    ctx.label_if(runs.iter().any(|r| r.0.is_none()), "sparse run");
    ctx.label_if(runs.windows(2).any(|w| w[0].0.is_some() && w[0].0 == w[1].0), "zero delta");
    ctx.label_if(runs.windows(2).any(|w| matches!((w[0].0, w[1].0), (Some(a), Some(b)) if b < a)), "negative delta");
    ctx.label_if(runs.iter().any(|r| r.0 == Some(0)), "cluster 0");
    ctx.label_if(runs.is_empty() && good_end, "empty list");
    ctx.label_if(runs.is_empty() && !good_end, "first run invalid");
    ctx.label_if(f.list != ListKind::None, "in an extension record");

    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, f.rec).okay("Ntfs::file")?;
    let item = find_item(&file, &mut dev, T_DATA, &[], 0)?;
    let attr = item.to_attribute().okay("to_attribute")?;
    let v = attr.value(&mut dev);
    if runs.is_empty() && !good_end {
        if let Ok(mut v) = v {
            // Refusing later is fine as well, but no data may come out.
            let mut b = [0u8; 64];
            for _ in 0..3 {
                if let Ok(n) = v.read(&mut dev, &mut b) {
                    fail!("invalid-run-read", "{n} bytes were read although the first run is invalid");
                }
            }
        }
        for _ in 0..2 {
            if attr.value(&mut dev).is_ok() && !in_list {
                // The run iterator must tell.
                if let Ok(NtfsAttributeValue::NonResident(v)) = attr.value(&mut dev) {
                    let r = v.data_runs().next();
                    ck!(matches!(r, Some(Err(_))), "invalid-run-accepted", "first run is invalid, but data_runs() yields {r:?}");
                }
            }
        }
        return Ok(());
    }
    let mut v = v.okay("value")?;
    if let NtfsAttributeValue::NonResident(nr) = &v {
        let mut it = nr.data_runs();
        for (i, w) in runs.iter().enumerate() {
            let r = it.next();
            let Some(Ok(mut r)) = r else {
                fail!("run-missing", "run {i} of {} is {w:?}, but the iterator yields {r:?}", runs.len());
            };
            ck!(r.allocated_size() == w.1, "run-length", "run {i}: {} bytes, expected {}", r.allocated_size(), w.1);
            run_position(&mut r, *w, &mut dev, i)?;
            if i == runs.len() / 2 {
                // A clone goes on in the same way.
                let rest = it.clone().take_while(|r| r.is_ok()).take(runs.len() + 1).count();
                {
                    ck!(rest == runs.len() - i - 1, "run-clone", "a clone after run {i} yields {rest} more runs, expected {}", runs.len() - i - 1);
                }
            }
        }
        for k in 0..3 {
            match (it.next(), good_end) {
                (None, true) | (Some(Err(_)), false) => {}
                (Some(Ok(r)), _) => fail!("run-extra", "after {} runs another one appears: {r:?} (try {k})", runs.len()),
                (None, false) => fail!("invalid-run-skipped", "the invalid run after {} runs looks like the end of the list (try {k})", runs.len()),
                (Some(Err(e)), true) => fail!("run-end-error", "error instead of the end of the list after {} runs: {e}", runs.len()),
            }
        }
    }
    // The value's bytes around the boundaries.
    if !small {
        ctx.label("too large to seek");
        return Ok(());
    }
    let model = Stream { cluster, runs: runs.iter().map(|r| Run { lcn: r.0.map(|p| p / cluster), len: r.1 / cluster }).collect(), data: total as u64, init: data };
    let body = Body::Non(model);
    let marks = landmarks(&body);
    let n = src.range(1, 4);
    for _ in 0..n {
        let m = *src.pick(&marks);
        let off = m.saturating_sub(src.size(0, 600)).saturating_add(src.below(3)).min(total as u64);
        let n = src.size(1, 2000);
        match v.seek(&mut dev, SeekFrom::Start(off)) {
            Ok(p) => ck!(p == off, "seek-result", "seek to {off} reports {p}"),
            // A seek to the very end of the good runs may already meet the invalid one.
            Err(e) => {
                ck!(!good_end && off == total as u64, "seek-error", "seek to {off} of {total}: {e}");
                continue;
            }
        }
        let want = body.content(&vol.disk, off, n);
        let mut buf = vec![0xCC; n as usize];
        let mut k = 0;
        while k < want.len() {
            let g = v.read(&mut dev, &mut buf[k..]).okay("read")?;
            if g == 0 {
                break;
            }
            k += g;
        }
        cmp_bytes("content", "value", off, &buf[..k.min(want.len())], &want)?;
        ck!(k == want.len(), "read-beyond", "{k} bytes read at {off}, but only {} are mapped", want.len());
        if off + n > total as u64 && !good_end {
            for _ in 0..3 {
                match v.read(&mut dev, &mut buf[..1]) {
                    Err(_) => {}
                    Ok(g) => fail!("invalid-run-read", "read behind the last good run returns {g} instead of an error"),
                }
            }
            ck!(v.stream_position() == total as u64, "position", "position {} after the failed read, expected {total}", v.stream_position());
            ctx.label("read up to the invalid run");
            match v.seek(&mut dev, SeekFrom::Start(total as u64 + 1)) {
                Err(_) => ck!(v.stream_position() == total as u64, "position", "position {} after the failed seek, expected {total}", v.stream_position()),
                Ok(p) => {
                    let r = v.read(&mut dev, &mut buf[..1]);
                    ck!(!matches!(r, Ok(g) if g > 0), "invalid-run-read", "read at {p} behind an invalid run succeeds");
                }
            }
        }
    }
    Ok(())
}

fn run_position(r: &mut ntfs::attribute_value::NtfsDataRun, w: (Option<u64>, u64), dev: &mut Dev, i: usize) -> R {
    match w.0 {
        None => {
            ck!(r.data_position().value().is_none(), "sparse-position", "sparse run {i} has position {}", r.data_position());
        }
        Some(p) => {
            let got = r.data_position().value().map(|x| x.get()).unwrap_or(0);
            ck!(got == p, "run-position", "run {i}: position {got} expected {p}");
            r.seek(dev, SeekFrom::Start(1)).okay("run seek")?;
            let got = r.data_position().value().map(|x| x.get());
            ck!(got == Some(p + 1), "run-position", "run {i}: position {got:?} expected {}", p + 1);
        }
    }
    Ok(())
}
