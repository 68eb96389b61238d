//! C16: malformed structures are refused and expose nothing outside their bounds.
use super::Prop;
use crate::api::*;
use crate::disk::{Dev, Disk};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::{NtfsFileNameIndex, NtfsIndexEntryData, NtfsIndexEntryHasData, NtfsIndexEntryKey, NtfsIndexEntryType};
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::{NtfsAttribute, NtfsAttributeType, NtfsError, NtfsFile, NtfsIndexNodeEntries, NtfsReadSeek};

pub static PROP: Prop = Prop {
    id: "C16",
    f: prop,
    quick: 1_600_000,
    thorough: 40_000_000,
    rule: "a case is a valid generated file or directory in which one declared length, offset or reference is replaced by a value that reaches (often just) outside its container, or that exactly fills it; what the API then yields is compared with the model: an error in the first case, the exact contents in the second, and nothing from outside in both. Non-trivial: a violating change.",
    directed: &[],
};

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    if src.chance(55) {
        attributes(src, ctx)
    } else {
        index(src, ctx)
    }
}

/// A value above `limit` (at most `max`): just above, far, or one whose low bits alone are within the limit.
fn above(src: &mut Src, limit: u64, max: u64) -> u64 {
    if limit >= max {
        std::panic::panic_any(Overrun);
    }
    let span = max - limit;
    let bits: Vec<u32> = [8, 16, 32].into_iter().filter(|&b| limit < 1 << b && max >= 1 << b).collect();
    if !bits.is_empty() && src.chance(25) {
        let b = *src.pick(&bits);
        // Such a value is taken for a valid one by whoever looks at its low bits only.
        let low = match src.below(4) {
            0 => limit,
            1 => 0,
            2 => src.below(limit / 8 + 1) * 8,
            _ => src.below(limit + 1),
        };
        let high = max >> b;
        let high = if src.bool() { 1 + src.below(high.min(4)) } else { 1 + src.below(high) };
        let v = (high << b) | low;
        if v > limit && v <= max {
            return v;
        }
    }
    limit + match src.below(4) {
        0 | 1 => 1 + src.below(span.min(9)),
        2 => src.size(1, span),
        _ => span - src.below(span.min(9)),
    }
}

/// Identity of an attribute that must not be exposed: nothing at this position may be returned.
fn pos_of(a: &NtfsAttribute) -> u64 {
    a.position().value().map(|p| p.get()).unwrap_or(0)
}

fn check_raw(a: &NtfsAttribute, m: &RawAttr) -> R {
    let ty = a.ty().okay("ty")? as u32;
    let nm = units(&a.name().okay("name")?);
    ck!(
        ty == m.ty && nm == m.name && a.instance() == m.inst && a.is_resident() == m.resident && a.value_length() == m.len,
        "raw-attribute",
        "attribute {ty:#x}:{} instance {} length {}, stored is {:#x}:{} instance {} length {}",
        show(&nm),
        a.instance(),
        a.value_length(),
        m.ty,
        show(&m.name),
        m.inst,
        m.len
    );
    Ok(())
}

/// Everything the flattened enumeration of `file` yields must be true; returns whether an error occurred.
fn flat_true(f: &NtfsFile, dev: &mut Dev, disk: &Disk, model: &FileM, values: bool, what: &str) -> Result<bool, Fail> {
    let mut it = f.attributes();
    let mut n = 0;
    while let Some(i) = it.next(dev) {
        let Ok(i) = i else { return Ok(true) };
        n += 1;
        ck!(n < 20_000, "endless-attributes", "attribute enumeration does not end");
        let Ok(a) = i.to_attribute() else { return Ok(true) };
        let (Ok(ty), Ok(nm)) = (a.ty(), a.name()) else { return Ok(true) };
        let nm = units(&nm);
        let cands: Vec<&LAttr> = model.attrs.iter().filter(|l| l.a.ty == ty as u32 && l.a.name == nm && l.pieces[0].inst == a.instance()).collect();
        ck!(!cands.is_empty(), "untrue-attribute", "{what}: the file has no attribute {:#x}:{} of instance {}", ty as u32, show(&nm), a.instance());
        if !values {
            continue;
        }
        let Ok(mut v) = a.value(dev) else { continue };
        let mut buf = vec![0xCC; 3000];
        let mut k = 0;
        let mut failed = false;
        while k < buf.len() {
            match v.read(dev, &mut buf[k..]) {
                Ok(0) => break,
                Ok(g) => k += g,
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        let ok = cands.iter().any(|l| {
            let w = l.a.body.content(disk, 0, buf.len() as u64);
            if failed { w.starts_with(&buf[..k]) } else { w == buf[..k] }
        });
        ck!(ok, "untrue-content", "{what}: attribute {:#x}:{} yields {k} bytes{} that it does not have", ty as u32, show(&nm), if failed { " before an error" } else { "" });
    }
    Ok(false)
}

enum Want {
    /// The record is refused.
    NoFile,
    /// Attributes 0..k are as stored, then comes an error.
    ErrorAt(usize),
    /// Attributes 0..k are as stored, then an error or the end.
    NothingFrom(usize),
    /// Attributes 0..k are as stored, then the end.
    EndAt(usize),
    /// Attribute k has no valid name.
    BadName(usize),
    /// Attribute k has this name.
    Name(usize, Vec<u16>),
    /// Attribute k has no valid value.
    BadValue(usize),
    /// Attribute k is resident with these bytes.
    Value(usize, Vec<u8>),
    /// Attribute k is non-resident; its runs are these, then comes an error or the end.
    Runs(usize, Vec<(u64, u64)>, bool),
    /// The list yields the first n entries, then an error.
    ListErrorAt(usize),
    /// The list yields the first n entries (the last with this name), then the end.
    ListEndAt(usize, Option<Vec<u16>>),
}

fn attributes(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, big_mft: 3, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let ao = AttrsOpts { max_runs: 8, huge: false, max_named: 2, types: true };
    let attrs = gen_attrs(src, &mut vol, &ao);
    if attrs.is_empty() {
        std::panic::panic_any(Overrun);
    }
    let file = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    let frs = vol.geo.frs;
    let on_list = file.list != ListKind::None && src.chance(35);
    let (rec, raws) = if on_list { file.raw[0].clone() } else { src.pick(&file.raw).clone() };
    if raws.is_empty() {
        return Ok(());
    }
    let mut rb = vol.rec_bytes(rec);
    let usa_off = g16(&rb, 4) as usize;
    let used = g32(&rb, 24) as usize;
    let usn = 1 + src.below(0xFFFF) as u16;
    let mut usa: Option<(u16, u16)> = None;
    let k;
    let what: String;
    let want;
    if on_list {
        k = raws.iter().position(|r| r.ty == T_LIST).unwrap();
        let at = raws[k].off;
        let entries = &file.list_entries;
        let lens: Vec<usize> = entries.iter().map(|e| align8(26 + 2 * e.name.len()) + file.list_pad).collect();
        let total: usize = lens.iter().sum();
        let e = src.usize(0, entries.len() - 1);
        let start: usize = lens[..e].iter().sum();
        let left = total - start;
        let mut patch: Vec<(usize, Vec<u8>)> = vec![];
        let mut cut = None;
        match src.below(7) {
            0 => {
                let v = above(src, left as u64, 0xFFFF) as u16;
                patch.push((start + 4, v.to_le_bytes().to_vec()));
                what = format!("list entry {e} with length {v}, {left} bytes left");
                want = Want::ListErrorAt(e);
            }
            1 => {
                let need = 26 + 2 * entries[e].name.len() as u64;
                let v = src.below(need) as u16;
                patch.push((start + 4, v.to_le_bytes().to_vec()));
                what = format!("list entry {e} with length {v}, needs {need}");
                want = Want::ListErrorAt(e);
            }
            2 => {
                let fit = (lens[e] - 26) / 2;
                let n = above(src, fit as u64, 255) as u8;
                patch.push((start + 6, vec![n]));
                what = format!("list entry {e} of length {} with a name of {n} units", lens[e]);
                want = Want::ListErrorAt(e);
            }
            3 => {
                // Cut within the entry.
                let c = 1 + src.below(lens[e] as u64 - 1) as usize;
                cut = Some(start + c);
                what = format!("list cut {c} bytes into entry {e}");
                want = Want::ListErrorAt(e);
            }
            4 => {
                cut = Some(start + lens[e]);
                what = format!("list ends behind entry {e}");
                want = Want::ListEndAt(e + 1, None);
            }
            5 => {
                // Exactly header and name, and the list ends there.
                let need = 26 + 2 * entries[e].name.len();
                patch.push((start + 4, (need as u16).to_le_bytes().to_vec()));
                cut = Some(start + need);
                what = format!("list ends with entry {e} of length {need}");
                want = Want::ListEndAt(e + 1, None);
            }
            _ => {
                // The name fills the last entry.
                let e = entries.len() - 1;
                let start = total - lens[e];
                let n = ((lens[e] - 26) / 2).min(255);
                patch.push((start + 6, vec![n as u8]));
                let mut nm = entries[e].name.clone();
                nm.resize(n, 0);
                what = format!("list entry {e} of length {} with a name of {n} units", lens[e]);
                want = Want::ListEndAt(entries.len(), Some(nm));
            }
        }
        match &file.list_stream {
            None => {
                let vo = at + g16(&rb, at + 20) as usize;
                for (o, b) in patch {
                    rb[vo + o..vo + o + b.len()].copy_from_slice(&b);
                }
                if let Some(c) = cut {
                    p32(&mut rb, at + 16, c as u32);
                }
            }
            Some(s) => {
                for (o, b) in patch {
                    s.store(&mut vol.disk, o as u64, &b);
                }
                if let Some(c) = cut {
                    p64(&mut rb, at + 48, c as u64);
                    p64(&mut rb, at + 56, c as u64);
                }
            }
        }
    } else {
        k = src.usize(0, raws.len() - 1);
        let r = &raws[k];
        let at = r.off;
        let size = r.size as u64;
        let left = used - at;
        match src.below(16) {
            0 => {
                let v = above(src, left as u64, 0xFFFF_FFFF) as u32;
                p32(&mut rb, at + 4, v);
                what = format!("attribute {k} of length {v}, {left} bytes left");
                want = Want::ErrorAt(k);
            }
            1 => {
                // (The 24th byte of a resident header is padding.)
                let v = src.below(if r.resident { 23 } else { 64 }) as u32;
                p32(&mut rb, at + 4, v);
                what = format!("attribute {k} of length {v}");
                want = Want::ErrorAt(k);
            }
            2 => {
                p32(&mut rb, at + 4, left as u32);
                what = format!("attribute {k} of length {left} up to the end");
                want = Want::EndAt(k + 1);
            }
            3 => {
                let c = 1 + src.below(size - 1) as u32;
                p32(&mut rb, 24, at as u32 + c);
                what = format!("record used up to {c} bytes into attribute {k} of length {size}");
                want = if c < 4 { Want::NothingFrom(k) } else { Want::ErrorAt(k) };
            }
            4 => {
                p32(&mut rb, 24, (at as u64 + size) as u32);
                what = format!("record used up to the end of attribute {k}");
                want = Want::EndAt(k + 1);
            }
            5 => {
                let n = src.range(1, 255);
                let off = if 2 * n > size || src.bool() { above(src, size.saturating_sub(2 * n), 0xFFFF) } else { size - 2 * n + 1 };
                let off = off.max(1);
                rb[at + 9] = n as u8;
                p16(&mut rb, at + 10, off as u16);
                what = format!("attribute {k} of length {size} with a name of {n} units at {off}");
                want = Want::BadName(k);
            }
            6 => {
                let n = src.range(1, 255.min(size / 2 - 1));
                let off = size - 2 * n;
                rb[at + 9] = n as u8;
                p16(&mut rb, at + 10, off as u16);
                let b = &rb[at + off as usize..at + size as usize];
                let nm = b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                what = format!("attribute {k} of length {size} with a name of {n} units at {off}");
                want = Want::Name(k, nm);
            }
            7 | 8 if r.resident => {
                let o = if src.bool() { g16(&rb, at + 20) as u64 } else { src.below(size + 1) };
                let l = above(src, size - o, 0xFFFF_FFFF);
                p16(&mut rb, at + 20, o as u16);
                p32(&mut rb, at + 16, l as u32);
                what = format!("attribute {k} of length {size} with {l} bytes at {o}");
                want = Want::BadValue(k);
            }
            9 if r.resident => {
                let o = above(src, size, 0xFFFF);
                let l = if src.bool() { 0 } else { src.below(100) };
                p16(&mut rb, at + 20, o as u16);
                p32(&mut rb, at + 16, l as u32);
                what = format!("attribute {k} of length {size} with {l} bytes at {o}");
                want = Want::BadValue(k);
            }
            10 if r.resident => {
                let l = src.below(size - 23);
                let o = size - l;
                p16(&mut rb, at + 20, o as u16);
                p32(&mut rb, at + 16, l as u32);
                what = format!("attribute {k} of length {size} with {l} bytes at {o}");
                want = Want::Value(k, rb[at + o as usize..at + size as usize].to_vec());
            }
            7 => {
                let o = above(src, size, 0xFFFF);
                p16(&mut rb, at + 32, o as u16);
                what = format!("attribute {k} of length {size} with runs at {o}");
                want = Want::BadValue(k);
            }
            8..=10 => {
                // One run at the very end: complete or not.
                let wl = src.range(1, 8);
                let wo = src.below(9);
                let complete = src.chance(40);
                let have = if complete { wl + wo } else { src.below(wl + wo) };
                let have = have.min(size - 65);
                let o = size - 1 - have;
                p16(&mut rb, at + 32, o as u16);
                let b = at + o as usize;
                rb[b] = (wo as u8) << 4 | wl as u8;
                // Length 1..=127 clusters at a small LCN.
                let len = 1 + src.below(127);
                let lcn = if wo == 1 { 1 + src.below(127) } else { 1 + src.below(0x7FFF) };
                let mut pb = len.to_le_bytes()[..wl as usize].to_vec();
                pb.extend_from_slice(&lcn.to_le_bytes()[..wo as usize]);
                rb[b + 1..b + 1 + have as usize].copy_from_slice(&pb[..have as usize]);
                what = format!("attribute {k} of length {size} with runs {:02x?} at {o}", &rb[b..at + size as usize]);
                if have == wl + wo {
                    let c = vol.geo.cluster;
                    let run = (if wo == 0 { 0 } else { lcn * c }, len * c);
                    want = Want::Runs(k, vec![run], false);
                } else {
                    want = Want::Runs(k, vec![], true);
                }
            }
            11 => {
                let v = above(src, frs, 0xFFFF_FFFF) as u32;
                p32(&mut rb, 28, v);
                what = format!("record of {frs} bytes with allocated size {v}");
                want = Want::NoFile;
            }
            12 => {
                let a = if src.bool() { frs } else { src.range(used as u64, frs) };
                let v = above(src, a, 0xFFFF_FFFF) as u32;
                p32(&mut rb, 28, a as u32);
                p32(&mut rb, 24, v);
                what = format!("record with allocated size {a} and used size {v}");
                want = Want::NoFile;
            }
            13 => {
                let a = src.range(used as u64, frs);
                let u = if src.bool() { a } else { used as u64 };
                p32(&mut rb, 28, a as u32);
                p32(&mut rb, 24, u as u32);
                what = format!("record with allocated size {a} and used size {u}");
                want = Want::EndAt(raws.len());
            }
            14 => {
                let o = above(src, used as u64 - 4, 0xFFFF) as u16;
                p16(&mut rb, 20, o);
                what = format!("record used up to {used} with its first attribute at {o}");
                want = Want::NothingFrom(0);
            }
            _ => {
                let blocks = frs / 512;
                match src.below(3) {
                    0 => usa = Some((usa_off as u16, above(src, blocks + 1, 0xFFFF) as u16)),
                    1 => usa = Some((above(src, frs - 2 * (blocks + 1), 0xFFFF) as u16, blocks as u16 + 1)),
                    _ => usa = Some((usa_off as u16, 0)),
                }
                what = format!("record of {frs} bytes with the update sequence {usa:?}");
                want = Want::NoFile;
            }
        }
    }
    protect(&mut rb, usa_off, usn);
    if let Some((o, n)) = usa {
        p16(&mut rb, 4, o);
        p16(&mut rb, 6, n);
    }
    vol.mft.store(&mut vol.disk, rec * frs, &rb);
    let bad = !matches!(want, Want::EndAt(_) | Want::Name(..) | Want::Value(..) | Want::Runs(_, _, false) | Want::ListEndAt(..));
    ctx.nontrivial = bad;
    ctx.label(match &want {
        Want::NoFile => "refused file record",
        Want::ErrorAt(_) | Want::NothingFrom(_) => "attribute beyond its record",
        Want::BadName(_) => "name beyond its attribute",
        Want::BadValue(_) => "value or runs beyond its attribute",
        Want::Runs(_, _, true) => "incomplete run at the end",
        Want::ListErrorAt(_) => "list entry beyond its bounds",
        _ => "exactly filling",
    });
    ctx.label_if(rec != file.rec, "in an extension record");
    ctx.label_if(on_list && file.list == ListKind::Non, "in a non-resident list");
    ctx.describe(|| format!("{}; file {} list {:?}, record {rec}: {what}; {}", desc_geo(&vol.geo), file.rec, file.list, file.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(" | ")));

    let disk = vol.disk.clone();
    let mut dev = disk.reader();
    let ntfs = open(&mut dev)?;
    let f = match ntfs.file(&mut dev, rec) {
        Ok(f) => f,
        Err(e) => {
            ck!(matches!(want, Want::NoFile), "refused-file", "{what}: the record is refused: {e}");
            // Nothing of it may appear in the flattened view of the base record either.
            if rec != file.rec {
                let b = ntfs.file(&mut dev, file.rec).okay("base record")?;
                let failed = flat_true(&b, &mut dev, &disk, &file, true, &what)?;
                // (A piece that continues another one is only needed by its value.)
                if file.attrs.iter().any(|l| l.pieces[0].rec == rec) {
                    ck!(failed, "no-error", "{what}: the enumeration of the whole file reports no error");
                }
            }
            return Ok(());
        }
    };
    ck!(!matches!(want, Want::NoFile), "accepted-file", "{what}: the record is accepted");
    let rec_pos = if vol.contiguous(rec) { Some(vol.rec_pos(rec)) } else { None };
    // Raw enumeration up to the first error.
    let mut got = vec![];
    let mut err = None;
    for a in f.attributes_raw() {
        match a {
            Ok(a) => got.push(a),
            Err(e) => {
                err = Some(e);
                break;
            }
        }
        ck!(got.len() <= 20_000, "endless-attributes", "raw enumeration does not end");
    }
    let upto = |n: usize, skip: usize| -> R {
        ck!(got.len() >= n, "missing-attribute", "{what}: only {} attributes are enumerated ({err:?})", got.len());
        for (i, a) in got.iter().enumerate().take(n) {
            if let Some(p) = rec_pos {
                ck!(pos_of(a) == p + raws[i].off as u64, "attribute-position", "{what}: attribute {i} at {:#x}", pos_of(a));
            }
            if i != skip {
                check_raw(a, &raws[i])?;
            }
        }
        Ok(())
    };
    let none = usize::MAX;
    match &want {
        Want::NoFile => {}
        Want::ErrorAt(n) | Want::NothingFrom(n) => {
            ck!(got.len() <= *n, "exposed-attribute", "{what}: attribute {n} is yielded with length {}", got[*n].attribute_length());
            upto(*n, none)?;
            ck!(err.is_some() || matches!(want, Want::NothingFrom(_)), "no-error", "{what}: the enumeration ends without an error");
            let b = ntfs.file(&mut dev, file.rec).okay("base record")?;
            let e = flat_true(&b, &mut dev, &disk, &file, false, &what)?;
            // (A piece that continues another one is only needed by its value.)
            if rec == file.rec && matches!(want, Want::ErrorAt(_)) && raws[..*n].iter().all(|r| r.ty != T_LIST) {
                ck!(e, "no-error", "{what}: the enumeration of the whole file reports no error");
            }
        }
        Want::EndAt(n) => {
            ck!(err.is_none(), "refused", "{what}: {err:?}");
            ck!(got.len() == *n, "exposed-attribute", "{what}: {} attributes are enumerated instead of {n}", got.len());
            upto(*n, none)?;
        }
        Want::BadName(n) => {
            upto(raws.len(), *n)?;
            if let Ok(nm) = got[*n].name() {
                fail!("exposed-name", "{what}: name() yields {}", show(&units(&nm)));
            }
        }
        Want::Name(n, nm) => {
            upto(raws.len(), *n)?;
            let g = units(&got[*n].name().okay("name")?);
            ck!(g == *nm, "name", "{what}: name() is {} instead of {}", show(&g), show(nm));
        }
        Want::BadValue(n) => {
            upto(n + 1, *n)?;
            let a = &got[*n];
            if let Ok(v) = a.value(&mut dev) {
                // Only the value as a whole is refused; it has to fail at the latest when read.
                match v {
                    NtfsAttributeValue::Resident(v) => fail!("exposed-value", "{what}: value() yields {} bytes", v.data().len()),
                    _ => fail!("exposed-value", "{what}: value() succeeds"),
                }
            }
            structured(a, &mut dev, &what)?;
        }
        Want::Value(n, bytes) => {
            upto(n + 1, *n)?;
            match got[*n].value(&mut dev).okay("value")? {
                NtfsAttributeValue::Resident(v) => cmp_bytes("value", &what, 0, v.data(), bytes)?,
                _ => fail!("value", "{what}: a resident attribute without a resident value"),
            }
        }
        Want::Runs(n, runs, fails) => {
            upto(n + 1, *n)?;
            match got[*n].value(&mut dev) {
                Err(e) => ck!(*fails && runs.is_empty(), "refused", "{what}: {e}"),
                Ok(NtfsAttributeValue::NonResident(v)) => {
                    let mut seen = vec![];
                    let mut failed = false;
                    for r in v.data_runs() {
                        match r {
                            Ok(r) => seen.push((r.data_position().value().map(|p| p.get()).unwrap_or(0), r.allocated_size())),
                            Err(_) => {
                                failed = true;
                                break;
                            }
                        }
                        ck!(seen.len() < 1000, "endless-runs", "{what}: the runs do not end");
                    }
                    ck!(seen == *runs, "runs", "{what}: runs {seen:?} instead of {runs:?}");
                    ck!(failed == *fails, "runs-error", "{what}: the runs {}", if failed { "end with an error" } else { "end without an error" });
                }
                Ok(_) => fail!("value", "{what}: another kind of value"),
            }
        }
        Want::ListErrorAt(_) | Want::ListEndAt(..) => {
            ck!(err.is_none(), "refused", "{what}: {err:?}");
            let upto_k = got.get(k);
            let Some(a) = upto_k else { fail!("missing-attribute", "{what}: the list is not enumerated") };
            let l = a.structured_value::<_, NtfsAttributeList>(&mut dev).okay("attribute list")?;
            let mut it = l.entries();
            let mut n = 0;
            let mut failed = false;
            let (stop, last_name) = match &want {
                Want::ListErrorAt(n) => (*n, None),
                Want::ListEndAt(n, nm) => (*n, nm.clone()),
                _ => unreachable!(),
            };
            while let Some(e) = it.next(&mut dev) {
                let Ok(e) = e else {
                    failed = true;
                    break;
                };
                ck!(n < stop, "exposed-list-entry", "{what}: entry {n} is yielded with the name {} and length {}", show(&units(&e.name())), e.list_entry_length());
                let m = &file.list_entries[n];
                let nm = units(&e.name());
                let wn = if n + 1 == stop && last_name.is_some() { last_name.as_ref().unwrap() } else { &m.name };
                ck!(e.ty().okay("ty")? as u32 == m.ty && nm == *wn && e.instance() == m.inst && e.lowest_vcn().value() as u64 == m.lowest, "list-entry", "{what}: entry {n} is {:?}", e);
                n += 1;
            }
            if bad {
                ck!(failed, "no-error", "{what}: the list ends without an error after {n} entries");
            } else {
                ck!(!failed && n == stop, "refused", "{what}: the list {} after {n} entries", if failed { "fails" } else { "ends" });
            }
            if last_name.is_none() && bad {
                ck!(flat_true(&f, &mut dev, &disk, &file, true, &what)?, "no-error", "{what}: the enumeration of the whole file reports no error");
            }
        }
    }
    Ok(())
}
/// No structured value of an attribute with an invalid value.
fn structured(a: &NtfsAttribute, dev: &mut Dev, what: &str) -> R {
    let r = match a.ty().okay("ty")? {
        NtfsAttributeType::StandardInformation => a.structured_value::<_, NtfsStandardInformation>(dev).is_ok() || a.resident_structured_value::<NtfsStandardInformation>().is_ok(),
        NtfsAttributeType::FileName => a.structured_value::<_, NtfsFileName>(dev).is_ok(),
        NtfsAttributeType::ObjectId => a.structured_value::<_, NtfsObjectId>(dev).is_ok(),
        NtfsAttributeType::VolumeName => a.structured_value::<_, NtfsVolumeName>(dev).is_ok(),
        NtfsAttributeType::AttributeList => a.structured_value::<_, NtfsAttributeList>(dev).is_ok(),
        NtfsAttributeType::IndexRoot => a.structured_value::<_, NtfsIndexRoot>(dev).is_ok(),
        NtfsAttributeType::IndexAllocation => a.structured_value::<_, NtfsIndexAllocation>(dev).is_ok(),
        _ => false,
    };
    ck!(!r, "exposed-value", "{what}: its structured value is delivered");
    Ok(())
}

// ------------------------------------------------------------------ indexes

#[derive(Debug, Clone, PartialEq)]
struct Bytes(Vec<u8>);
impl NtfsIndexEntryKey for Bytes {
    fn key_from_slice(s: &[u8], _: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Bytes(s.to_vec()))
    }
}
impl NtfsIndexEntryData for Bytes {
    fn data_from_slice(s: &[u8], _: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Bytes(s.to_vec()))
    }
}
/// Any entry seen as bytes.
#[derive(Clone, Debug)]
struct Raw;
impl NtfsIndexEntryType for Raw {
    type KeyType = Bytes;
}
impl NtfsIndexEntryHasData for Raw {
    type DataType = Bytes;
}

#[derive(Debug)]
enum IWant {
    /// The index root is refused.
    NoRoot,
    /// The record of this node is refused.
    NoRecord(usize),
    /// Entry j of the node is refused.
    ErrorAt(usize, usize),
    /// The node has no entries.
    Empty(usize),
    /// All is as stored.
    Same,
    /// Key, data or subnode of entry j is refused.
    BadKey(usize, usize),
    BadData(usize, usize),
    BadSub(usize, usize),
    /// Data of entry j are these bytes.
    Data(usize, usize, Vec<u8>),
    /// The child of entry j of the node cannot be had.
    BadRef(usize, usize, i64),
    /// Records from this slot on are refused.
    CutAt(u64),
}

fn index(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 30, mft_runs: 2, upcase: true, big_mft: 3, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let o = DirOpts { max_entries: 30, max_name: 30, max_depth: 3, list_pct: 15, small_irs: src.bool(), ..Default::default() };
    let d = gen_dir(src, &mut vol, &o);
    vol.finish(src);
    let ix = &d.index;
    let irs = ix.irs;
    let rl = d.file.attrs.iter().find(|l| l.a.ty == T_IROOT).unwrap();
    let (root_rec, root_at) = (rl.pieces[0].rec, rl.pieces[0].off);
    let mut rb = vol.rec_bytes(root_rec);
    let vo = root_at + g16(&rb, root_at + 20) as usize;
    let root_len = ix.root.len() as u64;
    let node = src.usize(0, ix.nodes.len() - 1);
    let (mut nb, offs) = ix.node_bytes(node);
    let head = if node == 0 { 16 } else { 24 };
    let used = g32(&nb, head + 4) as u64;
    let end = head + used as usize;
    let cap = nb.len() as u64 - head as u64;
    let j = src.usize(0, offs.len() - 1);
    let at = offs[j];
    let len = g16(&nb, at + 8) as u64;
    let left = (end - at) as u64;
    let last = j + 1 == offs.len();
    let what: String;
    let want;
    let mut value_len = None;
    let mut cut = None;
    match src.below(19) {
        0 => {
            // Entries start at or behind the end of the container.
            let v = if node == 0 { above(src, cap - 1, 0xFFFF_FFFF) } else { above(src, used, 0xFFFF_FFFF) };
            p32(&mut nb, head, v as u32);
            what = format!("node {node} with entries at {v}, {cap} bytes");
            want = if node == 0 { IWant::NoRoot } else { IWant::NoRecord(node) };
        }
        1 => {
            // Entries start behind the used part.
            if used + 1 >= cap {
                return Ok(());
            }
            let v = src.range(used + 1, cap - 1);
            p32(&mut nb, head, v as u32);
            what = format!("node {node} with entries at {v}, used size {used}");
            want = if node == 0 { IWant::NoRoot } else { IWant::NoRecord(node) };
        }
        2 => {
            // The used part ends behind the container (or the allocated part).
            let a = if node == 0 || src.bool() { cap } else { src.range(used, cap) };
            let v = above(src, a, 0xFFFF_FFFF);
            if node != 0 {
                p32(&mut nb, head + 8, a as u32);
            }
            p32(&mut nb, head + 4, v as u32);
            what = format!("node {node} with used size {v} of {a}");
            want = if node == 0 { IWant::NoRoot } else { IWant::NoRecord(node) };
        }
        3 if node == 0 => {
            // The value ends within the used part.
            let v = src.below(root_len);
            value_len = Some(v);
            what = format!("root value of {v} bytes with used size {used}");
            want = IWant::NoRoot;
        }
        3 => {
            let v = above(src, cap, 0xFFFF_FFFF);
            p32(&mut nb, head + 8, v as u32);
            what = format!("node {node} with allocated size {v} of {cap}");
            want = IWant::NoRecord(node);
        }
        4 => {
            // Exactly full, exactly allocated.
            if node != 0 {
                let a = src.range(used, cap);
                p32(&mut nb, head + 8, a as u32);
                let u = if src.bool() { a } else { used };
                p32(&mut nb, head + 4, u as u32);
                what = format!("node {node} with used size {u} of {a} of {cap}");
            } else {
                what = "nothing changed".into();
            }
            want = IWant::Same;
        }
        5 => {
            // No entries at all: they start right at the end of the used part.
            let v = if node == 0 {
                let e = g32(&nb, head) as u64;
                p32(&mut nb, head + 4, e as u32);
                e
            } else {
                p32(&mut nb, head, used as u32);
                used
            };
            what = format!("node {node} with entries at its end {v}");
            want = IWant::Empty(node);
        }
        6 | 7 => {
            let v = above(src, left, 0xFFFF);
            p16(&mut nb, at + 8, v as u16);
            what = format!("entry {j} of node {node} with length {v}, {left} bytes left");
            want = IWant::ErrorAt(node, j);
        }
        8 => {
            let v = src.below(16);
            p16(&mut nb, at + 8, v as u16);
            what = format!("entry {j} of node {node} with length {v}");
            want = IWant::ErrorAt(node, j);
        }
        9 => {
            // The used part ends within the entry.
            let c = 1 + src.below(len - 1);
            let u = (at - head) as u64 + c;
            p32(&mut nb, head + 4, u as u32);
            what = format!("node {node} used up to {c} bytes into entry {j} of length {len}");
            want = IWant::ErrorAt(node, j);
        }
        10 | 11 if !last => {
            let v = above(src, len - 16, 0xFFFF);
            p16(&mut nb, at + 10, v as u16);
            what = format!("entry {j} of node {node} of length {len} with a key of {v} bytes");
            want = IWant::BadKey(node, j);
        }
        12 if !last => {
            if src.bool() {
                // The name ends behind the key.
                let kl = g16(&nb, at + 10) as u64;
                let fit = (kl - 66) / 2;
                if fit >= 255 {
                    return Ok(());
                }
                let n = above(src, fit, 255) as u8;
                nb[at + 16 + 64] = n;
                what = format!("entry {j} of node {node} with a key of {kl} bytes and a name of {n} units");
            } else {
                let need = 66 + 2 * nb[at + 16 + 64] as u64;
                let v = src.range(1, need - 1);
                p16(&mut nb, at + 10, v as u16);
                what = format!("entry {j} of node {node} with a key of {v} bytes, needs {need}");
            }
            want = IWant::BadKey(node, j);
        }
        13 if !last => {
            // A key that fills the entry.
            let v = len - 16;
            p16(&mut nb, at + 10, v as u16);
            what = format!("entry {j} of node {node} of length {len} with a key of {v} bytes");
            want = IWant::Same;
        }
        14 => {
            let o = src.range(16, len + 20);
            let l = if o >= len { 1 + src.below(0xFFFF) } else { above(src, len - o, 0xFFFF) };
            p16(&mut nb, at, o as u16);
            p16(&mut nb, at + 2, l as u16);
            what = format!("entry {j} of node {node} of length {len} with {l} bytes of data at {o}");
            want = IWant::BadData(node, j);
        }
        15 => {
            if len <= 16 {
                return Ok(());
            }
            let l = src.range(1, len - 16);
            let o = len - l;
            p16(&mut nb, at, o as u16);
            p16(&mut nb, at + 2, l as u16);
            what = format!("entry {j} of node {node} of length {len} with {l} bytes of data at {o}");
            want = IWant::Data(node, j, nb[at + o as usize..at + len as usize].to_vec());
        }
        16 => {
            // A subnode without room for its reference.
            let last_at = *offs.last().unwrap();
            let room = end - last_at;
            let l = src.range(16, 23.min(room as u64));
            p16(&mut nb, last_at + 8, l as u16);
            nb[last_at + 12] |= 1;
            what = format!("last entry of node {node} with a subnode and length {l}");
            want = IWant::BadSub(node, offs.len() - 1);
        }
        17 if ix.large => {
            // References that lead nowhere.
            let with: Vec<(usize, usize)> = ix.nodes.iter().enumerate().flat_map(|(n, nd)| nd.children.iter().enumerate().filter(|(_, c)| c.is_some()).map(move |(j, _)| (n, j))).collect();
            if with.is_empty() {
                return Ok(());
            }
            let (n, j) = *src.pick(&with);
            let child = ix.nodes[n].children[j].unwrap();
            let (b, of) = ix.node_bytes(n);
            let e = of[j];
            let l = g16(&b, e + 8) as usize;
            let total = ix.total() / ix.vcn_unit;
            let good = ix.vcn(ix.nodes[child].slot) as i64;
            let per = (irs / ix.vcn_unit).max(1) as i64;
            let v: i64 = match src.below(5) {
                0 => (total + src.below(3)) as i64,
                1 => src.interesting(63).max(total) as i64,
                2 => -(1 + src.size(0, i64::MAX as u64 - 1) as i64),
                3 if per > 1 => good + 1 + src.below(per as u64 - 1) as i64,
                _ => {
                    // Its own number changed instead.
                    let w = if src.bool() { good ^ (1 << src.below(63)) } else { good + 1 };
                    let (mut cb, _) = ix.node_bytes(child);
                    p64(&mut cb, 16, w as u64);
                    let usa = g16(&cb, 4) as usize;
                    protect(&mut cb, usa, 7);
                    d.stream.as_ref().unwrap().store(&mut vol.disk, ix.offset(ix.nodes[child].slot), &cb);
                    good
                }
            };
            what = format!("entry {j} of node {n} references {v} instead of {good}, or that record has another number");
            nb = b;
            p64(&mut nb, e + l - 8, v as u64);
            want = IWant::BadRef(n, j, v);
            // `nb` now is another node's.
            return finish(src, ctx, vol, d, n, nb, rb, root_rec, root_at, vo, None, None, what, want);
        }
        18 if ix.nodes.len() > 1 => {
            // The allocation ends within a record.
            let slot = ix.nodes[src.usize(1, ix.nodes.len() - 1)].slot as u64;
            let c = ix.offset(slot as usize) + src.below(irs);
            cut = Some(c);
            what = format!("allocation of {c} bytes with records of {irs}");
            want = IWant::CutAt(slot);
        }
        _ => {
            // The root's value is exactly as long as needed.
            what = "nothing changed".into();
            want = IWant::Same;
        }
    }
    let _ = &mut rb;
    finish(src, ctx, vol, d, node, nb, rb, root_rec, root_at, vo, value_len, cut, what, want)
}

/// What entries an iteration over a node yields: up to the first error.
fn node_entries(it: NtfsIndexNodeEntries<Raw>, nb: &[u8], offs: &[usize], what: &str) -> Result<(usize, bool), Fail> {
    let mut n = 0;
    for e in it {
        let Ok(e) = e else { return Ok((n, true)) };
        ck!(n < offs.len(), "extra-entry", "{what}: more than {} entries", offs.len());
        let at = offs[n];
        ck!(e.index_entry_length() == g16(nb, at + 8) && e.key_length() == g16(nb, at + 10), "entry", "{what}: entry {n} has length {} and a key of {}", e.index_entry_length(), e.key_length());
        n += 1;
    }
    Ok((n, false))
}

#[allow(clippy::too_many_arguments)]
fn finish(
    src: &mut Src,
    ctx: &mut Ctx,
    mut vol: Vol,
    d: DirM,
    node: usize,
    nb: Vec<u8>,
    mut rb: Vec<u8>,
    root_rec: u64,
    root_at: usize,
    vo: usize,
    value_len: Option<u64>,
    cut: Option<u64>,
    what: String,
    want: IWant,
) -> R {
    let ix = &d.index;
    let irs = ix.irs;
    let usa_off = g16(&rb, 4) as usize;
    let frs = vol.geo.frs;
    if node == 0 {
        rb[vo..vo + nb.len()].copy_from_slice(&nb);
        if let Some(v) = value_len {
            p32(&mut rb, root_at + 16, v as u32);
        }
        protect(&mut rb, usa_off, 1 + src.below(0xFFFF) as u16);
        vol.mft.store(&mut vol.disk, root_rec * frs, &rb);
    } else {
        let mut b = nb.clone();
        let u = g16(&b, 4) as usize;
        protect(&mut b, u, 1 + src.below(0xFFFF) as u16);
        d.stream.as_ref().unwrap().store(&mut vol.disk, ix.offset(ix.nodes[node].slot), &b);
    }
    if let Some(c) = cut {
        let al = d.file.attrs.iter().find(|l| l.a.ty == T_IALLOC).unwrap();
        let (r, at) = (al.pieces[0].rec, al.pieces[0].off);
        let mut b = vol.rec_bytes(r);
        p64(&mut b, at + 48, c);
        p64(&mut b, at + 56, c);
        protect(&mut b, usa_off, 9);
        vol.mft.store(&mut vol.disk, r * frs, &b);
    }
    let bad = !matches!(want, IWant::Same | IWant::Empty(_) | IWant::Data(..));
    ctx.nontrivial = bad;
    ctx.label(match &want {
        IWant::NoRoot => "index root beyond its value",
        IWant::NoRecord(_) => "index node beyond its record",
        IWant::ErrorAt(..) => "index entry beyond its node",
        IWant::BadKey(..) => "key beyond its entry",
        IWant::BadData(..) => "data beyond its entry",
        IWant::BadSub(..) => "subnode beyond its entry",
        IWant::BadRef(..) => "subnode that does not exist",
        IWant::CutAt(_) => "index record beyond its allocation",
        _ => "exactly filling (index)",
    });
    ctx.describe(|| format!("{}; directory {} of {} entries in {} nodes, record size {irs}: {what}", desc_geo(&vol.geo), d.file.rec, d.ents.len(), ix.nodes.len()));

    let disk = vol.disk.clone();
    let mut dev = disk.reader();
    let ntfs = open_up(&mut dev)?;
    let f = ntfs.file(&mut dev, d.file.rec).okay("file")?;
    let root_item = find_item(&f, &mut dev, T_IROOT, &I30, 0)?;
    let root_attr = root_item.to_attribute().okay("to_attribute")?;
    let root = root_attr.resident_structured_value::<NtfsIndexRoot>();
    if let IWant::NoRoot = want {
        if let Ok(r) = root {
            fail!("accepted-root", "{what}: the index root is accepted with {} entries", r.entries::<Raw>().map(|e| e.count()).unwrap_or(0));
        }
        ck!(root_attr.structured_value::<_, NtfsIndexRoot>(&mut dev).is_err(), "accepted-root", "{what}: the index root is accepted");
        ck!(f.directory_index(&mut dev).is_err(), "accepted-index", "{what}: the directory index is accepted");
        return Ok(());
    }
    let root = root.okay("index root")?;
    // Each node by itself.
    let alloc_item = match ix.large {
        true => Some(find_item(&f, &mut dev, T_IALLOC, &I30, 0)?),
        false => None,
    };
    let alloc = match &alloc_item {
        Some(i) => {
            let a = i.to_attribute().okay("to_attribute")?;
            Some(a.structured_value::<_, NtfsIndexAllocation>(&mut dev).okay("index allocation")?)
        }
        None => None,
    };
    for n in 0..ix.nodes.len() {
        let (mut b, offs) = ix.node_bytes(n);
        if n == node {
            b = nb.clone();
        }
        let slot = ix.nodes[n].slot as u64;
        let refused = matches!(want, IWant::NoRecord(x) if x == n)
            || matches!(want, IWant::CutAt(s) if n > 0 && slot >= s)
            || matches!(want, IWant::BadRef(a, j, v) if ix.nodes[a].children[j] == Some(n) && v == ix.vcn(ix.nodes[n].slot) as i64);
        let rec;
        let it = if n == 0 {
            root.entries::<Raw>().okay("entries")?
        } else {
            match alloc.as_ref().unwrap().record_from_vcn(&mut dev, irs as u32, Vcn::from(ix.vcn(ix.nodes[n].slot) as i64)) {
                Ok(r) => {
                    ck!(!refused, "accepted-record", "{what}: the record of node {n} is accepted");
                    rec = r;
                    rec.entries::<Raw>().okay("entries")?
                }
                Err(e) => {
                    ck!(refused, "refused-record", "{what}: the record of node {n}: {e}");
                    continue;
                }
            }
        };
        let fields: Vec<_> = it.clone().map_while(|e| e.ok()).take(offs.len()).collect();
        let (got, failed) = node_entries(it, &b, &offs, &what)?;
        match &want {
            IWant::ErrorAt(x, j) if *x == n => {
                ck!(got <= *j, "exposed-entry", "{what}: the entry is yielded");
                ck!(got == *j && failed, "no-error", "{what}: {got} entries and {} error", if failed { "an" } else { "no" });
            }
            IWant::Empty(x) if *x == n => ck!(got == 0 && !failed, "entry", "{what}: {got} entries, failed {failed}"),
            _ => ck!(got == offs.len() && !failed, "refused", "{what}: {got} of {} entries of node {n}, failed {failed}", offs.len()),
        }
        match &want {
            IWant::BadKey(x, j) if *x == n => {
                // (As bytes, a key within its entry is fine.)
                if g16(&b, offs[*j] + 10) as u64 > g16(&b, offs[*j] + 8) as u64 - 16 {
                    if let Some(Ok(k)) = fields[*j].key() {
                        fail!("exposed-key", "{what}: a key of {} bytes", k.0.len());
                    }
                }
            }
            IWant::BadData(x, j) if *x == n => match fields[*j].data() {
                Some(Err(_)) => {}
                Some(Ok(v)) => fail!("exposed-data", "{what}: {} bytes of data", v.0.len()),
                None => fail!("exposed-data", "{what}: no data"),
            },
            IWant::Data(x, j, v) if *x == n => match fields[*j].data() {
                Some(Ok(g)) => cmp_bytes("data", &what, 0, &g.0, v)?,
                Some(Err(e)) => fail!("refused", "{what}: {e}"),
                None => fail!("refused", "{what}: no data"),
            },
            IWant::BadSub(x, j) if *x == n => match fields[*j].subnode_vcn() {
                Some(Err(_)) => {}
                Some(Ok(v)) => fail!("exposed-subnode", "{what}: subnode {v}"),
                None => fail!("exposed-subnode", "{what}: no subnode"),
            },
            _ => {}
        }
    }
    if let IWant::BadRef(_, _, v) = want {
        if let Ok(r) = alloc.as_ref().unwrap().record_from_vcn(&mut dev, irs as u32, Vcn::from(v)) {
            fail!("accepted-record", "{what}: a record for {v}: {}", r.vcn());
        }
    }
    // Raw records: those of refused nodes never appear.
    if let Some(a) = &alloc {
        let mut it = a.records(irs as u32);
        let mut k = 0;
        while let Some(r) = it.next(&mut dev) {
            let Ok(_) = r else { break };
            ck!(!matches!(want, IWant::NoRecord(x) if ix.nodes[x].slot == k), "accepted-record", "{what}: record {k} is enumerated");
            ck!(!matches!(want, IWant::CutAt(s) if k as u64 >= s), "accepted-record", "{what}: record {k} is enumerated");
            k += 1;
            ck!(k < 20_000, "endless-records", "the records do not end");
        }
    }
    // The listing: true entries in order, and an error where one is due.
    if let IWant::Empty(_) | IWant::Data(..) | IWant::BadData(..) = want {
        return Ok(());
    }
    let index = f.directory_index(&mut dev).okay("directory_index")?;
    let mut it = index.entries();
    let mut k = 0;
    let mut failed: Option<NtfsError> = None;
    while let Some(e) = it.next(&mut dev) {
        let e = match e {
            Ok(e) => e,
            Err(e) => {
                failed = Some(e);
                break;
            }
        };
        ck!(k < d.ents.len(), "extra-entry", "{what}: the listing yields more than {} entries", d.ents.len());
        match e.key() {
            Some(Ok(n)) => {
                let nm = units(&n.name());
                ck!(nm == d.ents[k].key.name, "listing", "{what}: entry {k} of the listing is {} instead of {}", show(&nm), show(&d.ents[k].key.name));
            }
            Some(Err(e)) => {
                failed = Some(e);
                break;
            }
            None => fail!("listing", "{what}: entry {k} of the listing has no key"),
        }
        k += 1;
    }
    if bad {
        ck!(failed.is_some(), "no-error", "{what}: the listing ends after {k} of {} entries without an error", d.ents.len());
    } else {
        ck!(failed.is_none() && k == d.ents.len(), "refused", "{what}: {k} of {} entries, {failed:?}", d.ents.len());
    }
    // Lookups: the true entry or an error.
    if d.ents.is_empty() {
        return Ok(());
    }
    let mut finder = index.finder();
    for _ in 0..4 {
        let e = src.pick(&d.ents);
        let Some(s) = to_str(&e.key.name) else { continue };
        match NtfsFileNameIndex::find(&mut finder, &ntfs, &mut dev, &s) {
            None => fail!("lookup-none", "{what}: {} is not found", show(&e.key.name)),
            Some(Err(er)) => ck!(bad, "refused", "{what}: lookup of {}: {er}", show(&e.key.name)),
            Some(Ok(g)) => {
                let r = g.file_reference();
                ck!(fref(r.file_record_number(), r.sequence_number()) == e.fref, "lookup", "{what}: lookup of {} finds another entry", show(&e.key.name));
            }
        }
    }
    Ok(())
}
