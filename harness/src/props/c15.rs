//! C15: reported byte positions point at what they describe.
use super::c03::desc_dir;
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::indexes::{NtfsFileNameIndex, NtfsIndexEntryData, NtfsIndexEntryHasData, NtfsIndexEntryKey, NtfsIndexEntryType};
use ntfs::structured_values::*;
use ntfs::types::{Lcn, NtfsPosition, Vcn};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{NtfsError, NtfsReadSeek};
use std::io::SeekFrom;

pub static PROP: Prop = Prop {
    id: "C15",
    f: prop,
    quick: 800_000,
    thorough: 20_000_000,
    rule: "a case is a generated volume with a file and a directory; the positions of the table, the records, attributes, list entries, index roots and entries, and of resident and non-resident values and data runs at generated cursors are compared with where the builder put those bytes; or one structure is damaged and the position in the resulting error is compared. Non-trivial: at least one position inside a non-resident structure or an error position was compared.",
    directed: &[],
};

fn val(p: NtfsPosition) -> Option<u64> {
    p.value().map(|x| x.get())
}
/// Position 0 cannot be told from an absent one.
fn at(sig: &str, what: impl Fn() -> String, got: NtfsPosition, want: Option<u64>) -> R {
    let want = want.filter(|w| *w != 0);
    ck!(val(got) == want, sig, "{}: position {:?} expected {want:?}", what(), val(got));
    Ok(())
}

/// An index entry type whose key and data are where they were found.
#[derive(Clone, Debug)]
struct Raw;
#[derive(Debug)]
struct Found(NtfsPosition, Vec<u8>);
impl NtfsIndexEntryKey for Found {
    fn key_from_slice(s: &[u8], p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Found(p, s.to_vec()))
    }
}
impl NtfsIndexEntryData for Found {
    fn data_from_slice(s: &[u8], p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Found(p, s.to_vec()))
    }
}
impl NtfsIndexEntryType for Raw {
    type KeyType = Found;
}
impl NtfsIndexEntryHasData for Raw {
    type DataType = Found;
}

/// Cursors of a value: landmarks and anything else.
fn cursor(src: &mut Src, marks: &[u64], max: u64) -> u64 {
    let m = *src.pick(marks);
    match src.below(4) {
        0 => m,
        1 => m.saturating_add(src.below(3)).saturating_sub(1),
        2 => src.range(0, max),
        _ => m.saturating_sub(src.size(0, 5000)),
    }
}

fn value_positions(src: &mut Src, ctx: &mut Ctx, v: &mut NtfsAttributeValue, dev: &mut Dev, body: &Body, res_at: Option<u64>, what: &str) -> R {
    let len = body.len();
    let marks = landmarks(body);
    let want = |c: u64| -> Option<Option<u64>> {
        match body {
            Body::Res(_) => match res_at {
                Some(p) if c < len => Some(Some(p + c)),
                _ if c > len => Some(None),
                _ => None,
            },
            Body::Non(s) => {
                if c < len.min(s.init) {
                    Some(s.locate(c).and_then(|x| x.0))
                } else if c > s.alloc_bytes() && c > len {
                    Some(None)
                } else {
                    None
                }
            }
        }
    };
    if let Some(w) = want(0) {
        at("value-start", || format!("{what}: value at its start"), v.data_position(), w)?;
        ctx.nontrivial |= matches!(body, Body::Non(_));
    }
    let n = src.below(9);
    for _ in 0..n {
        if src.chance(70) {
            let c = cursor(src, &marks, len.saturating_add(3));
            v.seek(dev, SeekFrom::Start(c)).okay("seek")?;
        } else {
            let mut buf = vec![0u8; src.size(1, 6000) as usize];
            v.read(dev, &mut buf).okay("read")?;
        }
        let c = v.stream_position();
        if let Some(w) = want(c) {
            ctx.label_if(w.is_none() && c < len, "absent: sparse");
            ctx.label_if(w.is_none() && c > len, "absent: past the end");
            at("value-position", || format!("{what}: value of {len} bytes at {c}"), v.data_position(), w)?;
        }
    }
    // The attached values say the same, and keep saying it while they are moved.
    if n > 0 && src.chance(50) {
        let c = cursor(src, &marks, len.saturating_add(3));
        let w = want(c);
        let mut att = v.clone().attach(dev);
        std::io::Seek::seek(&mut att, SeekFrom::Start(c)).okay("attached seek")?;
        if let Some(w) = w {
            at("attached-position", || format!("{what}: attached value of {len} bytes at {c}"), att.data_position(), w)?;
        }
        if let NtfsAttributeValue::NonResident(nr) = att.detach() {
            let mut att = nr.attach(dev);
            if let Some(w) = w {
                at("attached-position", || format!("{what}: attached non-resident value of {len} bytes at {c}"), att.data_position(), w)?;
            }
            let c = cursor(src, &marks, len.saturating_add(3));
            std::io::Seek::seek(&mut att, SeekFrom::Start(c)).okay("attached seek")?;
            if let Some(w) = want(c) {
                at("attached-position", || format!("{what}: attached non-resident value of {len} bytes at {c}"), att.data_position(), w)?;
            }
        }
    }
    Ok(())
}

fn check_runs(src: &mut Src, ctx: &mut Ctx, v: &ntfs::attribute_value::NtfsNonResidentAttributeValue, dev: &mut Dev, s: &Stream, x: usize, y: usize, rec_at: Option<u64>, rec: &[u8], off: usize, what: &str) -> R {
    let mut it = v.data_runs();
    let mut h = off + g16(rec, off + 32) as usize;
    for k in x..y {
        if let Some(p) = rec_at {
            at("run-header", || format!("{what}: data run {k}"), it.position(), Some(p + h as u64))?;
        }
        let b = rec[h];
        h += 1 + (b & 15) as usize + (b >> 4) as usize;
        let mut run = match it.next() {
            Some(r) => r.okay("data run")?,
            None => fail!("runs-short", "{what}: only {k} runs"),
        };
        let r = &s.runs[k];
        let len = r.len * s.cluster;
        let base = r.lcn.map(|l| l * s.cluster);
        at("run-position", || format!("{what}: start of run {k}"), run.data_position(), base)?;
        for _ in 0..src.below(3) {
            let c = match src.below(4) {
                0 => len.saturating_add(1 + src.below(5)),
                1 => len - 1,
                _ => src.range(0, len - 1),
            };
            run.seek(dev, SeekFrom::Start(c)).okay("run seek")?;
            let w = if c < len { base.map(|b| b + c) } else { None };
            if w == Some(0) || c == len {
                continue;
            }
            at("run-position", || format!("{what}: run {k} of {len} bytes at {c}"), run.data_position(), w)?;
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

fn file_positions(src: &mut Src, ctx: &mut Ctx, vol: &Vol, ntfs: &ntfs::Ntfs, dev: &mut Dev, m: &FileM) -> R {
    let file = ntfs.file(dev, m.rec).okay("file")?;
    at("record-position", || format!("file record {}", m.rec), file.position(), Some(vol.rec_pos(m.rec)))?;
    // Raw attributes of every record.
    for (rec, raws) in &m.raw {
        let f = ntfs.file(dev, *rec).okay("extension record")?;
        at("record-position", || format!("file record {rec}"), f.position(), Some(vol.rec_pos(*rec)))?;
        if !vol.contiguous(*rec) {
            ctx.label("record in two pieces");
            continue;
        }
        let base = vol.rec_pos(*rec);
        let bytes = vol.rec_bytes(*rec);
        let mut it = f.attributes_raw();
        for w in raws {
            let a = it.next().okay("attributes_raw")?;
            let what = format!("record {rec} attribute {:#x}", w.ty);
            at("attribute-position", || what.clone(), a.position(), Some(base + w.off as u64))?;
            if w.resident {
                let v = a.value(dev).okay("value")?;
                let vo = g16(&bytes, w.off + 20) as u64;
                if w.len > 0 {
                    at("resident-position", || format!("{what}: resident value"), v.data_position(), Some(base + w.off as u64 + vo))?;
                }
            }
        }
        // The attribute list itself.
        if let Some(w) = raws.iter().find(|r| r.ty == T_LIST) {
            let a = f.attributes_raw().nth(raws.iter().position(|r| r.ty == T_LIST).unwrap()).okay("list attribute")?;
            let list = a.structured_value::<_, NtfsAttributeList>(dev).okay("attribute list")?;
            let vo = g16(&bytes, w.off + 20) as u64;
            let place = |off: u64| match &m.list_stream {
                Some(s) => s.locate(off).and_then(|x| x.0),
                None => Some(base + w.off as u64 + vo + off),
            };
            at("list-position", || format!("{what} attribute list", what = format!("record {rec}")), list.position(), place(0))?;
            ctx.label_if(m.list_stream.is_some(), "non-resident list");
            ctx.label_if(m.list_stream.is_none(), "resident list");
            let mut it = list.entries();
            let mut off = 0u64;
            for (k, e) in m.list_entries.iter().enumerate() {
                let g = it.next(dev).okay("list entry")?;
                at("list-entry-position", || format!("record {rec} list entry {k} at {off}"), g.position(), place(off))?;
                ctx.nontrivial |= m.list_stream.is_some();
                off += (align8(26 + 2 * e.name.len()) + m.list_pad) as u64;
                if src.chance(20) {
                    it = it.clone();
                }
            }
        }
    }
    // Flattened attributes and their values.
    for l in &m.attrs {
        let nth = m.attrs.iter().take_while(|x| !std::ptr::eq(*x, l)).filter(|x| x.a.ty == l.a.ty && x.a.name == l.a.name).count();
        if nth > 0 || m.attrs.iter().filter(|x| x.a.ty == l.a.ty && x.a.name == l.a.name).count() > 1 {
            continue;
        }
        let item = find_item(&file, dev, l.a.ty, &l.a.name, 0)?;
        let a = item.to_attribute().okay("to_attribute")?;
        let p = &l.pieces[0];
        let whole = vol.contiguous(p.rec);
        let rec_at = if whole { Some(vol.rec_pos(p.rec)) } else { None };
        let what = format!("attribute {:#x}:{} of record {}", l.a.ty, show(&l.a.name), m.rec);
        if let Some(b) = rec_at {
            at("attribute-position", || what.clone(), a.position(), Some(b + p.off as u64))?;
        }
        let bytes = vol.rec_bytes(p.rec);
        let res_at = match (&l.a.body, rec_at) {
            (Body::Res(_), Some(b)) => Some(b + p.off as u64 + g16(&bytes, p.off + 20) as u64),
            _ => None,
        };
        let mut v = a.value(dev).okay("value")?;
        body_label(ctx, l);
        value_positions(src, ctx, &mut v, dev, &l.a.body, res_at, &what)?;
        if let (Body::Non(s), NtfsAttributeValue::NonResident(n)) = (&l.a.body, &v) {
            check_runs(src, ctx, n, dev, s, p.runs.0, p.runs.1, rec_at, &bytes, p.off, &what)?;
        }
    }
    Ok(())
}

fn dir_positions(src: &mut Src, ctx: &mut Ctx, vol: &Vol, ntfs: &ntfs::Ntfs, dev: &mut Dev, d: &DirM) -> R {
    let file = ntfs.file(dev, d.file.rec).okay("file")?;
    let ix = &d.index;
    let root = d.file.find(T_IROOT, &I30).unwrap();
    let p = &root.pieces[0];
    let root_at = if vol.contiguous(p.rec) {
        let b = vol.rec_bytes(p.rec);
        Some(vol.rec_pos(p.rec) + p.off as u64 + g16(&b, p.off + 20) as u64)
    } else {
        None
    };
    let nodes: Vec<(Vec<u8>, Vec<usize>)> = (0..ix.nodes.len()).map(|k| ix.node_bytes(k)).collect();
    // Where node n's bytes are (None: in two pieces).
    let node_at = |n: usize| -> Option<u64> {
        if n == 0 {
            return root_at;
        }
        let s = d.stream.as_ref().unwrap();
        let (p, rem) = s.locate(ix.offset(ix.nodes[n].slot)).unwrap();
        p.filter(|_| rem >= ix.irs)
    };
    let place = |n: usize, j: usize| node_at(n).map(|b| b + nodes[n].1[j] as u64);
    let item = find_item(&file, dev, T_IROOT, &I30, 0)?;
    let a = item.to_attribute().okay("to_attribute")?;
    let r = a.resident_structured_value::<NtfsIndexRoot>().okay("index root")?;
    let r2 = a.structured_value::<_, NtfsIndexRoot>(dev).okay("index root")?;
    if let Some(w) = root_at {
        at("root-position", || "index root".into(), r.position(), Some(w))?;
        at("root-position", || "index root (2)".into(), r2.position(), Some(w))?;
    }
    let check_raw = |it: ntfs::NtfsIndexNodeEntries<Raw>, n: usize| -> R {
        let (bytes, offs) = &nodes[n];
        for (j, e) in it.enumerate() {
            let e = e.okay("node entry")?;
            ck!(j < offs.len(), "node-entries", "node {n} has more than {} entries", offs.len());
            let Some(b) = node_at(n) else { return Ok(()) };
            at("node-entry-position", || format!("entry {j} of node {n}"), e.position(), Some(b + offs[j] as u64))?;
            ck!(e.key().is_some() == (j + 1 < offs.len()), "key-presence", "entry {j} of {} of node {n} {} a key", offs.len(), if e.key().is_some() { "has" } else { "lacks" });
            if let Some(k) = e.key() {
                let k = k.okay("key")?;
                at("key-position", || format!("key of entry {j} of node {n}"), k.0, Some(b + offs[j] as u64 + 16))?;
                cmp_bytes("key-bytes", "key", 0, &k.1, &bytes[offs[j] + 16..offs[j] + 16 + k.1.len()])?;
            }
            // The entry type has no data, but its first bytes work as such.
            let (o, l) = (g16(bytes, offs[j]) as usize, g16(bytes, offs[j] + 2) as usize);
            if let Some(Ok(x)) = e.data() {
                at("data-position", || format!("data of entry {j} of node {n}"), x.0, Some(b + (offs[j] + o) as u64))?;
                cmp_bytes("data-bytes", "data", 0, &x.1, &bytes[offs[j] + o..offs[j] + o + l])?;
            }
        }
        Ok(())
    };
    check_raw(r.entries::<Raw>().okay("root entries")?, 0)?;
    if let Some(s) = &d.stream {
        let item = find_item(&file, dev, T_IALLOC, &I30, 0)?;
        let a = item.to_attribute().okay("to_attribute")?;
        let alloc = a.structured_value::<_, NtfsIndexAllocation>(dev).okay("index allocation")?;
        for n in 1..ix.nodes.len().min(12) {
            let rec = alloc.record_from_vcn(dev, ix.irs as u32, Vcn::from(ix.vcn(ix.nodes[n].slot) as i64)).okay("record_from_vcn")?;
            check_raw(rec.entries::<Raw>().okay("entries")?, n)?;
            ctx.nontrivial = true;
        }
        ctx.label_if(s.runs.len() > 1, "fragmented index");
    }
    let index = file.directory_index(dev).okay("directory_index")?;
    let places = ix.inorder_places();
    let mut it = index.entries();
    for (i, (n, j)) in places.iter().enumerate() {
        let e = it.next(dev).okay("entries")?;
        if let Some(w) = place(*n, *j) {
            at("entry-position", || format!("entry {i} of the listing (node {n}, entry {j})"), e.position(), Some(w))?;
        }
        ctx.nontrivial |= *n > 0;
    }
    let mut finder = index.finder();
    for _ in 0..3.min(d.ents.len()) {
        let i = src.usize(0, d.ents.len() - 1);
        let (n, j) = places[i];
        let k = ix.nodes[n].items[j];
        if let Some(s) = to_str(&d.ents[k].key.name) {
            let e = NtfsFileNameIndex::find(&mut finder, ntfs, dev, &s).okay("find")?;
            if let Some(w) = place(n, j) {
                at("entry-position", || format!("found entry {s:?}"), e.position(), Some(w))?;
            }
        }
    }
    Ok(())
}

fn arithmetic(src: &mut Src, vol: &Vol, ntfs: &ntfs::Ntfs) -> R {
    let c = vol.geo.cluster;
    at("mft-position", || "the Master File Table".into(), ntfs.mft_position(), Some(vol.boot.mft_lcn * c))?;
    for _ in 0..4 {
        let l = match src.below(3) {
            0 => src.interesting(64),
            1 => (u64::MAX / c).wrapping_add(src.below(5)).wrapping_sub(2),
            _ => src.u64(),
        };
        match (Lcn::from(l).position(ntfs), l.checked_mul(c)) {
            (Ok(p), Some(w)) => at("lcn-position", || format!("LCN {l}"), p, Some(w))?,
            (Err(NtfsError::LcnTooBig { .. }), None) => {}
            (r, w) => fail!("lcn-position", "LCN {l} with clusters of {c}: {r:?} expected {w:?}"),
        }
        let v = match src.below(3) {
            0 => src.interesting(64) as i64,
            1 => (i64::MAX / c as i64).wrapping_add(src.below(5) as i64).wrapping_sub(2),
            _ => (i64::MIN / c as i64).wrapping_add(src.below(5) as i64).wrapping_sub(2),
        };
        match (Vcn::from(v).offset(ntfs), v.checked_mul(c as i64)) {
            (Ok(p), Some(w)) if p == w => {}
            (Err(NtfsError::VcnTooBig { .. }), None) => {}
            (r, w) => fail!("vcn-offset", "VCN {v} with clusters of {c}: {r:?} expected {w:?}"),
        }
        let sum = l as i128 + v as i128;
        let want = u64::try_from(sum).ok();
        let got = Lcn::from(l).checked_add(Vcn::from(v)).map(|x| x.value());
        ck!(got == want, "lcn-add", "LCN {l} + {v} is {got:?} expected {want:?}");
        ck!(
            format!("{0} {0:x} {0:X} {0:o} {0:b}", Vcn::from(v)) == format!("{v} {v:x} {v:X} {v:o} {v:b}") && format!("{0} {0:x} {0:X} {0:o} {0:b}", Lcn::from(l)) == format!("{l} {l:x} {l:X} {l:o} {l:b}"),
            "lcn-text",
            "LCN {l} prints as {}, VCN {v} as {}",
            Lcn::from(l),
            Vcn::from(v)
        );
        if let Ok(p) = Lcn::from(l).position(ntfs) {
            position_value(src, p, l * c)?;
        }
        ck!(Lcn::from(l).value() == l && Vcn::from(v).value() == v, "lcn-value", "value()");
    }
    Ok(())
}

/// A position moves by what is added to it, an absent one stays absent, and both print as what they are.
fn position_value(src: &mut Src, p: NtfsPosition, w: u64) -> R {
    let k = src.interesting(64);
    let (k16, ks) = (k as u16, k as u32 as usize);
    let sum = |k: u64| if w == 0 { Some(None) } else { w.checked_add(k).map(Some) };
    if let Some(s) = sum(k) {
        let mut q = p;
        q += k;
        at("position-add", || format!("{w} + {k}"), p + k, s)?;
        at("position-add", || format!("{w} += {k}"), q, s)?;
    }
    if let Some(s) = sum(k16 as u64) {
        let mut q = p;
        q += k16;
        at("position-add", || format!("{w} + {k16}"), p + k16, s)?;
        at("position-add", || format!("{w} += {k16}"), q, s)?;
    }
    if let Some(s) = sum(ks as u64) {
        let mut q = p;
        q += ks;
        at("position-add", || format!("{w} + {ks}"), p + ks, s)?;
        at("position-add", || format!("{w} += {ks}"), q, s)?;
    }
    let got = [format!("{p}"), format!("{p:x}"), format!("{p:#x}"), format!("{p:X}"), format!("{p:o}"), format!("{p:b}"), format!("{p:#018x}"), format!("{p:>30}")];
    if w == 0 {
        ck!(got.iter().all(|g| !g.is_empty() && !g.contains(|c: char| c.is_ascii_digit())), "position-text", "an absent position prints as {got:?}");
    } else {
        let want = [format!("{w}"), format!("{w:x}"), format!("{w:#x}"), format!("{w:X}"), format!("{w:o}"), format!("{w:b}"), format!("{w:#018x}"), format!("{w:>30}")];
        ck!(got == want, "position-text", "position {w} prints as {got:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ errors

/// Damages one thing, provokes the error, and compares the position in it.
fn errors(src: &mut Src, ctx: &mut Ctx, vol: &mut Vol, m: &FileM, d: &DirM) -> R {
    let (rec, raws) = src.pick(&m.raw).clone();
    let mut b = vol.mft.content(&vol.disk, rec * vol.geo.frs, vol.geo.frs);
    let kind = src.below(13);
    let whole = vol.contiguous(rec);
    let pos = vol.rec_pos(rec);
    let blocks = covered(b.len());
    ctx.nontrivial = true;
    match kind {
        0 => {
            ctx.label("error: file signature");
            b[src.usize(0, 3)] ^= 1 << src.below(8);
            vol.mft.store(&mut vol.disk, rec * vol.geo.frs, &b);
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            match ntfs.file(&mut dev, rec) {
                Err(NtfsError::InvalidFileSignature { position, .. }) => at("error-signature", || format!("signature of record {rec}"), position, Some(pos)),
                r => fail!("error-kind", "damaged signature of record {rec}: {:?}", r.map(|_| ())),
            }
        }
        1 if whole => {
            ctx.label("error: torn file record");
            let k = src.usize(0, blocks - 1);
            b[k * 512 + 510] ^= 1 << src.below(8);
            vol.mft.store(&mut vol.disk, rec * vol.geo.frs, &b);
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            match ntfs.file(&mut dev, rec) {
                Err(NtfsError::UpdateSequenceNumberMismatch { position, .. }) => at("error-torn", || format!("block {k} of record {rec}"), position, Some(pos + k as u64 * 512 + 510)),
                r => fail!("error-kind", "torn block {k} of record {rec}: {:?}", r.map(|_| ())),
            }
        }
        2 | 3 if d.index.nodes.len() > 1 => {
            let n = src.usize(1, d.index.nodes.len() - 1);
            let slot = d.index.nodes[n].slot;
            let s = d.stream.clone().unwrap();
            let mut r = d.index.records[slot].clone().unwrap();
            let (p, rem) = s.locate(d.index.offset(slot)).unwrap();
            let p = p.unwrap();
            let k = src.usize(0, covered(r.len()) - 1);
            if kind == 2 {
                r[src.usize(0, 3)] ^= 1 << src.below(8);
            } else {
                r[k * 512 + 510] ^= 1 << src.below(8);
            }
            s.store(&mut vol.disk, d.index.offset(slot), &r);
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            let file = ntfs.file(&mut dev, d.file.rec).okay("file")?;
            let item = find_item(&file, &mut dev, T_IALLOC, &I30, 0)?;
            let a = item.to_attribute().okay("to_attribute")?;
            let alloc = a.structured_value::<_, NtfsIndexAllocation>(&mut dev).okay("index allocation")?;
            match (kind, alloc.record_from_vcn(&mut dev, d.index.irs as u32, Vcn::from(d.index.vcn(slot) as i64))) {
                (2, Err(NtfsError::InvalidIndexSignature { position, .. })) => {
                    ctx.label("error: index signature");
                    at("error-signature", || format!("signature of index record {slot}"), position, Some(p))
                }
                (3, Err(NtfsError::UpdateSequenceNumberMismatch { position, .. })) => {
                    ctx.label("error: torn index record");
                    if rem < d.index.irs {
                        return Ok(());
                    }
                    at("error-torn", || format!("block {k} of index record {slot}"), position, Some(p + k as u64 * 512 + 510))
                }
                (_, r) => fail!("error-kind", "damaged index record {slot}: {:?}", r.map(|_| ())),
            }
        }
        4 => {
            ctx.label("error: sizes of the file record");
            unprotect(&mut b);
            let alloc_bad = src.bool();
            let size = b.len() as u32;
            let frs = vol.geo.frs as u32;
            if alloc_bad {
                p32(&mut b, 28, size + 1 + src.below(5000) as u32);
            } else {
                p32(&mut b, 24, size + 1 + src.below(5000) as u32);
            }
            let (uo, usn) = (g16(&b, 4) as usize, 7);
            protect(&mut b, uo, usn);
            vol.mft.store(&mut vol.disk, rec * vol.geo.frs, &b);
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            match ntfs.file(&mut dev, rec) {
                Err(NtfsError::InvalidFileAllocatedSize { position, .. }) if alloc_bad => at("error-sizes", || format!("allocated size of record {rec}"), position, Some(pos)),
                Err(NtfsError::InvalidFileUsedSize { position, .. }) if !alloc_bad => at("error-sizes", || format!("used size of record {rec}"), position, Some(pos)),
                r => fail!("error-kind", "sizes of record {rec} (of {frs}): {:?}", r.map(|_| ())),
            }
        }
        5..=8 if whole && !raws.is_empty() => {
            // One attribute's header.
            let i = src.usize(0, raws.len() - 1);
            let w = raws[i].clone();
            unprotect(&mut b);
            let o = w.off;
            let ap = pos + o as u64;
            let name = !w.name.is_empty() && g32(&b, o + 4) < 65536;
            match kind {
                5 => p32(&mut b, o, *src.pick(&[0x11u32, 0x110, 0xFFFF_FFFE, 0x8_0000, 1, 0x1000_0010])),
                6 => {
                    let n = src.below(16) as u32;
                    p32(&mut b, o + 4, n)
                }
                7 => {
                    // The length beyond the used part of the record.
                    let used = g32(&b, 24);
                    p32(&mut b, o + 4, used - o as u32 + 8 * (1 + src.below(9) as u32))
                }
                _ if name => {
                    let n = g32(&b, o + 4) as u16 - src.below(2 * w.name.len() as u64) as u16;
                    p16(&mut b, o + 10, n)
                }
                _ if w.resident => {
                    let n = g32(&b, o + 4);
                    p32(&mut b, o + 16, n)
                }
                _ => p16(&mut b, o + 32, 0xFFF0),
            }
            let uo = g16(&b, 4) as usize;
            protect(&mut b, uo, 9);
            vol.mft.store(&mut vol.disk, rec * vol.geo.frs, &b);
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            let file = ntfs.file(&mut dev, rec).okay("file")?;
            let mut it = file.attributes_raw();
            for _ in 0..i {
                it.next().okay("attributes_raw")?;
            }
            let what = || format!("attribute {i} at {o} of record {rec} at {pos}");
            match (kind, it.next()) {
                (5, Some(Ok(a))) => match a.ty() {
                    Err(NtfsError::UnsupportedAttributeType { position, .. }) => {
                        ctx.label("error: attribute type");
                        at("error-type", what, position, Some(ap))
                    }
                    r => fail!("error-kind", "unknown attribute type: {r:?}"),
                },
                (6 | 7, Some(Err(NtfsError::InvalidAttributeLength { position, .. }))) => {
                    ctx.label("error: attribute length");
                    at("error-length", what, position, Some(ap))
                }
                (8, Some(Ok(a))) if name => match a.name() {
                    Err(NtfsError::InvalidAttributeNameOffset { position, .. } | NtfsError::InvalidAttributeNameLength { position, .. }) => {
                        ctx.label("error: attribute name");
                        at("error-name", what, position, Some(ap))
                    }
                    r => fail!("error-kind", "name behind the attribute: {:?}", r.map(|n| show(&units(&n)))),
                },
                (8, Some(Ok(a))) => match a.value(&mut dev).map(|_| ()) {
                    Err(NtfsError::InvalidResidentAttributeValueLength { position, .. }) if w.resident => {
                        ctx.label("error: value length");
                        at("error-value", what, position, Some(ap))
                    }
                    Err(NtfsError::InvalidNonResidentValueDataRange { .. }) => Ok(()),
                    r => fail!("error-kind", "value behind the attribute: {r:?}"),
                },
                (_, r) => fail!("error-kind", "kind {kind}: {:?}", r.map(|r| r.map(|_| ()))),
            }
        }
        9 => {
            ctx.label("error: not a directory");
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            let file = ntfs.file(&mut dev, m.rec).okay("file")?;
            match file.directory_index(&mut dev) {
                Err(NtfsError::NotADirectory { position }) => at("error-directory", || format!("record {}", m.rec), position, Some(vol.rec_pos(m.rec)))?,
                r => fail!("error-kind", "directory_index of a file: {:?}", r.map(|_| ())),
            }
            if !m.raw[0].1.iter().any(|r| r.ty == T_STD) {
                match file.info() {
                    Err(NtfsError::AttributeNotFound { position, .. }) => at("error-missing", || format!("record {}", m.rec), position, Some(vol.rec_pos(m.rec)))?,
                    r => fail!("error-kind", "info() without standard information: {:?}", r.map(|_| ())),
                }
            }
            Ok(())
        }
        10 | 11 if whole && !raws.is_empty() => {
            let i = src.usize(0, raws.len() - 1);
            let w = raws[i].clone();
            let ap = pos + w.off as u64;
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            let file = ntfs.file(&mut dev, rec).okay("file")?;
            let a = file.attributes_raw().nth(i).okay("attributes_raw")?;
            let what = || format!("attribute {i} ({:#x}) of record {rec}", w.ty);
            if w.ty != T_VOLINFO {
                match a.resident_structured_value::<NtfsVolumeInformation>() {
                    Err(NtfsError::AttributeOfDifferentType { position, .. }) => at("error-type", what, position, Some(ap))?,
                    r => fail!("error-kind", "another type: {:?}", r.map(|_| ())),
                }
                ctx.label("error: other type");
            }
            if !w.resident && w.ty == T_IROOT {
                match a.resident_structured_value::<NtfsIndexRoot>() {
                    Err(NtfsError::UnexpectedNonResidentAttribute { position }) => at("error-residency", what, position, Some(ap))?,
                    r => fail!("error-kind", "non-resident: {:?}", r.map(|_| ())),
                }
                ctx.label("error: residency");
            }
            Ok(())
        }
        12 if vol.contiguous(m.rec) => {
            // A structured value that is too short.
            let Some(l) = m.attrs.iter().find(|l| l.a.ty == T_NAME && l.pieces[0].rec == m.rec) else { return Ok(()) };
            let i = m.raw[0].1.iter().position(|r| r.inst == l.pieces[0].inst).unwrap();
            let o = l.pieces[0].off;
            let mut b = vol.rec_bytes(m.rec);
            let vo = g16(&b, o + 20) as usize;
            let ns = src.bool();
            if ns {
                b[o + vo + 65] = 4 + src.below(250) as u8;
            } else {
                let n = src.below(66) as u32;
                p32(&mut b, o + 16, n);
            }
            let uo = g16(&b, 4) as usize;
            protect(&mut b, uo, 11);
            vol.mft.store(&mut vol.disk, m.rec * vol.geo.frs, &b);
            let want = vol.rec_pos(m.rec) + (o + vo) as u64;
            let mut dev = vol.disk.reader();
            let ntfs = open(&mut dev)?;
            let file = ntfs.file(&mut dev, m.rec).okay("file")?;
            let a = file.attributes_raw().nth(i).okay("attributes_raw")?;
            match a.structured_value::<_, NtfsFileName>(&mut dev) {
                Err(NtfsError::InvalidStructuredValueSize { position, .. }) if !ns => {
                    ctx.label("error: value too short");
                    at("error-structured", || "short file name".into(), position, Some(want))
                }
                Err(NtfsError::UnsupportedFileNamespace { position, .. }) if ns => {
                    ctx.label("error: namespace");
                    at("error-structured", || "namespace".into(), position, Some(want))
                }
                r => fail!("error-kind", "malformed file name: {:?}", r.map(|_| ())),
            }
        }
        _ => Ok(()),
    }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 48, upcase: true, ..Default::default() });
    vol.list_pad_pct = 20;
    let attrs = gen_attrs(src, &mut vol, &AttrsOpts::default());
    let m = gen_file(src, &mut vol, attrs, 1);
    let d = gen_dir(src, &mut vol, &DirOpts { max_entries: 40, max_name: 40, max_depth: 3, ..Default::default() });
    vol.finish(src);
    ctx.describe(|| format!("{}; file record {} list {:?}: {}; directory: {}", desc_geo(&vol.geo), m.rec, m.list, m.attrs.iter().map(desc_attr).collect::<Vec<_>>().join("; "), desc_dir(&vol, &d)));
    if src.chance(30) {
        return errors(src, ctx, &mut vol, &m, &d);
    }
    let mut dev = vol.disk.reader();
    let ntfs = open_up(&mut dev)?;
    arithmetic(src, &vol, &ntfs)?;
    file_positions(src, ctx, &vol, &ntfs, &mut dev, &m)?;
    dir_positions(src, ctx, &vol, &ntfs, &mut dev, &d)
}
