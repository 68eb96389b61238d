//! C05: no image can crash the parser or make it work without bound.
use super::Prop;
use crate::api::*;
use crate::disk::{Dev, Disk};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use crate::world::*;
use nt_string::u16strle::U16StrLe;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsAttribute, NtfsFile, NtfsIndex, NtfsIndexEntry, NtfsReadSeek, UpcaseOrd};
use std::cmp::Ordering;
use std::io::{Read, Seek, SeekFrom};
use std::sync::OnceLock;

pub static PROP: Prop = Prop {
    id: "C05",
    f: prop,
    quick: 300_000,
    thorough: 20_000_000,
    rule: "a case is an image (a generated volume with files, directories, attribute lists and split attributes; the repository's test image; or a valid boot sector before random or hand-made hostile structures) with one to some dozen structure-aware mutations (fields of file records, attributes, run lists, attribute lists, index roots, index records, boot sector set to boundary, related or random values; records swapped, copied, zeroed; subnode and list references redirected to make cycles; the image truncated), the update sequences mostly made valid again. The whole public API is then walked over it. Failures: a panic (overflow checks and debug assertions are on), an abort, more device calls or bytes than the walk step can need, an iterator that outruns the largest possible count, memory beyond 24 MiB + 16 file records + the index node stack, or a case that takes more than 40 s CPU. Non-trivial: the mutated image still opens and at least one file record is accepted.",
    directed: &[("deep-index-chain", deep), ("list-of-itself", self_list), ("index-cycle", cycle)],
};

// ------------------------------------------------------------------ mutation

/// Values that mean something elsewhere on this volume.
struct Pool(Vec<u64>);

fn field(src: &mut Src, b: &mut [u8], off: usize, width: usize, pool: &Pool) {
    if off + width > b.len() {
        return;
    }
    let mut old = [0u8; 8];
    old[..width].copy_from_slice(&b[off..off + width]);
    let old = u64::from_le_bytes(old);
    let bits = 8 * width as u32;
    let v = match src.weighted(&[5, 4, 3, 2, 3, 2, 2, 1]) {
        0 => src.interesting(bits),
        1 => old.wrapping_add(src.range(1, 16)),
        2 => old.wrapping_sub(src.range(1, 16)),
        3 => old ^ 1 << src.below(bits as u64),
        4 => *src.pick(&pool.0),
        5 => 0,
        6 => src.below(64),
        // The same low bits.
        _ => old.wrapping_add(src.range(1, 0xFFFF) << (bits / 2)),
    };
    b[off..off + width].copy_from_slice(&v.to_le_bytes()[..width]);
}
fn get(b: &[u8], off: usize, w: usize) -> u64 {
    let mut x = [0u8; 8];
    for i in 0..w {
        x[i] = b.get(off + i).copied().unwrap_or(0);
    }
    u64::from_le_bytes(x)
}

/// (offset, width) of the fields of index entries in b[start..end].
fn entry_fields(b: &[u8], start: usize, end: usize, out: &mut Vec<(usize, usize)>) {
    let end = end.min(b.len());
    let mut o = start.min(end);
    let mut n = 0;
    while o + 16 <= end && n < 200 {
        let l = get(b, o + 8, 2) as usize;
        out.extend([(o, 8), (o, 2), (o + 2, 2), (o + 8, 2), (o + 8, 2), (o + 10, 2), (o + 12, 1), (o + 12, 1), (o + 16 + 64, 1), (o + 16 + 65, 1), (o + 16, 8)]);
        if l >= 24 && l <= end - o {
            out.extend([(o + l - 8, 8), (o + l - 8, 8)]);
        }
        if l < 16 {
            break;
        }
        o += l;
        n += 1;
    }
}
fn list_fields(b: &[u8], start: usize, end: usize, out: &mut Vec<(usize, usize)>) {
    let end = end.min(b.len());
    let mut o = start.min(end);
    let mut n = 0;
    while o + 26 <= end && n < 200 {
        let l = get(b, o + 4, 2) as usize;
        out.extend([(o, 4), (o + 4, 2), (o + 6, 1), (o + 7, 1), (o + 8, 8), (o + 16, 8), (o + 16, 6), (o + 24, 2)]);
        if l < 26 {
            break;
        }
        o += l;
        n += 1;
    }
}
fn record_fields(b: &[u8], src: &mut Src, focus: bool) -> Vec<(usize, usize)> {
    if b.len() < 64 {
        return vec![(0, 4)];
    }
    if &b[..4] == b"INDX" {
        let mut v = vec![(24, 4), (28, 4), (32, 4), (36, 1), (16, 8), (4, 2), (6, 2)];
        let start = 24usize.saturating_add(get(b, 24, 4) as usize);
        let end = 24usize.saturating_add(get(b, 28, 4) as usize);
        let head = v.len();
        entry_fields(b, start, end, &mut v);
        if focus && v.len() > head {
            v.drain(..head);
        }
        return v;
    }
    let mut v = vec![(20, 2), (22, 2), (24, 4), (28, 4), (4, 2), (6, 2), (16, 2), (18, 2), (32, 8), (0, 4)];
    let mut groups: Vec<Vec<(usize, usize)>> = vec![];
    let mut o = get(b, 20, 2) as usize;
    let mut n = 0;
    while o + 24 <= b.len() && n < 60 {
        let ty = get(b, o, 4) as u32;
        let l = get(b, o + 4, 4) as usize;
        if ty == T_END || l < 16 {
            break;
        }
        let mut g = vec![(o, 4), (o, 1), (o + 4, 4), (o + 8, 1), (o + 9, 1), (o + 10, 2), (o + 12, 2), (o + 14, 2)];
        if b[o + 8] == 0 {
            g.extend([(o + 16, 4), (o + 20, 2), (o + 16, 4), (o + 20, 2)]);
            let vo = o + get(b, o + 20, 2) as usize;
            let vl = get(b, o + 16, 4) as usize;
            match ty {
                T_IROOT => {
                    g.extend([(vo, 4), (vo + 8, 4), (vo + 12, 1), (vo + 16, 4), (vo + 20, 4), (vo + 24, 4), (vo + 28, 1)]);
                    entry_fields(b, (vo + 16).saturating_add(get(b, vo + 16, 4) as usize), vo.saturating_add(vl), &mut g);
                }
                T_LIST => list_fields(b, vo, vo.saturating_add(vl), &mut g),
                T_NAME => g.extend([(vo + 64, 1), (vo + 65, 1), (vo, 8), (vo + 8, 8)]),
                _ => {
                    if vl > 0 {
                        let k = src.usize(0, vl.min(200) - 1);
                        g.push((vo + k, 1));
                    }
                }
            }
        } else {
            g.extend([(o + 16, 8), (o + 24, 8), (o + 32, 2), (o + 34, 2), (o + 40, 8), (o + 48, 8), (o + 56, 8), (o + 48, 8)]);
            let ro = o + get(b, o + 32, 2) as usize;
            for k in 0..24.min(o.saturating_add(l).saturating_sub(ro)) {
                g.push((ro + k, 1));
            }
            g.push((ro, 8));
        }
        groups.push(g);
        o = o.saturating_add(l).min(b.len());
        n += 1;
    }
    if focus && !groups.is_empty() {
        return src.pick(&groups).clone();
    }
    for g in groups {
        v.extend(g);
    }
    v
}

/// Mutates one unprotected record and makes its update sequence valid again (mostly).
fn mutate(src: &mut Src, b: &mut Vec<u8>, pool: &Pool) {
    let n = src.weighted(&[6, 2, 1]) + 1;
    let usa = get(b, 4, 2) as usize;
    let blocks = covered(b.len());
    for _ in 0..n {
        if src.chance(90) {
            let focus = src.bool();
            let f = record_fields(b, src, focus);
            let (o, w) = *src.pick(&f);
            field(src, b, o, w, pool);
        } else if !b.is_empty() {
            // A few bytes anywhere.
            let o = src.usize(0, b.len() - 1);
            let k = src.range(1, 8) as usize;
            for i in o..(o + k).min(b.len()) {
                b[i] = src.below(256) as u8;
            }
        }
    }
    if src.chance(92) {
        // Only if the array still covers the record, as a good record's does.
        let keep = get(b, 4, 2) as usize == usa && get(b, 6, 2) as usize == blocks + 1;
        if keep && usa + 2 * (blocks + 1) <= b.len() {
            let usn = 1 + src.below(0xFFFF) as u16;
            protect(b, usa, usn);
        }
    }
}

/// A place of a record on the disk.
#[derive(Clone)]
struct Place {
    stream: Stream,
    off: u64,
    len: u64,
    indx: bool,
}
fn load(d: &Disk, p: &Place) -> Vec<u8> {
    let mut b = p.stream.content(d, p.off, p.len);
    let (o, n) = (get(&b, 4, 2) as usize, get(&b, 6, 2) as usize);
    if n >= 1 && o + 2 * n <= b.len() && (n - 1) * 512 <= b.len() {
        unprotect(&mut b);
    }
    b
}

static IMAGE: OnceLock<Option<Vec<u8>>> = OnceLock::new();
/// Where there are no files: the test image comes from outside.
pub fn set_test_image(b: Vec<u8>) {
    let _ = IMAGE.set(usable(b));
}
fn usable(b: Vec<u8>) -> Option<Vec<u8>> {
    (b.len() >= 1 << 20 && &b[3..7] == b"NTFS").then_some(b)
}
fn test_image() -> Option<&'static Vec<u8>> {
    IMAGE.get_or_init(|| usable(std::fs::read("/repo/testdata/testfs1").ok()?)).as_ref()
}

fn boot_field(src: &mut Src, d: &mut Disk, pool: &Pool) {
    let mut b = d.get(0, 512);
    b.resize(512, 0);
    let (o, w) = *src.pick(&[(11usize, 2usize), (13, 1), (40, 8), (48, 8), (48, 8), (56, 8), (64, 1), (64, 1), (68, 1), (510, 2), (72, 8)]);
    field(src, &mut b, o, w, pool);
    d.write(0, &b);
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[16, 3, 2]) {
        0 => world(src, ctx),
        1 => image(src, ctx),
        _ => random(src, ctx),
    }
}

fn world(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, false);
    ctx.label("generated volume");
    let mft = Stream { data: w.vol.mft.alloc_bytes(), init: w.vol.mft.alloc_bytes(), ..w.vol.mft.clone() };
    let frs = w.vol.geo.frs;
    let mut places: Vec<Place> = vec![];
    let mut pool = vec![0, 1, 2, frs, w.vol.geo.cluster, u64::MAX, i64::MAX as u64, 1 << 63, 512, 4096];
    for f in w.vol.files.values().chain(w.files.iter()).chain(w.dirs.iter().map(|d| &d.file)) {
        for (r, raws) in &f.raw {
            places.push(Place { stream: mft.clone(), off: r * frs, len: frs, indx: false });
            pool.push(*r);
            pool.push(fref(*r, 1));
            for a in raws {
                pool.extend([a.len, a.off as u64, a.size as u64, a.ty as u64, a.inst as u64]);
            }
        }
        pool.push(fref(f.rec, f.seq));
        if let Some(s) = &f.list_stream {
            // The list's own clusters, as raw bytes.
            places.push(Place { stream: s.clone(), off: 0, len: s.data.min(4096), indx: true });
        }
    }
    let mut nodes = vec![];
    for d in &w.dirs {
        if let Some(s) = &d.stream {
            for slot in 0..d.index.slots {
                let off = d.index.offset(slot);
                if s.locate(off + d.index.irs - 1).is_some() {
                    let p = Place { stream: s.clone(), off, len: d.index.irs, indx: true };
                    nodes.push(p.clone());
                    places.push(p.clone());
                    places.push(p);
                    pool.push(d.index.vcn(slot));
                }
            }
        }
    }
    let pool = Pool(pool);
    let mut disk = w.vol.disk.clone();
    let mut recs = w.recs.clone();
    recs.extend(w.vol.files.values().flat_map(|f| f.raw.iter().map(|r| r.0)));
    recs.extend([0, 3, 5, 10]);
    recs.sort();
    recs.dedup();
    let desc = if ctx.want_desc { w.describe() } else { String::new() };
    let log = hurt(src, &mut disk, &places, &nodes, &pool);
    ctx.describe(|| format!("{log}; {desc}"));
    go(src, ctx, &disk, &recs)
}

/// Applies some mutations.
fn hurt(src: &mut Src, disk: &mut Disk, places: &[Place], nodes: &[Place], pool: &Pool) -> String {
    let mut log = String::new();
    let n = match src.weighted(&[5, 3, 1]) {
        0 => src.range(1, 3),
        1 => src.range(2, 8),
        _ => src.range(8, 30),
    };
    for _ in 0..n {
        match src.weighted(&[40, 4, 3, 4, 1, 2]) {
            0 => {
                let p = src.pick(places).clone();
                let mut b = load(disk, &p);
                let is_list = p.indx && b.len() >= 4 && &b[..4] != b"INDX" && &b[..4] != b"FILE";
                if is_list {
                    let mut f = vec![];
                    list_fields(&b, 0, b.len(), &mut f);
                    if f.is_empty() {
                        continue;
                    }
                    let (o, w) = *src.pick(&f);
                    field(src, &mut b, o, w, pool);
                } else {
                    mutate(src, &mut b, pool);
                }
                p.stream.store(disk, p.off, &b);
                log += &format!("field of a record at {}, ", p.off);
            }
            1 => {
                // One record over another.
                let p = src.pick(places).clone();
                let q = src.pick(places).clone();
                let mut b = p.stream.content(disk, p.off, p.len);
                b.truncate(q.len as usize);
                q.stream.store(disk, q.off, &b);
                log += "record over another, ";
            }
            2 => {
                if nodes.is_empty() {
                    continue;
                }
                // One node over another under that one's number.
                let p = src.pick(nodes).clone();
                let q = src.pick(nodes).clone();
                if p.len != q.len {
                    continue;
                }
                let mut b = p.stream.content(disk, p.off, p.len);
                let old = q.stream.content(disk, q.off, q.len);
                b[16..24].copy_from_slice(&old[16..24]);
                q.stream.store(disk, q.off, &b);
                log += "node over another, ";
            }
            3 => {
                if nodes.is_empty() {
                    continue;
                }
                // Some entry of a node leads to another node of the index (or itself).
                let p = src.pick(nodes).clone();
                let q = src.pick(nodes).clone();
                let mut b = load(disk, &p);
                if &b[..4] != b"INDX" {
                    continue;
                }
                let vcn = get(&q.stream.content(disk, q.off, 24), 16, 8);
                let start = 24 + get(&b, 24, 4) as usize;
                let end = 24usize.saturating_add(get(&b, 28, 4) as usize).min(b.len());
                let offs = entry_offsets(&b, start.min(b.len()), end);
                if offs.is_empty() {
                    continue;
                }
                let o = *src.pick(&offs);
                let l = get(&b, o + 8, 2) as usize;
                if l < 24 || o + l > b.len() {
                    continue;
                }
                b[o + 12] |= 1;
                b[o + l - 8..o + l].copy_from_slice(&vcn.to_le_bytes());
                let usa = get(&b, 4, 2) as usize;
                if usa + 2 * (b.len() / 512 + 1) < b.len() && get(&b, 6, 2) as usize == b.len() / 512 + 1 {
                    protect(&mut b, usa, 3);
                }
                p.stream.store(disk, p.off, &b);
                log += "redirected subnode, ";
            }
            4 => {
                boot_field(src, disk, pool);
                log += "boot sector, ";
            }
            _ => {
                let p = src.pick(places).clone();
                let zero = src.bool();
                let s = src.u64();
                let b: Vec<u8> = (0..p.len).map(|i| if zero { 0 } else { mix(s ^ i) as u8 }).collect();
                p.stream.store(disk, p.off, &b);
                log += "erased record, ";
            }
        }
    }
    if src.chance(6) {
        let hi = disk.len;
        disk.len = if src.bool() { src.size(0, hi) } else { hi - src.size(0, hi) };
        log += &format!("cut at {}", disk.len);
    }
    log
}

fn image(src: &mut Src, ctx: &mut Ctx) -> R {
    let Some(img) = test_image() else { return Ok(()) };
    ctx.label("the repository's test image");
    let whole = Stream { cluster: 512, runs: vec![Run { lcn: Some(0), len: img.len() as u64 / 512 }], data: img.len() as u64, init: img.len() as u64 };
    let mut places = vec![];
    let mut nodes = vec![];
    let mut pool = vec![0, 1, 5, 1024, 4096, u64::MAX, i64::MAX as u64];
    static FOUND: OnceLock<(Vec<u64>, Vec<u64>)> = OnceLock::new();
    let (files, indx) = FOUND.get_or_init(|| {
        let f = (0..img.len()).step_by(512).filter(|o| &img[*o..*o + 4] == b"FILE").map(|o| o as u64).collect();
        let i = (0..img.len()).step_by(512).filter(|o| &img[*o..*o + 4] == b"INDX").map(|o| o as u64).collect();
        (f, i)
    });
    for o in files {
        places.push(Place { stream: whole.clone(), off: *o, len: 1024, indx: false });
    }
    for o in indx {
        let p = Place { stream: whole.clone(), off: *o, len: 4096, indx: true };
        nodes.push(p.clone());
        for _ in 0..6 {
            places.push(p.clone());
        }
    }
    for k in 0..80 {
        pool.push(k);
        pool.push(fref(k, 1));
    }
    let mut disk = Disk::from_image(img.clone());
    let log = hurt(src, &mut disk, &places, &nodes, &Pool(pool));
    ctx.describe(|| format!("test image: {log}"));
    let recs: Vec<u64> = (0..12).chain(24..=64).collect();
    go(src, ctx, &disk, &recs)
}

/// A valid boot sector, and records of random attributes.
fn random(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("hand-made structures");
    let max_frs = if src.chance(15) { 131_072 } else { 8192 };
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, big_mft: 0, max_cluster: 65536, max_frs, ..Default::default() });
    vol.finish(src);
    let frs = vol.geo.frs as usize;
    let n = src.range(1, 6);
    let mut recs = vec![];
    let base: u64 = 16;
    for k in 0..n {
        let mut attrs = vec![];
        let mut left = vol.cap();
        for _ in 0..src.range(0, 6) {
            let ty = if src.chance(40) { *src.pick(&[T_LIST, T_IROOT, T_IALLOC, T_DATA]) } else { *src.pick(&ALL_TYPES) };
            let name = if src.chance(60) { if matches!(ty, T_IROOT | T_IALLOC) { I30.to_vec() } else { vec![] } } else { gen_name(src, 0, 10) };
            let h = AttrHdr { ty, name, flags: 0, inst: src.below(6) as u16, gap: 0, tail: 8 * src.below(2) as usize };
            let a = if src.bool() {
                let v = match ty {
                    T_LIST => {
                        let mut v = vec![];
                        for _ in 0..src.range(0, 12) {
                            let nm = if src.chance(70) { vec![] } else { gen_name(src, 0, 4) };
                            let e = ListEntry {
                                ty: *src.pick(&[T_DATA, T_LIST, T_IALLOC, T_IROOT, T_NAME]),
                                name: nm,
                                lowest: if src.bool() { 0 } else { src.size(0, 9) },
                                file_ref: fref(base + src.below(n), 1),
                                inst: src.below(6) as u16,
                            };
                            v.extend(list_entry(&e));
                        }
                        v
                    }
                    T_IROOT => {
                        let mut es = vec![];
                        let ne = src.range(1, 4);
                        for i in 0..ne {
                            let sub = if src.bool() { Some(src.size(0, 20)) } else { None };
                            let ns = src.below(4) as u8;
                            let nm = gen_name(src, 0, 5);
                            let k = gen_fn(src, nm, ns);
                            let key = if i + 1 == ne { vec![] } else { file_name(&k) };
                            es.extend(index_entry(fref(base, 1), &key, &[], sub, i + 1 == ne));
                        }
                        let irs = *src.pick(&[4096u32, 512, 1024, 65536, 1 << 21, 40, 48]);
                        index_root(0x30, 1, irs, 1, &es, src.bool())
                    }
                    _ => {
                        let n = src.size(0, 200) as usize;
                        junk(src, n)
                    }
                };
                attr_resident(&h, &v, 0)
            } else {
                let mut pairs = vec![];
                for _ in 0..src.range(0, 6) {
                    if src.chance(70) {
                        let len = src.size(1, 1 << 20);
                        let lcn = if src.chance(60) { Some(src.size(0, 400) as i64 - 20) } else { None };
                        pair(&mut pairs, len, lcn, 0, 0);
                    } else {
                        for _ in 0..src.range(1, 6) {
                            pairs.push(src.below(256) as u8);
                        }
                    }
                }
                pairs.push(0);
                let x = NonRes { lowest: if src.chance(70) { 0 } else { src.interesting(63) }, highest: src.interesting(20) as i64, comp_unit: 0, alloc: src.interesting(63), data: src.interesting(63), init: src.interesting(63), total: None };
                attr_nonres(&h, &x, &pairs)
            };
            if a.len() > left {
                break;
            }
            left -= a.len();
            attrs.push(a);
        }
        let flags = src.below(4) as u16;
        let h = RecHdr { usa_off: vol.usa_off, usn: 5, lsn: 0, seq: 1, links: 1, flags, base_ref: 0, next_inst: 9, recno: (base + k) as u32, attrs_off: first_attr_off(vol.usa_off, frs) };
        let Some(mut b) = file_record(&h, frs, &attrs, 0) else { continue };
        protect(&mut b, vol.usa_off, 5);
        if src.chance(if frs > 60_000 { 60 } else { 8 }) {
            // An update sequence elsewhere, such as just at the end of what 16 bits can address.
            let o = match src.below(3) {
                0 => 65_535 - src.below(300),
                1 => (frs as u64 - src.below(300)).min(65_535),
                _ => src.below(65_536),
            } as usize;
            let n = if src.chance(70) { frs / 512 + 1 } else { src.size(0, 65_535) as usize };
            p16(&mut b, 4, o as u16);
            p16(&mut b, 6, n as u16);
            if o + 2 <= frs && src.bool() {
                // All blocks end with what is found there.
                let u = g16(&b, o);
                for i in 1..=frs / 512 {
                    p16(&mut b, i * 512 - 2, u);
                }
            }
        }
        vol.mft.store(&mut vol.disk, (base + k) * frs as u64, &b);
        recs.push(base + k);
    }
    recs.extend([0, 5]);
    ctx.describe(|| format!("{}; {} records of random attributes", desc_geo(&vol.geo), n));
    go(src, ctx, &vol.disk, &recs)
}

// ------------------------------------------------------------------ hostile shapes

fn hostile_dir(src: &mut Src, n: u64, irs: u64, child: impl Fn(u64) -> Option<u64>) -> (Vol, u64) {
    let mut vol = Vol::new(src, &VolOpts { records: 40, typical_geo: true, spread: 0, big_mft: 0, mft_runs: 1, upcase: true, ..Default::default() });
    let s = alloc_stream(src, &mut vol.al, 4096, n * irs, 1);
    for k in 0..n {
        let sub = child(k);
        let e = index_entry(0, &[], &[], sub, true);
        let mut b = index_record(irs as usize, k * irs / 4096, 0, 40, &e, sub.is_some(), 0).unwrap();
        protect(&mut b, 40, 1);
        s.store(&mut vol.disk, k * irs, &b);
    }
    let e = index_entry(0, &[], &[], Some(0), true);
    let attrs = vec![vol.std_attr(src), Attr::res(T_IROOT, &I30, index_root(0x30, 1, irs as u32, 1, &e, true)), Attr::non(T_IALLOC, &I30, s)];
    let rec = vol.new_rec(src);
    vol.add_file(src, FileSpec { rec, seq: 1, links: 1, flags: 3, attrs, list_pct: 0, list_non_pct: 0, stay_pct: 100 });
    vol.finish(src);
    (vol, rec)
}
/// A chain of subnodes as deep as the volume is large, at whose end the first one is referenced.
fn deep(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = 2500;
    let (vol, rec) = hostile_dir(src, n, 4096, |k| if k + 1 < n { Some(k + 1) } else { None });
    chain_check(&vol, rec, false)?;
    ctx.nontrivial = true;
    Ok(())
}
fn cycle(src: &mut Src, ctx: &mut Ctx) -> R {
    for n in [1, 2, 7, 300] {
        let (vol, rec) = hostile_dir(src, n, 4096, |k| Some((k + 1) % n));
        chain_check(&vol, rec, true)?;
    }
    ctx.nontrivial = true;
    Ok(())
}
fn chain_check(vol: &Vol, rec: u64, cyclic: bool) -> R {
    let mut dev = vol.disk.reader();
    let ntfs = open_up(&mut dev)?;
    let f = ntfs.file(&mut dev, rec).okay("file")?;
    let ix = f.directory_index(&mut dev).okay("directory_index")?;
    // (A cyclic index has to be finite; whether by an error or by an end is the parser's choice.)
    let mut it = ix.entries();
    dev.reset_budget(100_000, 100 << 20);
    let mut n = 0;
    while let Some(e) = it.next(&mut dev) {
        let Ok(_) = e else { break };
        n += 1;
        ck!(n < 10_000, "endless-index", "the listing of a{} chain of empty nodes yields {n} entries", if cyclic { " cyclic" } else { "" });
    }
    dev.reset_budget(100_000, 100 << 20);
    let mut fi = ix.finder();
    let r = NtfsFileNameIndex::find(&mut fi, &ntfs, &mut dev, "x");
    ck!(!matches!(r, Some(Ok(_))), "lookup", "an entry is found in an index without entries");
    ck!(cyclic || r.is_none(), "lookup", "the lookup in a deep index fails");
    Ok(())
}
/// Attribute lists that list themselves, each other, and attributes that do.
fn self_list(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 60, typical_geo: true, spread: 0, big_mft: 0, mft_runs: 1, ..Default::default() });
    let frs = vol.geo.frs as usize;
    vol.finish(src);
    for shape in 0..4u64 {
        for (rec, other) in [(20u64, 21u64), (21, 20)] {
            let mut l = vec![];
            for k in 0..8u64 {
                let to = if shape & 1 == 0 { rec } else { other };
                l.extend(list_entry(&ListEntry { ty: if k % 2 == 0 { T_LIST } else { T_DATA }, name: vec![], lowest: if shape & 2 == 0 { 0 } else { k }, file_ref: fref(to, 1), inst: (k % 2) as u16 }));
            }
            let list = attr_resident(&AttrHdr { ty: T_LIST, name: vec![], flags: 0, inst: 0, gap: 0, tail: 0 }, &l, 0);
            let mut pairs = vec![];
            pair(&mut pairs, 3, Some(30), 0, 0);
            pairs.push(0);
            let d = attr_nonres(&AttrHdr { ty: T_DATA, name: vec![], flags: 0, inst: 1, gap: 0, tail: 0 }, &NonRes { lowest: 0, highest: 100, comp_unit: 0, alloc: 1 << 30, data: 1 << 30, init: 1 << 30, total: None }, &pairs);
            let h = RecHdr { usa_off: vol.usa_off, usn: 5, lsn: 0, seq: 1, links: 1, flags: 1, base_ref: 0, next_inst: 9, recno: rec as u32, attrs_off: first_attr_off(vol.usa_off, frs) };
            let mut b = file_record(&h, frs, &[list, d], 0).unwrap();
            protect(&mut b, vol.usa_off, 5);
            vol.mft.store(&mut vol.disk, rec * frs as u64, &b);
        }
        go(src, ctx, &vol.disk, &[20, 21])?;
    }
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ the walk

struct Walk<'a, 'd> {
    src: &'a mut Src,
    dev: Dev<'d>,
    frs: u64,
    accepted: u64,
    /// Values read so far (a bound for the case's time).
    work: u64,
    buf: Vec<u8>,
    nodes: u64,
}

fn go(src: &mut Src, ctx: &mut Ctx, disk: &Disk, recs: &[u64]) -> R {
    let buf = vec![0u8; 64 << 10];
    crate::alloc_track::reset();
    let mut dev = disk.reader();
    dev.reset_budget(2000, 1 << 16);
    let Ok(mut ntfs) = Ntfs::new(&mut dev) else {
        ctx.label("boot sector refused");
        return Ok(());
    };
    let frs = ntfs.file_record_size() as u64;
    let mut w = Walk { src, dev, frs, accepted: 0, work: 0, buf, nodes: 0 };
    let _ = (ntfs.size(), ntfs.serial_number(), ntfs.sector_size(), ntfs.cluster_size(), ntfs.mft_position());
    w.step();
    let has_table = ntfs.read_upcase_table(&mut w.dev).is_ok();
    w.step();
    let _ = ntfs.volume_info(&mut w.dev).map(|v| (v.flags(), v.major_version(), v.minor_version(), format!("{}", v.flags())));
    w.step();
    let _ = ntfs.volume_name(&mut w.dev).map(|v| v.map(|v| v.name().to_string_lossy()));
    w.step();
    let _ = ntfs.root_directory(&mut w.dev).map(|f| f.file_record_number());
    let max = if frs > 1 << 20 { 4 } else { 60 };
    let mut todo: Vec<u64> = recs.to_vec();
    if todo.len() > max {
        let p = w.src.perm(todo.len());
        todo = p.into_iter().take(max).map(|i| recs[i]).collect();
    }
    todo.push(w.src.interesting(64));
    for r in todo {
        if w.work > 40 << 20 {
            break;
        }
        w.step();
        let f = match ntfs.file(&mut w.dev, r) {
            Ok(f) => f,
            Err(e) => {
                let _ = e.to_string();
                continue;
            }
        };
        w.accepted += 1;
        w.file(&ntfs, &f, has_table)?;
    }
    // The deepest chain of nodes keeps one record per level.
    let limit = (24 << 20) + 16 * frs + w.nodes * (4 << 20);
    let peak = crate::alloc_track::peak();
    let accepted = w.accepted;
    drop(w);
    ck!(peak <= limit, "memory", "{peak} bytes were allocated at once, file records have {frs} bytes");
    ctx.nontrivial = accepted > 0;
    ctx.label_if(accepted > 0, "records accepted");
    Ok(())
}

const ITEMS: u64 = 300_000;

impl<'a, 'd> Walk<'a, 'd> {
    /// A fresh I/O budget for the next operation.
    fn step(&mut self) {
        self.work += self.dev.bytes;
        self.dev.reset_budget(300_000, (96 << 20) + 400 * self.frs);
    }

    fn file(&mut self, ntfs: &Ntfs, f: &NtfsFile, table: bool) -> R {
        obs(&[f.is_directory() as u8]);
        let _ = (f.file_record_number(), f.sequence_number(), f.hard_link_count(), f.is_directory(), f.allocated_size(), f.data_size(), f.position(), format!("{}", f.flags()));
        if let Ok(i) = f.info() {
            let _ = (i.creation_time(), i.access_time(), i.modification_time(), i.mft_record_modification_time(), i.class_id(), i.maximum_versions(), i.owner_id(), i.quota_charged(), i.security_id(), i.usn(), i.version(), format!("{}", i.file_attributes()));
            let _ = time::OffsetDateTime::from(i.creation_time());
        }
        self.step();
        let ns = *self.src.pick(&[None, Some(NtfsFileNamespace::Win32), Some(NtfsFileNamespace::Dos)]);
        let parent = if self.src.bool() { None } else { Some(5) };
        if let Some(Ok(n)) = f.name(&mut self.dev, ns, parent) {
            self.name(ntfs, &n, table);
        }
        self.step();
        if let Some(Ok(i)) = f.data(&mut self.dev, "") {
            if let Ok(a) = i.to_attribute() {
                self.attribute(&a)?;
            }
        }
        if table {
            self.step();
            let _ = f.data(&mut self.dev, "a").map(|i| i.map(|i| i.to_attribute().map(|a| a.value_length())));
        }
        // Raw attributes.
        let mut n = 0;
        for a in f.attributes_raw() {
            let Ok(a) = a else { break };
            n += 1;
            ck!(n <= self.frs / 16 + 1, "endless-attributes", "a record of {} bytes yields {n} raw attributes", self.frs);
            self.attribute(&a)?;
        }
        // Flattened attributes; afterwards the same attached to the reader.
        let mut it = f.attributes();
        let mut n = 0;
        loop {
            self.step();
            let Some(i) = it.next(&mut self.dev) else { break };
            let Ok(i) = i else { break };
            n += 1;
            ck!(n <= ITEMS, "endless-attributes", "a file yields {n} attributes");
            if let Ok(a) = i.to_attribute() {
                if n < 40 {
                    self.attribute(&a)?;
                }
            }
        }
        self.step();
        let mut n = 0;
        for i in f.attributes().attach(&mut self.dev) {
            if i.is_err() {
                break;
            }
            n += 1;
            ck!(n <= ITEMS, "endless-attributes", "a file yields {n} attributes");
            if n > 200 {
                break;
            }
        }
        // As a directory.
        self.step();
        if let Ok(ix) = f.directory_index(&mut self.dev) {
            self.index(ntfs, &ix, table)?;
        }
        // Any root with any allocation of the file.
        let mut roots = vec![];
        let mut allocs = vec![];
        let mut it = f.attributes();
        for _ in 0..100 {
            self.step();
            let Some(Ok(i)) = it.next(&mut self.dev) else { break };
            let Ok(a) = i.to_attribute() else { break };
            match a.ty().map(|t| t as u32) {
                Ok(T_IROOT) => roots.push(i.clone()),
                Ok(T_IALLOC) => allocs.push(i.clone()),
                _ => {}
            }
        }
        if self.src.bool() {
            if let (Some(r), a) = (roots.last().cloned(), if self.src.bool() { allocs.first().cloned() } else { None }) {
                if let Ok(ix) = NtfsIndex::<NtfsFileNameIndex>::new(r, a) {
                    self.index(ntfs, &ix, table)?;
                }
            }
        }
        Ok(())
    }

    fn name(&mut self, ntfs: &Ntfs, n: &NtfsFileName, table: bool) {
        let _ = (n.allocated_size(), n.data_size(), n.is_directory(), n.name_length(), n.namespace(), n.parent_directory_reference().file_record_number(), format!("{}", n.file_attributes()));
        for t in [n.creation_time(), n.access_time(), n.modification_time(), n.mft_record_modification_time()] {
            let _ = time::OffsetDateTime::from(t);
        }
        let u = n.name();
        obs(u.0);
        let _ = (u.to_string_lossy(), format!("{u:?}"));
        if table {
            let _ = (u.upcase_cmp(ntfs, &"abc"), u.upcase_cmp(ntfs, &U16StrLe(&[0x41, 0, 0, 0xD8])), "x".upcase_cmp(ntfs, &u));
        }
    }

    fn value<V: NtfsReadSeek>(&mut self, v: &mut V, len: u64) -> R {
        for k in 0..4 {
            let p = match k {
                0 => None,
                1 => Some(SeekFrom::Start(self.src.size(0, len.max(1)))),
                2 => Some(SeekFrom::End(-(self.src.size(0, len.clamp(1, i64::MAX as u64)) as i64))),
                _ => Some(match self.src.below(3) {
                    0 => SeekFrom::Current(self.src.interesting(64) as i64),
                    1 => SeekFrom::Start(self.src.interesting(64)),
                    _ => SeekFrom::End(self.src.interesting(64) as i64),
                }),
            };
            if let Some(p) = p {
                self.step();
                if v.seek(&mut self.dev, p).is_err() {
                    continue;
                }
            }
            obs(&v.stream_position().to_le_bytes());
            let n = match k {
                0 => self.buf.len(),
                _ => self.src.size(1, 5000) as usize,
            };
            let mut buf = std::mem::take(&mut self.buf);
            let mut got = 0;
            while got < n {
                self.step();
                match v.read(&mut self.dev, &mut buf[got..n]) {
                    Ok(0) | Err(_) => break,
                    Ok(g) => {
                        if g > n - got {
                            self.buf = buf;
                            fail!("read-count", "read returned {g} for a buffer of {}", n - got);
                        }
                        got += g;
                    }
                }
            }
            self.work += got as u64;
            obs(&buf[..got]);
            self.buf = buf;
        }
        Ok(())
    }

    fn attribute(&mut self, a: &NtfsAttribute) -> R {
        let _ = (a.attribute_length(), a.instance(), a.is_resident(), a.name_length(), a.position(), format!("{}", a.flags()));
        let len = a.value_length();
        if let Ok(n) = a.name() {
            let _ = n.to_string_lossy();
        }
        let ty = a.ty().map(|t| t as u32).unwrap_or(0);
        self.step();
        match a.value(&mut self.dev) {
            Err(e) => {
                obs(b"refused");
                let _ = e.to_string();
            }
            Ok(v) => {
                obs(&v.len().to_le_bytes());
                let _ = (v.len(), v.is_empty(), v.data_position());
                match &v {
                    NtfsAttributeValue::NonResident(nr) => {
                        let mut n = 0;
                        for r in nr.data_runs() {
                            let Ok(mut r) = r else { break };
                            n += 1;
                            ck!(n <= self.frs, "endless-runs", "an attribute in a record of {} bytes yields {n} runs", self.frs);
                            let _ = r.data_position();
                            let l = r.allocated_size();
                            if n <= 3 {
                                self.value(&mut r, l)?;
                            }
                        }
                        let mut it = nr.data_runs();
                        for _ in 0..4 {
                            let _ = it.position();
                            let _ = it.next().map(|r| r.is_ok());
                        }
                    }
                    NtfsAttributeValue::Resident(r) => {
                        let _ = (r.data().len(), r.data_position());
                    }
                    _ => {}
                }
                if self.src.chance(25) {
                    self.step();
                    let mut at = v.clone().attach(&mut self.dev);
                    let mut b = [0u8; 777];
                    let _ = at.read(&mut b);
                    let _ = at.seek(SeekFrom::End(-5));
                    let _ = at.read(&mut b);
                    let _ = (at.len(), at.data_position());
                    let _ = at.detach();
                }
                let mut v = v;
                self.value(&mut v, len)?;
            }
        }
        // The right structure, and sometimes all of them.
        let all = self.src.chance(10);
        self.step();
        if all || ty == T_STD {
            let _ = a.structured_value::<_, NtfsStandardInformation>(&mut self.dev).map(|i| (i.usn(), i.file_attributes()));
            let _ = a.resident_structured_value::<NtfsStandardInformation>().is_ok();
        }
        if all || ty == T_NAME {
            let _ = a.structured_value::<_, NtfsFileName>(&mut self.dev).map(|n| (n.name().to_string_lossy(), n.namespace()));
        }
        if all || ty == T_OBJID {
            let _ = a.structured_value::<_, NtfsObjectId>(&mut self.dev).map(|o| format!("{} {:?} {:?} {:?}", o.object_id(), o.domain_id(), o.birth_volume_id(), o.birth_object_id()));
            let _ = a.resident_structured_value::<NtfsObjectId>().is_ok();
        }
        if all || ty == T_VOLINFO {
            let _ = a.resident_structured_value::<NtfsVolumeInformation>().map(|v| format!("{}", v.flags()));
            let _ = a.structured_value::<_, NtfsVolumeInformation>(&mut self.dev).is_ok();
        }
        if all || ty == T_VOLNAME {
            let _ = a.resident_structured_value::<NtfsVolumeName>().map(|v| (v.name().to_string_lossy(), v.name_length()));
            let _ = a.structured_value::<_, NtfsVolumeName>(&mut self.dev).is_ok();
        }
        let mut irs = *self.src.pick(&[4096u32, 4096, 512, 1024]);
        if all || ty == T_IROOT {
            let _ = a.structured_value::<_, NtfsIndexRoot>(&mut self.dev).is_ok();
            if let Ok(r) = a.resident_structured_value::<NtfsIndexRoot>() {
                let _ = (r.index_allocated_size(), r.index_data_size(), r.is_large_index(), r.position());
                irs = r.index_record_size();
                if let Ok(it) = r.entries::<NtfsFileNameIndex>() {
                    self.node(it, self.frs)?;
                }
            }
        }
        if all || ty == T_LIST {
            self.step();
            if let Ok(l) = a.structured_value::<_, NtfsAttributeList>(&mut self.dev) {
                let _ = l.position();
                let mut it = l.entries();
                let mut n = 0;
                loop {
                    self.step();
                    let Some(Ok(e)) = it.next(&mut self.dev) else { break };
                    n += 1;
                    ck!(n <= ITEMS, "endless-list", "a list yields {n} entries");
                    let _ = (e.instance(), e.list_entry_length(), e.lowest_vcn(), e.name_length(), e.position(), e.name().to_string_lossy(), e.ty().is_ok(), e.base_file_reference().sequence_number());
                }
            }
        }
        if all || ty == T_IALLOC {
            self.step();
            if let Ok(al) = a.structured_value::<_, NtfsIndexAllocation>(&mut self.dev) {
                let mut it = al.records(irs);
                let mut n = 0;
                loop {
                    self.step();
                    let Some(Ok(r)) = it.next(&mut self.dev) else { break };
                    n += 1;
                    ck!(n <= ITEMS, "endless-records", "an index allocation yields {n} records");
                    let _ = (r.vcn(), r.has_subnodes(), r.index_allocated_size(), r.index_data_size());
                    if let Ok(it) = r.entries::<NtfsFileNameIndex>() {
                        self.node(it, irs as u64)?;
                    }
                    if n > 60 {
                        break;
                    }
                }
                for _ in 0..3 {
                    self.step();
                    let v = if self.src.bool() { self.src.below(8) as i64 } else { self.src.interesting(64) as i64 };
                    let _ = al.record_from_vcn(&mut self.dev, irs, Vcn::from(v)).map(|r| r.vcn());
                }
                self.step();
                let _ = al.records(irs).attach(&mut self.dev).next().map(|r| r.is_ok());
            }
        }
        Ok(())
    }

    fn node(&mut self, it: ntfs::NtfsIndexNodeEntries<NtfsFileNameIndex>, size: u64) -> R {
        let mut n = 0;
        for e in it {
            let Ok(e) = e else { break };
            n += 1;
            ck!(n <= size / 16 + 1, "endless-entries", "a node of {size} bytes yields {n} entries");
            self.entry(&e);
        }
        Ok(())
    }
    fn entry(&mut self, e: &NtfsIndexEntry<NtfsFileNameIndex>) {
        let _ = (e.flags(), e.index_entry_length(), e.key_length(), e.position(), e.file_reference().file_record_number(), format!("{}", e.flags()));
        if let Some(Ok(k)) = e.key() {
            let _ = k.name().to_string_lossy();
        }
        let sub = e.subnode_vcn().map(|v| v.is_ok());
        obs(format!("{} {} {sub:?}", e.index_entry_length(), e.key_length()).as_bytes());
    }

    fn index(&mut self, ntfs: &Ntfs, ix: &NtfsIndex<NtfsFileNameIndex>, table: bool) -> R {
        let mut it = ix.entries();
        let mut n = 0;
        let mut names: Vec<String> = vec!["a".into(), String::new(), "zz".into()];
        loop {
            self.step();
            let Some(Ok(e)) = it.next(&mut self.dev) else { break };
            n += 1;
            ck!(n <= ITEMS, "endless-index", "a directory yields {n} entries");
            let _ = (e.flags(), e.position(), e.key_length());
            obs(&e.key_length().to_le_bytes());
            if let Some(Ok(k)) = e.key() {
                if names.len() < 8 {
                    names.push(k.name().to_string_lossy());
                }
                if n < 20 {
                    self.name(ntfs, &k, table);
                }
            }
            if n < 6 {
                self.step();
                let _ = e.to_file(ntfs, &mut self.dev).map(|f| f.file_record_number());
            }
        }
        let mut fi = ix.finder();
        for s in names {
            self.step();
            if table {
                if let Some(Ok(e)) = NtfsFileNameIndex::find(&mut fi, ntfs, &mut self.dev, &s) {
                    let _ = e.file_reference();
                }
            }
            // Always to the same side: along the edges of the tree.
            for o in [Ordering::Less, Ordering::Greater] {
                self.step();
                let r = fi.find(&mut self.dev, |_| o).map(|r| r.is_ok());
                obs(format!("{r:?}").as_bytes());
            }
            if !table {
                break;
            }
        }
        Ok(())
    }
}
