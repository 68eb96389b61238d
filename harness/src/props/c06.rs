//! C06: torn multi-sector records are detected and intact ones restored exactly.
use super::c03::check_entry;
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::Vcn;
use ntfs::NtfsReadSeek;

pub static PROP: Prop = Prop {
    id: "C06",
    f: prop,
    quick: 1_600_000,
    thorough: 15_000_000,
    rule: "a case is a volume with a file or directory whose records are intact, torn (any subset of blocks carries another sequence number, or blocks of two versions of the record are mixed) or bear another signature; intact records (any size, array position, coverage, sequence number) must read exactly, torn ones must fail on every path that reads them. Non-trivial: a record was damaged, or an intact record with data on protected bytes was compared.",
    directed: &[],
};

/// Like `protect`, but covering only the first `blocks` blocks.
fn protect_n(rec: &mut [u8], usa_off: usize, usn: u16, blocks: usize) {
    p16(rec, 4, usa_off as u16);
    p16(rec, 6, (blocks + 1) as u16);
    p16(rec, usa_off, usn);
    for i in 0..blocks {
        let e = i * 512 + 510;
        let (a, b) = (rec[e], rec[e + 1]);
        rec[usa_off + 2 + 2 * i] = a;
        rec[usa_off + 3 + 2 * i] = b;
        rec[e..e + 2].copy_from_slice(&usn.to_le_bytes());
    }
}
/// An array position in `lo..size` that touches no protected bytes.
fn place_usa(src: &mut Src, lo: usize, size: usize, n: usize) -> Option<usize> {
    let len = 2 * (n + 1);
    for _ in 0..6 {
        if lo + len > size {
            return None;
        }
        let max = (size - len).min(0xFFFF);
        if lo > max {
            return None;
        }
        let o = match src.below(3) {
            0 => lo,
            1 => max,
            _ => src.usize(lo, max),
        } & !1;
        let clash = (0..n).any(|b| {
            let e = b * 512 + 510;
            o < e + 2 && e < o + len
        });
        if !clash && o >= lo {
            return Some(o);
        }
    }
    None
}
fn gen_usn(src: &mut Src) -> u16 {
    match src.below(4) {
        0 => *src.pick(&[1u16, 0, 0xFFFF, 0x100, 0x00FF]),
        _ => src.u64() as u16,
    }
}
/// Damages `rec` (already protected, full coverage). Returns what was done.
fn damage(src: &mut Src, ctx: &mut Ctx, rec: &mut [u8]) -> String {
    let blocks = covered(rec.len());
    let usn = g16(rec, g16(rec, 4) as usize);
    if src.chance(15) {
        ctx.label("wrong signature");
        if src.chance(30) {
            let s: &[u8; 4] = *src.pick(&[b"BAAD", b"INDX", b"FILE", b"RCRD", b"\0\0\0\0", b"file", b"CHKD"]);
            if rec[..4] != s[..] {
                rec[..4].copy_from_slice(s);
                return format!("signature {s:?}");
            }
        }
        let i = src.usize(0, 3);
        rec[i] ^= 1 << src.below(8);
        return format!("signature bit flipped in byte {i}");
    }
    if src.bool() {
        // A write of the next version stopped (or restarted) somewhere: blocks of either version.
        ctx.label("mix of two versions");
        let mut set: Vec<usize> = vec![];
        let k = src.usize(1, blocks.max(2) - 1);
        if src.bool() {
            set.extend(if src.bool() { k..blocks } else { 0..k.min(blocks) });
        } else {
            set.push(src.usize(0, blocks - 1));
        }
        let new = match src.below(3) {
            0 => usn.wrapping_add(1),
            1 => usn.wrapping_sub(1),
            _ => usn ^ (1 << src.below(16)),
        };
        if set.is_empty() {
            set.push(blocks - 1);
        }
        for b in &set {
            p16(rec, b * 512 + 510, new);
        }
        return format!("blocks {set:?} of {blocks} carry {new:#x} instead of {usn:#x}");
    }
    if src.chance(20) {
        // Blocks that were written without their protection: they end in what the array has saved for them.
        let usa = g16(rec, 4) as usize;
        let set: Vec<usize> = (0..blocks).filter(|b| g16(rec, usa + 2 + 2 * b) != usn && src.chance(50)).collect();
        if !set.is_empty() {
            ctx.label("unprotected blocks");
            for b in &set {
                let saved = g16(rec, usa + 2 + 2 * b);
                p16(rec, b * 512 + 510, saved);
            }
            return format!("blocks {set:?} of {blocks} end in their saved bytes instead of {usn:#x}");
        }
    }
    ctx.label("single bytes of sequence numbers");
    let n = src.size(1, 3);
    let mut done = vec![];
    for _ in 0..n {
        let b = match src.below(3) {
            0 => blocks - 1,
            1 => 0,
            _ => src.usize(0, blocks - 1),
        };
        let e = b * 512 + 510 + src.below(2) as usize;
        rec[e] ^= 1 + src.below(255) as u8;
        done.push(e);
    }
    if (0..blocks).all(|b| g16(rec, b * 512 + 510) == usn) {
        // Two changes cancelled each other.
        rec[510] ^= 1;
        done.push(510);
    }
    format!("bytes {done:?} changed")
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[3, 3, 3, 2]) {
        0 => intact_file(src, ctx),
        1 => damaged_file(src, ctx),
        2 => damaged_index(src, ctx),
        _ => intact_index(src, ctx),
    }
}

fn intact_file(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("intact file record");
    let mut vol = Vol::new(src, &VolOpts { records: 24, max_frs: 65536, mft_runs: 2, ..Default::default() });
    let rec_no = vol.new_rec(src);
    let size = vol.geo.frs as usize;
    let all = covered(size);
    let blocks = if src.chance(15) { src.usize(0, all) } else { all };
    let at_head = src.bool();
    let attrs_off = if at_head { first_attr_off(vol.usa_off, size) } else { 56 };
    let room = size - attrs_off - 8 - 32;
    let spare = if at_head { 0 } else { 2 * (blocks + 1) + 514 };
    let max = room.saturating_sub(spare);
    let n = match src.weighted(&[3, 2, 1]) {
        0 => max,
        1 => src.usize(0, max),
        _ => max - src.usize(0, 600).min(max),
    };
    let value = if src.chance(20) { vec![*src.pick(&[0u8, 0xFF, 1]); n] } else { junk(src, n) };
    let attr = attr_resident(&AttrHdr { ty: T_DATA, ..Default::default() }, &value, 0);
    let usn = gen_usn(src);
    let h = RecHdr { usa_off: 48, usn, lsn: src.u64(), seq: src.u64() as u16, links: src.u64() as u16, flags: src.below(4) as u16, base_ref: 0, next_inst: 3, recno: rec_no as u32, attrs_off };
    let Some(mut rec) = file_record(&h, size, &[attr], src.u64()) else { return Ok(()) };
    let used = g32(&rec, 24) as usize;
    let usa = if at_head { vol.usa_off } else {
        match place_usa(src, used, size, blocks) {
            Some(o) => o,
            None => return Ok(()),
        }
    };
    ctx.label_if(!at_head, "array behind the attributes");
    ctx.label_if(blocks < all, "array covers a part");
    ctx.label_if(size > 4096, "large record");
    ctx.nontrivial = used > 512 && blocks > 0;
    protect_n(&mut rec, usa, usn, blocks);
    ctx.describe(|| format!("{}; intact record {rec_no} value {n} B array at {usa} for {blocks}/{all} blocks usn {usn:#x}", desc_geo(&vol.geo)));
    vol.mft.clone().store(&mut vol.disk, rec_no * vol.geo.frs, &rec);
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, rec_no).okay("file")?;
    ck!(f.sequence_number() == h.seq && f.hard_link_count() == h.links && f.flags().bits() == h.flags, "header", "header fields differ");
    let item = find_item(&f, &mut dev, T_DATA, &[], 0)?;
    let a = item.to_attribute().okay("to_attribute")?;
    let mut v = a.value(&mut dev).okay("value")?;
    let mut got = vec![0; value.len()];
    v.read_exact(&mut dev, &mut got).okay("read_exact")?;
    cmp_bytes("restored", "resident value of an intact record", 0, &got, &value)
}

fn damaged_file(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 24, max_frs: 65536, mft_runs: 2, ..Default::default() });
    let mut attrs = gen_attrs(src, &mut vol, &AttrsOpts { max_runs: 8, ..Default::default() });
    if attrs.is_empty() {
        attrs.push(vol.std_attr(src));
    }
    let f = gen_file(src, &mut vol, attrs, 1);
    let other = {
        let attrs = vec![vol.std_attr(src)];
        gen_file(src, &mut vol, attrs, 1)
    };
    vol.finish(src);
    // Which record of the file (or the MFT's own) is damaged?
    let k = if src.chance(10) { None } else { Some(src.usize(0, f.raw.len() - 1)) };
    let rec_no = k.map(|k| f.raw[k].0).unwrap_or(0);
    let frs = vol.geo.frs;
    let before = vol.mft.content(&vol.disk, rec_no * frs, frs);
    let mut rec = before.clone();
    let what = damage(src, ctx, &mut rec);
    vol.mft.clone().store(&mut vol.disk, rec_no * frs, &rec);
    ctx.nontrivial = true;
    ctx.label(match k {
        None => "damaged MFT record",
        Some(0) => "damaged base record",
        _ => "damaged extension record",
    });
    ctx.describe(|| format!("{}; record {rec_no} ({k:?} of {:?}): {what}", desc_geo(&vol.geo), f.raw.iter().map(|r| r.0).collect::<Vec<_>>()));
    let mut dev = vol.disk.reader();
    let ntfs = match ntfs::Ntfs::new(&mut dev) {
        Ok(n) => n,
        Err(e) => {
            ck!(k.is_none(), "error:Ntfs::new", "Ntfs::new: unexpected error: {e}");
            return Ok(());
        }
    };
    if k.is_none() {
        for r in [f.rec, other.rec, 0] {
            ck!(ntfs.file(&mut dev, r).is_err(), "torn-mft-accepted", "record {r} is served although the MFT's own record is damaged: {what}");
        }
        return Ok(());
    }
    ck!(ntfs.file(&mut dev, rec_no).is_err(), "torn-accepted", "damaged file record {rec_no} is accepted: {what}");
    let o = ntfs.file(&mut dev, other.rec).okay("another, intact file")?;
    ck!(o.sequence_number() == other.seq, "other-file", "another file changed");
    if k == Some(0) {
        return Ok(());
    }
    // The base record is intact: nothing of the damaged extension record may appear.
    let file = ntfs.file(&mut dev, f.rec).okay("file with a damaged extension record")?;
    let mut it = file.attributes();
    let mut failed = false;
    let mut guard = 0;
    while let Some(item) = it.next(&mut dev) {
        guard += 1;
        ck!(guard < 10_000, "endless-attributes", "attribute enumeration does not end");
        let item = match item {
            Ok(i) => i,
            Err(_) => {
                failed = true;
                break;
            }
        };
        let a = item.to_attribute().okay("to_attribute")?;
        let name = units(&a.name().okay("name")?);
        let ty = a.ty().okay("ty")? as u32;
        // File names share their type and (empty) name.
        let cands: Vec<&LAttr> = f.attrs.iter().filter(|x| x.a.ty == ty && x.a.name == name && x.pieces[0].inst == a.instance()).collect();
        ck!(cands.iter().any(|c| c.pieces[0].rec != rec_no), "torn-attribute", "attribute {ty:#x}:{} of the damaged record is enumerated", show(&name));
        if cands.len() > 1 {
            continue;
        }
        // Reading a value that continues in the damaged record must fail, too.
        let l = cands[0];
        if let Body::Non(s) = &l.a.body {
            let torn_piece = l.pieces.iter().find(|p| p.rec == rec_no);
            let v = a.value(&mut dev);
            match (v, torn_piece) {
                (Err(e), None) => fail!("error:value", "value of an attribute outside the damaged record: {e}"),
                (Err(_), Some(_)) => {}
                (Ok(mut v), t) => {
                    let limit = t.map(|p| s.clusters_before(p.runs.0) * s.cluster).unwrap_or(u64::MAX);
                    read_prefix(&mut v, &mut dev, &vol, l, limit.min(s.data))?;
                }
            }
        }
    }
    let needed = f.attrs.iter().any(|a| a.pieces[0].rec == rec_no);
    ck!(failed || !needed, "torn-attribute-dropped", "the attributes of the damaged record {rec_no} are silently missing: {what}");
    Ok(())
}
/// Reads at most 64 KiB before `limit`; everything delivered must be right, and nothing at or behind the limit
/// may be delivered.
fn read_prefix(v: &mut ntfs::attribute_value::NtfsAttributeValue, dev: &mut Dev, vol: &Vol, l: &LAttr, limit: u64) -> R {
    let start = limit.saturating_sub(5000);
    if v.seek(dev, std::io::SeekFrom::Start(start)).is_err() {
        return Ok(());
    }
    let len = l.a.body.len();
    let mut pos = start;
    let mut buf = vec![0; 3000];
    for _ in 0..8 {
        match v.read(dev, &mut buf) {
            Err(_) => return Ok(()),
            Ok(0) => {
                ck!(pos >= len, "torn-value-short", "value ends at {pos} of {len} without an error");
                return Ok(());
            }
            Ok(n) => {
                let want = l.a.body.content(&vol.disk, pos, n as u64);
                cmp_bytes("torn-value", "value", pos, &buf[..n], &want)?;
                pos += n as u64;
                ck!(pos <= limit || limit == len, "torn-value-read", "bytes mapped by the damaged record are delivered (at {pos}, limit {limit})");
            }
        }
    }
    Ok(())
}

fn damaged_index(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 24, mft_runs: 2, ..Default::default() });
    let o = DirOpts { max_entries: *src.pick(&[30u64, 100]), max_name: 40, max_depth: 4, small_irs: src.chance(50), ..Default::default() };
    let d = gen_dir(src, &mut vol, &o);
    vol.finish(src);
    if d.index.nodes.len() < 2 {
        return Ok(());
    }
    let node = src.usize(1, d.index.nodes.len() - 1);
    let slot = d.index.nodes[node].slot;
    let irs = d.index.irs;
    let s = d.stream.clone().unwrap();
    let mut rec = s.content(&vol.disk, d.index.offset(slot), irs);
    let what = damage(src, ctx, &mut rec);
    s.store(&mut vol.disk, d.index.offset(slot), &rec);
    ctx.nontrivial = true;
    ctx.label("damaged index record");
    ctx.describe(|| format!("{}; node {node} in slot {slot}: {what}", super::c03::desc_dir(&vol, &d)));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, d.file.rec).okay("file")?;
    let index = file.directory_index(&mut dev).okay("directory_index")?;
    // Listing: the entries before the damaged node, then an error.
    let mut before = vec![];
    prefix(&d.index, 0, node, &mut before);
    let mut it = index.entries();
    for (i, k) in before.iter().enumerate() {
        let what = format!("entry {i}");
        let e = it.next(&mut dev).okay("entries before the damaged node")?;
        check_entry(&e, &d.ents[*k], &what)?;
    }
    match it.next(&mut dev) {
        Some(Err(_)) => {}
        Some(Ok(e)) => fail!("torn-node-listed", "entry {} instead of an error for the damaged node: {what}", e.key().map(|k| k.map(|k| show(&units(&k.name()))).unwrap_or_default()).unwrap_or_default()),
        None => fail!("torn-node-end", "the listing ends at the damaged node without an error: {what}"),
    }
    // Lookup of every entry: an error exactly if its path leads through the damaged node.
    let mut through = vec![];
    subtree(&d.index, node, &mut through);
    let mut finder = index.finder();
    for (i, e) in d.ents.iter().enumerate() {
        let rank = |k: &ntfs::structured_values::NtfsFileName| {
            let n = units(&k.name());
            d.ents.iter().position(|x| x.key.name == n).unwrap_or(usize::MAX)
        };
        match finder.find(&mut dev, |k| i.cmp(&rank(k))) {
            Some(Ok(f)) => {
                ck!(!through.contains(&i), "torn-node-found", "{} is found inside the damaged node", show(&e.key.name));
                check_entry(&f, e, "lookup")?;
            }
            Some(Err(x)) => ck!(through.contains(&i), "lookup-error", "lookup of {}, outside the damaged node, fails: {x}", show(&e.key.name)),
            None => fail!("lookup-none", "lookup of {} finds nothing", show(&e.key.name)),
        }
    }
    // Raw access.
    let item = find_item(&file, &mut dev, T_IALLOC, &I30, 0)?;
    let attr = item.to_attribute().okay("to_attribute")?;
    let alloc = attr.structured_value::<_, NtfsIndexAllocation>(&mut dev).okay("index allocation")?;
    let vcn = Vcn::from(d.index.vcn(slot) as i64);
    ck!(alloc.record_from_vcn(&mut dev, irs as u32, vcn).is_err(), "torn-record-from-vcn", "record_from_vcn returns the damaged record: {what}");
    let mut recs = alloc.records(irs as u32);
    for s in 0..d.index.slots {
        let Some(r) = recs.next(&mut dev) else {
            break;
        };
        match r {
            Ok(r) => {
                ck!(s != slot, "torn-records-iter", "records() returns the damaged record: {what}");
                if d.index.records[s].is_some() {
                    ck!(r.vcn().value() == d.index.vcn(s) as i64, "records-vcn", "record {s} has VCN {}", r.vcn());
                }
            }
            Err(_) => {
                // What follows an error is not defined here.
                let gap = d.index.gap > 0 && s >= d.index.gap_at;
                ck!(gap || d.index.records[s].is_none() || s == slot, "records-error", "error for intact record {s}");
                break;
            }
        }
    }
    Ok(())
}
fn prefix(m: &IndexM, n: usize, target: usize, out: &mut Vec<usize>) -> bool {
    if n == target {
        return true;
    }
    let nd = &m.nodes[n];
    for (j, c) in nd.children.iter().enumerate() {
        if let Some(c) = c {
            if prefix(m, *c, target, out) {
                return true;
            }
        }
        if j < nd.items.len() {
            out.push(nd.items[j]);
        }
    }
    false
}
fn subtree(m: &IndexM, n: usize, out: &mut Vec<usize>) {
    let nd = &m.nodes[n];
    out.extend(&nd.items);
    for c in nd.children.iter().flatten() {
        subtree(m, *c, out);
    }
}

fn intact_index(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("intact index record");
    let mut vol = Vol::new(src, &VolOpts { records: 24, mft_runs: 2, max_cluster: 65536, ..Default::default() });
    let irs = *src.pick(&[4096u64, 1024, 512, 2048, 8192, 65536, 16384]) as usize;
    let blocks = if src.chance(15) { src.usize(0, covered(irs)) } else { covered(irs) };
    let usn = gen_usn(src);
    // A full node: its entries lie on the protected bytes of every block.
    let room = irs - align8(40 + usa_len(irs)) - 16 - if src.bool() { 0 } else { (2 * (blocks + 1) + 520).min(irs / 2) };
    let mut ents: Vec<FileNameV> = vec![];
    let mut bytes = vec![];
    let mut i = 0u16;
    loop {
        let len = src.usize(1, 40);
        let mut name: Vec<u16> = junk(src, 2 * len).chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        // Increasing under every table: the first unit counts up through digits and beyond.
        name[0] = 0x2000 + i;
        let f = gen_fn(src, name, 1);
        let e = index_entry(fref(7, 1), &file_name(&f), &[], None, false);
        if bytes.len() + e.len() > room || ents.len() > 400 {
            break;
        }
        bytes.extend(e);
        ents.push(f);
        i += 1;
    }
    if ents.is_empty() {
        return Ok(());
    }
    bytes.extend(index_entry(0, &[], &[], None, true));
    let Some(mut rec) = index_record(irs, 0, src.u64(), 40, &bytes, false, src.u64()) else { return Ok(()) };
    let used = 24 + g32(&rec, 28) as usize;
    let usa = if src.bool() { 40 } else { place_usa(src, used, irs, blocks).unwrap_or(40) };
    ctx.label_if(usa != 40, "array behind the entries");
    ctx.label_if(blocks < irs / 512, "array covers a part");
    protect_n(&mut rec, usa, usn, blocks);
    let s = alloc_stream(src, &mut vol.al, vol.geo.cluster, irs as u64, 4);
    s.store(&mut vol.disk, 0, &rec);
    let root = index_root(T_NAME, 1, irs as u32, 1, &index_entry(0, &[], &[], Some(0), true), true);
    let attrs = vec![vol.std_attr(src), Attr::res(T_IROOT, &I30, root), Attr::non(T_IALLOC, &I30, s)];
    let f = gen_file(src, &mut vol, attrs, 3);
    vol.finish(src);
    ctx.nontrivial = true;
    ctx.describe(|| format!("{}; index record {irs} B with {} entries, array at {usa} for {blocks} blocks usn {usn:#x}", desc_geo(&vol.geo), ents.len()));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, f.rec).okay("file")?;
    let index = file.directory_index(&mut dev).okay("directory_index")?;
    let mut it = index.entries();
    for (i, e) in ents.iter().enumerate() {
        let got = it.next(&mut dev).okay("entries().next")?;
        check_entry(&got, &DirEnt { fref: fref(7, 1), key: e.clone() }, &format!("entry {i}"))?;
    }
    ck!(it.next(&mut dev).is_none(), "listing-long", "more entries than stored");
    Ok(())
}
