//! C19: low-level index access is exact for any typed index.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::indexes::{NtfsIndexEntryData, NtfsIndexEntryHasData, NtfsIndexEntryHasFileReference, NtfsIndexEntryKey, NtfsIndexEntryType};
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::{NtfsError, NtfsIndex, NtfsIndexEntry, NtfsIndexEntryFlags, NtfsIndexNodeEntries};
use std::cmp::Ordering;

pub static PROP: Prop = Prop {
    id: "C19",
    f: prop,
    quick: 1_000_000,
    thorough: 20_000_000,
    rule: "a case is a file with one to three generated indexes of arbitrary keys with data or with file references; every entry (key, data, flags, lengths, subnode, reference) is compared in listing order, in the stored order of the root and of every index record, by record lookup and by search. Non-trivial: an index with at least one index record, or a refused mismatch.",
    directed: &[],
};

#[derive(Debug, Clone, PartialEq)]
struct Bytes(Vec<u8>);
impl NtfsIndexEntryKey for Bytes {
    fn key_from_slice(s: &[u8], _: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Bytes(s.to_vec()))
    }
}
impl NtfsIndexEntryData for Bytes {
    fn data_from_slice(s: &[u8], _: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Bytes(s.to_vec()))
    }
}
/// Keyed with data.
#[derive(Clone, Debug)]
struct WithData;
impl NtfsIndexEntryType for WithData {
    type KeyType = Bytes;
}
impl NtfsIndexEntryHasData for WithData {
    type DataType = Bytes;
}
/// Keyed with a file reference.
#[derive(Clone, Debug)]
struct WithRef;
impl NtfsIndexEntryType for WithRef {
    type KeyType = Bytes;
}
impl NtfsIndexEntryHasFileReference for WithRef {}

/// What one entry must report.
#[derive(Debug, Clone, PartialEq)]
struct Seen {
    key: Option<Vec<u8>>,
    key_len: u16,
    /// Data (None: absent) and its length field, or the file reference.
    data: Option<Vec<u8>>,
    data_len: u16,
    fref: u64,
    len: u16,
    sub: Option<i64>,
    last: bool,
}
/// The two types seen through one trait.
trait Kind: NtfsIndexEntryType<KeyType = Bytes> {
    const DATA: bool;
    fn extra(e: &NtfsIndexEntry<Self>) -> Result<(Option<Vec<u8>>, u16, u64), Fail>;
}
impl Kind for WithData {
    const DATA: bool = true;
    fn extra(e: &NtfsIndexEntry<Self>) -> Result<(Option<Vec<u8>>, u16, u64), Fail> {
        let d = e.data().transpose().okay("data")?.map(|b| b.0);
        Ok((d, e.data_length(), 0))
    }
}
impl Kind for WithRef {
    const DATA: bool = false;
    fn extra(e: &NtfsIndexEntry<Self>) -> Result<(Option<Vec<u8>>, u16, u64), Fail> {
        let r = e.file_reference();
        Ok((None, 0, fref(r.file_record_number(), r.sequence_number())))
    }
}
fn see<E: Kind>(e: &NtfsIndexEntry<E>) -> Result<Seen, Fail> {
    let key = e.key().transpose().okay("key")?.map(|b| b.0);
    let (data, data_len, fr) = E::extra(e)?;
    let sub = e.subnode_vcn().transpose().okay("subnode_vcn")?.map(|v| v.value());
    let f = e.flags();
    ck!(f.contains(NtfsIndexEntryFlags::HAS_SUBNODE) == sub.is_some(), "entry-flags", "flags {:#x} but subnode {sub:?}", f.bits());
    Ok(Seen { key, key_len: e.key_length(), data, data_len, fref: fr, len: e.index_entry_length(), sub, last: f.contains(NtfsIndexEntryFlags::LAST_ENTRY) })
}
fn same(sig: &str, what: impl Fn() -> String, got: &Seen, want: &Seen) -> R {
    ck!(got == want, sig, "{}: {got:?} expected {want:?}", what());
    Ok(())
}

struct Idx {
    name: Vec<u16>,
    data: bool,
    items: Vec<Item>,
    datas: Vec<Option<Vec<u8>>>,
    ix: IndexM,
    stream: Option<Stream>,
    alloc_bits: u32,
}
impl Idx {
    fn want(&self, node: usize, j: usize) -> Seen {
        let nd = &self.ix.nodes[node];
        let sub = nd.children[j].map(|c| self.ix.vcn(self.ix.nodes[c].slot) as i64);
        let extra = if sub.is_some() { 8 } else { 0 };
        if j == nd.items.len() {
            return Seen { key: None, key_len: nd.end_key, data: None, data_len: 0, fref: 0, len: 16 + extra, sub, last: true };
        }
        let k = nd.items[j];
        let it = &self.items[k];
        let key = if it.key.is_empty() { None } else { Some(it.key.clone()) };
        let len = (align8(16 + it.key.len() + it.data.len()) + it.pad) as u16 + extra;
        let (data, data_len, fr) = if self.data { (self.datas[k].clone(), (it.hdr8 >> 16) as u16, 0) } else { (None, 0, it.hdr8) };
        Seen { key, key_len: it.key.len() as u16, data, data_len, fref: fr, len, sub, last: false }
    }
}

fn gen_idx(src: &mut Src, vol: &mut Vol, name: Vec<u16>, attrs: &mut Vec<Attr>, room: usize) -> Idx {
    let data = src.chance(60);
    let irs = gen_irs(src, vol.geo.cluster);
    let n = src.size(0, 60) as usize;
    let key_limit = if src.chance(15) { 30_000 } else { 120 };
    let data_limit = if src.chance(15) { 20_000 } else { 100 };
    let max_key = src.size(1, (irs / 8).min(key_limit)) as usize;
    let fixed = src.bool();
    let mut keys: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let lo = if src.chance(10) { 0 } else { 1 };
        let l = if fixed { max_key } else { src.usize(lo, max_key) };
        let lo = if src.bool() { 4 } else { 256 };
        let short = l.min(130);
        let mut k: Vec<u8> = (0..short).map(|_| src.below(lo) as u8).collect();
        k.extend(junk(src, l - short));
        keys.push(k);
    }
    keys.sort();
    if src.chance(70) {
        keys.dedup();
    }
    let mut datas = vec![];
    let items: Vec<Item> = keys
        .iter()
        .map(|k| {
            let pad = if src.chance(10) { *src.pick(&[8usize, 4, 2, 1, 16, 7]) } else { 0 };
            if data {
                let dl = if src.chance(15) { 0 } else { src.size(1, (irs / 10).min(data_limit)) as usize };
                let d = junk(src, dl);
                // Absent: no offset, no length, or neither.
                let (off, len) = match (dl, src.below(3)) {
                    (0, 0) => (0, 0),
                    (0, 1) => (16 + k.len(), 0),
                    (0, _) => (0, src.below(9) as usize),
                    _ => (16 + k.len(), dl),
                };
                datas.push(if dl == 0 { None } else { Some(d.clone()) });
                let padding = src.u64() as u32;
                Item { hdr8: off as u64 | (len as u64) << 16 | (padding as u64) << 32, key: k.clone(), data: d, pad }
            } else {
                datas.push(None);
                Item { hdr8: fref(src.interesting(48), src.interesting(16) as u16), key: k.clone(), data: vec![], pad }
            }
        })
        .collect();
    let o = TreeOpts {
        root_cap: src.usize(48, room.max(48)),
        max_depth: if irs > 65536 { 1 } else { src.usize(1, 4) },
        split_pct: *src.pick(&[20u64, 50, 85]),
        hole_pct: *src.pick(&[0u64, 0, 25]),
        irregular: src.bool(),
    };
    let ty = *src.pick(&[0u32, 0, 0x30]);
    let coll = *src.pick(&[0u32, 0x10, 0x11, 0x12, 0x13, 1]);
    let ix = build_index(src, &items, irs, vol.geo.cluster, ty, coll, &o);
    attrs.push(Attr::res(T_IROOT, &name, ix.root.clone()));
    let mut stream = None;
    if ix.large {
        let max_runs = *src.pick(&[1u64, 3, 8]);
        let s = ix.alloc_stream(src, vol, max_runs);
        let mut a = Attr::non(T_IALLOC, &name, s.clone());
        if src.chance(25) {
            vol.gen_cuts(src, &mut a);
        }
        attrs.push(a);
        stream = Some(s);
    }
    Idx { name, data, items, datas, ix, stream, alloc_bits: coll }
}

fn check_node<E: Kind>(x: &Idx, n: usize, it: NtfsIndexNodeEntries<E>) -> R {
    let nd = &x.ix.nodes[n];
    let mut j = 0;
    for e in it {
        let e = e.okay("node entry")?;
        ck!(j <= nd.items.len(), "node-long", "node {n} yields more than {} entries", nd.items.len() + 1);
        let g = see(&e)?;
        same("node-entry", || format!("entry {j} of node {n}"), &g, &x.want(n, j))?;
        j += 1;
    }
    ck!(j == nd.items.len() + 1, "node-short", "node {n} yields {j} of {} entries", nd.items.len() + 1);
    Ok(())
}

fn check_idx<E: Kind>(src: &mut Src, ctx: &mut Ctx, dev: &mut Dev, file: &ntfs::NtfsFile, x: &Idx) -> R {
    let ix = &x.ix;
    ctx.label(if x.data { "keyed with data" } else { "keyed with reference" });
    ctx.label_if(ix.nodes.len() == 1, "root only");
    ctx.label_if(ix.depth >= 2, "three or more levels");
    ctx.label_if(x.items.iter().any(|i| i.key.len() + i.data.len() > 240), "entry longer than 255 bytes");
    ctx.label_if((1..ix.nodes.len()).any(|n| g32(&ix.node_bytes(n).0, 28) > 65536), "record with more than 64 KiB of entries");
    ctx.label_if(x.data && x.datas.iter().any(|d| d.is_none()), "absent data");
    ctx.label_if(x.items.iter().any(|i| i.key.is_empty()), "empty key");
    ctx.label_if(ix.large && ix.nodes.len() == 1, "large flag without records");
    ctx.nontrivial |= ix.nodes.len() > 1;
    let root_item = find_item(file, dev, T_IROOT, &x.name, 0)?;
    let alloc_item = match &x.stream {
        Some(_) => Some(find_item(file, dev, T_IALLOC, &x.name, 0)?),
        None => None,
    };
    // The root.
    let ra = root_item.to_attribute().okay("to_attribute")?;
    let root = ra.resident_structured_value::<NtfsIndexRoot>().okay("index root")?;
    let used = ix.root.len() as u32 - 16;
    ck!(root.index_record_size() == ix.irs as u32, "root-field", "index record size {} expected {}", root.index_record_size(), ix.irs);
    ck!(root.is_large_index() == ix.large, "root-field", "is_large_index {} expected {}", root.is_large_index(), ix.large);
    ck!(root.index_data_size() == used && root.index_allocated_size() == used, "root-field", "root sizes {}/{} expected {used}", root.index_data_size(), root.index_allocated_size());
    check_node::<E>(x, 0, root.entries::<E>().okay("root entries")?)?;
    // The records.
    if let Some(item) = &alloc_item {
        let a = item.to_attribute().okay("to_attribute")?;
        let alloc = a.structured_value::<_, NtfsIndexAllocation>(dev).okay("index allocation")?;
        let by_slot: Vec<Option<usize>> = (0..ix.records.len()).map(|s| (1..ix.nodes.len()).find(|n| ix.nodes[*n].slot == s)).collect();
        let check_rec = |rec: &ntfs::NtfsIndexRecord, n: usize| -> R {
            let v = ix.vcn(ix.nodes[n].slot) as i64;
            ck!(rec.vcn().value() == v, "record-vcn", "record of node {n} reports VCN {} expected {v}", rec.vcn());
            let has = ix.nodes[n].children.iter().any(|c| c.is_some());
            ck!(rec.has_subnodes() == has, "record-subnodes", "record of node {n}: has_subnodes {} expected {has}", rec.has_subnodes());
            let (b, _) = ix.node_bytes(n);
            ck!(rec.index_data_size() == g32(&b, 28) && rec.index_allocated_size() == g32(&b, 32), "record-sizes", "record of node {n}: sizes {}/{}", rec.index_data_size(), rec.index_allocated_size());
            check_node::<E>(x, n, rec.entries::<E>().okay("record entries")?)
        };
        if ix.gap == 0 && !by_slot.is_empty() && by_slot.iter().all(|s| s.is_some()) {
            ctx.label("all records in stored order");
            let mut it = alloc.records(ix.irs as u32);
            let attach = src.below(3);
            let mut got = 0;
            for s in &by_slot {
                let r = if attach == 2 {
                    let mut at = it.attach(dev);
                    let r = at.next();
                    it = at.detach();
                    r
                } else {
                    if attach == 1 {
                        it = it.clone();
                    }
                    it.next(dev)
                };
                let r = match r {
                    Some(r) => r.okay("records().next")?,
                    None => fail!("records-short", "records() ends after {got} of {} records", by_slot.len()),
                };
                check_rec(&r, s.unwrap())?;
                got += 1;
            }
            for _ in 0..2 {
                ck!(it.next(dev).is_none(), "records-long", "records() yields more than {got} records");
            }
        }
        let nodes = ix.nodes.len();
        for _ in 0..4.min(nodes - 1) {
            let n = src.usize(1, nodes - 1);
            let v = ix.vcn(ix.nodes[n].slot) as i64;
            let r = alloc.record_from_vcn(dev, ix.irs as u32, Vcn::from(v)).okay("record_from_vcn")?;
            check_rec(&r, n)?;
        }
        ctx.label_if(ix.gap > 0, "huge sparse part between records");
        // Any other number leads nowhere.
        let end = ix.total() / ix.vcn_unit;
        for _ in 0..3 {
            let v = match src.below(4) {
                0 => end as i64 + src.below(3) as i64,
                1 => src.interesting(64) as i64,
                2 => -1 - src.below(3) as i64,
                _ => src.below(end) as i64,
            };
            if (1..nodes).any(|n| ix.vcn(ix.nodes[n].slot) as i64 == v) {
                continue;
            }
            ctx.label("VCN of no record");
            match alloc.record_from_vcn(dev, ix.irs as u32, Vcn::from(v)) {
                Err(_) => {}
                Ok(r) => fail!("vcn-wrong-record", "VCN {v} is no record, but one with VCN {} was returned", r.vcn()),
            }
        }
    }
    // The whole index.
    let mut spare = None;
    let index = match src.below(2) {
        _ if alloc_item.is_some() => NtfsIndex::<E>::new(root_item.clone(), alloc_item.clone()),
        0 => NtfsIndex::<E>::new(root_item.clone(), None),
        _ => {
            // An allocation nobody needs.
            let mut it = file.attributes();
            while let Some(i) = it.next(dev) {
                let i = i.okay("attributes")?;
                let t = i.to_attribute().okay("to_attribute")?.ty().okay("ty")? as u32;
                if t == T_IALLOC {
                    spare = Some(i);
                    break;
                }
            }
            NtfsIndex::<E>::new(root_item.clone(), spare)
        }
    }
    .okay("NtfsIndex::new")?;
    let places = ix.inorder_places();
    let mut it = index.entries();
    for (i, (n, j)) in places.iter().enumerate() {
        let e = match it.next(dev) {
            Some(e) => e.okay("entries().next")?,
            None => fail!("listing-short", "the listing ends after {i} of {} entries", places.len()),
        };
        let g = see(&e)?;
        same("listing-entry", || format!("entry {i} of the listing (entry {j} of node {n})"), &g, &x.want(*n, *j))?;
    }
    ck!(it.next(dev).is_none(), "listing-long", "the listing does not end after {} entries", places.len());
    // Search by bytes.
    if !x.items.iter().any(|i| i.key.is_empty()) {
        let mut f = index.finder();
        for _ in 0..4 {
            let key: Vec<u8> = if !x.items.is_empty() && src.chance(70) {
                let mut k = src.pick(&x.items).key.clone();
                if src.chance(30) {
                    let i = src.usize(0, k.len() - 1);
                    k[i] = k[i].wrapping_add(1);
                }
                k
            } else {
                junk(src, 3)
            };
            let r = f.find(dev, |k: &Bytes| key.cmp(&k.0));
            let want: Vec<Seen> = places.iter().map(|(n, j)| x.want(*n, *j)).filter(|s| s.key.as_ref().map(|k| k.cmp(&key)) == Some(Ordering::Equal)).collect();
            match r {
                None => ck!(want.is_empty(), "find-missing", "key {key:02x?} is stored but not found"),
                Some(e) => {
                    let g = see(&e.okay("find")?)?;
                    ck!(want.contains(&g), "find-wrong", "searching {key:02x?} found {g:?} expected one of {want:?}");
                    ctx.label("found by search");
                }
            }
        }
    }
    Ok(())
}

/// Things that are no index.
fn mismatches(src: &mut Src, ctx: &mut Ctx, dev: &mut Dev, file: &ntfs::NtfsFile, x: &Idx) -> R {
    let root = find_item(file, dev, T_IROOT, &x.name, 0)?;
    let std = find_item(file, dev, T_STD, &[], 0)?;
    let data = find_item(file, dev, T_DATA, &[], 0)?;
    let no = |sig: &str, what: &str, r: Result<NtfsIndex<WithRef>, NtfsError>| -> R {
        ck!(r.is_err(), sig, "NtfsIndex::new accepts {what}");
        Ok(())
    };
    let other = if src.bool() { std } else { data.clone() };
    no("mismatch-root", "another attribute as its root", NtfsIndex::new(other.clone(), None))?;
    no("mismatch-alloc", "another attribute as its allocation", NtfsIndex::new(root.clone(), Some(other.clone())))?;
    no("mismatch-alloc", "an index root as its allocation", NtfsIndex::new(root.clone(), Some(root.clone())))?;
    if x.ix.large {
        ctx.label("missing allocation");
        match NtfsIndex::<WithRef>::new(root.clone(), None) {
            Err(NtfsError::MissingIndexAllocation { .. }) => {}
            r => fail!("missing-alloc", "a large index without allocation: {:?}", r.map(|_| ())),
        }
        let alloc = find_item(file, dev, T_IALLOC, &x.name, 0)?;
        no("mismatch-root", "an index allocation as its root", NtfsIndex::new(alloc.clone(), Some(alloc.clone())))?;
        let a = alloc.to_attribute().okay("to_attribute")?;
        ck!(a.resident_structured_value::<NtfsIndexRoot>().is_err(), "mismatch-value", "an index allocation decodes as index root");
    }
    let a = other.to_attribute().okay("to_attribute")?;
    ck!(a.structured_value::<_, NtfsIndexAllocation>(dev).is_err(), "mismatch-value", "another attribute decodes as index allocation");
    ck!(a.structured_value::<_, NtfsIndexRoot>(dev).is_err(), "mismatch-value", "another attribute decodes as index root");
    // A resident index allocation, a non-resident index root.
    for (ty, name) in [(T_IALLOC, "res"), (T_IROOT, "non")] {
        let i = find_item(file, dev, ty, &utf16(name), 0)?;
        let a = i.to_attribute().okay("to_attribute")?;
        if ty == T_IALLOC {
            ck!(a.structured_value::<_, NtfsIndexAllocation>(dev).is_err(), "mismatch-residency", "a resident index allocation is accepted");
        } else {
            ck!(a.structured_value::<_, NtfsIndexRoot>(dev).is_err() && a.resident_structured_value::<NtfsIndexRoot>().is_err(), "mismatch-residency", "a non-resident index root is accepted");
            no("mismatch-residency", "a non-resident index root", NtfsIndex::new(i.clone(), None))?;
        }
    }
    ctx.label("mismatches refused");
    ctx.nontrivial = true;
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 48, ..Default::default() });
    let k = 1 + src.weighted(&[5, 2, 1]);
    let bad = src.chance(15);
    let mut attrs = vec![vol.std_attr(src)];
    if bad {
        attrs.push(Attr::res(T_IALLOC, &utf16("res"), vec![1; 64]));
        let s = alloc_stream(src, &mut vol.al, vol.geo.cluster, 600, 2);
        attrs.push(Attr::non(T_IROOT, &utf16("non"), s));
        attrs.push(Attr::res(T_DATA, &[], vec![1; 20]));
    }
    let mut xs = vec![];
    let names = ["$O", "$I30", "$SII", "", "$SDH"];
    let order = src.perm(names.len());
    let room = (vol.cap() / 2).saturating_sub(200).min(3000);
    for i in 0..k {
        let x = gen_idx(src, &mut vol, utf16(names[order[i]]), &mut attrs, room);
        xs.push(x);
    }
    let rec = vol.new_rec(src);
    let list_pct = *src.pick(&[0u64, 30]);
    vol.add_file(src, FileSpec { rec, seq: 1, links: 1, flags: 1, attrs, list_pct, list_non_pct: 30, stay_pct: 60 });
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, rec).okay("file")?;
    ctx.describe(|| format!("{}; {}", desc_geo(&vol.geo), xs.iter().map(|x| format!("{} {} keys, record size {}, {} nodes, collation {:#x}, {}", show(&x.name), x.items.len(), x.ix.irs, x.ix.nodes.len(), x.alloc_bits, if x.data { "data" } else { "references" })).collect::<Vec<_>>().join("; ")));
    for x in &xs {
        if x.data {
            check_idx::<WithData>(src, ctx, &mut dev, &file, x)?;
        } else {
            check_idx::<WithRef>(src, ctx, &mut dev, &file, x)?;
        }
        if bad {
            mismatches(src, ctx, &mut dev, &file, x)?;
        }
    }
    Ok(())
}
