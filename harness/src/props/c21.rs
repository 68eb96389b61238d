//! C21: damage elsewhere on the volume does not affect a query.
use super::Prop;
use crate::api::*;
use crate::disk::{Dev, Disk};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use crate::world::*;
use ntfs::structured_values::{NtfsFileName, NtfsIndexAllocation};
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsReadSeek};
use std::cmp::Ordering;
use std::io::SeekFrom;

pub static PROP: Prop = Prop {
    id: "C21",
    f: prop,
    quick: 900_000,
    thorough: 12_000_000,
    rule: "a case is a generated volume with files and directories, a query, and a second volume that has only what the query needs by the format (boot sector, the table's record, the file's records and attribute list, the part of the value, the index records on the path); everything else is other noise, zeros, or unreadable. The query must give the same answer on both. Non-trivial: the query succeeds on the intact volume.",
    directed: &[],
};

/// What a query needs.
struct Need<'a> {
    vol: &'a Vol,
    r: Vec<(u64, u64)>,
}
impl<'a> Need<'a> {
    fn new(vol: &'a Vol) -> Self {
        let mut n = Need { vol, r: vec![(0, vol.geo.sector)] };
        n.record(0);
        n
    }
    fn part(&mut self, s: &Stream, off: u64, len: u64) {
        let end = off.saturating_add(len).min(s.data).min(s.init);
        let mut o = off;
        while o < end {
            let Some((p, rem)) = s.locate(o) else { break };
            let n = rem.min(end - o);
            if let Some(p) = p {
                self.r.push((p, p + n));
            }
            o += n;
        }
    }
    fn record(&mut self, n: u64) {
        let frs = self.vol.geo.frs;
        self.part(&self.vol.mft.clone(), n * frs, frs);
    }
    /// Enumerating the file's attributes: its list and every record in which an attribute begins.
    fn attributes(&mut self, f: &FileM) {
        self.record(f.rec);
        if let Some(s) = &f.list_stream {
            self.part(&s.clone(), 0, s.data);
        }
        for a in &f.attrs {
            self.record(a.pieces[0].rec);
        }
    }
    /// Reading a part of a value.
    fn value(&mut self, a: &LAttr, off: u64, len: u64) {
        if let Body::Non(s) = &a.a.body {
            for p in &a.pieces {
                if s.clusters_before(p.runs.0) * s.cluster <= off.saturating_add(len) || off.saturating_add(len) >= s.data {
                    self.record(p.rec);
                }
            }
            self.part(s, off, len);
        }
    }
    fn node(&mut self, d: &DirM, node: usize) {
        if node > 0 {
            let ia = d.file.find(T_IALLOC, &I30).expect("index allocation").clone();
            self.value(&ia, d.index.offset(d.index.nodes[node].slot), d.index.irs);
        }
    }
}

enum Ask {
    World(Q),
    /// Type and name of an attribute, and a part of its value.
    Part { rec: u64, ty: u32, name: Vec<u16>, off: u64, len: u64 },
    Find { rec: u64, up: Vec<u16> },
    Vcn { rec: u64, irs: u64, vcn: u64 },
}

fn ask(a: &Ask, ntfs: &Ntfs, dev: &mut Dev, t: &[u16]) -> Out {
    let mut o = Out::default();
    let r: R = (|| {
        match a {
            Ask::World(Q::Open) => {
                let n = open(dev)?;
                o.items.push(sh_ntfs(&n));
            }
            Ask::World(q) => o = run(q, ntfs, dev, false),
            Ask::Part { rec, ty, name, off, len } => {
                let f = ntfs.file(dev, *rec).okay("file")?;
                let item = find_item(&f, dev, *ty, name, 0)?;
                let at = item.to_attribute().okay("to_attribute")?;
                o.items.push(sh_attr(&at).okay("attribute")?);
                let mut v = at.value(dev).okay("value")?;
                v.seek(dev, SeekFrom::Start(*off)).okay("seek")?;
                let mut buf = vec![0; 4096];
                let mut left = *len;
                while left > 0 {
                    let n = left.min(4096) as usize;
                    let g = v.read(dev, &mut buf[..n]).okay("read")?;
                    if g == 0 {
                        break;
                    }
                    o.bytes.extend(&buf[..g]);
                    left -= g as u64;
                }
            }
            Ask::Find { rec, up: u } => {
                let f = ntfs.file(dev, *rec).okay("file")?;
                let ix = f.directory_index(dev).okay("directory_index")?;
                let mut fi = ix.finder();
                match fi.find(dev, |k: &NtfsFileName| u.cmp(&up(t, &units(&k.name())))) {
                    None => o.items.push("none".into()),
                    Some(e) => o.items.push(sh_entry(&e.okay("find")?).okay("entry")?),
                }
            }
            Ask::Vcn { rec, irs, vcn } => {
                let f = ntfs.file(dev, *rec).okay("file")?;
                let item = find_item(&f, dev, T_IALLOC, &I30, 0)?;
                let at = item.to_attribute().okay("to_attribute")?;
                let al = at.structured_value::<_, NtfsIndexAllocation>(dev).okay("index allocation")?;
                let r = al.record_from_vcn(dev, *irs as u32, Vcn::from(*vcn as i64)).okay("record_from_vcn")?;
                o.items.push(format!("vcn {} subnodes {} sizes {} {}", r.vcn().value(), r.has_subnodes(), r.index_allocated_size(), r.index_data_size()));
                for e in r.entries::<ntfs::indexes::NtfsFileNameIndex>().okay("entries")? {
                    o.items.push(sh_entry(&e.okay("entry")?).okay("entry")?);
                }
            }
        }
        Ok(())
    })();
    if let Err(f) = r {
        o.err = Some(f.msg);
    }
    o
}

/// Nodes visited when looking for `u`.
fn path(d: &DirM, t: &[u16], u: &[u16]) -> Vec<usize> {
    let mut v = vec![0];
    let mut n = 0;
    loop {
        let nd = &d.index.nodes[n];
        let mut j = 0;
        while j < nd.items.len() {
            match u.cmp(&up(t, &d.ents[nd.items[j]].key.name)[..]) {
                Ordering::Greater => j += 1,
                Ordering::Equal => return v,
                Ordering::Less => break,
            }
        }
        match nd.children[j] {
            Some(c) => {
                v.push(c);
                n = c;
            }
            None => return v,
        }
    }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let big = src.chance(30);
    let w = gen_world(src, big);
    let vol = &w.vol;
    let t = vol.upcase.clone();
    ctx.describe(|| w.describe());
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    for _ in 0..src.range(1, 4) {
        let mut need = Need::new(vol);
        let rec = *src.pick(&w.recs);
        let m = w.model(rec).clone();
        let (a, label) = match src.weighted(&[1, 2, 3, 6, 6, 3, 2, 2]) {
            0 => {
                need.r.truncate(1);
                (Ask::World(Q::Open), "opening")
            }
            1 => {
                need.record(rec);
                (Ask::World(match src.below(3) { 0 => Q::File(rec), 1 => Q::Info(rec), _ => Q::Raw(rec) }), "record")
            }
            2 => {
                need.attributes(&m);
                (Ask::World(match src.below(4) { 0 => Q::ListEntries(rec), 1 => Q::Name(rec, None, None), 2 => Q::Data(rec, String::new()), _ => Q::Attrs(rec) }), "attributes")
            }
            3 => {
                let at: Vec<&LAttr> = m.attrs.iter().filter(|x| x.a.ty != T_NAME).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *src.pick(&at);
                let marks = landmarks(&at.a.body);
                let off = src.pick(&marks).saturating_add(src.size(0, 3000)).saturating_sub(src.size(0, 3000));
                let len = src.size(0, 20_000);
                need.attributes(&m);
                need.value(at, off, len);
                (Ask::Part { rec, ty: at.a.ty, name: at.a.name.clone(), off, len }, "part of a value")
            }
            4 | 5 | 6 if w.dirs.is_empty() => continue,
            4 => {
                let d = src.pick(&w.dirs);
                let mut n = if !d.ents.is_empty() && src.chance(80) { src.pick(&d.ents).key.name.clone() } else { gen_name(src, 1, 10) };
                if src.chance(15) {
                    n.push(gen_unit(src));
                }
                let u = up(&t, &n);
                need.attributes(&d.file);
                let p = path(d, &t, &u);
                ctx.label_if(p.len() + 1 < d.index.nodes.len(), "lookup beside damaged index records");
                for k in p {
                    need.node(d, k);
                }
                ctx.describe(|| format!("directory {} find {}", d.file.rec, show(&n)));
                (Ask::Find { rec: d.file.rec, up: u }, "lookup")
            }
            5 => {
                let d = src.pick(&w.dirs);
                if d.index.nodes.len() < 2 {
                    continue;
                }
                let k = src.usize(1, d.index.nodes.len() - 1);
                need.attributes(&d.file);
                need.node(d, k);
                (Ask::Vcn { rec: d.file.rec, irs: d.index.irs, vcn: d.index.vcn(d.index.nodes[k].slot) }, "index record")
            }
            6 => {
                let d = src.pick(&w.dirs);
                need.attributes(&d.file);
                for k in 1..d.index.nodes.len() {
                    need.node(d, k);
                }
                (Ask::World(Q::Listing(d.file.rec)), "listing")
            }
            _ => {
                if !w.recs.contains(&3) {
                    continue;
                }
                need.record(3);
                (Ask::World(if src.bool() { Q::VolInfo } else { Q::VolName }), "volume")
            }
        };
        ctx.label(label);
        ctx.describe(|| label.to_string());
        dev.pos = src.below(1000);
        let want = ask(&a, &ntfs, &mut dev, &t);
        let mut other = Disk::new(!vol.disk.seed, vol.disk.len);
        let mode = src.below(3);
        if mode == 1 {
            // Zeros in place of everything else that was ever written.
            for (p, b) in &vol.disk.blobs {
                other.write(*p, &vec![0; b.len()]);
            }
        }
        for (x, y) in &need.r {
            other.write(*x, &vol.disk.get(*x, (*y - *x) as usize));
        }
        let mut dev2 = other.reader();
        if mode == 2 {
            ctx.label("unreadable elsewhere");
            // Whole sectors are readable.
            dev2.only = Some(need.r.iter().map(|(x, y)| (x & !4095, (y + 4095) & !4095)).collect());
        }
        let got = ask(&a, &ntfs, &mut dev2, &t);
        if want.err.is_none() {
            ctx.nontrivial = true;
            ctx.label("answered");
        }
        let how = ["garbage", "zeros", "unreadable sectors"][mode as usize];
        ck!(got.err == want.err, "other-error", "{label}: {:?} with {how} elsewhere, expected {:?}", got.err, want.err);
        ck!(got.items == want.items, "other-answer", "{label}: {:?} with {how} elsewhere, expected {:?}", got.items, want.items);
        cmp_bytes("other-bytes", label, 0, &got.bytes, &want.bytes)?;
    }
    Ok(())
}
