//! C14: results depend only on the volume, not on reader position or call order.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::engine::*;
use crate::world::*;
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRun};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsAttributeList, NtfsIndexAllocation, NtfsIndexRecords, NtfsIndexRoot};
use ntfs::structured_values::NtfsAttributeListEntries;
use ntfs::{Ntfs, NtfsAttributeItem, NtfsAttributeType, NtfsAttributes, NtfsFile, NtfsIndex, NtfsIndexEntries, NtfsIndexFinder, NtfsReadSeek};
use std::io::{Read, Seek, SeekFrom};

pub static PROP: Prop = Prop {
    id: "C14",
    f: prop,
    quick: 600_000,
    thorough: 15_000_000,
    rule: "a case is a volume with several files and directories and a pool of live objects on it (values, data runs, attribute iterators, list entries, directory iterators, finders, index record iterators); a generated schedule moves the reader anywhere, picks an object and advances it (directly, attached, or as a clone made midway) or runs a whole query; every step must equal what the object yields when used alone on a fresh reader. Non-trivial: at least two objects were advanced alternately.",
    directed: &[],
};

enum Obj<'n, 'f, 'i> {
    Value { v: Option<NtfsAttributeValue<'n, 'f>>, truth: Vec<u8>, pos: usize },
    Run { v: NtfsDataRun, truth: Vec<u8>, pos: usize },
    Attrs { it: Option<NtfsAttributes<'n, 'f>>, truth: Vec<String>, pos: usize },
    List { it: NtfsAttributeListEntries<'n, 'f>, truth: Vec<String>, pos: usize },
    Entries { it: NtfsIndexEntries<'n, 'f, 'i, NtfsFileNameIndex>, truth: Vec<String>, pos: usize },
    Finder { it: NtfsIndexFinder<'n, 'f, 'i, NtfsFileNameIndex>, names: Vec<String>, truth: Vec<String> },
    Records { it: Option<NtfsIndexRecords<'n, 'f>>, truth: Vec<String>, pos: usize },
}

const WINDOW: u64 = 40_000;

fn read_all<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, start: u64) -> Result<Vec<u8>, Fail> {
    v.seek(dev, SeekFrom::Start(start)).okay("seek")?;
    let mut out = vec![0u8; WINDOW as usize];
    let mut k = 0;
    while k < out.len() {
        let g = v.read(dev, &mut out[k..]).okay("read")?;
        if g == 0 {
            break;
        }
        k += g;
    }
    out.truncate(k);
    Ok(out)
}
fn sh_list(e: &ntfs::structured_values::NtfsAttributeListEntry) -> Result<String, Fail> {
    Ok(format!("{:?} {:?} vcn {} ref {} inst {} at {:?}", e.ty().okay("ty")?, units(&e.name()), e.lowest_vcn().value(), e.base_file_reference().file_record_number(), e.instance(), e.position().value()))
}
fn sh_rec(r: &ntfs::NtfsIndexRecord) -> Result<String, Fail> {
    let n = r.entries::<NtfsFileNameIndex>().okay("entries")?.count();
    Ok(format!("vcn {} {} {} {n}", r.vcn().value(), r.has_subnodes(), r.index_data_size()))
}
fn sh_res<T>(r: Option<Result<T, ntfs::NtfsError>>, f: impl FnOnce(T) -> Result<String, Fail>) -> Result<String, Fail> {
    Ok(match r {
        None => "end".into(),
        Some(Ok(x)) => f(x)?,
        Some(Err(e)) => format!("error {e}"),
    })
}
fn jump(src: &mut Src, dev: &mut Dev) {
    if src.chance(60) {
        dev.pos = match src.below(4) {
            0 => 0,
            1 => src.size(0, dev.disk.len),
            2 => dev.disk.len.saturating_add(src.below(3)),
            _ => src.u64() >> src.below(64),
        };
    }
}
fn seq_check(sig: &str, what: &str, truth: &[String], pos: &mut usize, got: String) -> R {
    let want = truth.get(*pos).cloned().unwrap_or("end".into());
    ck!(got == want, sig, "{what}: step {pos} yields {got}, but {want} when used alone");
    if *pos < truth.len() {
        *pos += 1;
    }
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, true);
    ctx.describe(|| w.describe());
    let disk = &w.vol.disk;
    let fresh = || Dev::new(disk);
    let mut dev = fresh();
    dev.pos = src.size(0, disk.len);
    let mut ntfs = open(&mut dev)?;
    if w.up {
        jump(src, &mut dev);
        ntfs.read_upcase_table(&mut dev).okay("read_upcase_table")?;
    }
    let ntfs: &Ntfs = &ntfs;
    // Files, items and indexes live as long as the objects on them.
    let mut files: Vec<NtfsFile> = vec![];
    for m in w.models() {
        jump(src, &mut dev);
        files.push(ntfs.file(&mut dev, m.rec).okay("Ntfs::file")?);
    }
    let mut items: Vec<NtfsAttributeItem> = vec![];
    let mut lists = vec![];
    let mut indexes: Vec<NtfsIndex<NtfsFileNameIndex>> = vec![];
    for f in &files {
        let mut it = f.attributes();
        while let Some(i) = it.next(&mut dev) {
            items.push(i.okay("attributes().next")?);
            jump(src, &mut dev);
        }
        for a in f.attributes_raw() {
            let a = a.okay("attributes_raw")?;
            if a.ty().okay("ty")? == NtfsAttributeType::AttributeList {
                lists.push(a.structured_value::<_, NtfsAttributeList>(&mut dev).okay("attribute list")?);
            }
        }
        if f.is_directory() {
            jump(src, &mut dev);
            indexes.push(f.directory_index(&mut dev).okay("directory_index")?);
        }
    }
    let mut attrs = vec![];
    for i in &items {
        attrs.push(i.to_attribute().okay("to_attribute")?);
    }
    let mut objs: Vec<Obj> = vec![];
    let nobj = src.range(2, 7);
    for _ in 0..nobj {
        let mut tr = fresh();
        match src.weighted(&[6, 2, 3, 2, 4, 3, 2]) {
            0 if !attrs.is_empty() => {
                let a = src.pick(&attrs);
                let start = src.size(0, a.value_length());
                // Alone, on a reader of its own.
                let mut v = a.value(&mut tr).okay("value")?;
                let truth = read_all(&mut v, &mut tr, start)?;
                jump(src, &mut dev);
                let mut v = a.value(&mut dev).okay("value")?;
                jump(src, &mut dev);
                v.seek(&mut dev, SeekFrom::Start(start)).okay("seek")?;
                objs.push(Obj::Value { v: Some(v), truth, pos: 0 });
            }
            1 if !attrs.is_empty() => {
                let a = src.pick(&attrs);
                if let NtfsAttributeValue::NonResident(v) = a.value(&mut tr).okay("value")? {
                    let k = src.below(4) as usize;
                    if let Some(r) = v.data_runs().nth(k) {
                        let mut r = r.okay("data run")?;
                        let start = src.size(0, r.allocated_size());
                        let truth = read_all(&mut r.clone(), &mut tr, start)?;
                        r.seek(&mut dev, SeekFrom::Start(start)).okay("seek")?;
                        objs.push(Obj::Run { v: r, truth, pos: 0 });
                    }
                }
            }
            2 if !files.is_empty() => {
                let f = src.pick(&files);
                let mut truth = vec![];
                let mut it = f.attributes();
                while let Some(i) = it.next(&mut tr) {
                    truth.push(sh_attr(&i.okay("next")?.to_attribute().okay("to_attribute")?).okay("attribute")?);
                }
                objs.push(Obj::Attrs { it: Some(f.attributes()), truth, pos: 0 });
            }
            3 if !lists.is_empty() => {
                let l: &NtfsAttributeList = src.pick(&lists);
                let mut truth = vec![];
                let mut it = l.entries();
                while let Some(i) = it.next(&mut tr) {
                    truth.push(sh_list(&i.okay("next")?)?);
                }
                objs.push(Obj::List { it: l.entries(), truth, pos: 0 });
            }
            4 if !indexes.is_empty() => {
                let ix = src.pick(&indexes);
                let mut truth = vec![];
                let mut it = ix.entries();
                while let Some(i) = it.next(&mut tr) {
                    truth.push(sh_entry(&i.okay("next")?).okay("entry")?);
                }
                objs.push(Obj::Entries { it: ix.entries(), truth, pos: 0 });
            }
            5 if w.up && !indexes.is_empty() => {
                let k = src.below(indexes.len() as u64) as usize;
                let mut names: Vec<String> = w.dirs[k].ents.iter().filter_map(|e| crate::vol::to_str(&e.key.name)).take(30).collect();
                names.push("absent".into());
                names.push("".into());
                let mut truth = vec![];
                for n in &names {
                    // A finder of its own for every name.
                    let mut fi = indexes[k].finder();
                    truth.push(sh_res(NtfsFileNameIndex::find(&mut fi, ntfs, &mut tr, n), |e| sh_entry(&e).okay("entry"))?);
                }
                objs.push(Obj::Finder { it: indexes[k].finder(), names, truth });
            }
            6 => {
                let al: Vec<usize> = (0..attrs.len()).filter(|i| matches!(attrs[*i].ty(), Ok(NtfsAttributeType::IndexAllocation)) && !attrs[*i].is_resident()).collect();
                if al.is_empty() {
                    continue;
                }
                let i = *src.pick(&al);
                let size = if i > 0 {
                    match attrs[i - 1].resident_structured_value::<NtfsIndexRoot>() {
                        Ok(r) => r.index_record_size(),
                        Err(_) => 4096,
                    }
                } else {
                    4096
                };
                let Ok(a) = attrs[i].structured_value::<_, NtfsIndexAllocation>(&mut tr) else { continue };
                let mut truth = vec![];
                let mut it = a.records(size);
                for _ in 0..200 {
                    match it.next(&mut tr) {
                        None => break,
                        Some(Ok(r)) => truth.push(sh_rec(&r)?),
                        Some(Err(e)) => {
                            // An unused record: it stays there.
                            truth.push(format!("error {e}"));
                            break;
                        }
                    }
                }
                let cut = matches!(truth.last(), Some(x) if x.starts_with("error"));
                if cut {
                    truth.pop();
                    if truth.is_empty() {
                        continue;
                    }
                }
                let a = attrs[i].structured_value::<_, NtfsIndexAllocation>(&mut dev).okay("index allocation")?;
                if !cut {
                    truth.push("end".into());
                }
                objs.push(Obj::Records { it: Some(a.records(size)), truth, pos: 0 });
            }
            _ => {}
        }
    }
    let steps = src.range(5, 60);
    let mut last = usize::MAX;
    let mut switches = 0;
    for _ in 0..steps {
        jump(src, &mut dev);
        if objs.is_empty() || src.chance(8) {
            // A whole query in between.
            let q = gen_q(src, &w);
            let mut tr = fresh();
            let truth = run(&q, ntfs, &mut tr, false);
            let got = run(&q, ntfs, &mut dev, false);
            ck!(got == truth, "query", "{q:?} yields {got:?}, but {truth:?} on a fresh reader");
            ctx.label("query in between");
            continue;
        }
        let k = src.usize(0, objs.len() - 1);
        if last != k && last != usize::MAX {
            switches += 1;
        }
        last = k;
        let how = src.below(4);
        let mut new = None;
        match &mut objs[k] {
            Obj::Value { v, truth, pos } => {
                ctx.label("value");
                let n = src.size(1, 6000) as usize;
                let mut buf = vec![0xCC; n];
                if how == 3 && src.bool() {
                    // Back to some earlier or later place.
                    let base = v.as_ref().unwrap().stream_position() - *pos as u64;
                    let t = src.range(0, truth.len() as u64);
                    v.as_mut().unwrap().seek(&mut dev, SeekFrom::Start(base + t)).okay("seek")?;
                    *pos = t as usize;
                    jump(src, &mut dev);
                }
                let got = if how == 1 {
                    let mut a = v.take().unwrap().attach(&mut dev);
                    let p = a.stream_position().okay("stream_position")?;
                    let g = a.read(&mut buf).okay("attached read")?;
                    let p2 = a.stream_position().okay("stream_position")?;
                    ck!(p2 == p + g as u64, "attached-position", "position {p2} after reading {g} at {p}");
                    *v = Some(a.detach());
                    ctx.label("attached value");
                    g
                } else {
                    v.as_mut().unwrap().read(&mut dev, &mut buf).okay("read")?
                };
                let end = (*pos + got).min(truth.len());
                cmp_bytes("value-bytes", "interleaved value", *pos as u64, &buf[..got.min(end - *pos)], &truth[*pos..end])?;
                ck!(got > 0 || *pos >= truth.len() || n == 0, "value-end", "interleaved value ends at {pos} of {}", truth.len());
                *pos = end;
                if end == truth.len() && truth.len() as u64 == WINDOW {
                    // The end of what is known about a longer value: this object retires.
                    truth.clear();
                }
                if how == 2 && !truth.is_empty() {
                    ctx.label("clone");
                    new = Some(Obj::Value { v: v.clone(), truth: truth.clone(), pos: *pos });
                }
            }
            Obj::Run { v, truth, pos } => {
                ctx.label("data run");
                let n = src.size(1, 6000) as usize;
                let n = n.min(truth.len() - *pos).max(1);
                let mut buf = vec![0xCC; n];
                if *pos < truth.len() {
                    let got = v.read(&mut dev, &mut buf).okay("read")?;
                    cmp_bytes("run-bytes", "interleaved data run", *pos as u64, &buf[..got], &truth[*pos..*pos + got])?;
                    ck!(got > 0, "run-end", "data run ends at {pos} of {}", truth.len());
                    *pos += got;
                }
                if how == 2 {
                    new = Some(Obj::Run { v: v.clone(), truth: truth.clone(), pos: *pos });
                }
            }
            Obj::Attrs { it, truth, pos } => {
                ctx.label("attributes");
                let got = if how == 1 {
                    let mut a = it.take().unwrap().attach(&mut dev);
                    let r = sh_res(a.next(), |i| sh_attr(&i.to_attribute().okay("to_attribute")?).okay("attribute"))?;
                    *it = Some(a.detach());
                    ctx.label("attached attributes");
                    r
                } else {
                    sh_res(it.as_mut().unwrap().next(&mut dev), |i| sh_attr(&i.to_attribute().okay("to_attribute")?).okay("attribute"))?
                };
                seq_check("attributes", "attribute iterator", truth, pos, got)?;
                if how == 2 {
                    ctx.label("clone");
                    new = Some(Obj::Attrs { it: it.clone(), truth: truth.clone(), pos: *pos });
                }
            }
            Obj::List { it, truth, pos } => {
                ctx.label("list entries");
                let got = sh_res(it.next(&mut dev), |e| sh_list(&e))?;
                seq_check("list-entries", "attribute list iterator", truth, pos, got)?;
                if how == 2 {
                    new = Some(Obj::List { it: it.clone(), truth: truth.clone(), pos: *pos });
                }
            }
            Obj::Entries { it, truth, pos } => {
                ctx.label("directory entries");
                let got = sh_res(it.next(&mut dev), |e| sh_entry(&e).okay("entry"))?;
                seq_check("entries", "directory iterator", truth, pos, got)?;
            }
            Obj::Finder { it, names, truth } => {
                ctx.label("finder");
                let i = src.usize(0, names.len() - 1);
                let got = sh_res(NtfsFileNameIndex::find(it, ntfs, &mut dev, &names[i]), |e| sh_entry(&e).okay("entry"))?;
                ck!(got == truth[i], "finder", "reused finder for {:?}: {got}, but {} with a fresh one", names[i], truth[i]);
            }
            Obj::Records { it, truth, pos } => {
                ctx.label("index records");
                if *pos >= truth.len() {
                    continue;
                }
                let got = if how == 1 {
                    let mut a = it.take().unwrap().attach(&mut dev);
                    let r = sh_res(a.next(), |r| sh_rec(&r))?;
                    *it = Some(a.detach());
                    r
                } else {
                    sh_res(it.as_mut().unwrap().next(&mut dev), |r| sh_rec(&r))?
                };
                seq_check("records", "index record iterator", truth, pos, got)?;
                if how == 2 {
                    new = Some(Obj::Records { it: it.clone(), truth: truth.clone(), pos: *pos });
                }
            }
        }
        // Exhausted windows of long values are done with.
        objs.retain(|o| !matches!(o, Obj::Value { truth, pos, .. } if truth.is_empty() && *pos > 0));
        if last >= objs.len() {
            last = usize::MAX;
        }
        if let Some(n) = new {
            if objs.len() < 14 {
                objs.push(n);
            }
        }
    }
    ctx.nontrivial = switches >= 2;
    Ok(())
}
