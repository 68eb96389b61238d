//! A volume with a bit of everything, and the public API's queries as data: each query runs against
//! any reader and yields a printable result, so that two runs can be compared.

use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use nt_string::u16strle::U16StrLe;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{Ntfs, NtfsAttribute, NtfsAttributeType, NtfsError, NtfsFile, NtfsReadSeek, UpcaseOrd};
use std::io::SeekFrom;

pub struct World {
    pub vol: Vol,
    pub files: Vec<FileM>,
    pub dirs: Vec<DirM>,
    /// Records of all base files.
    pub recs: Vec<u64>,
    /// The volume has an uppercase table.
    pub up: bool,
}

pub fn gen_world(src: &mut Src, big: bool) -> World {
    let up = src.chance(35);
    let mut vol = Vol::new(src, &VolOpts { records: 60, mft_runs: 4, upcase: up, big_mft: 5, ..Default::default() });
    let mut files = vec![];
    let mut dirs = vec![];
    for _ in 0..src.range(1, 3) {
        let ao = AttrsOpts { max_runs: if big { 20 } else { 8 }, huge: src.chance(10), max_named: 2, types: true };
        let attrs = gen_attrs(src, &mut vol, &ao);
        if attrs.is_empty() {
            continue;
        }
        files.push(gen_file(src, &mut vol, attrs, 1));
    }
    for _ in 0..src.range(0, 2) {
        let o = DirOpts { max_entries: if big { 60 } else { 25 }, max_name: 20, max_depth: 3, list_pct: 25, small_irs: src.chance(50), ..Default::default() };
        // Entries reference the files.
        let mut d = gen_dir(src, &mut vol, &o);
        d.file = d.file.clone();
        dirs.push(d);
    }
    if src.chance(50) {
        // $Volume.
        let listed = src.chance(40);
        let nm = gen_name(src, 0, 20);
        let mut vi = vec![0u8; 12];
        vi[8] = 3;
        vi[9] = 1;
        vi[10] = 0x80;
        let attrs = vec![vol.std_attr(src), Attr::res(T_VOLNAME, &[], u16s(&nm)), Attr::res(T_VOLINFO, &[], vi)];
        files.push(vol.add_file(src, FileSpec { rec: 3, seq: 3, links: 1, flags: 1, attrs, list_pct: if listed { 100 } else { 0 }, list_non_pct: 40, stay_pct: 50 }));
    }
    vol.finish(src);
    let mut recs: Vec<u64> = files.iter().map(|f| f.rec).collect();
    recs.extend(dirs.iter().map(|d| d.file.rec));
    recs.push(0);
    World { vol, files, dirs, recs, up }
}
impl World {
    pub fn models(&self) -> impl Iterator<Item = &FileM> {
        self.files.iter().chain(self.dirs.iter().map(|d| &d.file))
    }
    pub fn model(&self, rec: u64) -> &FileM {
        self.models().find(|f| f.rec == rec).unwrap_or_else(|| &self.vol.files[&rec])
    }
    pub fn describe(&self) -> String {
        let mut s = desc_geo(&self.vol.geo);
        for f in self.models() {
            s += &format!("; file {} list {:?}: {}", f.rec, f.list, f.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(" | "));
        }
        s
    }
}

#[derive(Clone, Debug)]
pub enum Q {
    Open,
    Upcase,
    File(u64),
    Info(u64),
    Raw(u64),
    Attrs(u64),
    Name(u64, Option<u8>, Option<u64>),
    Data(u64, String),
    ListEntries(u64),
    /// Value of the n-th flattened attribute: a window.
    Value { rec: u64, nth: usize, off: u64, len: u64, chunk: usize },
    Structured { rec: u64, nth: usize },
    Listing(u64),
    /// With the volume's table or by an own comparison.
    Find(u64, String, bool),
    Records(u64),
    Runs { rec: u64, nth: usize },
    RunBytes { rec: u64, nth: usize, run: usize, off: u64, len: u64 },
    VolInfo,
    VolName,
    Root,
}

pub fn gen_q(src: &mut Src, w: &World) -> Q {
    let rec = if src.chance(3) { src.interesting(50) } else { *src.pick(&w.recs) };
    let nattrs = w.models().find(|f| f.rec == rec).map(|f| f.attrs.len()).unwrap_or(3);
    let nth = src.usize(0, nattrs.max(1) - 1);
    let dir = if w.dirs.is_empty() { rec } else { src.pick(&w.dirs).file.rec };
    match src.weighted(&[1, 1, 2, 1, 2, 4, 2, 3, 2, 8, 2, 5, 5, 3, 2, 2, 1, 1, 1]) {
        0 => Q::Open,
        1 => Q::Upcase,
        2 => Q::File(rec),
        3 => Q::Info(rec),
        4 => Q::Raw(rec),
        5 => Q::Attrs(rec),
        6 => Q::Name(rec, if src.bool() { Some(src.below(4) as u8) } else { None }, if src.chance(30) { Some(5 + src.below(2)) } else { None }),
        7 => {
            let names: Vec<String> = w.models().filter(|f| f.rec == rec).flat_map(|f| f.attrs.iter()).filter(|a| a.a.ty == T_DATA).filter_map(|a| to_str(&a.a.name)).collect();
            let n = if !w.up { String::new() } else if names.is_empty() || src.chance(15) { "nope".to_string() } else { src.pick(&names).clone() };
            Q::Data(rec, n)
        }
        8 => Q::ListEntries(rec),
        9 => {
            let marks = w.models().find(|f| f.rec == rec).and_then(|f| f.attrs.get(nth)).map(|a| landmarks(&a.a.body)).unwrap_or(vec![0]);
            let off = src.pick(&marks).saturating_sub(src.size(0, 4000)).saturating_add(src.below(3));
            let len = src.size(0, 60_000);
            let chunk = if src.bool() { 1 << 20 } else { src.size(64, 9000) as usize };
            Q::Value { rec, nth, off, len, chunk }
        }
        10 => Q::Structured { rec, nth },
        11 => Q::Listing(dir),
        12 => {
            let names: Vec<String> = w.dirs.iter().filter(|d| d.file.rec == dir).flat_map(|d| d.ents.iter()).filter_map(|e| to_str(&e.key.name)).collect();
            let n = if names.is_empty() || src.chance(15) { "nope".to_string() } else { src.pick(&names).clone() };
            Q::Find(dir, n, w.up)
        }
        13 => Q::Records(dir),
        14 => Q::Runs { rec, nth },
        15 => Q::RunBytes { rec, nth, run: src.below(6) as usize, off: src.size(0, 9000), len: src.size(0, 9000) },
        16 => Q::VolInfo,
        17 => Q::VolName,
        _ => Q::Root,
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Out {
    pub items: Vec<String>,
    pub err: Option<String>,
    /// Bytes of a value query and the position behind them.
    pub bytes: Vec<u8>,
}

pub fn sh_file(f: &NtfsFile) -> String {
    format!(
        "record {} seq {} links {} flags {:?} sizes {} {} at {:?}",
        f.file_record_number(),
        f.sequence_number(),
        f.hard_link_count(),
        f.flags(),
        f.allocated_size(),
        f.data_size(),
        f.position().value()
    )
}
pub fn sh_attr(a: &NtfsAttribute) -> Result<String, NtfsError> {
    Ok(format!(
        "{:?} {:?} {:?} inst {} res {} len {} size {} at {:?}",
        a.ty()?,
        units(&a.name()?),
        a.flags(),
        a.instance(),
        a.is_resident(),
        a.value_length(),
        a.attribute_length(),
        a.position().value()
    ))
}
pub fn sh_name(n: &NtfsFileName) -> String {
    format!(
        "{:?} ns {:?} times {:?} sizes {} {} attrs {:?} parent {}/{}",
        units(&n.name()),
        n.namespace(),
        [n.creation_time().nt_timestamp(), n.modification_time().nt_timestamp(), n.mft_record_modification_time().nt_timestamp(), n.access_time().nt_timestamp()],
        n.allocated_size(),
        n.data_size(),
        n.file_attributes(),
        n.parent_directory_reference().file_record_number(),
        n.parent_directory_reference().sequence_number()
    )
}
pub fn sh_ntfs(n: &Ntfs) -> String {
    format!("{} {} {} {} {:x} {:?}", n.sector_size(), n.cluster_size(), n.file_record_size(), n.size(), n.serial_number(), n.mft_position().value())
}

/// Runs a query on fresh objects. `heal`: called once when an operation of an iterating query failed;
/// the iteration then goes on (at most a few times) to see what it yields afterwards.
pub fn run(q: &Q, ntfs: &Ntfs, dev: &mut Dev, go_on: bool) -> Out {
    let mut o = Out::default();
    let r = run_inner(q, ntfs, dev, go_on, &mut o);
    if let Err(e) = r {
        o.err = Some(e.to_string());
    }
    for i in &o.items {
        crate::engine::obs(i.as_bytes());
    }
    crate::engine::obs(&o.bytes);
    crate::engine::obs(&[o.err.is_some() as u8]);
    o
}

/// An iterating query's error: stop, or heal the reader and go on.
macro_rules! step {
    ($o:expr, $dev:expr, $go_on:expr, $e:expr) => {{
        if $o.err.is_none() {
            $o.err = Some($e.to_string());
        }
        if !$go_on {
            return Ok(());
        }
        $dev.faults.clear();
        $o.items.push("(error)".into());
        if $o.items.iter().filter(|x| *x == "(error)").count() > 3 {
            return Ok(());
        }
        continue;
    }};
}

fn run_inner(q: &Q, ntfs: &Ntfs, dev: &mut Dev, go_on: bool, o: &mut Out) -> Result<(), NtfsError> {
    match q {
        Q::Open => {

            let n = Ntfs::new(dev)?;
            o.items.push(sh_ntfs(&n));
        }
        Q::Upcase => {
            let mut n = Ntfs::new(dev)?;
            n.read_upcase_table(dev)?;
            o.items.push(table_print(&n));
        }
        Q::File(r) => o.items.push(sh_file(&ntfs.file(dev, *r)?)),
        Q::Root => o.items.push(sh_file(&ntfs.root_directory(dev)?)),
        Q::Info(r) => {
            let f = ntfs.file(dev, *r)?;
            let i = f.info()?;
            o.items.push(format!("{} {} {:?} {:?} {:?}", i.creation_time().nt_timestamp(), i.access_time().nt_timestamp(), i.file_attributes(), i.owner_id(), i.usn()));
        }
        Q::Raw(r) => {
            let f = ntfs.file(dev, *r)?;
            for a in f.attributes_raw() {
                o.items.push(sh_attr(&a?)?);
            }
        }
        Q::Attrs(r) => {
            let f = ntfs.file(dev, *r)?;
            let mut it = f.attributes();
            loop {
                match it.next(dev) {
                    None => break,
                    Some(Ok(i)) => o.items.push(sh_attr(&i.to_attribute()?)?),
                    Some(Err(e)) => step!(o, dev, go_on, e),
                }
            }
        }
        Q::Name(r, ns, parent) => {
            let f = ntfs.file(dev, *r)?;
            let ns = ns.map(|n| match n {
                0 => NtfsFileNamespace::Posix,
                1 => NtfsFileNamespace::Win32,
                2 => NtfsFileNamespace::Dos,
                _ => NtfsFileNamespace::Win32AndDos,
            });
            match f.name(dev, ns, *parent) {
                None => o.items.push("none".into()),
                Some(n) => o.items.push(sh_name(&n?)),
            }
        }
        Q::Data(r, n) => {
            let f = ntfs.file(dev, *r)?;
            match f.data(dev, n) {
                None => o.items.push("none".into()),
                Some(i) => {
                    let i = i?;
                    let a = i.to_attribute()?;
                    o.items.push(sh_attr(&a)?);
                }
            };
        }
        Q::ListEntries(r) => {
            let f = ntfs.file(dev, *r)?;
            for a in f.attributes_raw() {
                let a = a?;
                if a.ty()? != NtfsAttributeType::AttributeList {
                    continue;
                }
                let l = a.structured_value::<_, NtfsAttributeList>(dev)?;
                let mut it = l.entries();
                loop {
                    match it.next(dev) {
                        None => break,
                        Some(Ok(e)) => o.items.push(format!("{:?} {:?} vcn {} ref {} inst {} at {:?}", e.ty()?, units(&e.name()), e.lowest_vcn().value(), e.base_file_reference().file_record_number(), e.instance(), e.position().value())),
                        Some(Err(e)) => step!(o, dev, go_on, e),
                    }
                }
            }
        }
        Q::Value { rec, nth, off, len, chunk } => {
            let f = ntfs.file(dev, *rec)?;
            let mut it = f.attributes();
            let mut k = 0;
            while let Some(i) = it.next(dev) {
                let i = i?;
                if k == *nth {
                    let a = i.to_attribute()?;
                    o.items.push(sh_attr(&a)?);
                    let mut v = a.value(dev)?;
                    o.items.push(format!("len {}", v.len()));
                    v.seek(dev, SeekFrom::Start(*off))?;
                    let mut buf = vec![0xCC; *chunk];
                    let mut got = 0u64;
                    while got < *len {
                        let n = (*len - got).min(*chunk as u64) as usize;
                        let before = v.stream_position();
                        match v.read(dev, &mut buf[..n]) {
                            Ok(0) => break,
                            Ok(g) => {
                                o.bytes.extend(&buf[..g]);
                                got += g as u64;
                                if v.stream_position() != before + g as u64 {
                                    o.items.push(format!("position {} after reading {g} at {before}", v.stream_position()));
                                }
                            }
                            Err(e) => {
                                if v.stream_position() != before {
                                    // Bytes are lost to a caller who only sees the error.
                                    o.items.push(format!("position {} after a failed read at {before}", v.stream_position()));
                                }
                                step!(o, dev, go_on, e)
                            }
                        }
                    }
                    o.items.push(format!("end {}", v.stream_position()));
                    return Ok(());
                }
                k += 1;
            }
        }
        Q::Structured { rec, nth } => {
            let f = ntfs.file(dev, *rec)?;
            let mut it = f.attributes();
            let mut k = 0;
            while let Some(i) = it.next(dev) {
                let i = i?;
                if k == *nth {
                    let a = i.to_attribute()?;
                    match a.ty()? {
                        NtfsAttributeType::FileName => o.items.push(sh_name(&a.structured_value::<_, NtfsFileName>(dev)?)),
                        NtfsAttributeType::ObjectId => {
                            let v = a.structured_value::<_, NtfsObjectId>(dev)?;
                            o.items.push(format!("{} {:?} {:?} {:?}", v.object_id(), v.birth_volume_id(), v.birth_object_id(), v.domain_id()));
                        }
                        NtfsAttributeType::VolumeName => o.items.push(format!("{:?}", units(&a.structured_value::<_, NtfsVolumeName>(dev)?.name()))),
                        NtfsAttributeType::StandardInformation => {
                            let v = a.structured_value::<_, NtfsStandardInformation>(dev)?;
                            o.items.push(format!("{} {:?}", v.modification_time().nt_timestamp(), v.security_id()));
                        }
                        t => o.items.push(format!("{t:?}")),
                    }
                    return Ok(());
                }
                k += 1;
            }
        }
        Q::Listing(r) => {
            let f = ntfs.file(dev, *r)?;
            let ix = f.directory_index(dev)?;
            let mut it = ix.entries();
            loop {
                match it.next(dev) {
                    None => break,
                    Some(Ok(e)) => o.items.push(sh_entry(&e)?),
                    Some(Err(e)) => step!(o, dev, go_on, e),
                }
            }
        }
        Q::Find(r, n, table) => {
            let f = ntfs.file(dev, *r)?;
            let ix = f.directory_index(dev)?;
            let mut fi = ix.finder();
            let res = if *table {
                NtfsFileNameIndex::find(&mut fi, ntfs, dev, n)
            } else {
                let u = up(default_upcase(), &utf16(n));
                fi.find(dev, |k: &NtfsFileName| u.cmp(&up(default_upcase(), &units(&k.name()))))
            };
            match res {
                None => o.items.push("none".into()),
                Some(e) => o.items.push(sh_entry(&e?)?),
            }
        }
        Q::Records(r) => {
            let f = ntfs.file(dev, *r)?;
            let mut it = f.attributes();
            let mut size = 4096;
            while let Some(i) = it.next(dev) {
                let i = i?;
                let a = i.to_attribute()?;
                match a.ty()? {
                    NtfsAttributeType::IndexRoot => {
                        if let Ok(root) = a.resident_structured_value::<NtfsIndexRoot>() {
                            size = root.index_record_size();
                        }
                    }
                    NtfsAttributeType::IndexAllocation => {
                        let al = a.structured_value::<_, NtfsIndexAllocation>(dev)?;
                        let mut rs = al.records(size);
                        while let Some(r) = rs.next(dev) {
                            // Unused records fail, again and again; only a failing reader recovers.
                            let r = match r {
                                Ok(r) => r,
                                Err(e @ NtfsError::Io(_)) => step!(o, dev, go_on, e),
                                Err(e) => return Err(e),
                            };
                            let n = r.entries::<NtfsFileNameIndex>()?.count();
                            o.items.push(format!("vcn {} subnodes {} sizes {} {} entries {n}", r.vcn().value(), r.has_subnodes(), r.index_allocated_size(), r.index_data_size()));
                        }
                    }
                    _ => {}
                }
            }
        }
        Q::Runs { rec, nth } => {
            let f = ntfs.file(dev, *rec)?;
            let mut it = f.attributes();
            let mut k = 0;
            while let Some(i) = it.next(dev) {
                let i = i?;
                if k == *nth {
                    let a = i.to_attribute()?;
                    if let NtfsAttributeValue::NonResident(v) = a.value(dev)? {
                        for r in v.data_runs() {
                            let r = r?;
                            o.items.push(format!("{:?} {}", r.data_position().value(), r.allocated_size()));
                        }
                    }
                    return Ok(());
                }
                k += 1;
            }
        }
        Q::RunBytes { rec, nth, run, off, len } => {
            let f = ntfs.file(dev, *rec)?;
            let mut it = f.attributes();
            let mut k = 0;
            while let Some(i) = it.next(dev) {
                let i = i?;
                if k == *nth {
                    let a = i.to_attribute()?;
                    if let NtfsAttributeValue::NonResident(v) = a.value(dev)? {
                        if let Some(r) = v.data_runs().nth(*run) {
                            let mut r = r?;
                            r.seek(dev, SeekFrom::Start(*off))?;
                            let mut buf = vec![0xCC; *len as usize];
                            let mut got = 0;
                            while got < buf.len() {
                                let before = r.stream_position();
                                match r.read(dev, &mut buf[got..]) {
                                    Ok(0) => break,
                                    Ok(g) => {
                                        o.bytes.extend(&buf[got..got + g]);
                                        got += g;
                                    }
                                    Err(e) => {
                                        if r.stream_position() != before {
                                            o.items.push(format!("position {} after a failed read at {before}", r.stream_position()));
                                        }
                                        step!(o, dev, go_on, e)
                                    }
                                }
                            }
                            o.items.push(format!("end {}", r.stream_position()));
                        }
                    }
                    return Ok(());
                }
                k += 1;
            }
        }
        Q::VolInfo => {
            let v = ntfs.volume_info(dev)?;
            o.items.push(format!("{}.{} {:?}", v.major_version(), v.minor_version(), v.flags()));
        }
        Q::VolName => match ntfs.volume_name(dev) {
            None => o.items.push("none".into()),
            Some(n) => o.items.push(format!("{:?}", units(&n?.name()))),
        },
    }
    Ok(())
}
pub fn sh_entry(e: &ntfs::NtfsIndexEntry<NtfsFileNameIndex>) -> Result<String, NtfsError> {
    let k = match e.key() {
        Some(k) => sh_name(&k?),
        None => "no key".into(),
    };
    Ok(format!("{}/{} {k} at {:?}", e.file_reference().file_record_number(), e.file_reference().sequence_number(), e.position().value()))
}
/// Is `a` a subsequence of `b`, ignoring error marks?
pub fn subsequence(a: &[String], b: &[String]) -> bool {
    let mut it = b.iter();
    a.iter().filter(|x| *x != "(error)").all(|x| it.any(|y| y == x))
}
/// A fingerprint of the whole uppercase table.
pub fn table_print(n: &Ntfs) -> String {
    let mut h = 0u64;
    for c in (0..0xFFFFu32).step_by(61) {
        let (a, b) = ((c as u16).to_le_bytes(), (c as u16 ^ 0x20).to_le_bytes());
        let r = U16StrLe(&a).upcase_cmp(n, &U16StrLe(&b));
        h = mix(h ^ r as i8 as u8 as u64);
    }
    format!("table {h:x}")
}
