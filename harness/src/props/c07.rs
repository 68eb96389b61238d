//! C07: a file record number always resolves to that very record.
use super::Prop;
use crate::api::*;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsFileName;
use ntfs::{Ntfs, NtfsFile};

pub static PROP: Prop = Prop {
    id: "C07",
    f: prop,
    quick: 1_500_000,
    thorough: 12_000_000,
    rule: "a case is a volume with a generated MFT (1-8 runs anywhere, records straddling runs, huge tables, partly initialized) holding several records, decoy records at plausible wrong places, and queries by number, by reference (index entry, parent reference) and out of range. Non-trivial: the MFT has several runs or decoys were placed.",
    directed: &[],
};

fn same(f: &NtfsFile, m: &FileM, vol: &Vol, what: &str) -> R {
    ck!(f.file_record_number() == m.rec, "number", "{what}: file_record_number {} expected {}", f.file_record_number(), m.rec);
    ck!(f.sequence_number() == m.seq, "sequence", "{what}: sequence number {} expected {}", f.sequence_number(), m.seq);
    ck!(f.hard_link_count() == m.links, "links", "{what}: hard link count {} expected {}", f.hard_link_count(), m.links);
    ck!(f.flags().bits() == m.flags & 3, "flags", "{what}: flags {:?} expected {:#x}", f.flags(), m.flags);
    crate::named_flags!(what, f.flags(), m.flags, NtfsFileFlags: IN_USE = 1, IS_DIRECTORY = 2);
    ck!(f.is_directory() == (m.flags & 2 != 0), "is-directory", "{what}: is_directory {}", f.is_directory());
    ck!(f.data_size() == m.used, "data-size", "{what}: data_size {} expected {}", f.data_size(), m.used);
    ck!(f.allocated_size() as u64 == vol.geo.frs, "allocated-size", "{what}: allocated_size {}", f.allocated_size());
    let pos = vol.rec_pos(m.rec);
    ck!(f.position().value().map(|x| x.get()) == Some(pos), "position", "{what}: position {:?} expected {pos}", f.position());
    // The record's own attribute tells it apart.
    let a = &m.attrs[0];
    let Body::Res(want) = &a.a.body else { return Ok(()) };
    for r in f.attributes_raw() {
        let r = r.okay("attributes_raw")?;
        if r.ty().okay("ty")? as u32 == a.a.ty {
            let mut dev = vol.disk.reader();
            let mut v = r.value(&mut dev).okay("value")?;
            let got = read_to_end(&mut v, &mut dev, 1 << 20, || 4096)?;
            return cmp_bytes("identity", what, 0, &got, want);
        }
    }
    fail!("identity", "{what}: the attribute of the record is missing")
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let (records, mft_runs) = (24 + src.below(60), *src.pick(&[1u64, 3, 8]));
    let mut vol = Vol::new(src, &VolOpts { records, max_frs: 32768, mft_runs, big_mft: 15, ..Default::default() });
    let frs = vol.geo.frs;
    // The table's size is not always a whole number of records, nor fully initialized.
    if src.chance(30) {
        let cut = src.range(0, (frs - 1).min(vol.mft.data - (FIRST_FREE + 6) * frs));
        vol.mft.data -= cut;
        vol.rec_limit = vol.mft.data / frs;
    }
    vol.mft.init = vol.mft.data;
    let init_records = if src.chance(15) { src.range(FIRST_FREE + 4, vol.rec_limit) } else { vol.rec_limit };
    if init_records < vol.rec_limit {
        vol.mft.init = init_records * frs + if src.bool() { src.below(frs) } else { 0 };
        ctx.label("partly initialized");
    }
    vol.rec_limit = init_records.max(FIRST_FREE + 1);
    let real_limit = vol.mft.data / frs;
    // Choose the records.
    let mut recs: Vec<u64> = vec![];
    for _ in 0..src.range(1, 6) {
        // At run boundaries, at the end, or anywhere.
        let r = match src.below(3) {
            0 => {
                let k = src.below(vol.mft.runs.len() as u64 + 1) as usize;
                (vol.mft.clusters_before(k) * vol.geo.cluster / frs).saturating_sub(src.below(2))
            }
            1 => init_records - 1 - src.below(3),
            _ => src.range(FIRST_FREE, init_records - 1),
        };
        if r >= FIRST_FREE && r < init_records && (r + 1) * frs <= vol.mft.init && !recs.contains(&r) {
            recs.push(r);
            vol.used.insert(r);
        }
    }
    if src.bool() {
        recs.push(5);
    }
    // Decoys where a wrong computation would look.
    let mut decoys = 0;
    let decoy = |vol: &mut Vol, pos: u64, n: u64| {
        let size = frs as usize;
        let off = first_attr_off(48, size);
        let h = RecHdr { usa_off: 48, usn: 7, lsn: 0, seq: 0xDEC0, links: 9, flags: 3, base_ref: 0, next_inst: 1, recno: n as u32, attrs_off: off };
        let a = attr_resident(&AttrHdr { ty: T_STD, ..Default::default() }, &[0xDD; 48], 0);
        if let Some(mut r) = file_record(&h, size, &[a], 0) {
            protect(&mut r, 48, 7);
            vol.disk.write(pos, &r);
        }
    };
    if src.chance(80) {
        let mft0 = vol.mft.runs[0].lcn.unwrap() * vol.geo.cluster;
        let last = vol.mft.runs.last().unwrap().clone();
        let last_base = vol.mft.clusters_before(vol.mft.runs.len() - 1) * vol.geo.cluster;
        let mut numbers: Vec<u64> = recs.clone();
        numbers.extend([real_limit, real_limit + 1, real_limit.saturating_sub(1)]);
        for n in numbers {
            if let Some(p) = (n.checked_mul(frs)).and_then(|o| o.checked_add(mft0)) {
                if p < 1 << 62 {
                    decoy(&mut vol, p, n);
                    decoys += 1;
                }
            }
            // As if the last run went on.
            if n * frs >= last_base {
                let p = last.lcn.unwrap() * vol.geo.cluster + (n * frs - last_base);
                decoy(&mut vol, p, n);
                // Or unless the clusters beyond belong to someone (checked by `reserve`).
            }
        }
        let end = last.lcn.unwrap() + last.len;
        vol.al.end = vol.al.end.max(end + (3 * frs).div_ceil(vol.geo.cluster));
    }
    let mut files = vec![];
    for r in &recs {
        let mut attrs = vec![vol.std_attr(src)];
        let n = if src.bool() { 48 } else { 72 };
        attrs[0].body = Body::Res(junk(src, n));
        let mut nm = gen_fn(src, utf16("x"), 1);
        // A file references another one as its parent.
        let target = *src.pick(&recs);
        nm.parent = fref(target, src.below(3) as u16);
        attrs.push(Attr::res(T_NAME, &[], file_name(&nm)));
        let spec = FileSpec { rec: *r, seq: src.interesting(16) as u16, links: src.interesting(16) as u16, flags: src.below(4) as u16 | (src.bool() as u16) << 2, attrs, list_pct: 0, list_non_pct: 0, stay_pct: 100 };
        files.push((vol.add_file(src, spec), target));
    }
    // A directory whose entries reference the records.
    let dir = if src.bool() && init_records - FIRST_FREE > recs.len() as u64 + 3 {
        let ents: Vec<DirEnt> = files
            .iter()
            .enumerate()
            .map(|(i, (f, _))| DirEnt { fref: fref(f.rec, f.seq), key: gen_fn(src, vec![b'a' as u16 + i as u16], 1) })
            .collect();
        Some(make_dir(src, &mut vol, &DirOpts { list_pct: 0, max_depth: 2, ..Default::default() }, 4096, ents))
    } else {
        None
    };
    // Sometimes record 0 holds only the first part of the table's run list.
    let mut reach = u64::MAX;
    if vol.mft.runs.len() > 1 && init_records - FIRST_FREE > recs.len() as u64 + 6 && src.chance(25) {
        let k = src.usize(1, vol.mft.runs.len() - 1);
        vol.mft_cut = Some(k);
        reach = vol.mft.clusters_before(k) * vol.geo.cluster;
        ctx.label("table continued through an attribute list");
    }
    vol.finish(src);
    let within = |n: u64| (n + 1) * frs <= reach;
    ctx.nontrivial = vol.mft.runs.len() > 1 || decoys > 0;
    ctx.label_if(vol.mft.runs.len() > 1, "fragmented MFT");
    ctx.label_if(decoys > 0, "decoys");
    let straddles = |n: u64| vol.mft.locate(n * frs).map(|(_, rem)| rem < frs).unwrap_or(false);
    ctx.label_if(recs.iter().any(|r| straddles(*r)), "record straddling two runs");
    ctx.label_if(vol.mft.data > 1 << 40, "huge MFT");
    ctx.describe(|| format!("{}; MFT {:?} data {} init {}; records {recs:?}", desc_geo(&vol.geo), vol.mft.runs.iter().map(|r| (r.lcn.unwrap(), r.len)).collect::<Vec<_>>(), vol.mft.data, vol.mft.init));
    let mut dev = vol.disk.reader();
    let ntfs: Ntfs = open(&mut dev)?;
    ck!(ntfs.mft_position().value().map(|x| x.get()) == vol.mft.runs[0].lcn.map(|l| l * vol.geo.cluster), "mft-position", "mft_position {:?}", ntfs.mft_position());
    let order = src.perm(files.len());
    for i in order {
        let (m, target) = &files[i];
        let f = if m.rec == 5 && src.bool() { ntfs.root_directory(&mut dev) } else { ntfs.file(&mut dev, m.rec) };
        if f.is_err() && !within(m.rec) {
            ctx.label("refused record behind the first part");
            continue;
        }
        let f = f.okay("file")?;
        same(&f, m, &vol, &format!("record {}", m.rec))?;
        // Through the parent reference.
        let t = files.iter().find(|x| x.0.rec == *target).unwrap();
        for a in f.attributes_raw() {
            let a = a.okay("attributes_raw")?;
            if let Ok(ntfs::NtfsAttributeType::FileName) = a.ty() {
                let n: NtfsFileName = a.structured_value::<_, NtfsFileName>(&mut dev).okay("file name")?;
                let p = n.parent_directory_reference();
                ck!(p.file_record_number() == *target, "reference-number", "reference to {target} reads {}", p.file_record_number());
                let g = p.to_file(&ntfs, &mut dev);
                if g.is_err() && !within(*target) {
                    continue;
                }
                let g = g.okay("to_file")?;
                same(&g, &t.0, &vol, &format!("record {target} through a reference"))?;
            }
        }
    }
    // The numbers of the metafiles are fixed.
    {
        use ntfs::KnownNtfsFileRecordNumber as K;
        let known = [K::MFT, K::MFTMirr, K::LogFile, K::Volume, K::AttrDef, K::RootDirectory, K::Bitmap, K::Boot, K::BadClus, K::Secure, K::UpCase, K::Extend].map(|k| k as u64);
        ck!(known == [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], "known-number", "the metafiles have the record numbers {known:?}");
    }
    // The first record itself.
    let f0 = ntfs.file(&mut dev, 0).okay("file 0")?;
    same(&f0, &vol.files[&0], &vol, "record 0")?;
    if let Some(d) = dir.iter().find(|d| within(d.file.rec)) {
        let file = ntfs.file(&mut dev, d.file.rec).okay("directory")?;
        let index = file.directory_index(&mut dev).okay("directory_index")?;
        let mut it = index.entries();
        let mut n = 0;
        while let Some(e) = it.next(&mut dev) {
            let e: ntfs::NtfsIndexEntry<NtfsFileNameIndex> = e.okay("entries().next")?;
            let m = &files[n].0;
            n += 1;
            let g = e.to_file(&ntfs, &mut dev);
            if g.is_err() && !within(m.rec) {
                continue;
            }
            let g = g.okay("entry.to_file")?;
            same(&g, m, &vol, &format!("record {} through an index entry", m.rec))?;
        }
        ck!(n == files.len(), "entries", "{n} entries");
    }
    // Outside the table's data (or its initialized part).
    for _ in 0..4 {
        let n = match src.below(6) {
            0 => real_limit,
            1 => real_limit.saturating_add(src.size(0, 1 << 40)),
            2 => u64::MAX - src.below(3),
            3 => (u64::MAX / frs).wrapping_add(src.below(4)).wrapping_sub(2),
            4 => ((1u64 << 48) - 1).max(real_limit),
            _ => {
                if (vol.mft.init / frs) < real_limit { src.range(vol.mft.init.div_ceil(frs), real_limit.max(vol.mft.init.div_ceil(frs))) } else { real_limit + src.below(8) }
            }
        };
        if n < real_limit && (n + 1) * frs <= vol.mft.init {
            continue;
        }
        if n < real_limit && n * frs < vol.mft.init {
            continue; // partly initialized record: whatever its first part says
        }
        if let Ok(f) = ntfs.file(&mut dev, n) {
            fail!("out-of-range-served", "record {n} of {real_limit} (initialized up to {}) is served from position {:?}, sequence number {:#x}", vol.mft.init, f.position(), f.sequence_number());
        }
        ctx.label("out-of-range number");
    }
    Ok(())
}
