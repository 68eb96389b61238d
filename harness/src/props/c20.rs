//! C20: convenience lookups agree with full enumeration.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use crate::world::{sh_attr, sh_entry, sh_name};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{NtfsAttributeType, NtfsError, NtfsFile, NtfsIndex};

pub static PROP: Prop = Prop {
    id: "C20",
    f: prop,
    quick: 300_000,
    thorough: 15_000_000,
    rule: "a case is a volume with an uppercase table, a file or directory with several data streams, file names and decoy attributes over one or more records, and a $Volume file. Every shortcut is called with present, case-varied and absent arguments and compared with the model and with the first match of the enumeration. Non-trivial: at least one lookup with two or more candidates, or one by another case, or a refused directory.",
    directed: &[],
};

/// A name equal to `n` under the table, if possible another one.
fn vary(src: &mut Src, t: &[u16], n: &[u16]) -> Vec<u16> {
    let mut v = n.to_vec();
    for c in v.iter_mut() {
        if !src.chance(60) {
            continue;
        }
        let u = t[*c as usize];
        // Candidates: the uppercase form itself if it is its own uppercase, and near relatives.
        let cands = [u, *c ^ 0x20, u ^ 0x20, c.wrapping_add(32), c.wrapping_sub(32), c.wrapping_add(1), c.wrapping_sub(1)];
        let k = src.below(cands.len() as u64) as usize;
        if t[cands[k] as usize] == u && cands[k] != 0 {
            *c = cands[k];
        }
    }
    v
}

fn ns_of(n: u8) -> NtfsFileNamespace {
    match n {
        0 => NtfsFileNamespace::Posix,
        1 => NtfsFileNamespace::Win32,
        2 => NtfsFileNamespace::Dos,
        _ => NtfsFileNamespace::Win32AndDos,
    }
}

/// The flattened attributes: (type, name, printable identity).
fn enumerate(f: &NtfsFile, dev: &mut Dev) -> Result<Vec<(u32, Vec<u16>, String)>, Fail> {
    let mut v = vec![];
    let mut it = f.attributes();
    while let Some(i) = it.next(dev) {
        let i = i.okay("attributes().next")?;
        let a = i.to_attribute().okay("to_attribute")?;
        v.push((a.ty().okay("ty")? as u32, units(&a.name().okay("name")?), sh_attr(&a).okay("attribute")?));
        ck!(v.len() < 20_000, "endless-attributes", "attribute enumeration does not end");
    }
    Ok(v)
}

struct NameM {
    ns: u8,
    parent: u64,
    v: FileNameV,
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let table = src.chance(75);
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, upcase: table, big_mft: 3, max_cluster: 65536, max_frs: 4096, ..Default::default() });
    // ---- the $Volume file
    let vol_names = src.weighted(&[5, 2, 2]); // one, none, two
    let vol_infos = src.weighted(&[5, 2, 2]);
    let has_vol = src.chance(85);
    let mut label: Option<Vec<u16>> = None;
    let mut version: Option<(u8, u8, u16)> = None;
    if has_vol {
        let mut attrs = vec![vol.std_attr(src)];
        let n = [1, 0, 2][vol_names];
        for k in 0..n {
            let nm = gen_name(src, 0, 30);
            let an = if k > 0 { vec![b'x' as u16] } else { vec![] };
            attrs.push(Attr::res(T_VOLNAME, &an, u16s(&nm)));
            label.get_or_insert(nm);
        }
        let n = [1, 0, 2][vol_infos];
        for k in 0..n {
            let (a, b, fl) = (src.below(256) as u8, src.below(256) as u8, src.interesting(16) as u16);
            let mut vi = vec![0xA5u8; 12];
            vi[8] = a;
            vi[9] = b;
            p16(&mut vi, 10, fl);
            let an = if k > 0 { vec![b'x' as u16] } else { vec![] };
            attrs.push(Attr::res(T_VOLINFO, &an, vi));
            version.get_or_insert((a, b, fl));
        }
        if src.chance(30) {
            attrs.push(gen_res(src, &vol, T_DATA, &[]));
        }
        if vol.cap() > attrs.iter().map(|a| a.body.len() as usize + 40).sum::<usize>() + 100 {
            vol.add_file(src, FileSpec { rec: 3, seq: 3, links: 1, flags: 1, attrs, list_pct: 0, list_non_pct: 0, stay_pct: 100 });
        } else {
            std::panic::panic_any(Overrun);
        }
    }
    // ---- the file
    let mut attrs = vec![];
    let mut std_times: Option<[u64; 4]> = None;
    let mut std_attrs = 0;
    for _ in 0..src.weighted(&[1, 8, 1]) {
        let s = StdInfoV { times: [src.u64(), src.u64(), src.u64(), src.u64()], attrs: src.u64() as u32, ..Default::default() };
        if std_times.is_none() {
            std_times = Some(s.times);
            std_attrs = s.attrs;
        }
        let long = src.bool();
        attrs.push(Attr::res(T_STD, &[], std_info(&s, long)));
    }
    let mut names: Vec<NameM> = vec![];
    for _ in 0..src.below(5) {
        let max = 40.min(max_res(&vol, 0) as usize / 2 - 40);
        let nm = gen_name(src, 1, max);
        let ns = src.below(4) as u8;
        let mut v = gen_fn(src, nm, ns);
        let parent = *src.pick(&[5u64, 6, 0, 0xFFFF_FFFF_FFFF, 5 + (1 << 32)]);
        v.parent = fref(parent, src.below(0x10000) as u16);
        attrs.push(Attr::res(T_NAME, &[], file_name(&v)));
        names.push(NameM { ns, parent, v });
    }
    // Data streams: case variants of each other among them.
    let mut streams: Vec<Vec<u16>> = vec![];
    for _ in 0..src.below(6) {
        let nm = match src.below(4) {
            0 => vec![],
            1 if !streams.is_empty() => {
                let b = src.pick(&streams).clone();
                vary(src, &vol.upcase.clone(), &b)
            }
            2 if !streams.is_empty() => {
                let mut b = src.pick(&streams).clone();
                if src.bool() {
                    b.push(gen_unit(src));
                } else {
                    b.pop();
                }
                b
            }
            _ => gen_name(src, 1, 12),
        };
        if streams.contains(&nm) {
            continue;
        }
        streams.push(nm.clone());
        attrs.push(if src.chance(40) { gen_non(src, &mut vol, T_DATA, &nm, 10, false) } else { gen_res(src, &vol, T_DATA, &nm) });
    }
    // Decoys of other types with interesting names.
    for _ in 0..src.below(3) {
        let ty = *src.pick(&[T_OBJID, T_SEC, T_PROPSET, T_LOGGED, T_BITMAP, T_EA]);
        let nm = match src.below(4) {
            0 => vec![],
            1 if !streams.is_empty() => src.pick(&streams).clone(),
            2 => I30.to_vec(),
            _ => gen_name(src, 1, 8),
        };
        attrs.push(gen_res(src, &vol, ty, &nm));
    }
    // ---- indexes
    #[derive(PartialEq, Clone, Copy)]
    enum Dir {
        None,
        Ok,
        NoRoot,
        NoAlloc,
    }
    let dir_flag = src.chance(50);
    let with_index = dir_flag || src.chance(20);
    let mut dir = Dir::None;
    let mut ents: Vec<DirEnt> = vec![];
    if with_index {
        // A throw-away file provides an index; its attributes move into ours.
        let o = DirOpts { max_entries: 20, max_name: 12, max_depth: 2, list_pct: 0, small_irs: src.bool(), ..Default::default() };
        let d = gen_dir(src, &mut vol, &o);
        let skip_root = src.chance(15);
        let skip_alloc = src.chance(15);
        for l in &d.file.attrs {
            match l.a.ty {
                T_IROOT if skip_root => {}
                T_IALLOC if skip_alloc => {}
                T_STD => {}
                _ => attrs.push(Attr { cuts: vec![], ..l.a.clone() }),
            }
        }
        dir = if skip_root {
            Dir::NoRoot
        } else if skip_alloc && d.index.large {
            Dir::NoAlloc
        } else {
            Dir::Ok
        };
        ents = d.ents.clone();
        // Other indexes beside it, before or behind it in the order of names.
        for nm in ["$I3", "$I300", "$i30", "$SDH", "A", ""] {
            if src.chance(12) {
                let e = index_entry(0, &[], &[], None, true);
                attrs.push(Attr::res(T_IROOT, &utf16(nm), index_root(T_NAME, 1, 4096, 1, &e, false)));
            }
            if src.chance(8) {
                attrs.push(gen_non(src, &mut vol, T_IALLOC, &utf16(nm), 3, false));
            }
        }
    }
    if attrs.is_empty() {
        attrs.push(gen_res(src, &vol, T_DATA, &[]));
        streams.push(vec![]);
    }
    let flags = (if dir_flag { 2 } else { 0 }) | *src.pick(&[1u16, 0, 1, 9, 5]);
    let file = gen_file(src, &mut vol, attrs, flags);
    vol.finish(src);
    let disk = vol.disk.clone();
    let mut dev = disk.reader();
    let ntfs = if table { open_up(&mut dev)? } else { open(&mut dev)? };
    let f = ntfs.file(&mut dev, file.rec).okay("file")?;
    ctx.label_if(file.list != ListKind::None, "attribute list");
    ctx.describe(|| format!("{}; file {} flags {flags:#x} list {:?}: {}", desc_geo(&vol.geo), file.rec, file.list, file.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(" | ")));
    let all = enumerate(&f, &mut dev)?;

    // ---- data
    let t: &[u16] = &vol.upcase;
    let mut wanted: Vec<Vec<u16>> = vec![vec![]];
    if table {
        for _ in 0..src.range(1, 5) {
            let n = match src.below(5) {
                0 | 1 if !streams.is_empty() => {
                    let b = src.pick(&streams).clone();
                    vary(src, t, &b)
                }
                2 if !streams.is_empty() => src.pick(&streams).clone(),
                3 if !streams.is_empty() => {
                    let mut b = src.pick(&streams).clone();
                    if src.bool() {
                        b.push(gen_unit(src));
                    } else {
                        b.pop();
                    }
                    b
                }
                _ => gen_name(src, 1, 12),
            };
            wanted.push(n);
        }
    }
    for w in &wanted {
        let Some(s) = to_str(w) else { continue };
        let uw = up(t, w);
        let fits = |n: &[u16]| up(t, n) == uw;
        let model: Vec<&LAttr> = file.attrs.iter().filter(|l| l.a.ty == T_DATA && fits(&l.a.name)).collect();
        let first = all.iter().find(|a| a.0 == T_DATA && fits(&a.1));
        if model.len() > 1 {
            ctx.label("several matching streams");
            ctx.nontrivial = true;
        }
        if model.iter().any(|l| l.a.name != *w) {
            ctx.label("stream by another case");
            ctx.nontrivial = true;
        }
        match f.data(&mut dev, &s) {
            None => ck!(model.is_empty(), "data-none", "data({}) finds nothing, but the file has {}", show(w), desc_attr(model[0])),
            Some(i) => {
                let i = i.okay("data")?;
                let a = i.to_attribute().okay("to_attribute")?;
                let id = sh_attr(&a).okay("attribute")?;
                ck!(!model.is_empty(), "data-some", "data({}) finds {id}, but no stream has that name", show(w));
                ck!(Some(&id) == first.map(|x| &x.2), "data-first", "data({}) is {id}, the first match of the enumeration is {:?}", show(w), first.map(|x| &x.2));
                let nm = units(&a.name().okay("name")?);
                let l = model.iter().find(|l| l.a.name == nm).unwrap();
                let mut v = a.value(&mut dev).okay("value")?;
                let mut buf = vec![0; 64];
                let n = ntfs::NtfsReadSeek::read(&mut v, &mut dev, &mut buf).okay("read")?;
                cmp_bytes("data-content", "data stream", 0, &buf[..n], &l.a.body.content(&disk, 0, n as u64))?;
                ck!(v.len() == l.a.body.len(), "data-length", "data({}) has length {} instead of {}", show(w), v.len(), l.a.body.len());
            }
        }
    }

    // ---- name
    for ns in [None, Some(0u8), Some(1), Some(2), Some(3)] {
        for parent in [None, Some(5u64), Some(6), Some(0xFFFF_FFFF_FFFF), Some(0), Some(5 + (1 << 32))] {
            let fits = |n: &NameM| ns.map_or(true, |x| x == n.ns) && parent.map_or(true, |p| p == n.parent);
            let model: Vec<&NameM> = names.iter().filter(|n| fits(n)).collect();
            let got = f.name(&mut dev, ns.map(ns_of), parent);
            if model.len() > 1 {
                ctx.label("several matching names");
                ctx.nontrivial = true;
            }
            match got {
                None => ck!(model.is_empty(), "name-none", "name({ns:?}, {parent:?}) finds nothing, but {} matches", show(&model[0].v.name)),
                Some(n) => {
                    let n = n.okay("name")?;
                    ck!(!model.is_empty(), "name-some", "name({ns:?}, {parent:?}) finds {}, but nothing matches", sh_name(&n));
                    // The first match of the enumeration.
                    let mut it = f.attributes();
                    let mut first = None;
                    while let Some(i) = it.next(&mut dev) {
                        let i = i.okay("attributes")?;
                        let a = i.to_attribute().okay("to_attribute")?;
                        if a.ty().okay("ty")? != NtfsAttributeType::FileName {
                            continue;
                        }
                        let v = a.structured_value::<_, NtfsFileName>(&mut dev).okay("file name")?;
                        if ns.map_or(true, |x| ns_of(x) == v.namespace()) && parent.map_or(true, |p| p == v.parent_directory_reference().file_record_number()) {
                            first = Some(sh_name(&v));
                            break;
                        }
                    }
                    ck!(first.as_deref() == Some(&sh_name(&n)[..]), "name-first", "name({ns:?}, {parent:?}) is {}, the first match of the enumeration is {first:?}", sh_name(&n));
                    let nm = units(&n.name());
                    ck!(
                        model.iter().any(|m| m.v.name == nm && m.v.data == n.data_size() && m.v.times[0] == n.creation_time().nt_timestamp()),
                        "name-content",
                        "name({ns:?}, {parent:?}) is {}, which is not stored like that",
                        sh_name(&n)
                    );
                }
            }
        }
    }

    // ---- info
    match (f.info(), std_times) {
        (Ok(i), Some(t)) => {
            let got = [i.creation_time().nt_timestamp(), i.modification_time().nt_timestamp(), i.mft_record_modification_time().nt_timestamp(), i.access_time().nt_timestamp()];
            ck!(got == t, "info", "info() has the times {got:?} instead of {t:?}");
            let known = i.file_attributes().bits();
            file_attr_flags("info()", i.file_attributes(), std_attrs)?;
            ck!(known & !std_attrs == 0, "info-attributes", "info() has the attributes {known:#x} instead of {std_attrs:#x}");
        }
        (Err(NtfsError::AttributeNotFound { .. }), None) => ctx.label("no standard information"),
        (Ok(_), None) => fail!("info-some", "info() succeeds for a file without standard information"),
        (Err(e), Some(_)) => fail!("info-error", "info(): {e}"),
        (Err(e), None) => fail!("info-error", "info() of a file without standard information: {e}"),
    }

    // ---- directory index
    ck!(f.is_directory() == dir_flag, "is-directory", "is_directory() is {} for flags {flags:#x}", f.is_directory());
    match f.directory_index(&mut dev) {
        Ok(ix) => {
            ck!(dir_flag, "index-of-file", "a directory index of a file with the flags {flags:#x}");
            ck!(dir == Dir::Ok, "index-incomplete", "a directory index although its root or its allocation is missing");
            let got = listing(&ix, &mut dev)?;
            let want: Vec<(u64, Vec<u16>)> = ents.iter().map(|e| (e.fref, e.key.name.clone())).collect();
            let seen: Vec<(u64, Vec<u16>)> = got.iter().map(|g| (g.0, g.1.clone())).collect();
            ck!(seen == want, "index-listing", "the directory index lists {} entries {:?}, expected {} entries {:?}", seen.len(), seen.first(), want.len(), want.first());
            // The same as by hand.
            let root = find_item(&f, &mut dev, T_IROOT, &I30, 0)?;
            let alloc = match ix_large(&f, &mut dev)? {
                true => Some(find_item(&f, &mut dev, T_IALLOC, &I30, 0)?),
                false => None,
            };
            let own: NtfsIndex<NtfsFileNameIndex> = NtfsIndex::new(root, alloc).okay("NtfsIndex::new")?;
            ck!(listing(&own, &mut dev)? == got, "index-by-hand", "the directory index differs from the one made of the enumerated attributes");
            ctx.label("directory");
        }
        Err(e) => {
            if !dir_flag {
                ck!(matches!(e, NtfsError::NotADirectory { .. }), "index-error", "directory_index of a file: {e}");
                ctx.label_if(with_index, "refused: no directory, but with an index");
                ctx.nontrivial |= with_index;
            } else {
                ck!(dir != Dir::Ok, "index-error", "directory_index: {e}");
                let want = if dir == Dir::NoRoot { NtfsAttributeType::IndexRoot } else { NtfsAttributeType::IndexAllocation };
                ck!(matches!(e, NtfsError::AttributeNotFound { ty, .. } if ty == want), "index-error", "directory_index without {want:?}: {e}");
                ctx.label("refused: incomplete index");
                ctx.nontrivial = true;
            }
        }
    }

    // ---- volume
    let vn = ntfs.volume_name(&mut dev);
    let vi = ntfs.volume_info(&mut dev);
    if has_vol {
        volume(vn, vi, &label, &version)?;
        ctx.label_if(label.is_none(), "no label");
        ctx.label_if(version.is_none(), "no version");
    } else {
        // Record 3 holds no file record.
        ck!(matches!(vn, Some(Err(_))) && vi.is_err(), "volume-unreadable", "label or version of an unreadable $Volume record");
    }
    Ok(())
}

fn volume(vn: Option<Result<NtfsVolumeName, NtfsError>>, vi: Result<NtfsVolumeInformation, NtfsError>, label: &Option<Vec<u16>>, version: &Option<(u8, u8, u16)>) -> R {
    match (vn, label) {
        (None, None) => {}
        (Some(Ok(n)), Some(l)) => ck!(units(&n.name()) == *l, "label", "label {} instead of {}", show(&units(&n.name())), show(l)),
        (None, Some(l)) => fail!("label-none", "no label instead of {}", show(l)),
        (Some(Ok(n)), None) => fail!("label-some", "label {} of a volume without one", show(&units(&n.name()))),
        (Some(Err(e)), _) => fail!("label-error", "volume_name: {e}"),
    }
    match (vi, version) {
        (Ok(v), Some((a, b, fl))) => {
            ck!((v.major_version(), v.minor_version()) == (*a, *b), "version", "version {}.{} instead of {a}.{b}", v.major_version(), v.minor_version());
            ck!(v.flags().bits() & !fl == 0, "volume-flags", "volume flags {:#x} instead of {fl:#x}", v.flags().bits());
        }
        (Err(NtfsError::AttributeNotFound { .. }), None) => {}
        (Ok(_), None) => fail!("version-some", "a version of a volume without one"),
        (Err(e), _) => fail!("version-error", "volume_info: {e}"),
    }
    Ok(())
}
fn ix_large(f: &NtfsFile, dev: &mut Dev) -> Result<bool, Fail> {
    let i = find_item(f, dev, T_IROOT, &I30, 0)?;
    let a = i.to_attribute().okay("to_attribute")?;
    let r = a.resident_structured_value::<NtfsIndexRoot>().okay("index root")?;
    Ok(r.is_large_index())
}
fn listing(ix: &NtfsIndex<NtfsFileNameIndex>, dev: &mut Dev) -> Result<Vec<(u64, Vec<u16>, String)>, Fail> {
    let mut it = ix.entries();
    let mut v = vec![];
    while let Some(e) = it.next(dev) {
        let e = e.okay("entries().next")?;
        let k = e.key().okay("key")?;
        let r = e.file_reference();
        v.push((fref(r.file_record_number(), r.sequence_number()), units(&k.name()), sh_entry(&e).okay("entry")?));
        ck!(v.len() < 20_000, "endless-index", "the listing does not end");
    }
    Ok(v)
}
