//! C03: a directory listing returns every entry exactly once and in order.
use super::Prop;
use crate::api::*;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;

pub static PROP: Prop = Prop {
    id: "C03",
    f: prop,
    quick: 960_000,
    thorough: 10_000_000,
    rule: "a case is a volume with one or two directories of generated entries in a generated B-tree (depth, fan-out, empty nodes, holes, record order and size, fragmentation, attribute lists); listing it is compared entry by entry with the model's in-order sequence. Non-trivial: the tree has at least two nodes.",
    directed: &[],
};

pub fn label_dir(ctx: &mut Ctx, vol: &Vol, d: &DirM) {
    let ix = &d.index;
    ctx.label_if(d.ents.is_empty(), "empty directory");
    ctx.label_if(ix.nodes.len() == 1, "root only");
    ctx.label_if(ix.depth == 1, "two levels");
    ctx.label_if(ix.depth >= 2, "three or more levels");
    ctx.label_if(ix.empty_nodes > 0, "empty index record");
    ctx.label_if(ix.irs < vol.geo.cluster, "record smaller than cluster");
    ctx.label_if(ix.irs > vol.geo.cluster, "record larger than cluster");
    ctx.label_if(ix.records.iter().any(|r| r.is_none()), "unused index records");
    ctx.label_if(d.stream.as_ref().map(|s| s.runs.len() > 1).unwrap_or(false), "fragmented allocation");
    ctx.label_if(ix.gap > 0, "huge sparse part between records");
    ctx.label_if(d.file.list != ListKind::None, "attribute list");
    ctx.label_if(d.file.attrs.iter().any(|a| a.a.ty == T_IALLOC && a.pieces.len() > 1), "allocation split over records");
}
pub fn desc_dir(vol: &Vol, d: &DirM) -> String {
    format!(
        "{}; directory record {} index record size {} depth {} nodes {:?} gap {:?} list {:?} names {:?}",
        desc_geo(&vol.geo),
        d.file.rec,
        d.index.irs,
        d.index.depth,
        d.index.nodes.iter().take(12).map(|n| (n.slot as i64, n.items.len())).collect::<Vec<_>>(),
        (d.index.gap_at, d.index.gap),
        d.file.list,
        d.ents.iter().take(10).map(|e| String::from_utf16_lossy(&e.key.name)).collect::<Vec<_>>()
    )
}
/// The entry's file reference and every field of its key.
pub fn check_entry(e: &ntfs::NtfsIndexEntry<ntfs::indexes::NtfsFileNameIndex>, w: &DirEnt, what: &str) -> R {
    let r = e.file_reference();
    let (n, s) = (w.fref & 0xFFFF_FFFF_FFFF, (w.fref >> 48) as u16);
    ck!(r.file_record_number() == n && r.sequence_number() == s, "entry-reference", "{what}: reference {}/{} expected {n}/{s}", r.file_record_number(), r.sequence_number());
    let k = e.key().okay("key")?;
    check_name(&k, &w.key, what)
}
pub fn check_name(k: &ntfs::structured_values::NtfsFileName, w: &FileNameV, what: &str) -> R {
    ck!(units(&k.name()) == w.name, "entry-name", "{what}: name {} expected {}", show(&units(&k.name())), show(&w.name));
    ck!(k.name_length() == 2 * w.name.len(), "entry-name-length", "{what}: name_length {}", k.name_length());
    use ntfs::structured_values::NtfsFileNamespace as N;
    let ns = match k.namespace() {
        N::Posix => 0,
        N::Win32 => 1,
        N::Dos => 2,
        N::Win32AndDos => 3,
    };
    ck!(ns == w.ns, "entry-namespace", "{what}: namespace {:?} expected {}", k.namespace(), w.ns);
    let t = [k.creation_time(), k.modification_time(), k.mft_record_modification_time(), k.access_time()];
    for i in 0..4 {
        ck!(t[i].nt_timestamp() == w.times[i], "entry-time", "{what}: time {i} is {} expected {}", t[i].nt_timestamp(), w.times[i]);
    }
    ck!(k.allocated_size() == w.alloc, "entry-allocated", "{what}: allocated size {} expected {}", k.allocated_size(), w.alloc);
    ck!(k.data_size() == w.data, "entry-size", "{what}: data size {} expected {}", k.data_size(), w.data);
    let known = 0x1 | 0x2 | 0x4 | 0x20 | 0x40 | 0x80 | 0x100 | 0x200 | 0x400 | 0x800 | 0x1000 | 0x2000 | 0x4000 | 0x1000_0000u32;
    let got = k.file_attributes().bits();
    ck!(got == got & w.attrs && got & known == w.attrs & known, "entry-attributes", "{what}: file attributes {got:#x} expected {:#x}", w.attrs);
    file_attr_flags(what, k.file_attributes(), w.attrs)?;
    ck!(k.is_directory() == (w.attrs & 0x1000_0000 != 0), "entry-is-directory", "{what}: is_directory {} for attributes {:#x}", k.is_directory(), w.attrs);
    let p = k.parent_directory_reference();
    ck!(p.file_record_number() == w.parent & 0xFFFF_FFFF_FFFF && p.sequence_number() == (w.parent >> 48) as u16, "entry-parent", "{what}: parent {}/{}", p.file_record_number(), p.sequence_number());
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, ..Default::default() });
    let n = 1 + src.weighted(&[4, 1]);
    let mut dirs = vec![];
    for _ in 0..n {
        let o = DirOpts { max_entries: *src.pick(&[20u64, 60, 200]), max_name: *src.pick(&[12usize, 255, 40]), max_depth: *src.pick(&[2usize, 4, 7]), dup_pct: 20, small_irs: src.chance(25), ..Default::default() };
        dirs.push(gen_dir(src, &mut vol, &o));
    }
    if src.chance(20) {
        // The same through the root directory shortcut.
        let o = DirOpts { max_entries: 30, rec: Some(5), ..Default::default() };
        dirs.push(gen_dir(src, &mut vol, &o));
    }
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    for d in &dirs {
        label_dir(ctx, &vol, d);
        ctx.describe(|| desc_dir(&vol, d));
        ctx.nontrivial |= d.index.nodes.len() > 1;
        let file = if d.file.rec == 5 { ntfs.root_directory(&mut dev).okay("root_directory")? } else { ntfs.file(&mut dev, d.file.rec).okay("file")? };
        ck!(file.is_directory(), "is-directory", "is_directory is false");
        let index = file.directory_index(&mut dev).okay("directory_index")?;
        let order = d.index.inorder();
        for round in 0..1 + src.below(2) {
            let mut it = index.entries();
            for (i, k) in order.iter().enumerate() {
                let what = format!("entry {i} of {} (pass {round})", order.len());
                let e = match it.next(&mut dev) {
                    Some(e) => e.okay("entries().next")?,
                    None => fail!("listing-short", "the listing ends after {i} of {} entries", order.len()),
                };
                check_entry(&e, &d.ents[*k], &what)?;
            }
            for _ in 0..2 {
                if let Some(e) = it.next(&mut dev) {
                    match e {
                        Ok(e) => fail!("listing-long", "an extra entry follows the last one: {}", e.key().map(|k| k.map(|k| show(&units(&k.name()))).unwrap_or_default()).unwrap_or_default()),
                        Err(e) => fail!("listing-end-error", "error instead of the end of the listing: {e}"),
                    }
                }
            }
        }
    }
    Ok(())
}
