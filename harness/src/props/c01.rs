//! C01: stream contents are byte-exact for every on-disk layout.
use super::Prop;
use crate::api::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::NtfsReadSeek;
use std::io::{Read, SeekFrom};

pub static PROP: Prop = Prop {
    id: "C01",
    f: prop,
    quick: 480_000,
    thorough: 4_000_000,
    rule: "a case is a generated volume with one to three files of generated attributes (resident, sparse, fragmented, split over records, initialized size below data size); every value is read from start to end (huge ones in windows around run boundaries) and compared with the bytes the builder's model says are stored. Non-trivial: some value has several runs, a sparse run, a partial initialized size, or is split over records.",
    directed: &[],
};

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 48, ..Default::default() });
    let n = src.weighted(&[6, 2, 1]) + 1;
    let mut files = vec![];
    for _ in 0..n {
        let o = AttrsOpts { max_runs: *src.pick(&[12u64, 40, 4, 150]), ..Default::default() };
        let attrs = gen_attrs(src, &mut vol, &o);
        files.push(gen_file(src, &mut vol, attrs, 1));
    }
    vol.finish(src);
    ctx.describe(|| desc_geo(&vol.geo));
    for f in &files {
        ctx.label(match f.list {
            ListKind::None => "no attribute list",
            ListKind::Res => "resident attribute list",
            ListKind::Non => "non-resident attribute list",
        });
        ctx.describe(|| format!("record {}: {}", f.rec, f.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(", ")));
        for a in &f.attrs {
            body_label(ctx, a);
        }
    }
    for l in ["several runs", "sparse run", "initialized < data size", "split over records"] {
        ctx.nontrivial |= ctx.labels.contains(&l);
    }
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    for f in &files {
        let file = ntfs.file(&mut dev, f.rec).okay("Ntfs::file")?;
        for (i, a) in f.attrs.iter().enumerate() {
            let nth = f.attrs[..i].iter().filter(|b| b.a.ty == a.a.ty && b.a.name == a.a.name).count();
            // Several file names share type and name; their order is not part of this property.
            if a.a.ty == crate::enc::T_NAME {
                continue;
            }
            let item = find_item(&file, &mut dev, a.a.ty, &a.a.name, nth)?;
            let attr = item.to_attribute().okay("to_attribute")?;
            let what = format!("record {} attribute {:#x}:{}", f.rec, a.a.ty, show(&a.a.name));
            let len = a.a.body.len();
            ck!(attr.value_length() == len, "value_length", "{what}: value_length {} expected {len}", attr.value_length());
            let mut v = attr.value(&mut dev).okay("value")?;
            ck!(v.len() == len, "len", "{what}: len {} expected {len}", v.len());
            ck!(v.is_empty() == (len == 0), "is_empty", "{what}: is_empty {}", v.is_empty());
            verify_value(src, &mut v, &mut dev, &vol.disk, &a.a.body, &what, 1 << 20)?;
            if len <= 1 << 18 && src.chance(20) {
                // The attached standard reader sees the same bytes.
                let v2 = attr.value(&mut dev).okay("value")?;
                let mut att = v2.attach(&mut dev);
                let mut out = vec![];
                att.read_to_end(&mut out).okay("attached read_to_end")?;
                cmp_bytes("attached-content", &what, 0, &out, &a.a.body.content(&vol.disk, 0, len))?;
            }
            if len <= 1 << 18 && src.chance(20) {
                // Again after a rewind.
                v.seek(&mut dev, SeekFrom::Start(0)).okay("rewind")?;
                verify_value(src, &mut v, &mut dev, &vol.disk, &a.a.body, &what, 1 << 20)?;
            }
        }
    }
    Ok(())
}
