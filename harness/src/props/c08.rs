//! C08: attribute enumeration is complete, without duplicates and exact.
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::structured_values::NtfsAttributeList;
use ntfs::{Ntfs, NtfsAttribute, NtfsAttributeType, NtfsFile};

pub static PROP: Prop = Prop {
    id: "C08",
    f: prop,
    quick: 1_200_000,
    thorough: 20_000_000,
    rule: "a case is a generated volume with one or two files of generated attributes distributed over file records with no, a resident or a non-resident attribute list. The raw enumeration of every record, the flattened enumeration (as a multiset, direct, attached and cloned midway), and all attribute list entries with the attributes they lead to are compared with the model. Non-trivial: the file has an attribute list.",
    directed: &[],
};

/// Known attribute flags.
const FLAGS: u16 = 0xC001;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Seen {
    ty: u32,
    name: Vec<u16>,
    flags: u16,
    inst: u16,
    resident: bool,
    len: u64,
    size: u32,
    /// First bytes of the value.
    head: Vec<u8>,
}
fn see(a: &NtfsAttribute) -> Result<Seen, Fail> {
    let ty = type_no(a.ty().okay("ty")?);
    let name = a.name().okay("name")?;
    attr_flags("attribute", a.flags(), a.flags().bits())?;
    ck!(a.name_length() == name.0.len(), "name-length", "name_length {} for a name of {} bytes", a.name_length(), name.0.len());
    Ok(Seen {
        ty,
        name: units(&name),
        flags: a.flags().bits() & FLAGS,
        inst: a.instance(),
        resident: a.is_resident(),
        len: a.value_length(),
        size: a.attribute_length(),
        head: vec![],
    })
}
fn show_seen(s: &Seen) -> String {
    format!("{:#x}:{} flags {:#x} instance {} {} length {} size {}", s.ty, show(&s.name), s.flags, s.inst, if s.resident { "resident" } else { "non-resident" }, s.len, s.size)
}
fn see_raw(r: &RawAttr) -> Seen {
    Seen { ty: r.ty, name: r.name.clone(), flags: r.flags & FLAGS, inst: r.inst, resident: r.resident, len: r.len, size: r.size as u32, head: vec![] }
}
const HEAD: u64 = 64;
fn model_flat(f: &FileM, vol: &Vol) -> Vec<Seen> {
    let mut v: Vec<Seen> = f
        .attrs
        .iter()
        .map(|l| Seen {
            ty: l.a.ty,
            name: l.a.name.clone(),
            flags: l.a.flags & FLAGS,
            inst: l.pieces[0].inst,
            resident: matches!(l.a.body, Body::Res(_)),
            len: l.a.body.len(),
            size: l.pieces[0].len as u32,
            head: l.a.body.content(&vol.disk, 0, HEAD),
        })
        .collect();
    v.sort();
    v
}
fn same_flat(what: &str, got: &[Seen], want: &[Seen]) -> R {
    let mut g = got.to_vec();
    g.sort();
    if g == want {
        return Ok(());
    }
    for x in want {
        let (a, b) = (g.iter().filter(|y| *y == x).count(), want.iter().filter(|y| *y == x).count());
        ck!(a >= b, "attribute-missing", "{what}: {} is enumerated {a} times instead of {b}; got {:?}", show_seen(x), g.iter().map(show_seen).collect::<Vec<_>>());
    }
    for x in &g {
        let (a, b) = (g.iter().filter(|y| *y == x).count(), want.iter().filter(|y| *y == x).count());
        ck!(a <= b, "attribute-extra", "{what}: {} is enumerated {a} times instead of {b}; expected {:?}", show_seen(x), want.iter().map(show_seen).collect::<Vec<_>>());
    }
    Ok(())
}
fn take<'n, 'f>(item: ntfs::NtfsAttributeItem<'n, 'f>, dev: &mut Dev) -> Result<Seen, Fail> {
    let a = item.to_attribute().okay("to_attribute")?;
    let mut s = see(&a)?;
    let mut v = a.value(dev).okay("value")?;
    ck!(v.len() == s.len, "value-len", "value().len() {} but value_length() {}", v.len(), s.len);
    let mut buf = [0u8; HEAD as usize];
    let mut k = 0;
    while k < buf.len() {
        let n = ntfs::NtfsReadSeek::read(&mut v, dev, &mut buf[k..]).okay("read")?;
        if n == 0 {
            break;
        }
        k += n;
    }
    s.head = buf[..k].to_vec();
    Ok(s)
}

fn raw_record(file: &NtfsFile, want: &[RawAttr], what: &str) -> R {
    let mut it = file.attributes_raw();
    for (i, w) in want.iter().enumerate() {
        let a = match it.next() {
            Some(a) => a.okay("attributes_raw().next")?,
            None => fail!("raw-short", "{what}: the raw enumeration ends after {i} of {} attributes", want.len()),
        };
        let s = see(&a)?;
        ck!(s == see_raw(w), "raw-attribute", "{what}: raw attribute {i} is {} expected {}", show_seen(&s), show_seen(&see_raw(w)));
    }
    for _ in 0..2 {
        if let Some(a) = it.next() {
            fail!("raw-long", "{what}: raw enumeration goes on after {} attributes: {:?}", want.len(), a.map(|a| a.ty()));
        }
    }
    Ok(())
}

fn list(src: &mut Src, ntfs: &Ntfs, file: &NtfsFile, f: &FileM, dev: &mut Dev) -> R {
    let a = file.attributes_raw().find_map(|a| a.ok().filter(|a| matches!(a.ty(), Ok(NtfsAttributeType::AttributeList))));
    let Some(a) = a else {
        ck!(f.list == ListKind::None, "list-missing", "the attribute list is not among the raw attributes");
        return Ok(());
    };
    let l = a.structured_value::<_, NtfsAttributeList>(dev).okay("attribute list")?;
    let mut it = l.entries();
    for (i, w) in f.list_entries.iter().enumerate() {
        let what = format!("list entry {i} of {}", f.list_entries.len());
        let e = match it.next(dev) {
            Some(e) => e.okay("list entry")?,
            None => fail!("list-short", "{what}: the list ends"),
        };
        let ty = e.ty().okay("list entry type")? as u32;
        let (fr, sq) = (e.base_file_reference().file_record_number(), e.base_file_reference().sequence_number());
        ck!(ty == w.ty && units(&e.name()) == w.name, "list-entry", "{what}: {ty:#x}:{} expected {:#x}:{}", show(&units(&e.name())), w.ty, show(&w.name));
        ck!(e.name_length() == 2 * w.name.len(), "list-entry", "{what}: name_length {}", e.name_length());
        ck!(e.lowest_vcn().value() as u64 == w.lowest, "list-entry", "{what}: lowest VCN {} expected {}", e.lowest_vcn().value(), w.lowest);
        ck!(fref(fr, sq) == w.file_ref, "list-entry", "{what}: reference {fr}/{sq} expected {:#x}", w.file_ref);
        ck!(e.instance() == w.inst, "list-entry", "{what}: instance {} expected {}", e.instance(), w.inst);
        let el = align8(26 + 2 * w.name.len()) + f.list_pad;
        ck!(e.list_entry_length() as usize == el, "list-entry", "{what}: length {} expected {el}", e.list_entry_length());
        if src.chance(60) {
            let g = e.to_file(ntfs, dev).okay("list entry to_file")?;
            ck!(g.file_record_number() == fr, "list-file", "{what}: to_file leads to record {}", g.file_record_number());
            let b = e.to_attribute(&g).okay("list entry to_attribute")?;
            let s = see(&b)?;
            let r = f.raw.iter().find(|r| r.0 == fr).and_then(|r| r.1.iter().find(|x| x.inst == w.inst && x.ty == w.ty));
            let Some(r) = r else { fail!("list-attribute", "{what}: no such attribute in record {fr}") };
            ck!(s == see_raw(r), "list-attribute", "{what}: leads to {} expected {}", show_seen(&s), show_seen(&see_raw(r)));
        }
    }
    ck!(it.next(dev).is_none() && it.next(dev).is_none(), "list-long", "the list goes on after {} entries", f.list_entries.len());
    Ok(())
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 60, ..Default::default() });
    vol.list_pad_pct = 10;
    let n = 1 + src.weighted(&[4, 1]);
    let mut files = vec![];
    for _ in 0..n {
        let o = AttrsOpts { max_runs: *src.pick(&[6u64, 12, 40]), huge: src.chance(30), max_named: *src.pick(&[3u64, 6, 12]), ..Default::default() };
        let attrs = gen_attrs(src, &mut vol, &o);
        files.push(gen_file(src, &mut vol, attrs, 1));
    }
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    ctx.describe(|| desc_geo(&vol.geo));
    for f in &files {
        ctx.label(match f.list {
            ListKind::None => "no attribute list",
            ListKind::Res => "resident attribute list",
            ListKind::Non => "non-resident attribute list",
        });
        ctx.nontrivial |= f.list != ListKind::None;
        ctx.describe(|| format!("record {}: list {:?} {}", f.rec, f.list, f.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(", ")));
        for l in &f.attrs {
            ctx.label_if(l.pieces.len() > 1, "attribute split over records");
            ctx.label_if(l.pieces.len() > 1 && l.pieces[0].rec == f.rec, "first part in the base record");
            ctx.label_if(l.pieces[1..].iter().any(|p| p.rec == f.rec), "later part in the base record");
        }
        ctx.label_if(f.raw.len() > 3, "more than three records");
        for (rec, raws) in &f.raw {
            let file = ntfs.file(&mut dev, *rec).okay("file")?;
            raw_record(&file, raws, &format!("record {rec}"))?;
        }
        let file = ntfs.file(&mut dev, f.rec).okay("file")?;
        let want = model_flat(f, &vol);
        // Directly; from some point on also through a clone and through an attached clone.
        let cut = src.usize(0, want.len());
        let mut it = file.attributes();
        let mut got = vec![];
        let mut tails: Vec<(&str, Vec<Seen>)> = vec![];
        loop {
            if got.len() == cut && tails.is_empty() {
                let mut c = it.clone();
                let mut v = got.clone();
                while let Some(i) = c.next(&mut dev) {
                    v.push(take(i.okay("attributes().next")?, &mut dev)?);
                    ck!(v.len() <= want.len() + 50, "attribute-extra", "a cloned enumeration does not end");
                }
                tails.push(("cloned", v));
                let items: Vec<_> = it.clone().attach(&mut dev).take(want.len() + 50).collect();
                let mut v = got.clone();
                for i in items {
                    v.push(take(i.okay("attached next")?, &mut dev)?);
                }
                tails.push(("attached", v));
                // Attached for one step, then detached again.
                let mut at = it.clone().attach(&mut dev);
                let one = at.next();
                let mut d = at.detach();
                let mut v = got.clone();
                if let Some(i) = one {
                    v.push(take(i.okay("attached next")?, &mut dev)?);
                }
                while let Some(i) = d.next(&mut dev) {
                    v.push(take(i.okay("attributes().next")?, &mut dev)?);
                    ck!(v.len() <= want.len() + 50, "attribute-extra", "a detached enumeration does not end");
                }
                tails.push(("detached", v));
            }
            match it.next(&mut dev) {
                None => break,
                Some(i) => got.push(take(i.okay("attributes().next")?, &mut dev)?),
            }
            ck!(got.len() <= want.len() + 50, "attribute-extra", "record {}: the enumeration does not end", f.rec);
        }
        ck!(it.next(&mut dev).is_none(), "attribute-after-end", "record {}: an attribute follows the end of the enumeration", f.rec);
        same_flat(&format!("record {}", f.rec), &got, &want)?;
        for (how, v) in &tails {
            ck!(*v == got, "enumeration-differs", "record {}: the {how} enumeration differs from the direct one: {:?} / {:?}", f.rec, v.iter().map(show_seen).collect::<Vec<_>>(), got.iter().map(show_seen).collect::<Vec<_>>());
        }
        list(src, &ntfs, &file, f, &mut dev)?;
    }
    Ok(())
}
