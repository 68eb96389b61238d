//! C10: structured attribute values decode to exactly the stored fields.
use super::c03::check_name;
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::{NtfsAttribute, NtfsFile, NtfsGuid};

pub static PROP: Prop = Prop {
    id: "C10",
    f: prop,
    quick: 2_000_000,
    thorough: 40_000_000,
    rule: "a case is a file with one attribute of each structured type, its value generated with every length around the legal ones and arbitrary fields (resident or non-resident), decoded through both structured value functions and every accessor compared with the stored field; every attribute is also requested as each wrong type; plus file names as directory keys and formatted GUIDs. Non-trivial: at least three decoded structures.",
    directed: &[],
};

const FILE_ATTRS: u32 = 0x1 | 0x2 | 0x4 | 0x20 | 0x40 | 0x80 | 0x100 | 0x200 | 0x400 | 0x800 | 0x1000 | 0x2000 | 0x4000 | 0x1000_0000;
const VOL_FLAGS: u16 = 0x1 | 0x2 | 0x4 | 0x8 | 0x10 | 0x20 | 0x4000 | 0x8000;

/// Decodes through the reader and, if the type supports it, without one.
fn both<'n, 'f, S>(a: &NtfsAttribute<'n, 'f>, dev: &mut Dev) -> Vec<(&'static str, ntfs::Result<S>)>
where
    S: NtfsStructuredValueFromResidentAttributeValue<'n, 'f>,
{
    vec![("structured_value", a.structured_value::<_, S>(dev)), ("resident_structured_value", a.resident_structured_value::<S>())]
}
/// What must happen: Some(true) decode, Some(false) refuse, None either (but never decode wrongly).
fn verdict(way: &str, resident: bool, must: Option<bool>) -> Option<bool> {
    if resident {
        must
    } else if way == "resident_structured_value" {
        Some(false)
    } else if must == Some(false) {
        must
    } else {
        None
    }
}
fn judge<S>(what: &str, way: &str, r: ntfs::Result<S>, want: Option<bool>) -> Result<Option<S>, Fail> {
    match (r, want) {
        (Ok(_), Some(false)) => fail!("accepted", "{what}: {way} accepts what it must refuse"),
        (Err(e), Some(true)) => fail!("refused", "{what}: {way} refuses a valid value: {e}"),
        (Ok(v), _) => Ok(Some(v)),
        (Err(_), _) => Ok(None),
    }
}

fn guid(b: &[u8]) -> NtfsGuid {
    NtfsGuid { data1: g32(b, 0), data2: g16(b, 4), data3: g16(b, 6), data4: b[8..16].try_into().unwrap() }
}
fn guid_text(b: &[u8]) -> String {
    let h = |r: &[u8]| r.iter().map(|x| format!("{x:02X}")).collect::<String>();
    let rev = |r: &[u8]| h(&r.iter().rev().copied().collect::<Vec<_>>());
    format!("{}-{}-{}-{}-{}", rev(&b[0..4]), rev(&b[4..6]), rev(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}
fn check_guid(what: &str, g: Option<&NtfsGuid>, b: &[u8], i: usize) -> R {
    let stored = b.len() >= 16 * (i + 1);
    ck!(g.is_some() == stored, "guid-presence", "{what}: identifier {i} present: {} of a value of {} bytes", g.is_some(), b.len());
    if let Some(g) = g {
        let r = &b[16 * i..16 * i + 16];
        ck!(*g == guid(r), "guid", "{what}: identifier {i} is {g:?} expected {:?}", guid(r));
        let t = g.to_string();
        ck!(t.eq_ignore_ascii_case(&guid_text(r)), "guid-text", "{what}: identifier {i} prints as {t} expected {}", guid_text(r));
    }
    Ok(())
}
fn bytes(src: &mut Src, n: usize) -> Vec<u8> {
    let mode = src.below(4);
    let s = src.u64();
    (0..n)
        .map(|i| match mode {
            0 => mix(s ^ i as u64) as u8,
            1 => 0,
            2 => 0xFF,
            // Small numbers with leading zeros.
            _ => if i % 2 == 0 { mix(s ^ i as u64) as u8 & 0xF } else { 0 },
        })
        .collect()
}
fn around(src: &mut Src, marks: &[u64], max: u64) -> usize {
    if src.chance(70) {
        (*src.pick(marks) + src.below(5)).saturating_sub(2).min(max) as usize
    } else {
        src.range(0, max) as usize
    }
}

struct Made {
    ty: u32,
    v: Vec<u8>,
    resident: bool,
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 30, mft_runs: 2, ..Default::default() });
    let mut made: Vec<Made> = vec![];
    let mut attrs = vec![];
    for ty in [T_STD, T_NAME, T_OBJID, T_VOLNAME, T_VOLINFO, T_IROOT] {
        if !src.chance(75) {
            continue;
        }
        let v = match ty {
            T_STD => {
                let n = if src.chance(60) { *src.pick(&[72usize, 48]) } else { around(src, &[48, 72, 0, 96], 120) };
                bytes(src, n)
            }
            T_OBJID => {
                let n = if src.chance(50) { 16 * src.usize(1, 4) } else { around(src, &[16, 32, 48, 64, 0], 90) };
                bytes(src, n)
            }
            T_VOLINFO => {
                let n = if src.chance(60) { 12 } else { around(src, &[12, 0], 30) };
                bytes(src, n)
            }
            T_VOLNAME => {
                let n = 2 * if src.chance(60) { src.usize(0, 32) } else { around(src, &[0, 32, 127], 128) };
                bytes(src, n)
            }
            T_NAME => {
                let max = *src.pick(&[100usize, 255]);
                let nm = gen_name(src, 0, max);
                let ns = if src.chance(80) { src.below(4) as u8 } else { src.interesting(8) as u8 };
                let f = FileNameV { parent: src.interesting(64), times: [src.interesting(64), src.u64(), src.u64(), src.interesting(64)], alloc: src.interesting(64), data: src.interesting(64), attrs: src.interesting(32) as u32, ea: src.interesting(32) as u32, ns, name: nm };
                let mut v = file_name(&f);
                match src.weighted(&[6, 1, 1, 1]) {
                    0 => {}
                    1 => {
                        let n = around(src, &[66, 68, 0, v.len() as u64], v.len() as u64);
                        v.truncate(n);
                    }
                    2 => {
                        let n = src.size(0, 40) as usize;
                        v.resize(v.len() + n, 0x41);
                    }
                    _ => v[64] = (v[64] as u64 + src.size(0, 200)).min(255) as u8,
                }
                v
            }
            _ => {
                let ents = {
                    let mut e = vec![];
                    for _ in 0..src.below(3) {
                        let nm = gen_name(src, 1, 10);
                        let ns = src.below(4) as u8;
                        let f = gen_fn(src, nm, ns);
                        e.extend(index_entry(src.u64(), &file_name(&f), &[], None, false));
                    }
                    e.extend(index_entry(0, &[], &[], None, true));
                    e
                };
                let mut v = index_root(src.interesting(32) as u32, src.interesting(32) as u32, src.interesting(32) as u32, src.u64() as i8, &ents, src.bool());
                let alloc = src.interesting(32) as u32;
                p32(&mut v, 24, alloc);
                v[28] = v[28] & 1 | (src.u64() as u8 & 0xFE);
                if src.chance(15) {
                    v.truncate(src.usize(0, 40));
                }
                v
            }
        };
        let resident = !src.chance(15);
        let mut a = if resident {
            if v.len() as u64 > max_res(&vol, 0) {
                continue;
            }
            Attr::res(ty, &[], v.clone())
        } else {
            let s = alloc_stream(src, &mut vol.al, vol.geo.cluster, v.len() as u64, 2);
            s.store(&mut vol.disk, 0, &v);
            Attr::non(ty, &[], s)
        };
        deco(src, &vol, &mut a);
        attrs.push(a);
        made.push(Made { ty, v, resident });
    }
    let m = gen_file(src, &mut vol, attrs, 1);
    // A directory with keys as they come.
    let mut keys = vec![];
    for _ in 0..src.below(4) {
        let nm = gen_name(src, 0, 20);
        let ns = if src.chance(70) { 3 } else { src.interesting(8) as u8 };
        let f = gen_fn(src, nm, ns);
        let mut v = file_name(&f);
        match src.weighted(&[5, 1, 1]) {
            0 => {}
            1 => v.truncate(src.usize(1, v.len())),
            _ => v[64] = (v[64] as u64 + src.size(0, 200)).min(255) as u8,
        }
        keys.push(v);
    }
    let dir = if !keys.is_empty() && vol.cap() > 800 {
        let mut e = vec![];
        for k in &keys {
            e.extend(index_entry(fref(20, 1), k, &[], None, false));
        }
        e.extend(index_entry(0, &[], &[], None, true));
        let root = index_root(T_NAME, 1, 4096, 1, &e, false);
        let fits = root.len() as u64 <= max_res(&vol, 4) - 100;
        fits.then(|| {
            let attrs = vec![Attr::res(T_IROOT, &I30, root)];
            gen_file(src, &mut vol, attrs, 3)
        })
    } else {
        None
    };
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    ctx.describe(|| format!("{}; {}", desc_geo(&vol.geo), made.iter().map(|m| format!("{:#x} {} B {} [{}]", m.ty, m.v.len(), if m.resident { "resident" } else { "non-resident" }, hex(&m.v))).collect::<Vec<_>>().join(", ")));
    let file = ntfs.file(&mut dev, m.rec).okay("file")?;
    let mut decoded = 0;
    for x in &made {
        decoded += check_one(ctx, &file, x, &mut dev)? as usize;
    }
    ctx.nontrivial = decoded >= 3;
    if let Some(d) = dir {
        ctx.label("directory keys");
        let file = ntfs.file(&mut dev, d.rec).okay("file")?;
        let index = file.directory_index(&mut dev).okay("directory_index")?;
        let mut it = index.entries();
        for k in &keys {
            let e = match it.next(&mut dev) {
                // An entry with a malformed key may be refused as a whole.
                Some(Err(_)) if name_must(k) != Some(true) => break,
                x => x.okay("entries().next")?,
            };
            let r = e.key();
            let must = name_must(k);
            if must == Some(false) {
                ctx.label("malformed directory key");
            }
            let Some(r) = r else { fail!("key-absent", "the entry has no key") };
            if let Some(n) = judge("directory key", "key", r, must)? {
                check_name(&n, &name_of(k), "directory key")?;
            }
        }
    }
    Ok(())
}
fn name_must(v: &[u8]) -> Option<bool> {
    if v.len() < 66 || v.len() < 66 + 2 * v[64] as usize || v[65] > 3 {
        Some(false)
    } else if v.len() < 68 {
        // No room for even one character: names are never empty, so refusing is fine.
        None
    } else {
        Some(true)
    }
}
fn name_of(v: &[u8]) -> FileNameV {
    let n = v[64] as usize;
    FileNameV {
        parent: g64(v, 0),
        times: [g64(v, 8), g64(v, 16), g64(v, 24), g64(v, 32)],
        alloc: g64(v, 40),
        data: g64(v, 48),
        attrs: g32(v, 56),
        ea: g32(v, 60),
        ns: v[65],
        name: (0..n).map(|i| g16(v, 66 + 2 * i)).collect(),
    }
}
fn check_one(ctx: &mut Ctx, file: &NtfsFile, x: &Made, dev: &mut Dev) -> Result<bool, Fail> {
    let item = find_item(file, dev, x.ty, &[], 0)?;
    let a = item.to_attribute().okay("to_attribute")?;
    let v = &x.v;
    let n = v.len();
    let what = format!("attribute {:#x} of {n} bytes ({})", x.ty, if x.resident { "resident" } else { "non-resident" });
    let mut dec = false;
    // As itself.
    match x.ty {
        T_STD => {
            for (way, r) in both::<NtfsStandardInformation>(&a, dev) {
                let Some(s) = judge(&what, way, r, verdict(way, x.resident, Some(n >= 48)))? else { continue };
                dec = true;
                let t = [s.creation_time(), s.modification_time(), s.mft_record_modification_time(), s.access_time()];
                for i in 0..4 {
                    ck!(t[i].nt_timestamp() == g64(v, 8 * i), "std-time", "{what}: time {i} is {:#x} expected {:#x}", t[i].nt_timestamp(), g64(v, 8 * i));
                }
                let (g, w) = (s.file_attributes().bits(), g32(v, 32));
                ck!(g & FILE_ATTRS == w & FILE_ATTRS && g & !w == 0, "std-attributes", "{what}: file attributes {g:#x} expected {w:#x}");
                file_attr_flags(&what, s.file_attributes(), w)?;
                let l = n >= 72;
                ctx.label(if l { "long standard information" } else { "short standard information" });
                let f32s = [("maximum_versions", s.maximum_versions(), 36), ("version", s.version(), 40), ("class_id", s.class_id(), 44), ("owner_id", s.owner_id(), 48), ("security_id", s.security_id(), 52)];
                for (name, got, off) in f32s {
                    // The fields at 36..48 are stored in the short form as well; it may report them or not.
                    let want = if n >= 72 { Some(g32(v, off)) } else { None };
                    let alt = if off < 48 { Some(g32(v, off)) } else { None };
                    ck!(got == want || (!l && got == alt), "std-field", "{what}: {name} is {got:?} expected {want:?}");
                }
                for (name, got, off) in [("quota_charged", s.quota_charged(), 56), ("usn", s.usn(), 64)] {
                    let want = if l { Some(g64(v, off)) } else { None };
                    ck!(got == want, "std-field", "{what}: {name} is {got:?} expected {want:?}");
                }
            }
        }
        T_OBJID => {
            for (way, r) in both::<NtfsObjectId>(&a, dev) {
                let Some(s) = judge(&what, way, r, verdict(way, x.resident, Some(n >= 16)))? else { continue };
                dec = true;
                ctx.label("object id");
                check_guid(&what, Some(s.object_id()), v, 0)?;
                check_guid(&what, s.birth_volume_id(), v, 1)?;
                check_guid(&what, s.birth_object_id(), v, 2)?;
                check_guid(&what, s.domain_id(), v, 3)?;
            }
        }
        T_VOLINFO => {
            for (way, r) in both::<NtfsVolumeInformation>(&a, dev) {
                let Some(s) = judge(&what, way, r, verdict(way, x.resident, Some(n >= 12)))? else { continue };
                dec = true;
                ctx.label("volume information");
                ck!(s.major_version() == v[8] && s.minor_version() == v[9], "volume-version", "{what}: version {}.{} expected {}.{}", s.major_version(), s.minor_version(), v[8], v[9]);
                let (g, w) = (s.flags().bits(), g16(v, 10));
                ck!(g & VOL_FLAGS == w & VOL_FLAGS && g & !w == 0, "volume-flags", "{what}: flags {g:#x} expected {w:#x}");
                crate::named_flags_sv!(what, s.flags(), w, NtfsVolumeFlags: IS_DIRTY = 0x1, RESIZE_LOG_FILE = 0x2, UPGRADE_ON_MOUNT = 0x4, MOUNTED_ON_NT4 = 0x8, DELETE_USN_UNDERWAY = 0x10, REPAIR_OBJECT_ID = 0x20, CHKDSK_UNDERWAY = 0x4000, MODIFIED_BY_CHKDSK = 0x8000);
            }
        }
        T_VOLNAME => {
            for (way, r) in both::<NtfsVolumeName>(&a, dev) {
                // 32 characters are what Windows allows; more than 128 need not be supported.
                let Some(s) = judge(&what, way, r, verdict(way, x.resident, Some(true)))? else { continue };
                dec = true;
                ctx.label("volume name");
                ck!(s.name().0 == &v[..] && s.name_length() == n, "volume-name", "{what}: name {} ({} bytes)", show(&units(&s.name())), s.name_length());
            }
        }
        T_NAME => {
            let must = name_must(v);
            let r = a.structured_value::<_, NtfsFileName>(dev);
            // File names are documented as resident or non-resident.
            if let Some(s) = judge(&what, "structured_value", r, must)? {
                dec = true;
                ctx.label("file name");
                check_name(&s, &name_of(v), &what)?;
            }
            ctx.label_if(must == Some(false), "malformed file name");
        }
        _ => {
            for (way, r) in both::<NtfsIndexRoot>(&a, dev) {
                let want = if x.resident { Some(n >= 48) } else { Some(false) };
                let Some(s) = judge(&what, way, r, want)? else { continue };
                dec = true;
                ctx.label("index root");
                ck!(s.index_record_size() == g32(v, 8), "root-field", "{what}: index record size {} expected {}", s.index_record_size(), g32(v, 8));
                ck!(s.index_data_size() == g32(v, 20), "root-field", "{what}: index data size {} expected {}", s.index_data_size(), g32(v, 20));
                ck!(s.index_allocated_size() == g32(v, 24), "root-field", "{what}: index allocated size {} expected {}", s.index_allocated_size(), g32(v, 24));
                ck!(s.is_large_index() == (v[28] & 1 != 0), "root-field", "{what}: is_large_index {} for flags {:#x}", s.is_large_index(), v[28]);
                let ents = s.entries::<NtfsFileNameIndex>().okay("entries")?;
                let mut k = 0;
                let mut off = 32;
                for e in ents {
                    let e = e.okay("entry")?;
                    ck!(off < n, "root-entries", "{what}: more entries than stored");
                    let last = v[off + 12] & 2 != 0;
                    ck!(e.flags().contains(ntfs::NtfsIndexEntryFlags::LAST_ENTRY) == last, "root-entries", "{what}: entry {k} last: {}", e.flags().contains(ntfs::NtfsIndexEntryFlags::LAST_ENTRY));
                    if !last {
                        let Some(key) = e.key() else { fail!("root-entries", "{what}: entry {k} without key") };
                        check_name(&key.okay("key")?, &name_of(&v[off + 16..]), &what)?;
                    }
                    off += g16(v, off + 8) as usize;
                    k += 1;
                }
                ck!(off == n, "root-entries", "{what}: entries end at {off} of {n}");
            }
        }
    }
    // As anything else.
    macro_rules! wrong {
        ($t:ty, $ty:expr) => {
            if x.ty != $ty {
                ck!(a.structured_value::<_, $t>(dev).is_err(), "wrong-type", "{what}: accepted as {:#x}", $ty);
                ck!(a.resident_structured_value::<$t>().is_err(), "wrong-type", "{what}: accepted as {:#x} without reader", $ty);
            }
        };
    }
    wrong!(NtfsStandardInformation, T_STD);
    wrong!(NtfsObjectId, T_OBJID);
    wrong!(NtfsVolumeInformation, T_VOLINFO);
    wrong!(NtfsVolumeName, T_VOLNAME);
    wrong!(NtfsIndexRoot, T_IROOT);
    if x.ty != T_NAME {
        ck!(a.structured_value::<_, NtfsFileName>(dev).is_err(), "wrong-type", "{what}: accepted as a file name");
    }
    ck!(a.structured_value::<_, NtfsAttributeList>(dev).is_err(), "wrong-type", "{what}: accepted as an attribute list");
    ck!(a.structured_value::<_, NtfsIndexAllocation>(dev).is_err(), "wrong-type", "{what}: accepted as an index allocation");
    Ok(dec)
}
