//! C23: an error says what is wrong.
use super::c03::desc_dir;
use super::Prop;
use crate::api::*;
use crate::disk::{Dev, Disk, Fault, FAULT_MSG};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use crate::world::{gen_q, gen_world, run};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::{NtfsFileNameIndex, NtfsIndexEntryKey, NtfsIndexEntryType};
use ntfs::structured_values::*;
use ntfs::types::{Lcn, NtfsPosition, Vcn};
use ntfs::{Ntfs, NtfsAttributeType, NtfsError, NtfsFile, NtfsIndex, NtfsReadSeek, NtfsTime};
use std::io::SeekFrom;
use std::ops::Range;

pub static PROP: Prop = Prop {
    id: "C23",
    f: prop,
    quick: 1_800_000,
    thorough: 15_000_000,
    rule: "a case damages one field of an otherwise sound volume, or asks for something that is not there, and compares the reported error (its kind, the stored value and the bound in it, its text, and what remains of it as an io::Error) with that defect. Non-trivial: an error was provoked and compared.",
    directed: &[],
};

// ------------------------------------------------------------------ errors as data

trait Show {
    fn show(&self) -> String;
}
macro_rules! shows { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { self.to_string() } })* } }
shows!(u8, u16, u32, u64, usize, i8);
macro_rules! debugs { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { format!("{:?}", self) } })* } }
debugs!(&'static [u8], [u8; 2], [u8; 4], Range<usize>, NtfsAttributeType);
impl Show for NtfsPosition {
    fn show(&self) -> String {
        self.value().map(|p| p.get()).unwrap_or(0).to_string()
    }
}
impl Show for Vcn {
    fn show(&self) -> String {
        self.value().to_string()
    }
}
impl Show for Lcn {
    fn show(&self) -> String {
        self.value().to_string()
    }
}

type Fields = Vec<(&'static str, String)>;
fn flat(e: &NtfsError) -> (&'static str, Fields) {
    macro_rules! m {
        ($($v:ident { $($f:ident),* })*) => {
            match e {
                $(NtfsError::$v { $($f),* } => (stringify!($v), vec![$((stringify!($f), $f.show())),*]),)*
                NtfsError::Io(_) => ("Io", vec![]),
                NtfsError::InvalidMftLcn => ("InvalidMftLcn", vec![]),
                NtfsError::InvalidTime => ("InvalidTime", vec![]),
                _ => ("another error", vec![]),
            }
        };
    }
    m! {
        AttributeNotFound { position, ty }
        AttributeOfDifferentType { position, expected, actual }
        InvalidAttributeLength { position, expected, actual }
        InvalidAttributeNameLength { position, expected, actual }
        InvalidAttributeNameOffset { position, expected, actual }
        InvalidByteCountInDataRunHeader { position, expected, actual }
        InvalidClusterCountInDataRunHeader { position, cluster_count }
        InvalidFileAllocatedSize { position, expected, actual }
        InvalidFileRecordNumber { file_record_number }
        InvalidFileSignature { position, expected, actual }
        InvalidFileUsedSize { position, expected, actual }
        InvalidIndexAllocatedSize { position, expected, actual }
        InvalidIndexEntriesOffset { position, expected, actual }
        InvalidIndexEntryDataRange { position, range, size }
        InvalidIndexEntrySize { position, expected, actual }
        InvalidIndexRecordSize { position, min, max, actual }
        InvalidIndexRootEntriesOffset { position, expected, actual }
        InvalidIndexRootUsedSize { position, expected, actual }
        InvalidIndexSignature { position, expected, actual }
        InvalidIndexUsedSize { position, expected, actual }
        InvalidNonResidentValueDataRange { position, range, size }
        InvalidResidentAttributeValueLength { position, length, offset, actual }
        InvalidResidentAttributeValueOffset { position, expected, actual }
        InvalidRecordSizeInfo { size_info, cluster_size }
        InvalidSectorsPerCluster { sectors_per_cluster }
        InvalidStructuredValueSize { position, ty, expected, actual }
        InvalidTwoByteSignature { position, expected, actual }
        InvalidUpcaseTableSize { expected, actual }
        InvalidUpdateSequenceCount { position, update_sequence_count }
        InvalidUpdateSequenceNumberRange { position, range, size }
        InvalidVcnInDataRunHeader { position, vcn, previous_lcn }
        LcnTooBig { lcn }
        MissingIndexAllocation { position }
        NotADirectory { position }
        TotalSectorsTooBig { total_sectors }
        UnexpectedAttributeListAttribute { position }
        UnexpectedNonResidentAttribute { position }
        UnexpectedResidentAttribute { position }
        UnsupportedAttributeType { position, actual }
        UnsupportedClusterSize { min, max, actual }
        UnsupportedFileNamespace { position, actual }
        UnsupportedSectorSize { min, max, actual }
        UpdateSequenceArrayExceedsRecordSize { position, array_count, record_size }
        UpdateSequenceNumberMismatch { position, expected, actual }
        VcnMismatchInIndexAllocation { position, expected, actual }
        VcnOutOfBoundsInIndexAllocation { position, vcn }
        VcnReferencedTwiceInIndex { position, vcn }
        VcnTooBig { vcn }
    }
}

/// Kind and some of the fields of an error.
struct Exp(&'static str, Fields);
macro_rules! exp {
    ($k:ident $(, $f:ident = $v:expr)*) => { Exp(stringify!($k), vec![$((stringify!($f), format!("{}", $v))),*]) };
}

/// The error is one of the expected ones, its text names its numbers, and it survives as an io::Error.
fn says<T>(ctx: &mut Ctx, what: &str, got: Result<T, NtfsError>, want: &[Exp]) -> R {
    let wanted = || want.iter().map(|w| format!("{} {:?}", w.0, w.1)).collect::<Vec<_>>().join(" or ");
    let e = match got {
        Ok(_) => fail!("no-error", "{what}: no error, expected {}", wanted()),
        Err(e) => e,
    };
    let (kind, fields) = flat(&e);
    let w = want.iter().filter(|w| w.0 == kind).collect::<Vec<_>>();
    ck!(!w.is_empty(), "kind", "{what}: reported as {kind} {fields:?} ({e}), expected {}", wanted());
    let fits = w.iter().any(|w| w.1.iter().all(|(n, v)| fields.iter().any(|(m, x)| m == n && x == v)));
    ck!(fits, "payload", "{what}: reported as {kind} {fields:?} ({e}), expected {}", wanted());
    ctx.label(want[0].0);
    ctx.nontrivial = true;
    // The text for people.
    let text = e.to_string();
    let words: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric() && c != '-').collect();
    for (n, v) in &fields {
        let there = match (kind, *n) {
            // Its message does not name the number.
            ("TotalSectorsTooBig", _) => true,
            (_, "position") => {
                let p = v.parse::<u64>().unwrap();
                p == 0 || words.contains(&format!("{p:#x}").as_str())
            }
            ("InvalidSectorsPerCluster", _) | ("UnsupportedAttributeType", _) => {
                let x = v.parse::<u64>().unwrap();
                words.iter().any(|w| w.strip_prefix("0x").and_then(|h| u64::from_str_radix(h, 16).ok()) == Some(x))
            }
            _ if v.parse::<i128>().is_ok() => words.contains(&v.as_str()),
            _ => text.contains(v.as_str()),
        };
        ck!(there, "text", "{what}: the text of {kind} does not say {n} = {v}: {text}");
    }
    // Through the standard interfaces.
    let io = std::io::Error::from(e);
    if kind == "Io" {
        return Ok(());
    }
    ck!(io.kind() == std::io::ErrorKind::Other, "io-kind", "{what}: {kind} becomes an io::Error of kind {:?}", io.kind());
    ck!(io.to_string() == text, "io-text", "{what}: {kind} becomes an io::Error saying {io}, not {text}");
    match io.get_ref().and_then(|r| r.downcast_ref::<NtfsError>()) {
        Some(inner) => ck!(flat(inner) == (kind, fields.clone()), "io-inner", "{what}: {kind} {fields:?} becomes {:?}", flat(inner)),
        None => fail!("io-inner", "{what}: {kind} is lost in the io::Error"),
    }
    Ok(())
}

/// A value above `limit`.
fn above(src: &mut Src, limit: u64, max: u64) -> u64 {
    if limit >= max {
        std::panic::panic_any(Overrun);
    }
    match src.below(3) {
        0 => limit + 1 + src.below((max - limit).min(9)),
        1 => limit + src.size(1, max - limit),
        _ => max - src.below((max - limit).min(9)),
    }
}

// ------------------------------------------------------------------ boot sector

fn boot(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = Boot { sector_size: *src.pick(&[512u16, 1024, 2048, 4096]), spc: 1 << src.below(8), total_sectors: src.interesting(40), mft_lcn: 1 + src.interesting(30), mirr_lcn: src.u64(), frs: -(10 + src.below(3) as i8), irs: -12, serial: src.u64(), sig: [0x55, 0xAA] };
    let cluster = b.sector_size as u64 * b.spc as u64;
    let what;
    let want = match src.below(8) {
        0 => {
            let v = match src.below(3) {
                0 => *src.pick(&[0u16, 1, 128, 256, 511, 513, 1536, 3072, 4095, 4097, 8192, 16384, 32768, 65535]),
                _ => src.interesting(16) as u16,
            };
            if [512, 1024, 2048, 4096].contains(&v) {
                return Ok(());
            }
            b.sector_size = v;
            what = format!("sector size {v}");
            vec![exp!(UnsupportedSectorSize, min = 512, max = 4096, actual = v)]
        }
        1 => {
            let v = match src.below(3) {
                0 => 0,
                1 => 3 + src.below(125) as u8,
                _ => (256 - src.range(13, 127)) as u8,
            };
            if v.is_power_of_two() {
                return Ok(());
            }
            b.spc = v;
            what = format!("sectors per cluster {v}");
            vec![exp!(InvalidSectorsPerCluster, sectors_per_cluster = v)]
        }
        2 => {
            let e = src.range(1, 12);
            b.spc = (256 - e) as u8;
            let c = (b.sector_size as u64) << e;
            if c <= 2 << 20 {
                return Ok(());
            }
            what = format!("cluster size {c}");
            vec![exp!(UnsupportedClusterSize, min = 512, max = 2 << 20, actual = c)]
        }
        3 => {
            let v = match src.below(3) {
                0 => 0,
                1 => -1 - src.below(9) as i8,
                _ => -13 - src.below(115) as i8,
            };
            b.frs = v;
            what = format!("file record size {v}");
            vec![exp!(InvalidRecordSizeInfo, size_info = v, cluster_size = cluster)]
        }
        4 => {
            let s = [src.u64() as u8, src.u64() as u8];
            if s == [0x55, 0xAA] {
                return Ok(());
            }
            b.sig = s;
            what = format!("signature {s:?}");
            vec![exp!(InvalidTwoByteSignature, position = 510, expected = "[85, 170]", actual = format!("{s:?}"))]
        }
        5 => {
            b.mft_lcn = 0;
            what = "MFT at cluster 0".into();
            vec![exp!(InvalidMftLcn)]
        }
        6 => {
            b.mft_lcn = above(src, u64::MAX / cluster, u64::MAX);
            what = format!("MFT at cluster {}", b.mft_lcn);
            vec![exp!(LcnTooBig, lcn = b.mft_lcn)]
        }
        _ => {
            b.total_sectors = above(src, u64::MAX / b.sector_size as u64, u64::MAX);
            what = format!("{} sectors of {}", b.total_sectors, b.sector_size);
            vec![exp!(TotalSectorsTooBig, total_sectors = b.total_sectors)]
        }
    };
    ctx.describe(|| format!("boot sector: {what}"));
    let mut disk = Disk::new(0x5eed, 1 << 20);
    disk.write(0, &b.encode(src.u64()));
    let mut dev = disk.reader();
    says(ctx, &what, Ntfs::new(&mut dev).map(|_| ()), &want)
}

// ------------------------------------------------------------------ file records and attributes

fn type_name(t: u32) -> String {
    NtfsAttributeType::n(t).map(|t| format!("{t:?}")).unwrap_or_default()
}

/// Fewer bytes than a structured value needs (or more than it may have).
fn structured(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 30, mft_runs: 2, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let ty = *src.pick(&[T_STD, T_NAME, T_VOLINFO, T_VOLNAME, T_OBJID, T_IROOT]);
    let (v, short) = match ty {
        T_STD => (junk_n(src, 47), true),
        T_NAME => (junk_n(src, 65), true),
        T_VOLINFO => (junk_n(src, 11), true),
        T_OBJID => (junk_n(src, 15), true),
        T_IROOT => (junk_n(src, 31), true),
        _ => {
            let n = above(src, 256, 300.min(max_res(&vol, 0))) as usize;
            (junk(src, n), false)
        }
    };
    let n = v.len() as u64;
    if ty != T_NAME && src.chance(10) {
        // Not resident at all.
        let a = gen_non(src, &mut vol, ty, &[], 3, false);
        let file = gen_file(src, &mut vol, vec![a], 1);
        vol.finish(src);
        let what = format!("non-resident {}", type_name(ty));
        ctx.describe(|| format!("{}; {what}", desc_geo(&vol.geo)));
        let mut dev = vol.disk.reader();
        let ntfs = open(&mut dev)?;
        let f = ntfs.file(&mut dev, file.rec).okay("file")?;
        let item = find_item(&f, &mut dev, ty, &[], 0)?;
        let a = item.to_attribute().okay("to_attribute")?;
        let want = [exp!(UnexpectedNonResidentAttribute, position = a.position().value().map(|x| x.get()).unwrap_or(0))];
        return match ty {
            T_STD => says(ctx, &what, a.resident_structured_value::<NtfsStandardInformation>().map(|_| ()), &want),
            T_VOLINFO => says(ctx, &what, a.resident_structured_value::<NtfsVolumeInformation>().map(|_| ()), &want),
            T_OBJID => says(ctx, &what, a.resident_structured_value::<NtfsObjectId>().map(|_| ()), &want),
            T_IROOT => says(ctx, &what, a.resident_structured_value::<NtfsIndexRoot>().map(|_| ()), &want),
            _ => says(ctx, &what, a.resident_structured_value::<NtfsVolumeName>().map(|_| ()), &want),
        };
    }
    // Through the shortcuts for the attribute.
    let short_cut = ty != T_OBJID && src.chance(40);
    let name: &[u16] = if short_cut && ty == T_IROOT { &I30 } else { &[] };
    let attrs = vec![Attr::res(ty, name, v)];
    let file = if short_cut {
        let rec = if matches!(ty, T_VOLINFO | T_VOLNAME) { 3 } else { vol.new_rec(src) };
        vol.add_file(src, FileSpec { rec, seq: 3, links: 1, flags: if ty == T_IROOT { 3 } else { 1 }, attrs, list_pct: if matches!(ty, T_NAME | T_IROOT) { 40 } else { 0 }, list_non_pct: 40, stay_pct: 50 })
    } else {
        gen_file(src, &mut vol, attrs, 1)
    };
    vol.finish(src);
    let what = format!("{} of {n} bytes{}", type_name(ty), if short_cut { " (by its shortcut)" } else { "" });
    ctx.describe(|| format!("{}; {what}", desc_geo(&vol.geo)));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, file.rec).okay("file")?;
    let missing = Err(NtfsError::InvalidTime);
    let item = find_item(&f, &mut dev, ty, name, 0)?;
    let a = item.to_attribute().okay("to_attribute")?;
    let direct = src.bool();
    let got = match ty {
        T_STD if short_cut => f.info().map(|_| ()),
        T_NAME if short_cut => f.name(&mut dev, None, None).map_or(missing, |n| n.map(|_| ())),
        T_VOLINFO if short_cut => ntfs.volume_info(&mut dev).map(|_| ()),
        T_VOLNAME if short_cut => ntfs.volume_name(&mut dev).map_or(missing, |n| n.map(|_| ())),
        T_IROOT if short_cut => f.directory_index(&mut dev).map(|_| ()),
        T_STD => if direct { a.resident_structured_value::<NtfsStandardInformation>().map(|_| ()) } else { a.structured_value::<_, NtfsStandardInformation>(&mut dev).map(|_| ()) },
        T_NAME => a.structured_value::<_, NtfsFileName>(&mut dev).map(|_| ()),
        T_VOLINFO => if direct { a.resident_structured_value::<NtfsVolumeInformation>().map(|_| ()) } else { a.structured_value::<_, NtfsVolumeInformation>(&mut dev).map(|_| ()) },
        T_OBJID => if direct { a.resident_structured_value::<NtfsObjectId>().map(|_| ()) } else { a.structured_value::<_, NtfsObjectId>(&mut dev).map(|_| ()) },
        T_IROOT => if direct { a.resident_structured_value::<NtfsIndexRoot>().map(|_| ()) } else { a.structured_value::<_, NtfsIndexRoot>(&mut dev).map(|_| ()) },
        _ => if direct { a.resident_structured_value::<NtfsVolumeName>().map(|_| ()) } else { a.structured_value::<_, NtfsVolumeName>(&mut dev).map(|_| ()) },
    };
    // "has N bytes where M bytes were expected"
    if let Err(NtfsError::InvalidStructuredValueSize { expected, actual, .. }) = &got {
        ck!(*actual == n, "payload", "{what}: reported as having {actual} bytes");
        ck!(if short { *expected > n } else { *expected < n }, "payload", "{what}: reported as {expected} bytes expected");
    }
    says(ctx, &what, got, &[exp!(InvalidStructuredValueSize, ty = type_name(ty), actual = n)])
}
fn junk_n(src: &mut Src, max: u64) -> Vec<u8> {
    let n = src.range(0, max) as usize;
    junk(src, n)
}

fn file_damage(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, big_mft: 3, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let attrs = gen_attrs(src, &mut vol, &AttrsOpts { max_runs: 8, huge: false, max_named: 2, types: true });
    let file = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    let frs = vol.geo.frs;
    let (rec, raws) = src.pick(&file.raw).clone();
    let whole = vol.contiguous(rec);
    let pos = vol.rec_pos(rec);
    let mut b = vol.rec_bytes(rec);
    let usa_off = g16(&b, 4) as usize;
    let used = g32(&b, 24) as u64;
    let usn = 1 + src.below(0xFFFF) as u16;
    let blocks = covered(frs as usize) as u64;
    ctx.describe(|| format!("{}; file {} list {:?}, record {rec}: {}", desc_geo(&vol.geo), file.rec, file.list, file.attrs.iter().map(desc_attr).collect::<Vec<_>>().join(" | ")));
    let kind = src.below(18);
    if kind < 7 {
        // The record itself.
        let what;
        let want;
        match kind {
            0 => {
                let mut s = *b"FILE";
                s[src.usize(0, 3)] ^= 1 << src.below(8);
                if src.chance(20) {
                    s = *b"BAAD";
                }
                b[..4].copy_from_slice(&s);
                protect(&mut b, usa_off, usn);
                what = format!("record {rec} with signature {s:?}");
                want = exp!(InvalidFileSignature, expected = format!("{:?}", b"FILE"), actual = format!("{s:?}"));
            }
            1 => {
                protect(&mut b, usa_off, usn);
                let k = src.below(blocks) as usize;
                let t = k * 512 + 510;
                let x = usn ^ (1 + src.below(0xFFFF) as u16);
                p16(&mut b, t, x);
                what = format!("record {rec} with block {k} torn: {x:#x} instead of {usn:#x}");
                want = exp!(UpdateSequenceNumberMismatch, expected = format!("{:?}", usn.to_le_bytes()), actual = format!("{:?}", x.to_le_bytes()));
            }
            2 => {
                protect(&mut b, usa_off, usn);
                p16(&mut b, 6, 0);
                what = format!("record {rec} with an empty update sequence");
                want = exp!(InvalidUpdateSequenceCount, update_sequence_count = 0);
            }
            3 => {
                protect(&mut b, usa_off, usn);
                let n = above(src, blocks + 1, 0xFFFF);
                p16(&mut b, 6, n as u16);
                what = format!("record {rec} of {blocks} blocks with an update sequence of {n}");
                want = exp!(UpdateSequenceArrayExceedsRecordSize, array_count = n - 1, record_size = frs);
            }
            4 => {
                protect(&mut b, usa_off, usn);
                let o = above(src, frs - 2, 0xFFFF);
                p16(&mut b, 4, o as u16);
                what = format!("record {rec} with its update sequence at {o}");
                want = exp!(InvalidUpdateSequenceNumberRange, range = format!("{o}..{}", o + 2), size = frs);
            }
            5 => {
                let v = above(src, frs, 0xFFFF_FFFF);
                p32(&mut b, 28, v as u32);
                protect(&mut b, usa_off, usn);
                what = format!("record {rec} with allocated size {v}");
                want = exp!(InvalidFileAllocatedSize, expected = v, actual = frs);
            }
            _ => {
                let al = src.range(used, frs);
                let v = above(src, al, 0xFFFF_FFFF);
                p32(&mut b, 28, al as u32);
                p32(&mut b, 24, v as u32);
                protect(&mut b, usa_off, usn);
                what = format!("record {rec} with used size {v} of {al}");
                want = exp!(InvalidFileUsedSize, expected = v, actual = al);
            }
        }
        vol.mft.store(&mut vol.disk, rec * frs, &b);
        let mut dev = vol.disk.reader();
        let ntfs = open(&mut dev)?;
        return says(ctx, &what, ntfs.file(&mut dev, rec).map(|_| ()), &[want]);
    }
    if raws.is_empty() {
        return Ok(());
    }
    let i = src.usize(0, raws.len() - 1);
    let w = raws[i].clone();
    let o = w.off;
    let ap = if whole { pos + o as u64 } else { 0 };
    let len = g32(&b, o + 4) as u64;
    let left = used - o as u64;
    // Where the defect shows.
    enum At {
        Next,
        Type,
        Name,
        Value,
        Runs(usize),
        FileName,
    }
    let what;
    let see;
    let want;
    match kind {
        7 => {
            let v = src.below(if w.resident { 23 } else { 64 });
            p32(&mut b, o + 4, v as u32);
            what = format!("attribute {i} of length {v}");
            see = At::Next;
            want = vec![exp!(InvalidAttributeLength, expected = v), exp!(InvalidAttributeLength, actual = v)];
        }
        8 => {
            let v = above(src, left, 0xFFFF_FFFF);
            p32(&mut b, o + 4, v as u32);
            what = format!("attribute {i} of length {v}, {left} bytes left");
            see = At::Next;
            want = vec![exp!(InvalidAttributeLength, expected = v, actual = left)];
        }
        9 => {
            let v = match src.below(2) {
                0 => *src.pick(&[1u32, 0x11, 0x110, 0x8_0000, 0xFFFF_FFFE, 0x1000_0010]),
                _ => src.u64() as u32,
            };
            if v == T_END || ALL_TYPES.contains(&v) || v == 0 {
                return Ok(());
            }
            p32(&mut b, o, v);
            what = format!("attribute {i} of type {v:#x}");
            see = At::Type;
            want = vec![exp!(UnsupportedAttributeType, actual = v)];
        }
        10 => {
            let v = above(src, len - 1, 0xFFFF);
            p16(&mut b, o + 10, v as u16);
            if b[o + 9] == 0 {
                b[o + 9] = 1 + src.below(255) as u8;
            }
            what = format!("attribute {i} of length {len} with its name at {v}");
            see = At::Name;
            want = vec![exp!(InvalidAttributeNameOffset, expected = v, actual = len)];
        }
        11 => {
            let no = if b[o + 9] == 0 || src.bool() { src.range(1, len - 1) } else { g16(&b, o + 10) as u64 };
            let n = above(src, (len - no) / 2, 255.max((len - no) / 2)) as u8;
            p16(&mut b, o + 10, no as u16);
            b[o + 9] = n;
            what = format!("attribute {i} of length {len} with a name of {n} units at {no}");
            see = At::Name;
            want = vec![exp!(InvalidAttributeNameLength, expected = no + 2 * n as u64, actual = len)];
        }
        12 if w.resident => {
            let v = above(src, len, 0xFFFF);
            p16(&mut b, o + 20, v as u16);
            what = format!("attribute {i} of length {len} with its value at {v}");
            see = At::Value;
            want = vec![exp!(InvalidResidentAttributeValueOffset, expected = v, actual = len)];
        }
        12 => {
            let v = above(src, len, 0xFFFF);
            p16(&mut b, o + 32, v as u16);
            what = format!("attribute {i} at {o} of length {len} with its runs at {v}");
            see = At::Value;
            want = vec![exp!(InvalidNonResidentValueDataRange, range = format!("{}..{}", o as u64 + v, o as u64 + len), size = frs)];
        }
        13 if w.resident => {
            let vo = g16(&b, o + 20) as u64;
            let v = above(src, len - vo, 0xFFFF_FFFF);
            p32(&mut b, o + 16, v as u32);
            what = format!("attribute {i} of length {len} with a value of {v} bytes at {vo}");
            see = At::Value;
            want = vec![exp!(InvalidResidentAttributeValueLength, length = v, offset = vo, actual = len)];
        }
        13..=16 if !w.resident => {
            // A malformed run behind some good ones.
            let ro = o + g16(&b, o + 32) as usize;
            let room = o + len as usize - ro;
            let mut bytes = vec![];
            let mut prev = 0i64;
            let mut n = 0;
            let count = if src.bool() { 0 } else { src.below(4) };
            for _ in 0..count {
                if src.chance(25) {
                    pair(&mut bytes, 1 + src.below(100), None, 0, 0);
                } else {
                    let l = src.below(1 << 20) as i64;
                    pair(&mut bytes, 1 + src.below(100), Some(l - prev), 0, 0);
                    prev = l;
                }
                n += 1;
            }
            let c = vol.geo.cluster;
            let exps;
            match src.below(6) {
                0 => {
                    let k = 9 + src.below(7) as u8;
                    bytes.push(k | (src.below(9) as u8) << 4);
                    exps = vec![exp!(InvalidByteCountInDataRunHeader, expected = k, actual = 8)];
                }
                1 => {
                    let k = 9 + src.below(7) as u8;
                    bytes.extend([0x01 | k << 4, 1 + src.below(255) as u8]);
                    exps = vec![exp!(InvalidByteCountInDataRunHeader, expected = k, actual = 8)];
                }
                2 => {
                    let l = src.below(5) as usize;
                    bytes.push(0x10 | l as u8);
                    bytes.extend(vec![0; l]);
                    bytes.push(1);
                    exps = vec![exp!(InvalidClusterCountInDataRunHeader, cluster_count = 0)];
                }
                3 => {
                    let v = above(src, u64::MAX / c, u64::MAX);
                    bytes.push(0x08 | if src.bool() { 0x10 } else { 0 });
                    bytes.extend(v.to_le_bytes());
                    bytes.push(1);
                    exps = vec![exp!(InvalidClusterCountInDataRunHeader, cluster_count = v)];
                }
                4 => {
                    let v = -1 - prev - src.below(100) as i64;
                    pair(&mut bytes, 1 + src.below(100), Some(v), 0, 0);
                    exps = vec![exp!(InvalidVcnInDataRunHeader, vcn = v, previous_lcn = prev)];
                }
                _ => {
                    let lcn = above(src, u64::MAX / c, (i64::MAX as u64).max(u64::MAX / c));
                    if lcn > i64::MAX as u64 {
                        return Ok(());
                    }
                    pair(&mut bytes, 1 + src.below(100), Some(lcn as i64 - prev), 0, 0);
                    exps = vec![exp!(LcnTooBig, lcn = lcn)];
                }
            }
            if bytes.len() > room {
                return Ok(());
            }
            b[ro..ro + bytes.len()].copy_from_slice(&bytes);
            what = format!("attribute {i} with the runs {bytes:x?}");
            see = At::Runs(n);
            want = exps;
        }
        17 if w.ty == T_NAME && w.resident => {
            let vo = o + g16(&b, o + 20) as usize;
            let vl = g32(&b, o + 16) as u64;
            if src.bool() {
                let v = 4 + src.below(252) as u8;
                b[vo + 65] = v;
                what = format!("attribute {i} with namespace {v}");
                want = vec![exp!(UnsupportedFileNamespace, actual = v)];
            } else {
                let n = above(src, (vl - 66) / 2, 255.max((vl - 66) / 2));
                b[vo + 64] = n as u8;
                what = format!("attribute {i} of {vl} bytes with a name of {n} units");
                want = vec![
                    exp!(InvalidStructuredValueSize, ty = "FileName", expected = 66 + 2 * n, actual = vl),
                    exp!(InvalidStructuredValueSize, ty = "FileName", expected = vl, actual = 66 + 2 * n),
                ];
            }
            see = At::FileName;
        }
        _ => return Ok(()),
    }
    protect(&mut b, usa_off, usn);
    vol.mft.store(&mut vol.disk, rec * frs, &b);
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, rec).okay("file")?;
    let mut it = f.attributes_raw();
    for _ in 0..i {
        it.next().okay("attributes_raw")?;
    }
    let placed = |w: Vec<Exp>| -> Vec<Exp> {
        w.into_iter()
            .map(|mut e| {
                if ap != 0 && (e.0.starts_with("InvalidAttribute") || e.0.starts_with("InvalidResident") || e.0 == "UnsupportedAttributeType") {
                    e.1.push(("position", ap.to_string()));
                }
                e
            })
            .collect()
    };
    let want = placed(want);
    let Some(a) = it.next() else { fail!("no-attribute", "{what}: not enumerated") };
    if let At::Next = see {
        return says(ctx, &what, a.map(|_| ()), &want);
    }
    let a = a.okay("attributes_raw")?;
    match see {
        At::Type => says(ctx, &what, a.ty().map(|_| ()), &want),
        At::Name => says(ctx, &what, a.name().map(|_| ()), &want),
        At::Value => says(ctx, &what, a.value(&mut dev).map(|_| ()), &want),
        At::FileName => says(ctx, &what, a.structured_value::<_, NtfsFileName>(&mut dev).map(|_| ()), &want),
        At::Runs(0) => says(ctx, &what, a.value(&mut dev).map(|_| ()), &want),
        _ => {
            let At::Runs(n) = see else { unreachable!() };
            match a.value(&mut dev).okay("value")? {
                NtfsAttributeValue::NonResident(v) => {
                    let mut runs = v.data_runs();
                    for k in 0..n {
                        ck!(matches!(runs.next(), Some(Ok(_))), "good-run", "{what}: run {k} is refused");
                    }
                    match runs.next() {
                        Some(r) => says(ctx, &what, r.map(|_| ()), &want),
                        None => fail!("no-error", "{what}: the runs end"),
                    }
                }
                _ => fail!("value-kind", "{what}: not a non-resident value"),
            }
        }
    }
}

// ------------------------------------------------------------------ attribute lists

fn list(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, max_cluster: 65536, max_frs: 4096, ..Default::default() });
    vol.list_pad_pct = 20;
    let attrs = gen_attrs(src, &mut vol, &AttrsOpts { max_runs: 8, huge: false, max_named: 2, types: true });
    let file = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    if file.list == ListKind::None {
        return Ok(());
    }
    let frs = vol.geo.frs;
    let (rec, raws) = file.raw[0].clone();
    let k = raws.iter().position(|r| r.ty == T_LIST).unwrap();
    let at = raws[k].off;
    let mut rb = vol.rec_bytes(rec);
    let usa_off = g16(&rb, 4) as usize;
    let entries = &file.list_entries;
    let lens: Vec<u64> = entries.iter().map(|e| (align8(26 + 2 * e.name.len()) + file.list_pad) as u64).collect();
    let e = src.usize(0, entries.len() - 1);
    let start: u64 = lens[..e].iter().sum();
    let left = lens.iter().sum::<u64>() - start;
    let patch;
    let what;
    let want;
    let mut ty = false;
    match src.below(4) {
        0 => {
            let v = above(src, left, 0xFFFF);
            patch = (start + 4, (v as u16).to_le_bytes().to_vec());
            what = format!("list entry {e} of length {v}, {left} bytes left");
            want = vec![exp!(InvalidStructuredValueSize, ty = "AttributeList", expected = v, actual = left), exp!(InvalidStructuredValueSize, ty = "AttributeList", expected = left, actual = v)];
        }
        1 | 2 => {
            let fit = (lens[e] - 26) / 2;
            let n = above(src, fit, 255.max(fit));
            if n > 255 {
                return Ok(());
            }
            patch = (start + 6, vec![n as u8]);
            what = format!("list entry {e} of length {} with a name of {n} units", lens[e]);
            let (x, y) = (26 + 2 * n, lens[e]);
            want = vec![exp!(InvalidStructuredValueSize, ty = "AttributeList", expected = x, actual = y), exp!(InvalidStructuredValueSize, ty = "AttributeList", expected = y, actual = x)];
        }
        _ => {
            let v = src.u64() as u32;
            if v == 0 || ALL_TYPES.contains(&v) {
                return Ok(());
            }
            ty = true;
            patch = (start, v.to_le_bytes().to_vec());
            what = format!("list entry {e} of type {v:#x}");
            want = vec![exp!(UnsupportedAttributeType, actual = v)];
        }
    }
    match &file.list_stream {
        None => {
            let o = at + g16(&rb, at + 20) as usize + patch.0 as usize;
            rb[o..o + patch.1.len()].copy_from_slice(&patch.1);
        }
        Some(s) => s.store(&mut vol.disk, patch.0, &patch.1),
    }
    protect(&mut rb, usa_off, 5);
    vol.mft.store(&mut vol.disk, rec * frs, &rb);
    ctx.describe(|| format!("{}; file {} list {:?}: {what}", desc_geo(&vol.geo), file.rec, file.list));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, rec).okay("file")?;
    let a = f.attributes_raw().nth(k).okay("attributes_raw")?;
    let l = a.structured_value::<_, NtfsAttributeList>(&mut dev).okay("attribute list")?;
    let mut it = l.entries();
    for _ in 0..e {
        it.next(&mut dev).okay("list entry")?;
    }
    let Some(r) = it.next(&mut dev) else { fail!("no-error", "{what}: the list ends") };
    if ty {
        return says(ctx, &what, r.okay("list entry")?.ty().map(|_| ()), &want);
    }
    says(ctx, &what, r.map(|_| ()), &want)
}

/// An attribute list whose entry names something that is not there or cannot be part of a value.
fn list_target(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, max_cluster: 65536, max_frs: 4096, ..Default::default() });
    vol.list_pad_pct = 20;
    let attrs = gen_attrs(src, &mut vol, &AttrsOpts { max_runs: 8, huge: false, max_named: 2, types: true });
    let file = gen_file(src, &mut vol, attrs, 1);
    vol.finish(src);
    if file.list == ListKind::None {
        return Ok(());
    }
    let frs = vol.geo.frs;
    let entries = &file.list_entries;
    // Prefer the later parts of split values.
    let later: Vec<usize> = (0..entries.len()).filter(|e| entries[*e].lowest > 0).collect();
    let e = if !later.is_empty() && src.chance(70) { *src.pick(&later) } else { src.usize(0, entries.len() - 1) };
    let entry = &entries[e];
    let rec = entry.file_ref & 0xFFFF_FFFF_FFFF;
    let base = file.raw[0].0;
    let kind = src.below(4);
    let raws = &file.raw.iter().find(|r| r.0 == rec).unwrap().1;
    let target = raws.iter().find(|r| r.inst == entry.inst && r.ty == entry.ty).unwrap().clone();
    let mut b = vol.rec_bytes(rec);
    let usa_off = g16(&b, 4) as usize;
    let rp = vol.rec_pos(rec);
    let (what, want);
    match kind {
        0 => {
            let v = src.u64() as u16;
            if raws.iter().any(|r| r.inst == v && r.ty == entry.ty) {
                return Ok(());
            }
            p16(&mut b, target.off + 14, v);
            what = format!("list entry {e} names instance {} in record {rec}, which is numbered {v}", entry.inst);
            want = exp!(AttributeNotFound, position = rp, ty = type_name(entry.ty));
        }
        1 if rec != base => {
            let bad = *src.pick(&[*b"BAAD", *b"INDX", [0; 4], *b"FILF", *b"file"]);
            b[..4].copy_from_slice(&bad);
            what = format!("list entry {e} names record {rec}, which is signed {bad:02x?}");
            want = exp!(InvalidFileSignature, position = rp, actual = format!("{:?}", bad));
        }
        2 => {
            let n = vol.mft.data / frs;
            let v = above(src, n - 1, 0xFFFF_FFFF_FFFF);
            let start: usize = entries[..e].iter().map(|x| align8(26 + 2 * x.name.len()) + file.list_pad).sum::<usize>() + 16;
            let patch = &v.to_le_bytes()[..6];
            let (at, k) = (file.raw[0].1.iter().find(|r| r.ty == T_LIST).unwrap().off, start);
            match &file.list_stream {
                None => {
                    let mut rb = vol.rec_bytes(base);
                    let o = at + g16(&rb, at + 20) as usize + k;
                    rb[o..o + 6].copy_from_slice(patch);
                    if rec == base {
                        b = rb;
                    } else {
                        let u = g16(&rb, 4) as usize;
                        protect(&mut rb, u, 9);
                        vol.mft.store(&mut vol.disk, base * frs, &rb);
                    }
                }
                Some(s) => s.store(&mut vol.disk, k as u64, patch),
            }
            what = format!("list entry {e} names record {v} of {n}");
            want = exp!(InvalidFileRecordNumber, file_record_number = v);
        }
        3 if !target.resident && entry.lowest > 0 && vol.contiguous(rec) => {
            let o = target.off;
            b[o + 8] = 0;
            // A value within the attribute.
            let voff = 24 + align8(2 * target.name.len());
            if voff > target.size {
                return Ok(());
            }
            p16(&mut b, o + 10, if target.name.is_empty() { 0 } else { 24 });
            let len = src.below((target.size - voff) as u64 + 1);
            b[o + 16..o + 20].copy_from_slice(&(len as u32).to_le_bytes());
            p16(&mut b, o + 20, voff as u16);
            what = format!("list entry {e} names a resident attribute as a part of a value");
            want = exp!(UnexpectedResidentAttribute, position = rp + o as u64);
        }
        _ => return Ok(()),
    }
    protect(&mut b, usa_off, 5);
    vol.mft.store(&mut vol.disk, rec * frs, &b);
    ctx.describe(|| format!("{}; file {} list {:?}: {what}", desc_geo(&vol.geo), file.rec, file.list));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, base).okay("file")?;
    let k = file.raw[0].1.iter().position(|r| r.ty == T_LIST).unwrap();
    let a = f.attributes_raw().nth(k).okay("attributes_raw")?;
    let l = a.structured_value::<_, NtfsAttributeList>(&mut dev).okay("attribute list")?;
    let mut it = l.entries();
    for _ in 0..e {
        it.next(&mut dev).okay("list entry")?;
    }
    let en = it.next(&mut dev).okay("list entry")?;
    if kind != 3 {
        let r = match en.to_file(&ntfs, &mut dev) {
            Ok(t) => en.to_attribute(&t).map(|_| ()),
            Err(e) => Err(e),
        };
        says(ctx, &what, r, std::slice::from_ref(&want))?;
    }
    // A value of which this is a later part: right up to there, then the same error.
    let Some(x) = file.attrs.iter().find(|x| x.a.ty == entry.ty && x.a.name == entry.name) else { return Ok(()) };
    let Some(p) = x.pieces.iter().position(|p| p.rec == rec && p.inst == entry.inst) else { return Ok(()) };
    let Body::Non(s) = &x.a.body else { return Ok(()) };
    let before: u64 = s.runs[..x.pieces[p].runs.0].iter().map(|r| r.len * s.cluster).sum();
    if p == 0 || before >= s.data || before == 0 || (kind == 2 && rec == base) || (kind == 1 && x.pieces[..p].iter().any(|q| q.rec == rec)) {
        return Ok(());
    }
    let mut items = f.attributes();
    loop {
        let Some(i) = items.next(&mut dev) else { fail!("lost", "{what}: the value is not listed") };
        // Another split value may need the damaged record.
        let Ok(i) = i else { return Ok(()) };
        let Ok(a) = i.to_attribute() else { return Ok(()) };
        if a.ty().okay("type")? as u32 != x.a.ty || a.name().okay("name")?.to_string_lossy() != String::from_utf16_lossy(&x.a.name) {
            continue;
        }
        let mut v = a.value(&mut dev).okay("value")?;
        let start = before - src.size(1, before.min(9000));
        v.seek(&mut dev, SeekFrom::Start(start)).okay("seek before the part")?;
        let mut got = Vec::new();
        let mut buf = vec![0u8; src.size(1, 12_000) as usize];
        let e = loop {
            match v.read(&mut dev, &mut buf) {
                Ok(0) => fail!("no-error", "{what}: the value of {} bytes ends after {}", s.data, start + got.len() as u64),
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) => break e,
            }
            ck!(got.len() as u64 <= before - start, "beyond", "{what}: {} bytes read from {start}, only {} are mapped", got.len(), before - start);
        };
        ck!(got == x.a.body.content(&vol.disk, start, got.len() as u64), "bytes", "{what}: wrong bytes before the part");
        ctx.label("reading up to the damaged part");
        return says(ctx, &what, Err::<(), _>(e), &[want]);
    }
}

// ------------------------------------------------------------------ indexes

/// Keys as bytes.
#[derive(Clone, Debug)]
struct Raw;
#[derive(Debug)]
struct Bytes;
impl NtfsIndexEntryKey for Bytes {
    fn key_from_slice(_: &[u8], _: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Bytes)
    }
}
impl NtfsIndexEntryType for Raw {
    type KeyType = Bytes;
}

fn index(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 30, mft_runs: 2, upcase: true, big_mft: 3, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let small_irs = src.bool();
    let d = gen_dir(src, &mut vol, &DirOpts { max_entries: 40, max_name: 30, max_depth: 3, list_pct: 15, small_irs, ..Default::default() });
    vol.finish(src);
    ctx.describe(|| format!("{}; directory: {}", desc_geo(&vol.geo), desc_dir(&vol, &d)));
    let ix = &d.index;
    let irs = ix.irs;
    let rl = d.file.attrs.iter().find(|l| l.a.ty == T_IROOT).unwrap();
    let (root_rec, root_at) = (rl.pieces[0].rec, rl.pieces[0].off);
    let node = if src.chance(30) { 0 } else { src.usize(0, ix.nodes.len() - 1) };
    let (mut nb, offs) = ix.node_bytes(node);
    let head = if node == 0 { 16usize } else { 24 };
    let h = head as u64;
    let size = nb.len() as u64;
    let used = g32(&nb, head + 4) as u64;
    let end = head as u64 + used;
    let j = src.usize(0, offs.len() - 1);
    let at = offs[j];
    let len = g16(&nb, at + 8) as u64;
    let what: String;
    let want: Vec<Exp>;
    // 0: opening the node, 1: its entries, 2: a key, 3: traversal
    let mut see = 0;
    let mut ask = None;
    let mut torn = None;
    match src.below(13) {
        0 if node == 0 => {
            let v = above(src, size - h - 1, 0xFFFF_FFFF);
            p32(&mut nb, head, v as u32);
            what = format!("index root of {size} bytes with entries at 16 + {v}");
            want = vec![exp!(InvalidIndexRootEntriesOffset, expected = 16 + v, actual = size)];
        }
        0 => {
            let v = above(src, used, 0xFFFF_FFFF);
            p32(&mut nb, head, v as u32);
            what = format!("node {node} with entries at {v}, used size {used}");
            want = vec![exp!(InvalidIndexEntriesOffset, expected = v, actual = used)];
        }
        1 if node == 0 => {
            let v = above(src, size - h, 0xFFFF_FFFF);
            p32(&mut nb, head + 4, v as u32);
            what = format!("index root of {size} bytes with used size 16 + {v}");
            want = vec![exp!(InvalidIndexRootUsedSize, expected = 16 + v, actual = size)];
        }
        1 => {
            let al = src.range(used, irs - 24);
            let v = above(src, al, 0xFFFF_FFFF - 24);
            p32(&mut nb, head + 8, al as u32);
            p32(&mut nb, head + 4, v as u32);
            what = format!("node {node} with used size 24 + {v} of 24 + {al}");
            want = vec![exp!(InvalidIndexUsedSize, expected = 24 + v, actual = 24 + al)];
        }
        2 if node == 0 => {
            let first = g32(&nb, head) as u64;
            let v = src.below(first);
            p32(&mut nb, head + 4, v as u32);
            what = format!("index root with entries at 16 + {first} and used size 16 + {v}");
            want = vec![exp!(InvalidIndexRootEntriesOffset, expected = 16 + first, actual = 16 + v)];
        }
        2 => {
            let v = above(src, irs - 24, 0xFFFF_FFFF - 24);
            p32(&mut nb, head + 8, v as u32);
            what = format!("node {node} with allocated size 24 + {v} of {irs}");
            want = vec![exp!(InvalidIndexAllocatedSize, expected = 24 + v, actual = irs)];
        }
        3 if node > 0 => {
            let mut s = *b"INDX";
            s[src.usize(0, 3)] ^= 1 << src.below(8);
            nb[..4].copy_from_slice(&s);
            what = format!("node {node} with signature {s:?}");
            want = vec![exp!(InvalidIndexSignature, expected = format!("{:?}", b"INDX"), actual = format!("{s:?}"))];
        }
        4 if node > 0 => {
            let x = src.u64() as u16;
            let k = src.usize(0, covered(irs as usize) - 1);
            if x == 9 {
                return Ok(());
            }
            torn = Some((k, x));
            what = format!("node {node} with block {k} torn: {x:#x}");
            want = vec![exp!(UpdateSequenceNumberMismatch, expected = "[9, 0]", actual = format!("{:?}", x.to_le_bytes()))];
        }
        5 if node > 0 => {
            let own = g64(&nb, 16) as i64;
            let v = if src.bool() { own + 1 + src.below(5) as i64 } else { src.u64() as i64 };
            if v == own {
                return Ok(());
            }
            p64(&mut nb, 16, v as u64);
            what = format!("node {node} at VCN {own} says {v}");
            want = vec![exp!(VcnMismatchInIndexAllocation, expected = own, actual = v)];
        }
        6 if node > 0 => {
            // A VCN outside.
            let alloc = ix.total();
            let unit = ix.vcn_unit;
            let v = above(src, alloc.div_ceil(unit) - 1, i64::MAX as u64);
            let v = if (v as i128 * unit as i128) < i64::MAX as i128 || src.bool() { v } else { i64::MAX as u64 / unit };
            ask = Some((v as i64, irs as u32));
            what = format!("VCN {v} in an index allocation of {alloc} bytes");
            want = if v.checked_mul(unit).is_some_and(|x| x <= i64::MAX as u64) { vec![exp!(VcnOutOfBoundsInIndexAllocation, vcn = v)] } else { vec![exp!(VcnTooBig, vcn = v)] };
        }
        7 if node > 0 => {
            let n = if src.bool() { src.below(40) as u32 } else { above(src, 2 << 20, 0xFFFF_FFFF) as u32 };
            let vcn = ix.vcn(ix.nodes[node].slot) as i64;
            ask = Some((vcn, n));
            what = format!("index records of {n} bytes");
            // The record size also decides about the unit of the VCN, which may be outside then.
            want = vec![exp!(InvalidIndexRecordSize, min = 40, max = 2 << 20, actual = n), exp!(VcnOutOfBoundsInIndexAllocation, vcn = vcn)];
        }
        8 => {
            let left = end - at as u64;
            let v = above(src, left, 0xFFFF);
            p16(&mut nb, at + 8, v as u16);
            see = 1;
            what = format!("entry {j} of node {node} of length {v}, {left} bytes left");
            want = vec![exp!(InvalidIndexEntrySize, expected = v, actual = left)];
        }
        9 => {
            let v = src.below(16);
            p16(&mut nb, at + 8, v as u16);
            see = 1;
            what = format!("entry {j} of node {node} of length {v}");
            want = vec![exp!(InvalidIndexEntrySize, expected = v), exp!(InvalidIndexEntrySize, actual = v)];
        }
        10 if j + 1 < offs.len() => {
            let k = above(src, len - 16, 0xFFFF);
            p16(&mut nb, at + 10, k as u16);
            see = 2;
            what = format!("entry {j} of node {node} of length {len} with a key of {k} bytes");
            want = vec![exp!(InvalidIndexEntryDataRange, range = format!("16..{}", 16 + k), size = len)];
        }
        11 | 12 => {
            // Two entries with the same subnode.
            let with: Vec<(usize, usize)> = ix.nodes.iter().enumerate().flat_map(|(n, nd)| nd.children.iter().enumerate().filter(|(_, c)| c.is_some()).map(move |(j, _)| (n, j))).collect();
            if with.len() < 2 {
                return Ok(());
            }
            let x = src.usize(0, with.len() - 2);
            let (a, b) = (with[x], with[src.usize(x + 1, with.len() - 1)]);
            let va = ix.vcn(ix.nodes[ix.nodes[a.0].children[a.1].unwrap()].slot);
            let (bytes, of) = ix.node_bytes(b.0);
            nb = bytes;
            let e = of[b.1];
            let l = g16(&nb, e + 8) as usize;
            p64(&mut nb, e + l - 8, va);
            store_node(src, &mut vol, &d, b.0, &nb, root_rec, root_at);
            let mut dev = vol.disk.reader();
            let ntfs = open_up(&mut dev)?;
            let f = ntfs.file(&mut dev, d.file.rec).okay("file")?;
            let i = f.directory_index(&mut dev).okay("directory_index")?;
            let mut it = i.entries();
            let what = format!("entries {a:?} and {b:?} with the subnode {va}");
            let mut n = 0;
            let err = loop {
                match it.next(&mut dev) {
                    None => fail!("no-error", "{what}: the traversal ends"),
                    Some(Err(e)) => break e,
                    Some(Ok(_)) => n += 1,
                }
                ck!(n <= d.ents.len(), "endless", "{what}: more than {} entries", d.ents.len());
            };
            return says(ctx, &what, Err::<(), _>(err), &[exp!(VcnReferencedTwiceInIndex, vcn = va)]);
        }
        _ => return Ok(()),
    }
    if ask.is_none() {
        store_node(src, &mut vol, &d, node, &nb, root_rec, root_at);
        if let Some((k, x)) = torn {
            d.stream.as_ref().unwrap().store(&mut vol.disk, ix.offset(ix.nodes[node].slot) + k as u64 * 512 + 510, &x.to_le_bytes());
        }
    }
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let f = ntfs.file(&mut dev, d.file.rec).okay("file")?;
    let entries = |it: ntfs::NtfsIndexNodeEntries<Raw>, ctx: &mut Ctx| -> R {
        let mut it = it;
        for k in 0..j {
            ck!(matches!(it.next(), Some(Ok(_))), "good-entry", "{what}: entry {k} is refused");
        }
        match it.next() {
            None => fail!("no-error", "{what}: the entries end"),
            Some(r) if see == 1 => says(ctx, &what, r.map(|_| ()), &want),
            Some(r) => match r.okay("index entry")?.key() {
                Some(k) => says(ctx, &what, k.map(|_| ()), &want),
                None => fail!("no-error", "{what}: no key"),
            },
        }
    };
    if node == 0 {
        let item = find_item(&f, &mut dev, T_IROOT, &I30, 0)?;
        let a = item.to_attribute().okay("to_attribute")?;
        let r = a.resident_structured_value::<NtfsIndexRoot>();
        if see == 0 {
            return says(ctx, &what, r.map(|_| ()), &want);
        }
        return entries(r.okay("index root")?.entries::<Raw>().okay("entries")?, ctx);
    }
    let item = find_item(&f, &mut dev, T_IALLOC, &I30, 0)?;
    let a = item.to_attribute().okay("to_attribute")?;
    let alloc = a.structured_value::<_, NtfsIndexAllocation>(&mut dev).okay("index allocation")?;
    let (vcn, rs) = ask.unwrap_or((ix.vcn(ix.nodes[node].slot) as i64, irs as u32));
    let r = alloc.record_from_vcn(&mut dev, rs, Vcn::from(vcn));
    if see == 0 {
        return says(ctx, &what, r.map(|_| ()), &want);
    }
    let r = r.okay("record_from_vcn")?;
    let it = r.entries::<Raw>().okay("entries")?;
    entries(it, ctx)
}
fn store_node(src: &mut Src, vol: &mut Vol, d: &DirM, node: usize, nb: &[u8], root_rec: u64, root_at: usize) {
    let frs = vol.geo.frs;
    if node == 0 {
        let mut rb = vol.rec_bytes(root_rec);
        let vo = root_at + g16(&rb, root_at + 20) as usize;
        rb[vo..vo + nb.len()].copy_from_slice(nb);
        let u = g16(&rb, 4) as usize;
        protect(&mut rb, u, 1 + src.below(0xFFFF) as u16);
        vol.mft.store(&mut vol.disk, root_rec * frs, &rb);
    } else {
        let mut b = nb.to_vec();
        let u = g16(&b, 4) as usize;
        protect(&mut b, u, 9);
        d.stream.as_ref().unwrap().store(&mut vol.disk, d.index.offset(d.index.nodes[node].slot), &b);
    }
}

// ------------------------------------------------------------------ requests that cannot be met

fn requests(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 48, mft_runs: 2, upcase: false, big_mft: 3, ..Default::default() });
    let kind = src.below(8);
    let mut table = 131_072;
    if kind == 0 {
        table = match src.below(3) {
            0 => src.below(131_072),
            1 => 131_072 + 1 + src.below(100_000),
            _ => 131_072 ^ (1 << src.below(18)),
        };
    }
    let missing = kind == 0 && src.chance(10);
    if missing {
        let a = vec![vol.std_attr(src), gen_res(src, &vol, T_DATA, &utf16("x"))];
        vol.add_file(src, FileSpec { rec: 10, seq: 1, links: 1, flags: 1, attrs: a, list_pct: 0, list_non_pct: 0, stay_pct: 50 });
    } else {
        vol.add_upcase(src, Some(table));
    }
    let attrs = gen_attrs(src, &mut vol, &AttrsOpts { max_runs: 4, huge: false, max_named: 1, types: true });
    let flags = if kind == 2 { 3 } else { 1 };
    let m = gen_file(src, &mut vol, attrs, flags);
    let small_irs = src.bool();
    let d = gen_dir(src, &mut vol, &DirOpts { max_entries: 30, max_name: 30, max_depth: 2, list_pct: 15, small_irs, ..Default::default() });
    vol.finish(src);
    ctx.describe(|| format!("{}; file record {} list {:?}: {}; directory: {}", desc_geo(&vol.geo), m.rec, m.list, m.attrs.iter().map(desc_attr).collect::<Vec<_>>().join("; "), desc_dir(&vol, &d)));
    let mut dev = vol.disk.reader();
    let mut ntfs = open(&mut dev)?;
    if kind == 0 {
        let r = ntfs.read_upcase_table(&mut dev);
        if missing {
            return says(ctx, "no upper-case table", r, &[exp!(AttributeNotFound, position = vol.rec_pos(10), ty = "Data")]);
        }
        return says(ctx, &format!("upper-case table of {table} bytes"), r, &[exp!(InvalidUpcaseTableSize, expected = 131_072, actual = table)]);
    }
    let f: NtfsFile = ntfs.file(&mut dev, m.rec).okay("file")?;
    let rp = vol.rec_pos(m.rec);
    match kind {
        1 => {
            says(ctx, "directory index of a file", f.directory_index(&mut dev).map(|_| ()), &[exp!(NotADirectory, position = rp)])?;
            if let Some(info) = (!m.raw[0].1.iter().any(|r| r.ty == T_STD)).then(|| f.info()) {
                says(ctx, "no standard information", info.map(|_| ()), &[exp!(AttributeNotFound, position = rp, ty = "StandardInformation")])?;
            }
            Ok(())
        }
        2 => {
            if m.attrs.iter().any(|l| l.a.ty == T_IROOT) {
                return Ok(());
            }
            says(ctx, "directory without an index", f.directory_index(&mut dev).map(|_| ()), &[exp!(AttributeNotFound, position = rp, ty = "IndexRoot")])
        }
        3 => {
            let n = vol.mft.data / vol.geo.frs;
            let v = above(src, n - 1, u64::MAX);
            says(ctx, &format!("file {v} of {n}"), ntfs.file(&mut dev, v).map(|_| ()), &[exp!(InvalidFileRecordNumber, file_record_number = v)])
        }
        4 | 5 => {
            // Another type, another residency.
            let (rec, raws) = src.pick(&m.raw).clone();
            if raws.is_empty() {
                return Ok(());
            }
            let i = src.usize(0, raws.len() - 1);
            let w = &raws[i];
            let f = ntfs.file(&mut dev, rec).okay("file")?;
            let a = f.attributes_raw().nth(i).okay("attributes_raw")?;
            let ap = vol.rec_pos(rec) + w.off as u64;
            let ap = if vol.contiguous(rec) { ap } else { a.position().value().map(|x| x.get()).unwrap_or(0) };
            let what = format!("attribute {i} ({}) of record {rec}", type_name(w.ty));
            let res = src.bool();
            macro_rules! other {
                ($t:ident, $ty:expr) => {
                    if w.ty != $ty {
                        let r = if res { a.resident_structured_value::<$t>().map(|_| ()) } else { a.structured_value::<_, $t>(&mut dev).map(|_| ()) };
                        says(ctx, &what, r, &[exp!(AttributeOfDifferentType, position = ap, expected = type_name($ty), actual = type_name(w.ty))])?;
                    } else if !w.resident {
                        says(ctx, &what, a.resident_structured_value::<$t>().map(|_| ()), &[exp!(UnexpectedNonResidentAttribute, position = ap)])?;
                    }
                };
            }
            match src.below(6) {
                0 => other!(NtfsStandardInformation, T_STD),
                1 => {
                    if w.ty != T_NAME {
                        says(ctx, &what, a.structured_value::<_, NtfsFileName>(&mut dev).map(|_| ()), &[exp!(AttributeOfDifferentType, position = ap, expected = type_name(T_NAME), actual = type_name(w.ty))])?;
                    }
                }
                2 => other!(NtfsObjectId, T_OBJID),
                3 => other!(NtfsVolumeName, T_VOLNAME),
                4 => other!(NtfsVolumeInformation, T_VOLINFO),
                _ => other!(NtfsIndexRoot, T_IROOT),
            }
            if w.ty == T_IALLOC && w.resident {
                says(ctx, &what, a.structured_value::<_, NtfsIndexAllocation>(&mut dev).map(|_| ()), &[exp!(UnexpectedResidentAttribute)])?;
            }
            Ok(())
        }
        6 => {
            // A large index without its allocation, or given the wrong attributes.
            let f = ntfs.file(&mut dev, d.file.rec).okay("file")?;
            let root = find_item(&f, &mut dev, T_IROOT, &I30, 0)?;
            let any = f.attributes().next(&mut dev).okay("attributes")?;
            let ty = any.to_attribute().okay("to_attribute")?.ty().okay("ty")?;
            if src.bool() && ty as u32 != T_IALLOC {
                return says(ctx, "an index with another attribute as its allocation", NtfsIndex::<NtfsFileNameIndex>::new(root, Some(any)).map(|_| ()), &[exp!(AttributeOfDifferentType, expected = "IndexAllocation", actual = format!("{ty:?}"))]);
            }
            if ty as u32 != T_IROOT && src.bool() {
                return says(ctx, "an index with another attribute as its root", NtfsIndex::<NtfsFileNameIndex>::new(any, None).map(|_| ()), &[exp!(AttributeOfDifferentType, expected = "IndexRoot", actual = format!("{ty:?}"))]);
            }
            if d.index.large {
                return says(ctx, "a large index without allocation", NtfsIndex::<NtfsFileNameIndex>::new(root, None).map(|_| ()), &[exp!(MissingIndexAllocation)]);
            }
            Ok(())
        }
        _ => {
            // A time before NTFS times begin, or behind their end.
            let early = src.bool();
            let d = time::Duration::nanoseconds(src.range(1, 1 << 50) as i64);
            let base = time::macros::datetime!(1601-01-01 0:00 UTC);
            let t = if early { base - d } else { time::macros::datetime!(+60056-05-28 5:36:10.955_161_5 UTC) + time::Duration::nanoseconds(100) + d };
            says(ctx, &format!("time {t}"), NtfsTime::try_from(t).map(|_| ()), &[exp!(InvalidTime)])
        }
    }
}

/// A reader that fails once: reported as its failure, not as damage of the volume.
fn reader(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, false);
    let disk = &w.vol.disk;
    ctx.describe(|| w.describe());
    let mut dev = disk.reader();
    let mut ntfs = open(&mut dev)?;
    if w.up {
        ntfs.read_upcase_table(&mut dev).okay("read_upcase_table")?;
    }
    for _ in 0..src.range(1, 5) {
        let q = gen_q(src, &w);
        let c0 = dev.fault_idx;
        let truth = run(&q, &ntfs, &mut dev, false);
        let calls = (dev.fault_idx - c0) as u64;
        if truth.err.is_some() || calls == 0 {
            continue;
        }
        let mut d2 = Dev::new(disk);
        d2.seek_faults = src.bool();
        let eof = src.chance(30);
        d2.faults = vec![Fault::None; src.below(calls) as usize];
        d2.faults.push(if eof { Fault::Eof } else { Fault::Error });
        let got = run(&q, &ntfs, &mut d2, false);
        let what = format!("{q:?} with {} at call {} of {calls}", if eof { "an early end" } else { "an error" }, d2.faults.len() - 1);
        if d2.faults_hit == 0 {
            continue;
        }
        if let Some(e) = &got.err {
            ctx.describe(|| what.clone());
            let there = if eof { e.contains("UnexpectedEof") } else { e.contains(FAULT_MSG) };
            ck!(there, "io", "{what}: reported as {e}");
            ctx.label(if eof { "Io (early end)" } else { "Io" });
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

/// An Attribute List which is itself connected from pieces.
fn nested(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 60, mft_runs: 2, max_cluster: 65536, max_frs: 8192, ..Default::default() });
    let name = gen_name(src, 1, 8);
    let mut attrs = vec![vol.std_attr(src)];
    attrs.push(gen_non(src, &mut vol, T_LIST, &name, 8, false));
    let rec = vol.new_rec(src);
    let f = vol.add_file(src, FileSpec { rec, seq: 1, links: 1, flags: 1, attrs, list_pct: 100, list_non_pct: 40, stay_pct: 20 });
    vol.finish(src);
    let a = f.attrs[1].clone();
    ctx.describe(|| format!("{}; {}", desc_geo(&vol.geo), desc_attr(&a)));
    let mut dev = vol.disk.reader();
    let ntfs = open(&mut dev)?;
    let file = ntfs.file(&mut dev, f.rec).okay("Ntfs::file")?;
    if a.pieces.len() < 2 || a.pieces.iter().any(|p| p.rec == f.rec) {
        return Ok(());
    }
    let item = find_item(&file, &mut dev, T_LIST, &name, 0)?;
    let attr = item.to_attribute().okay("to_attribute")?;
    says(ctx, "an Attribute List from several pieces", attr.structured_value::<_, NtfsAttributeList>(&mut dev).map(|_| ()), &[exp!(UnexpectedAttributeListAttribute)])
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    match src.weighted(&[3, 9, 2, 5, 9, 3, 3, 1]) {
        6 => reader(src, ctx),
        7 => nested(src, ctx),
        0 => boot(src, ctx),
        1 => file_damage(src, ctx),
        2 => structured(src, ctx),
        3 => {
            if src.chance(50) {
                list_target(src, ctx)
            } else {
                list(src, ctx)
            }
        }
        4 => index(src, ctx),
        _ => requests(src, ctx),
    }
}
