//! Thin helpers over the crate under test.

use crate::disk::{Dev, Disk};
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use nt_string::u16strle::U16StrLe;
use ntfs::{Ntfs, NtfsAttributeItem, NtfsError, NtfsFile, NtfsReadSeek};
use std::io::{Read, Seek, SeekFrom};

pub trait Okay<T> {
    fn okay(self, what: &str) -> Result<T, Fail>;
}
impl<T> Okay<T> for Result<T, NtfsError> {
    fn okay(self, what: &str) -> Result<T, Fail> {
        self.map_err(|e| Fail { sig: format!("error:{what}"), msg: format!("{what}: unexpected error: {e}") })
    }
}
impl<T> Okay<T> for Option<Result<T, NtfsError>> {
    fn okay(self, what: &str) -> Result<T, Fail> {
        match self {
            Some(r) => r.okay(what),
            None => Err(Fail { sig: format!("none:{what}"), msg: format!("{what}: unexpectedly absent") }),
        }
    }
}
impl<T> Okay<T> for std::io::Result<T> {
    fn okay(self, what: &str) -> Result<T, Fail> {
        self.map_err(|e| Fail { sig: format!("error:{what}"), msg: format!("{what}: unexpected I/O error: {e}") })
    }
}
pub fn units(s: &U16StrLe) -> Vec<u16> {
    s.0.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}
pub fn show(n: &[u16]) -> String {
    format!("{:?}", String::from_utf16_lossy(n))
}
pub fn open(dev: &mut Dev) -> Result<Ntfs, Fail> {
    Ntfs::new(dev).okay("Ntfs::new")
}
pub fn open_up(dev: &mut Dev) -> Result<Ntfs, Fail> {
    let mut n = open(dev)?;
    n.read_upcase_table(dev).okay("read_upcase_table")?;
    Ok(n)
}
/// Every named flag is reported exactly if the bit it stands for is stored.
#[macro_export]
macro_rules! named_flags {
    ($what:expr, $got:expr, $raw:expr, $ty:ident: $($name:ident = $bit:expr),+ $(,)?) => {{
        let (got, raw) = ($got, $raw);
        $(ck!(got.contains(ntfs::$ty::$name) == (raw & $bit != 0), "named-flag", "{}: {} is {} for the stored flags {raw:#x}", $what, stringify!($name), got.contains(ntfs::$ty::$name));)+
    }};
}
#[macro_export]
macro_rules! named_flags_sv {
    ($what:expr, $got:expr, $raw:expr, $ty:ident: $($name:ident = $bit:expr),+ $(,)?) => {{
        let (got, raw) = ($got, $raw);
        $(ck!(got.contains(ntfs::structured_values::$ty::$name) == (raw & $bit != 0), "named-flag", "{}: {} is {} for the stored flags {raw:#x}", $what, stringify!($name), got.contains(ntfs::structured_values::$ty::$name));)+
    }};
}
pub fn file_attr_flags(what: &str, got: ntfs::structured_values::NtfsFileAttributeFlags, raw: u32) -> R {
    named_flags_sv!(what, got, raw, NtfsFileAttributeFlags: READ_ONLY = 0x1, HIDDEN = 0x2, SYSTEM = 0x4, ARCHIVE = 0x20, DEVICE = 0x40, NORMAL = 0x80, TEMPORARY = 0x100, SPARSE_FILE = 0x200, REPARSE_POINT = 0x400, COMPRESSED = 0x800, OFFLINE = 0x1000, NOT_CONTENT_INDEXED = 0x2000, ENCRYPTED = 0x4000, IS_DIRECTORY = 0x1000_0000);
    Ok(())
}
/// The number of a named attribute type.
pub fn type_no(t: ntfs::NtfsAttributeType) -> u32 {
    use ntfs::NtfsAttributeType as T;
    match t {
        T::StandardInformation => 0x10,
        T::AttributeList => 0x20,
        T::FileName => 0x30,
        T::ObjectId => 0x40,
        T::SecurityDescriptor => 0x50,
        T::VolumeName => 0x60,
        T::VolumeInformation => 0x70,
        T::Data => 0x80,
        T::IndexRoot => 0x90,
        T::IndexAllocation => 0xA0,
        T::Bitmap => 0xB0,
        T::ReparsePoint => 0xC0,
        T::EAInformation => 0xD0,
        T::EA => 0xE0,
        T::PropertySet => 0xF0,
        T::LoggedUtilityStream => 0x100,
        other => other as u32,
    }
}
pub fn attr_flags(what: &str, got: ntfs::NtfsAttributeFlags, raw: u16) -> R {
    named_flags!(what, got, raw, NtfsAttributeFlags: COMPRESSED = 0x1, ENCRYPTED = 0x4000, SPARSE = 0x8000);
    Ok(())
}
/// The n-th flattened attribute with this type and name.
pub fn find_item<'n, 'f>(file: &'f NtfsFile<'n>, dev: &mut Dev, ty: u32, name: &[u16], nth: usize) -> Result<NtfsAttributeItem<'n, 'f>, Fail> {
    let mut it = file.attributes();
    let mut k = 0;
    let mut guard = 0;
    while let Some(item) = it.next(dev) {
        let item = item.okay("attributes().next")?;
        guard += 1;
        ck!(guard < 20_000, "endless-attributes", "attribute enumeration does not end");
        let a = item.to_attribute().okay("to_attribute")?;
        if a.ty().map(|t| t as u32) == Ok_(ty) && units(&a.name().okay("attribute name")?) == name {
            if k == nth {
                return Ok(item);
            }
            k += 1;
        }
    }
    fail!("attribute-missing", "attribute type {ty:#x} name {} (#{nth}) of record {} is not enumerated", show(name), file.file_record_number())
}
#[allow(non_snake_case)]
struct Ok_(u32);
impl PartialEq<Ok_> for Result<u32, NtfsError> {
    fn eq(&self, o: &Ok_) -> bool {
        matches!(self, Ok(v) if *v == o.0)
    }
}

pub fn diff_at(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().take(16).map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}
pub fn cmp_bytes(sig: &str, what: &str, off: u64, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let d = diff_at(got, want);
    fail!(
        sig,
        "{what}: {} bytes at offset {off}, expected {}; first difference at offset {} (got {} expected {})",
        got.len(),
        want.len(),
        off + d as u64,
        hex(&got[d.min(got.len())..]),
        hex(&want[d.min(want.len())..])
    )
}

/// Reads with NtfsReadSeek until it returns nothing or `max` bytes came.
pub fn read_to_end<V: NtfsReadSeek>(v: &mut V, dev: &mut Dev, max: u64, mut chunk: impl FnMut() -> usize) -> Result<Vec<u8>, Fail> {
    let mut out = vec![];
    loop {
        let n = chunk().max(1);
        let at = out.len();
        out.resize(at + n, 0xCC);
        let got = v.read(dev, &mut out[at..]).okay("read")?;
        ck!(got <= n, "read-count", "read returned {got} for a buffer of {n}");
        out.truncate(at + got);
        if got == 0 {
            return Ok(out);
        }
        ck!(out.len() as u64 <= max, "read-too-long", "read delivered more than {max} bytes");
    }
}
pub struct Att<'a, 'd, V>(pub &'a mut V, pub &'a mut Dev<'d>);
impl<V: NtfsReadSeek> Read for Att<'_, '_, V> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(self.1, b).map_err(Into::into)
    }
}
impl<V: NtfsReadSeek> Seek for Att<'_, '_, V> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(self.1, p).map_err(Into::into)
    }
}

/// Offsets where something changes: run boundaries, initialized size, data size.
pub fn landmarks(b: &Body) -> Vec<u64> {
    let mut v = vec![0, b.len()];
    if let Body::Non(s) = b {
        v.push(s.init);
        for k in 0..=s.runs.len() {
            v.push(s.clusters_before(k).saturating_mul(s.cluster));
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Compares a whole value (or many windows of a huge one) with the model.
pub fn verify_value<V: NtfsReadSeek>(src: &mut Src, v: &mut V, dev: &mut Dev, disk: &Disk, body: &Body, what: &str, full_max: u64) -> R {
    let len = body.len();
    if len <= full_max {
        let mode = src.below(4);
        let fixed = src.size(1, 70_000) as usize;
        let mut small = 0;
        let got = read_to_end(v, dev, len, || match mode {
            0 => 1 << 20,
            1 => fixed,
            2 => {
                small += 1;
                if small < 200 { src.size(1, 5000) as usize } else { 1 << 16 }
            }
            _ => {
                small += 1;
                if small < 60 { 1 + src.below(3) as usize } else { 40_000 }
            }
        })?;
        let want = body.content(disk, 0, len);
        cmp_bytes("content", what, 0, &got, &want)?;
        ck!(v.stream_position() == len, "end-position", "{what}: position {} after reading {len} bytes", v.stream_position());
        return Ok(());
    }
    let marks = landmarks(body);
    for _ in 0..6 {
        let m = *src.pick(&marks);
        let off = m.saturating_sub(src.size(0, 4000)).saturating_add(src.below(3));
        let n = src.size(1, 9000);
        let p = v.seek(dev, SeekFrom::Start(off)).okay("seek")?;
        ck!(p == off, "seek-result", "{what}: seek to {off} reports {p}");
        let mut buf = vec![0xCCu8; n as usize];
        let mut k = 0usize;
        while k < buf.len() {
            let g = v.read(dev, &mut buf[k..]).okay("read")?;
            ck!(g <= buf.len() - k, "read-count", "read returned too much");
            if g == 0 {
                break;
            }
            k += g;
        }
        let want = body.content(disk, off, n);
        cmp_bytes("content", what, off, &buf[..k], &want)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ shared generators

pub fn max_res(vol: &Vol, name: usize) -> u64 {
    (vol.cap() as u64).saturating_sub(8 + 24 + 2 * name as u64 + 16 + 8)
}
pub fn junk(src: &mut Src, n: usize) -> Vec<u8> {
    let s = src.u64();
    (0..n).map(|i| if s == 0 { 0 } else { mix(s ^ i as u64) as u8 }).collect()
}
pub fn gen_res(src: &mut Src, vol: &Vol, ty: u32, name: &[u16]) -> Attr {
    let m = max_res(vol, name.len());
    let n = match src.weighted(&[6, 1, 1]) {
        0 => src.size(0, m.min(300)),
        1 => src.size(0, m),
        _ => m - src.below(9).min(m),
    };
    let v = junk(src, n as usize);
    let mut a = Attr::res(ty, name, v);
    deco(src, vol, &mut a);
    a
}
/// Unusual but valid placement inside the attribute.
pub fn deco(src: &mut Src, vol: &Vol, a: &mut Attr) {
    if vol.cap() > 700 && src.chance(10) {
        a.gap = 8 * src.below(3) as usize;
        a.tail = 8 * src.below(3) as usize;
    }
    if src.chance(15) {
        a.flags = *src.pick(&[0u16, 0x8000, 0x4000, 1, 0xC001]);
    }
}
pub struct AttrsOpts {
    pub max_runs: u64,
    pub huge: bool,
    pub max_named: u64,
    pub types: bool,
}
impl Default for AttrsOpts {
    fn default() -> Self {
        AttrsOpts { max_runs: 24, huge: true, max_named: 3, types: true }
    }
}
pub fn gen_non(src: &mut Src, vol: &mut Vol, ty: u32, name: &[u16], max_runs: u64, huge: bool) -> Attr {
    let c = vol.cluster();
    let s = gen_stream(src, &mut vol.al, c, max_runs, huge);
    let mut a = Attr::non(ty, name, s);
    if src.chance(40) {
        vol.gen_cuts(src, &mut a);
    }
    deco(src, vol, &mut a);
    a
}
/// A generated set of attributes of a file: unique (type, name) except for file names.
pub fn gen_attrs(src: &mut Src, vol: &mut Vol, o: &AttrsOpts) -> Vec<Attr> {
    let mut v = vec![];
    if src.chance(90) {
        v.push(vol.std_attr(src));
    }
    let nn = src.below(4);
    for _ in 0..nn {
        let nm = gen_name(src, 1, 60.min(max_res(vol, 0) as usize / 2 - 40));
        let ns = src.below(4) as u8;
        let f = gen_fn(src, nm, ns);
        v.push(Attr::res(T_NAME, &[], file_name(&f)));
    }
    if o.types {
        for ty in [T_OBJID, T_SEC, T_VOLNAME, T_BITMAP, T_REPARSE, T_EAINFO, T_EA, T_PROPSET, T_LOGGED, T_IROOT, T_IALLOC] {
            if src.chance(9) {
                let name = if src.chance(40) { gen_name(src, 0, 12) } else { vec![] };
                v.push(if src.chance(30) && ty != T_OBJID { gen_non(src, vol, ty, &name, 6, false) } else { gen_res(src, vol, ty, &name) });
            }
        }
    }
    if src.chance(80) {
        v.push(if src.chance(75) { gen_non(src, vol, T_DATA, &[], o.max_runs, o.huge) } else { gen_res(src, vol, T_DATA, &[]) });
    }
    let k = src.below(o.max_named + 1);
    let mut names: Vec<Vec<u16>> = vec![];
    for _ in 0..k {
        let max = if src.chance(10) { 255 } else { 20 };
        let nm = gen_name(src, 1, max);
        if names.contains(&nm) {
            continue;
        }
        names.push(nm.clone());
        v.push(if src.chance(60) { gen_non(src, vol, T_DATA, &nm, o.max_runs, o.huge) } else { gen_res(src, vol, T_DATA, &nm) });
    }
    v
}
pub fn gen_file(src: &mut Src, vol: &mut Vol, attrs: Vec<Attr>, flags: u16) -> FileM {
    let rec = vol.new_rec(src);
    let list_pct = *src.pick(&[0u64, 30, 100]);
    let spec = FileSpec { rec, seq: 1 + src.below(0xFFFF) as u16, links: src.below(4) as u16, flags, attrs, list_pct, list_non_pct: 40, stay_pct: *src.pick(&[50u64, 20, 90]) };
    vol.add_file(src, spec)
}
pub fn body_label(ctx: &mut Ctx, l: &LAttr) {
    match &l.a.body {
        Body::Res(v) => ctx.label(if v.is_empty() { "resident empty" } else { "resident" }),
        Body::Non(s) => {
            ctx.label_if(s.runs.is_empty(), "no runs");
            ctx.label_if(s.runs.len() > 1, "several runs");
            ctx.label_if(s.runs.len() > 12, "many runs");
            ctx.label_if(s.runs.iter().any(|r| r.lcn.is_none()), "sparse run");
            ctx.label_if(s.runs.iter().any(|r| r.lcn == Some(0)), "run at cluster 0");
            ctx.label_if(s.init < s.data, "initialized < data size");
            ctx.label_if(l.pieces.len() > 1, "split over records");
            ctx.label_if(l.pieces.iter().any(|p| p.runs.0 == p.runs.1 && p.runs.0 > 0), "a part without runs");
            ctx.label_if(s.data > 1 << 32, "longer than 4 GiB");
            ctx.label_if(s.runs.windows(2).any(|w| matches!((w[0].lcn, w[1].lcn), (Some(a), Some(b)) if b < a)), "backward run");
        }
    }
}
pub fn desc_attr(a: &LAttr) -> String {
    let b = match &a.a.body {
        Body::Res(v) => format!("resident {} B", v.len()),
        Body::Non(s) => format!(
            "data {} init {} runs {:?}{}",
            s.data,
            s.init,
            s.runs.iter().take(8).map(|r| (r.lcn.map(|x| x as i64).unwrap_or(-1), r.len)).collect::<Vec<_>>(),
            if s.runs.len() > 8 { "…" } else { "" }
        ),
    };
    format!("{:#x}:{} {} pieces {:?}", a.a.ty, show(&a.a.name), b, a.pieces.iter().map(|p| (p.rec, p.runs.0, p.runs.1)).collect::<Vec<_>>())
}
pub fn desc_geo(g: &Geo) -> String {
    format!("sector {} cluster {} record {}", g.sector, g.cluster, g.frs)
}
