//! Encoders for the NTFS on-disk structures, written from the format documentation
//! (independent of the crate under test).

pub fn p16(v: &mut [u8], o: usize, x: u16) {
    v[o..o + 2].copy_from_slice(&x.to_le_bytes());
}
pub fn p32(v: &mut [u8], o: usize, x: u32) {
    v[o..o + 4].copy_from_slice(&x.to_le_bytes());
}
pub fn p64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_le_bytes());
}
pub fn g16(v: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([v[o], v[o + 1]])
}
pub fn g32(v: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(v[o..o + 4].try_into().unwrap())
}
pub fn g64(v: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(v[o..o + 8].try_into().unwrap())
}
pub fn align8(n: usize) -> usize {
    (n + 7) & !7
}
pub fn u16s(n: &[u16]) -> Vec<u8> {
    n.iter().flat_map(|c| c.to_le_bytes()).collect()
}
pub fn utf16(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

pub const T_STD: u32 = 0x10;
pub const T_LIST: u32 = 0x20;
pub const T_NAME: u32 = 0x30;
pub const T_OBJID: u32 = 0x40;
pub const T_SEC: u32 = 0x50;
pub const T_VOLNAME: u32 = 0x60;
pub const T_VOLINFO: u32 = 0x70;
pub const T_DATA: u32 = 0x80;
pub const T_IROOT: u32 = 0x90;
pub const T_IALLOC: u32 = 0xA0;
pub const T_BITMAP: u32 = 0xB0;
pub const T_REPARSE: u32 = 0xC0;
pub const T_EAINFO: u32 = 0xD0;
pub const T_EA: u32 = 0xE0;
pub const T_PROPSET: u32 = 0xF0;
pub const T_LOGGED: u32 = 0x100;
pub const T_END: u32 = 0xFFFF_FFFF;

pub const ALL_TYPES: [u32; 16] = [
    T_STD, T_LIST, T_NAME, T_OBJID, T_SEC, T_VOLNAME, T_VOLINFO, T_DATA, T_IROOT, T_IALLOC, T_BITMAP, T_REPARSE,
    T_EAINFO, T_EA, T_PROPSET, T_LOGGED,
];

#[derive(Clone, Debug)]
pub struct Boot {
    pub sector_size: u16,
    pub spc: u8,
    pub total_sectors: u64,
    pub mft_lcn: u64,
    pub mirr_lcn: u64,
    pub frs: i8,
    pub irs: i8,
    pub serial: u64,
    pub sig: [u8; 2],
}
impl Boot {
    pub fn encode(&self, junk: u64) -> Vec<u8> {
        let mut b = vec![0u8; 512];
        for (i, x) in b.iter_mut().enumerate() {
            *x = crate::engine::mix(junk ^ i as u64) as u8; // boot code and ignored fields: anything
        }
        b[0..3].copy_from_slice(&[0xEB, 0x52, 0x90]);
        b[3..11].copy_from_slice(b"NTFS    ");
        p16(&mut b, 11, self.sector_size);
        b[13] = self.spc;
        b[14..21].fill(0);
        b[21] = 0xF8;
        b[22..24].fill(0);
        p32(&mut b, 32, 0);
        p64(&mut b, 40, self.total_sectors);
        p64(&mut b, 48, self.mft_lcn);
        p64(&mut b, 56, self.mirr_lcn);
        b[64] = self.frs as u8;
        b[65..68].fill(0);
        b[68] = self.irs as u8;
        b[69..72].fill(0);
        p64(&mut b, 72, self.serial);
        b[510..512].copy_from_slice(&self.sig);
        b
    }
}

/// How many 512-byte blocks of a record of `size` bytes its update sequence array covers: all,
/// unless the array would then reach the end of the first block, which it covers itself.
pub fn covered(size: usize) -> usize {
    (size / 512).min(220)
}
/// Applies update sequence protection: saves the last two bytes of each covered block in the array.
pub fn protect(rec: &mut [u8], usa_off: usize, usn: u16) {
    let blocks = covered(rec.len());
    p16(rec, 4, usa_off as u16);
    p16(rec, 6, (blocks + 1) as u16);
    p16(rec, usa_off, usn);
    for i in 0..blocks {
        let e = i * 512 + 510;
        let (a, b) = (rec[e], rec[e + 1]);
        rec[usa_off + 2 + 2 * i] = a;
        rec[usa_off + 3 + 2 * i] = b;
        rec[e..e + 2].copy_from_slice(&usn.to_le_bytes());
    }
}
pub fn usa_len(rec_size: usize) -> usize {
    2 * (covered(rec_size) + 1)
}

#[derive(Clone, Debug)]
pub struct RecHdr {
    pub usa_off: usize,
    pub usn: u16,
    pub lsn: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub base_ref: u64,
    pub next_inst: u16,
    pub recno: u32,
    /// Offset of the first attribute.
    pub attrs_off: usize,
}
/// A file record from already encoded attributes. Returns None if it does not fit.
pub fn file_record(h: &RecHdr, size: usize, attrs: &[Vec<u8>], slack: u64) -> Option<Vec<u8>> {
    let used: usize = h.attrs_off + attrs.iter().map(|a| a.len()).sum::<usize>() + 8;
    if used > size {
        return None;
    }
    let mut v = vec![0u8; size];
    // Whatever was in the record before: bytes past the end marker mean nothing.
    if slack != 0 {
        for (i, x) in v.iter_mut().enumerate().skip(used) {
            *x = crate::engine::mix(slack ^ i as u64) as u8;
        }
    }
    v[0..4].copy_from_slice(b"FILE");
    p64(&mut v, 8, h.lsn);
    p16(&mut v, 16, h.seq);
    p16(&mut v, 18, h.links);
    p16(&mut v, 20, h.attrs_off as u16);
    p16(&mut v, 22, h.flags);
    p32(&mut v, 24, used as u32);
    p32(&mut v, 28, size as u32);
    p64(&mut v, 32, h.base_ref);
    p16(&mut v, 40, h.next_inst);
    if h.usa_off >= 48 {
        p32(&mut v, 44, h.recno);
    }
    let mut o = h.attrs_off;
    for a in attrs {
        v[o..o + a.len()].copy_from_slice(a);
        o += a.len();
    }
    p32(&mut v, o, T_END);
    Some(v)
}
/// Smallest first-attribute offset for a record with its update sequence array at `usa_off`.
pub fn first_attr_off(usa_off: usize, rec_size: usize) -> usize {
    align8(usa_off + usa_len(rec_size))
}

#[derive(Clone, Debug, Default)]
pub struct AttrHdr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub inst: u16,
    /// Extra gap (multiple of 8) between header parts.
    pub gap: usize,
    /// Extra bytes (multiple of 8) after the value.
    pub tail: usize,
}
pub fn attr_resident(h: &AttrHdr, value: &[u8], indexed: u8) -> Vec<u8> {
    let name_off = 24 + h.gap;
    let val_off = align8(name_off + 2 * h.name.len());
    let len = align8(val_off + value.len()) + h.tail;
    let mut v = vec![0u8; len];
    p32(&mut v, 0, h.ty);
    p32(&mut v, 4, len as u32);
    v[8] = 0;
    v[9] = h.name.len() as u8;
    p16(&mut v, 10, name_off as u16);
    p16(&mut v, 12, h.flags);
    p16(&mut v, 14, h.inst);
    p32(&mut v, 16, value.len() as u32);
    p16(&mut v, 20, val_off as u16);
    v[22] = indexed;
    v[name_off..name_off + 2 * h.name.len()].copy_from_slice(&u16s(&h.name));
    v[val_off..val_off + value.len()].copy_from_slice(value);
    v
}
#[derive(Clone, Debug, Default)]
pub struct NonRes {
    pub lowest: u64,
    pub highest: i64,
    pub comp_unit: u8,
    pub alloc: u64,
    pub data: u64,
    pub init: u64,
    /// Some(total allocated) adds the extra header field of sparse/compressed attributes.
    pub total: Option<u64>,
}
pub fn attr_nonres(h: &AttrHdr, n: &NonRes, pairs: &[u8]) -> Vec<u8> {
    let hdr = if n.total.is_some() { 72 } else { 64 };
    let name_off = hdr + h.gap;
    let runs_off = align8(name_off + 2 * h.name.len());
    let len = align8(runs_off + pairs.len()) + h.tail;
    let mut v = vec![0u8; len];
    p32(&mut v, 0, h.ty);
    p32(&mut v, 4, len as u32);
    v[8] = 1;
    v[9] = h.name.len() as u8;
    p16(&mut v, 10, name_off as u16);
    p16(&mut v, 12, h.flags);
    p16(&mut v, 14, h.inst);
    p64(&mut v, 16, n.lowest);
    p64(&mut v, 24, n.highest as u64);
    p16(&mut v, 32, runs_off as u16);
    v[34] = n.comp_unit;
    p64(&mut v, 40, n.alloc);
    p64(&mut v, 48, n.data);
    p64(&mut v, 56, n.init);
    if let Some(t) = n.total {
        p64(&mut v, 64, t);
    }
    v[name_off..name_off + 2 * h.name.len()].copy_from_slice(&u16s(&h.name));
    v[runs_off..runs_off + pairs.len()].copy_from_slice(pairs);
    v
}

/// Bytes needed for an unsigned run length that readers may interpret as signed.
pub fn ubytes(x: u64) -> usize {
    let mut n = 1;
    while n < 8 && (x >> (8 * n - 1)) != 0 {
        n += 1;
    }
    n
}
pub fn ibytes(x: i64) -> usize {
    let mut n = 1;
    while n < 8 {
        let s = 64 - 8 * n as u32;
        if (x << s) >> s == x {
            break;
        }
        n += 1;
    }
    n
}
/// One mapping pair. `lcn_delta` None: sparse. `wl`/`wo`: widths, at least the minimum.
pub fn pair(out: &mut Vec<u8>, len: u64, lcn_delta: Option<i64>, extra_l: usize, extra_o: usize) {
    let wl = (ubytes(len) + extra_l).min(8);
    match lcn_delta {
        None => {
            out.push(wl as u8);
            out.extend_from_slice(&len.to_le_bytes()[..wl]);
        }
        Some(d) => {
            let wo = (ibytes(d) + extra_o).min(8);
            out.push((wo as u8) << 4 | wl as u8);
            out.extend_from_slice(&len.to_le_bytes()[..wl]);
            out.extend_from_slice(&d.to_le_bytes()[..wo]);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ListEntry {
    pub ty: u32,
    pub name: Vec<u16>,
    pub lowest: u64,
    pub file_ref: u64,
    pub inst: u16,
}
pub fn list_entry(e: &ListEntry) -> Vec<u8> {
    let len = align8(26 + 2 * e.name.len());
    let mut v = vec![0u8; len];
    p32(&mut v, 0, e.ty);
    p16(&mut v, 4, len as u16);
    v[6] = e.name.len() as u8;
    v[7] = 26;
    p64(&mut v, 8, e.lowest);
    p64(&mut v, 16, e.file_ref);
    p16(&mut v, 24, e.inst);
    v[26..26 + 2 * e.name.len()].copy_from_slice(&u16s(&e.name));
    v
}

pub fn fref(rec: u64, seq: u16) -> u64 {
    (rec & 0xFFFF_FFFF_FFFF) | (seq as u64) << 48
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FileNameV {
    pub parent: u64,
    pub times: [u64; 4], // creation, modification, mft modification, access
    pub alloc: u64,
    pub data: u64,
    pub attrs: u32,
    pub ea: u32,
    pub ns: u8,
    pub name: Vec<u16>,
}
pub fn file_name(f: &FileNameV) -> Vec<u8> {
    let mut v = vec![0u8; 66 + 2 * f.name.len()];
    p64(&mut v, 0, f.parent);
    for i in 0..4 {
        p64(&mut v, 8 + 8 * i, f.times[i]);
    }
    p64(&mut v, 40, f.alloc);
    p64(&mut v, 48, f.data);
    p32(&mut v, 56, f.attrs);
    p32(&mut v, 60, f.ea);
    v[64] = f.name.len() as u8;
    v[65] = f.ns;
    v[66..].copy_from_slice(&u16s(&f.name));
    v
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct StdInfoV {
    pub times: [u64; 4],
    pub attrs: u32,
    pub maxver: u32,
    pub ver: u32,
    pub class: u32,
    pub owner: u32,
    pub sec: u32,
    pub quota: u64,
    pub usn: u64,
}
pub fn std_info(s: &StdInfoV, long: bool) -> Vec<u8> {
    let mut v = vec![0u8; if long { 72 } else { 48 }];
    for i in 0..4 {
        p64(&mut v, 8 * i, s.times[i]);
    }
    p32(&mut v, 32, s.attrs);
    p32(&mut v, 36, s.maxver);
    p32(&mut v, 40, s.ver);
    p32(&mut v, 44, s.class);
    if long {
        p32(&mut v, 48, s.owner);
        p32(&mut v, 52, s.sec);
        p64(&mut v, 56, s.quota);
        p64(&mut v, 64, s.usn);
    }
    v
}

/// Index entry. `hdr8`: the first eight bytes (file reference, or data offset/length).
pub fn index_entry(hdr8: u64, key: &[u8], data: &[u8], subnode: Option<u64>, last: bool) -> Vec<u8> {
    index_entry_pad(hdr8, key, data, subnode, last, 0)
}
pub fn index_entry_pad(hdr8: u64, key: &[u8], data: &[u8], subnode: Option<u64>, last: bool, pad: usize) -> Vec<u8> {
    let mut v = vec![0u8; 16];
    v.extend_from_slice(key);
    v.extend_from_slice(data);
    while v.len() % 8 != 0 {
        v.push(0);
    }
    v.resize(v.len() + pad, 0);
    if let Some(s) = subnode {
        v.extend_from_slice(&s.to_le_bytes());
    }
    let len = v.len();
    p64(&mut v, 0, hdr8);
    p16(&mut v, 8, len as u16);
    p16(&mut v, 10, key.len() as u16);
    v[12] = subnode.is_some() as u8 | (last as u8) << 1;
    v
}
/// Node header (16 bytes) + entries. `head` bytes precede the node header in the container.
pub fn node(entries: &[u8], entries_off: usize, alloc: usize, flags: u8) -> Vec<u8> {
    let mut v = vec![0u8; entries_off];
    p32(&mut v, 0, entries_off as u32);
    p32(&mut v, 4, (entries_off + entries.len()) as u32);
    p32(&mut v, 8, alloc as u32);
    v[12] = flags;
    v.extend_from_slice(entries);
    v
}
pub fn index_root(ty: u32, collation: u32, irs: u32, cpir: i8, entries: &[u8], large: bool) -> Vec<u8> {
    let mut v = vec![0u8; 16];
    p32(&mut v, 0, ty);
    p32(&mut v, 4, collation);
    p32(&mut v, 8, irs);
    v[12] = cpir as u8;
    v.extend_from_slice(&node(entries, 16, 16 + entries.len(), large as u8));
    v
}
/// Unprotected index record. None if the entries do not fit.
pub fn index_record(size: usize, vcn: u64, lsn: u64, usa_off: usize, entries: &[u8], subnodes: bool, slack: u64) -> Option<Vec<u8>> {
    let entries_at = align8(usa_off + usa_len(size));
    if entries_at + entries.len() > size {
        return None;
    }
    let mut v = vec![0u8; size];
    if slack != 0 {
        for (i, x) in v.iter_mut().enumerate().skip(entries_at + entries.len()) {
            *x = crate::engine::mix(slack ^ i as u64) as u8;
        }
    }
    v[0..4].copy_from_slice(b"INDX");
    p64(&mut v, 8, lsn);
    p64(&mut v, 16, vcn);
    let n = node(entries, entries_at - 24, size - 24, subnodes as u8);
    v[24..40].copy_from_slice(&n[..16]);
    v[entries_at..entries_at + entries.len()].copy_from_slice(entries);
    Some(v)
}

/// Undoes `protect` (assumes an intact record).
pub fn unprotect(rec: &mut [u8]) {
    let (o, n) = (g16(rec, 4) as usize, g16(rec, 6) as usize);
    for i in 1..n {
        let (a, b) = (rec[o + 2 * i], rec[o + 2 * i + 1]);
        rec[i * 512 - 2] = a;
        rec[i * 512 - 1] = b;
    }
}
/// Offsets of the entries in `v[start..end]` by their length fields.
pub fn entry_offsets(v: &[u8], start: usize, end: usize) -> Vec<usize> {
    let mut r = vec![];
    let mut o = start;
    while o + 16 <= end {
        r.push(o);
        o += (g16(v, o + 8) as usize).max(16);
    }
    r
}
