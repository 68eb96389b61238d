//! Volume builder: turns generated decisions into an NTFS image plus an independent model of what
//! a correct reader must report. Nothing in here uses the crate under test.

use crate::disk::Disk;
use crate::enc::*;
use crate::engine::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------- geometry

#[derive(Clone, Debug)]
pub struct Geo {
    pub sector: u64,
    pub cluster: u64,
    pub spc_raw: u8,
    pub frs: u64,
    pub frs_raw: i8,
}

pub fn gen_geo(src: &mut Src, max_cluster: u64, max_frs: u64) -> Geo {
    let sector = *src.pick(&[512u64, 512, 512, 1024, 2048, 4096]);
    let max_sh = (max_cluster / sector).max(1).ilog2() as u64;
    // Typical volumes have 4096-byte clusters.
    let sh = match src.weighted(&[3, 2, 4]) {
        0 => (4096 / sector).ilog2() as u64,
        1 => 0,
        _ => src.range(0, max_sh.min(12)),
    }
    .min(max_sh);
    let cluster = sector << sh;
    let spc_raw = if sh > 7 || (sh >= 1 && src.chance(10)) { (256 - sh) as u8 } else { 1u8 << sh };
    let (frs, frs_raw) = match src.weighted(&[4, 1, 1, 3]) {
        0 => (1024, -10i8),
        1 => (2048, -11),
        2 => (4096, -12),
        _ => {
            let c = *src.pick(&[1u64, 2, 4, 8, 3, 5]);
            if cluster * c <= max_frs && cluster * c >= 1024 {
                (cluster * c, c as i8)
            } else {
                (1024, -10)
            }
        }
    };
    Geo { sector, cluster, spc_raw, frs, frs_raw }
}

// ---------------------------------------------------------------- cluster allocation

#[derive(Clone, Debug)]
struct Region {
    lo: u64,
    hi: u64,
    down: bool,
}
#[derive(Clone, Debug)]
pub struct Alloc {
    regions: Vec<Region>,
    pub end: u64, // one past the highest cluster handed out
    /// Prefer continuing where the last run ended.
    pub sequential: u64,
    cur: usize,
}
impl Alloc {
    /// `spread`: how far clusters may be apart (0: everything close together).
    fn new(cluster: u64, spread: usize) -> Self {
        let max = (i64::MAX as u64 / cluster) - 1;
        let first = (8192 / cluster).max(1) + 1;
        let mut b = vec![(first, 1 << 14, false)];
        if spread >= 1 {
            b.push((1 << 14, 1 << 17, true));
            b.push((1 << 17, 1 << 24, false));
        }
        if spread >= 2 {
            b.push((1 << 24, 1 << 33, false));
            b.push((1 << 33, max / 2, true));
            b.push((max / 2, max, true));
        }
        let regions = b.into_iter().map(|(lo, hi, down)| Region { lo, hi, down }).collect();
        Alloc { regions, end: first, sequential: 40, cur: 0 }
    }
    pub fn alloc(&mut self, src: &mut Src, n: u64) -> u64 {
        let k = if src.chance(self.sequential) { self.cur } else { src.below(self.regions.len() as u64) as usize };
        let nreg = self.regions.len();
        for i in 0..nreg {
            let r = &mut self.regions[(k + i) % nreg];
            let gap = if src.bool() { src.below(4) } else { 0 };
            if r.hi - r.lo < n + gap {
                continue;
            }
            let lcn = if r.down {
                r.hi -= n + gap;
                r.hi + (gap / 2)
            } else {
                r.lo += n + gap;
                r.lo - n
            };
            self.cur = (k + i) % nreg;
            self.end = self.end.max(lcn + n);
            return lcn;
        }
        // No region left: the run would not fit a volume of this shape.
        std::panic::panic_any(crate::engine::Overrun);
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub lcn: Option<u64>,
    pub len: u64,
}
/// A non-resident value: what the mapping and the sizes say.
#[derive(Clone, Debug, PartialEq)]
pub struct Stream {
    pub cluster: u64,
    pub runs: Vec<Run>,
    pub data: u64,
    pub init: u64,
}
impl Stream {
    pub fn alloc_bytes(&self) -> u64 {
        self.runs.iter().map(|r| r.len).sum::<u64>() * self.cluster
    }
    /// (disk position or None if sparse, bytes left in this run) at byte `off`.
    pub fn locate(&self, off: u64) -> Option<(Option<u64>, u64)> {
        let mut base = 0u64;
        for r in &self.runs {
            let l = r.len * self.cluster;
            if off < base + l {
                let d = off - base;
                return Some((r.lcn.map(|x| x * self.cluster + d), l - d));
            }
            base += l;
        }
        None
    }
    /// The bytes a correct reader returns for [off, off+len) (clamped to the data size).
    pub fn content(&self, disk: &Disk, off: u64, len: u64) -> Vec<u8> {
        if off >= self.data {
            return vec![];
        }
        let len = len.min(self.data - off);
        let mut v = vec![0u8; len as usize];
        let init_end = self.init.min(off + len);
        let mut o = off;
        while o < init_end {
            match self.locate(o) {
                None => break,
                Some((p, rem)) => {
                    let n = rem.min(init_end - o);
                    if let Some(p) = p {
                        let b = &mut v[(o - off) as usize..(o - off + n) as usize];
                        disk.read_at(p, b);
                    }
                    o += n;
                }
            }
        }
        v
    }
    /// Writes bytes through the mapping.
    pub fn store(&self, disk: &mut Disk, off: u64, bytes: &[u8]) {
        let mut i = 0u64;
        while i < bytes.len() as u64 {
            let (p, rem) = self.locate(off + i).expect("store beyond allocation");
            let n = rem.min(bytes.len() as u64 - i);
            disk.write(p.expect("store into sparse run"), &bytes[i as usize..(i + n) as usize]);
            i += n;
        }
    }
    /// Mapping pairs of runs[a..b] (an extent starts with LCN 0 as reference).
    pub fn pairs(&self, a: usize, b: usize, wide: u64) -> Vec<u8> {
        let mut out = vec![];
        let mut prev = 0i64;
        for (i, r) in self.runs[a..b].iter().enumerate() {
            let w = crate::engine::mix(wide ^ i as u64);
            let (el, eo) = if wide == 0 { (0, 0) } else { ((w % 3) as usize, (w / 3 % 3) as usize) };
            match r.lcn {
                None => pair(&mut out, r.len, None, el, 0),
                Some(l) => {
                    pair(&mut out, r.len, Some(l as i64 - prev), el, eo);
                    prev = l as i64;
                }
            }
        }
        out.push(0);
        out
    }
    pub fn clusters_before(&self, run: usize) -> u64 {
        self.runs[..run].iter().map(|r| r.len).sum()
    }
}

/// A fully allocated stream of `bytes` bytes in `n` or fewer runs.
pub fn alloc_stream(src: &mut Src, al: &mut Alloc, cluster: u64, bytes: u64, max_runs: u64) -> Stream {
    let mut left = bytes.div_ceil(cluster);
    let mut runs: Vec<Run> = vec![];
    while left > 0 {
        let n = if runs.len() as u64 + 1 >= max_runs {
            left
        } else if src.bool() {
            left
        } else {
            src.range(1, left)
        };
        let lcn = al.alloc(src, n);
        runs.push(Run { lcn: Some(lcn), len: n });
        left -= n;
    }
    Stream { cluster, runs, data: bytes, init: bytes }
}

/// An arbitrary stream: any mix of real and sparse runs, any valid sizes.
pub fn gen_stream(src: &mut Src, al: &mut Alloc, cluster: u64, max_runs: u64, huge: bool) -> Stream {
    let n = src.size(0, max_runs);
    let sparse_pct = *src.pick(&[0u64, 20, 60]);
    let mut runs: Vec<Run> = vec![];
    for _ in 0..n {
        let len = match src.weighted(&[6, 3, if huge { 4 } else { 1 }]) {
            0 => 1 + src.below(3),
            1 => src.size(1, 70),
            _ => {
                if huge && src.chance(30) {
                    // Around 2 or 4 GiB.
                    ((src.range(1, 2) << *src.pick(&[31u32, 32])) / cluster).max(3) - 1 + src.below(3)
                } else if huge {
                    src.size(1, ((1u64 << 45) / cluster).max(2))
                } else {
                    src.size(1, 400)
                }
            }
        };
        if src.chance(sparse_pct) {
            runs.push(Run { lcn: None, len });
        } else if src.chance(3) {
            // Clusters at the very start of the volume (like $Boot) or shared with another run.
            let shared = runs.last().filter(|r| r.lcn.is_some()).map(|r| (r.lcn, r.len));
            let (lcn, max) = match shared {
                Some(s) if src.bool() => s,
                _ => (Some(0), (8192 / cluster).max(1)),
            };
            runs.push(Run { lcn, len: len.min(max) });
        } else {
            let len = len.min(1 << 40);
            let lcn = al.alloc(src, len);
            runs.push(Run { lcn: Some(lcn), len });
        }
    }
    let mut s = Stream { cluster, runs, data: 0, init: 0 };
    let alloc = s.alloc_bytes();
    s.data = match src.weighted(&[5, 2, 2]) {
        0 => alloc.saturating_sub(src.below(cluster)),
        1 => alloc,
        _ => {
            if src.bool() {
                src.range(0, alloc)
            } else {
                // Just around a run boundary.
                let k = src.below(s.runs.len() as u64 + 1) as usize;
                (s.clusters_before(k) * cluster + src.below(5)).saturating_sub(2).min(alloc)
            }
        }
    };
    s.init = if src.chance(25) {
        match src.below(3) {
            0 => 0,
            1 => src.range(0, s.data),
            _ => s.data.saturating_sub(src.below(700)),
        }
    } else {
        s.data
    };
    s
}

// ---------------------------------------------------------------- names and uppercase tables

pub fn default_upcase() -> &'static Arc<Vec<u16>> {
    static T: OnceLock<Arc<Vec<u16>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<u16> = (0..=0xFFFFu16).collect();
        for (i, x) in t.iter_mut().enumerate() {
            // Unicode versions still disagree here; both builds of C22 need the same table.
            if matches!(i, 0x250..=0x2af | 0xa7c0..=0xa7ff | 0xab30..=0xab6f) {
                continue;
            }
            if let Some(c) = char::from_u32(i as u32) {
                let mut u = c.to_uppercase();
                if let (Some(a), None) = (u.next(), u.next()) {
                    if (a as u32) < 0x10000 {
                        *x = a as u32 as u16;
                    }
                }
            }
        }
        Arc::new(t)
    })
}
/// An uppercase table: the usual one, the identity, or one with arbitrary overrides.
pub fn gen_upcase(src: &mut Src) -> Arc<Vec<u16>> {
    match src.weighted(&[5, 1, 3]) {
        0 => default_upcase().clone(),
        1 => Arc::new((0..=0xFFFFu16).collect()),
        _ => {
            let mut t = (**default_upcase()).clone();
            let n = src.range(1, 12);
            for _ in 0..n {
                let a = gen_unit(src);
                let b = gen_unit(src);
                t[a as usize] = b;
            }
            Arc::new(t)
        }
    }
}
pub fn gen_unit(src: &mut Src) -> u16 {
    match src.weighted(&[8, 5, 3, 2, 1, 1]) {
        0 => *src.pick(b"abcdABCD") as u16,
        1 => src.range(0x20, 0x7E) as u16,
        2 => *src.pick(&[0xE9u16, 0xC9, 0xDF, 0xFF, 0x178, 0x3B1, 0x391, 0x3C3, 0x3C2, 0x3A3, 0x430, 0x410, 0x131, 0x130, 0x149, 0x1C5, 0x10D0, 0xFB01]),
        3 => src.range(0xD800, 0xDFFF) as u16,
        4 => *src.pick(&[1u16, 0xFFFF, 0xFFFE, 0x7FFF, 0x8000, 0x100, 0xFF00, 0x00FF]),
        _ => src.range(1, 0xFFFF) as u16,
    }
}
pub fn gen_name(src: &mut Src, min: usize, max: usize) -> Vec<u16> {
    let n = match src.weighted(&[8, 3, 1]) {
        0 => src.usize(min, max.min(min.max(6))),
        1 => src.usize(min, max.min(min.max(30))),
        _ => src.usize(min, max),
    };
    let mode = src.below(3);
    (0..n)
        .map(|_| match mode {
            0 => *src.pick(b"abAB019._ ") as u16,
            1 => gen_unit(src),
            _ => src.range(0x61, 0x7A) as u16,
        })
        .collect()
}
/// A name that a Rust string can hold.
pub fn to_str(n: &[u16]) -> Option<String> {
    String::from_utf16(n).ok()
}
pub fn up(t: &[u16], n: &[u16]) -> Vec<u16> {
    n.iter().map(|c| t[*c as usize]).collect()
}

// ---------------------------------------------------------------- files

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Res(Vec<u8>),
    Non(Stream),
}
impl Body {
    pub fn len(&self) -> u64 {
        match self {
            Body::Res(v) => v.len() as u64,
            Body::Non(s) => s.data,
        }
    }
    pub fn content(&self, disk: &Disk, off: u64, len: u64) -> Vec<u8> {
        match self {
            Body::Res(v) => {
                let a = (off.min(v.len() as u64)) as usize;
                let b = (off.saturating_add(len).min(v.len() as u64)) as usize;
                v[a..b].to_vec()
            }
            Body::Non(s) => s.content(disk, off, len),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub body: Body,
    pub indexed: bool,
    pub gap: usize,
    pub tail: usize,
    /// Where extents are cut (run indices), in increasing order.
    pub cuts: Vec<usize>,
    /// These very bytes instead of the encoded runs; true: right at the end of the attribute.
    pub raw: Option<(Vec<u8>, bool)>,
}
impl Attr {
    pub fn res(ty: u32, name: &[u16], v: Vec<u8>) -> Attr {
        Attr { ty, name: name.to_vec(), flags: 0, body: Body::Res(v), indexed: ty == T_NAME, gap: 0, tail: 0, cuts: vec![], raw: None }
    }
    pub fn non(ty: u32, name: &[u16], s: Stream) -> Attr {
        Attr { ty, name: name.to_vec(), flags: 0, body: Body::Non(s), indexed: false, gap: 0, tail: 0, cuts: vec![], raw: None }
    }
}

/// One stored piece of an attribute: record, instance, offset inside the record, runs covered.
#[derive(Clone, Debug)]
pub struct Piece {
    pub rec: u64,
    pub inst: u16,
    pub off: usize,
    pub len: usize,
    pub runs: (usize, usize),
}
#[derive(Clone, Debug)]
pub struct LAttr {
    pub a: Attr,
    pub pieces: Vec<Piece>,
}
#[derive(Clone, Debug, PartialEq, Copy)]
pub enum ListKind {
    None,
    Res,
    Non,
}
/// A raw attribute as stored in one record.
#[derive(Clone, Debug)]
pub struct RawAttr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub flags: u16,
    pub inst: u16,
    pub resident: bool,
    pub len: u64,
    pub off: usize,
    pub size: usize,
}
#[derive(Clone, Debug)]
pub struct FileM {
    pub rec: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub used: u32,
    pub list: ListKind,
    pub list_entries: Vec<ListEntry>,
    /// Extra bytes at the end of every list entry.
    pub list_pad: usize,
    pub list_stream: Option<Stream>,
    pub attrs: Vec<LAttr>,
    /// Raw attributes of every record of the file (base first).
    pub raw: Vec<(u64, Vec<RawAttr>)>,
}
impl FileM {
    pub fn find(&self, ty: u32, name: &[u16]) -> Option<&LAttr> {
        self.attrs.iter().find(|x| x.a.ty == ty && x.a.name == name)
    }
}

pub struct FileSpec {
    pub rec: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub attrs: Vec<Attr>,
    /// Percent chance to use an attribute list even if not needed.
    pub list_pct: u64,
    /// Percent chance that the list is non-resident.
    pub list_non_pct: u64,
    /// Percent chance that an extent (other than standard information) stays in the base record.
    pub stay_pct: u64,
}

// ---------------------------------------------------------------- volume

pub struct Vol {
    pub geo: Geo,
    pub disk: Disk,
    pub al: Alloc,
    pub boot: Boot,
    pub mft: Stream,
    pub used: BTreeSet<u64>,
    pub upcase: Arc<Vec<u16>>,
    pub files: BTreeMap<u64, FileM>,
    pub usa_off: usize,
    /// Position -> used by C15 etc.: absolute position of record n.
    pub rec_limit: u64,
    /// Percent chance of attribute list entries longer than their name needs.
    pub list_pad_pct: u64,
    /// The table's own run list goes on in another record from this run on.
    pub mft_cut: Option<usize>,
}

#[derive(Clone)]
pub struct VolOpts {
    pub max_cluster: u64,
    pub max_frs: u64,
    pub spread: usize,
    pub upcase: bool,
    /// Records the MFT must be able to hold at least.
    pub records: u64,
    pub mft_runs: u64,
    /// Chance (percent) of a gigantic MFT.
    pub big_mft: u64,
    pub typical_geo: bool,
}
impl Default for VolOpts {
    fn default() -> Self {
        VolOpts { max_cluster: 2 << 20, max_frs: 16384, spread: 2, upcase: false, records: 32, mft_runs: 4, big_mft: 10, typical_geo: false }
    }
}

pub const FIRST_FREE: u64 = 16;

impl Vol {
    pub fn new(src: &mut Src, o: &VolOpts) -> Vol {
        let geo = if o.typical_geo {
            Geo { sector: 512, cluster: 4096, spc_raw: 8, frs: 1024, frs_raw: -10 }
        } else {
            let mut g = gen_geo(src, o.max_cluster, o.max_frs);
            // Records of any cluster count, so that sizes and offsets within them exceed 16 bits.
            if o.max_frs >= 16384 && g.cluster <= 65536 && src.chance(1) && src.bool() {
                let c = src.range(1, 127.min(300_000 / g.cluster));
                if g.cluster * c >= 1024 {
                    g.frs = g.cluster * c;
                    g.frs_raw = c as i8;
                }
            }
            g
        };
        let spread = src.below(o.spread as u64 + 1) as usize;
        let mut al = Alloc::new(geo.cluster, spread);
        let seed = src.u64() | 1;
        let disk = Disk::new(seed, 0);
        // The MFT: some runs; the first covers at least record 0.
        let mut records = o.records.max(FIRST_FREE) + src.below(9);
        if src.chance(o.big_mft) {
            records += src.size(1, (1u64 << 44) / geo.frs);
        }
        let total = (records * geo.frs).div_ceil(geo.cluster);
        let first_min = geo.frs.div_ceil(geo.cluster);
        let mut runs: Vec<Run> = vec![];
        let mut left = total;
        let nruns = src.range(1, o.mft_runs.max(1));
        for i in 0..nruns {
            if left == 0 {
                break;
            }
            let lo = if i == 0 { first_min } else { 1 };
            let n = if i + 1 == nruns || left <= lo {
                left
            } else {
                let cap = left.min(lo + (FIRST_FREE * 3 * geo.frs).div_ceil(geo.cluster));
                src.range(lo, cap)
            };
            let lcn = al.alloc(src, n);
            runs.push(Run { lcn: Some(lcn), len: n });
            left -= n;
        }
        let data = if src.bool() { total * geo.cluster } else { records * geo.frs };
        let mft = Stream { cluster: geo.cluster, runs, data, init: data };
        let rec_limit = data / geo.frs;
        let boot = Boot {
            sector_size: geo.sector as u16,
            spc: geo.spc_raw,
            total_sectors: 0,
            mft_lcn: mft.runs[0].lcn.unwrap(),
            mirr_lcn: 1,
            frs: geo.frs_raw,
            irs: -12,
            serial: src.u64(),
            sig: [0x55, 0xAA],
        };
        let usa_off = *src.pick(&[48usize, 48, 48, 42, 56]);
        let mut v = Vol {
            geo,
            disk,
            al,
            boot,
            mft,
            used: (0..FIRST_FREE).collect(),
            upcase: default_upcase().clone(),
            files: BTreeMap::new(),
            usa_off,
            rec_limit,
            list_pad_pct: 0,
            mft_cut: None,
        };
        if o.upcase {
            v.upcase = gen_upcase(src);
            v.add_upcase(src, None);
        }
        v
    }
    pub fn cluster(&self) -> u64 {
        self.geo.cluster
    }
    /// Room for attributes in a record.
    pub fn cap(&self) -> usize {
        self.geo.frs as usize - first_attr_off(self.usa_off, self.geo.frs as usize) - 8
    }
    pub fn rec_pos(&self, rec: u64) -> u64 {
        self.mft.locate(rec * self.geo.frs).unwrap().0.unwrap()
    }
    /// The stored bytes of a record with the fixup undone.
    pub fn rec_bytes(&self, rec: u64) -> Vec<u8> {
        let mut v = self.mft.content(&self.disk, rec * self.geo.frs, self.geo.frs);
        unprotect(&mut v);
        v
    }
    /// Does the record lie in one piece on the volume?
    pub fn contiguous(&self, rec: u64) -> bool {
        self.mft.locate(rec * self.geo.frs).unwrap().1 >= self.geo.frs
    }
    pub fn new_rec(&mut self, src: &mut Src) -> u64 {
        // Usually the next free one, sometimes anywhere in the table.
        let near = (FIRST_FREE..).find(|r| !self.used.contains(r)).unwrap();
        let r = match src.weighted(&[5, 3, 2]) {
            0 => near,
            1 => src.range(near, (near + 40).min(self.rec_limit.max(near + 1) - 1)),
            _ => src.range(near, self.rec_limit.max(near + 1) - 1),
        };
        // Numbers equal to another one in their low bits.
        let r = if self.rec_limit > 1 << 16 && src.chance(30) {
            let old = self.used.range(FIRST_FREE..).next_back().copied().unwrap_or(FIRST_FREE);
            let d = if self.rec_limit > 1 << 32 && src.bool() { 1u64 << 32 } else { 1 << 16 };
            (old + d) % self.rec_limit
        } else {
            r
        };
        let r = if r < near || self.used.contains(&r) { near } else { r };
        if r >= self.rec_limit {
            std::panic::panic_any(crate::engine::Overrun);
        }
        self.used.insert(r);
        r
    }
    pub fn add_upcase(&mut self, src: &mut Src, override_len: Option<u64>) {
        let bytes = u16s(&self.upcase);
        let len = override_len.unwrap_or(bytes.len() as u64);
        let s = alloc_stream(src, &mut self.al, self.geo.cluster, len.max(bytes.len() as u64), 4);
        s.store(&mut self.disk, 0, &bytes);
        let mut s = s;
        s.data = len;
        s.init = len;
        let mut a = Attr::non(T_DATA, &[], s);
        if src.chance(30) {
            self.gen_cuts(src, &mut a);
        }
        let list_pct = if src.chance(25) { 100 } else { 0 };
        let spec = FileSpec { rec: 10, seq: 10, links: 1, flags: 1, attrs: vec![self.std_attr(src), a], list_pct, list_non_pct: 40, stay_pct: 50 };
        self.add_file(src, spec);
    }
    pub fn std_attr(&mut self, src: &mut Src) -> Attr {
        let s = StdInfoV { times: [src.u64(), 1, 2, 3], attrs: 6, ..Default::default() };
        let long = src.bool();
        Attr::res(T_STD, &[], std_info(&s, long))
    }
    /// Random extent cuts for a non-resident attribute.
    pub fn gen_cuts(&mut self, src: &mut Src, a: &mut Attr) {
        if let Body::Non(s) = &a.body {
            let n = s.runs.len();
            let mut c = BTreeSet::new();
            if n > 1 {
                for _ in 0..src.size(0, 5) {
                    c.insert(src.usize(1, n - 1));
                }
            }
            a.cuts = c.into_iter().collect();
            // Now and then a part that maps nothing.
            if !a.cuts.is_empty() && src.chance(8) {
                let k = if src.bool() { n } else { *src.pick(&a.cuts) };
                a.cuts.push(k);
                a.cuts.sort();
            }
        }
    }
    fn encode_piece(a: &Attr, inst: u16, x: usize, y: usize, wide: u64) -> Vec<u8> {
        let h = AttrHdr { ty: a.ty, name: a.name.clone(), flags: a.flags, inst, gap: a.gap, tail: a.tail };
        match &a.body {
            Body::Res(v) => attr_resident(&h, v, a.indexed as u8),
            Body::Non(s) => {
                let lowest = s.clusters_before(x);
                let highest = s.clusters_before(y) as i64 - 1;
                let n = if x == 0 {
                    NonRes { lowest, highest, comp_unit: 0, alloc: s.alloc_bytes(), data: s.data, init: s.init, total: None }
                } else {
                    NonRes { lowest, highest, ..Default::default() }
                };
                if let Some((raw, flush)) = &a.raw {
                    let mut v = attr_nonres(&h, &n, raw);
                    if *flush {
                        let off = v.len() - raw.len();
                        p16(&mut v, 32, off as u16);
                        v[off..].copy_from_slice(raw);
                    }
                    return v;
                }
                attr_nonres(&h, &n, &s.pairs(x, y, wide))
            }
        }
    }
    /// Lays the file out over its records, writes them, and returns the model.
    pub fn add_file(&mut self, src: &mut Src, spec: FileSpec) -> FileM {
        let cap = self.cap();
        let wide = if src.chance(30) { src.u64() | 1 } else { 0 };
        // Split attributes into extents that fit a record.
        struct Ext {
            attr: usize,
            x: usize,
            y: usize,
            size: usize,
            rec: usize,
            inst: u16,
        }
        let mut exts: Vec<Ext> = vec![];
        for (i, a) in spec.attrs.iter().enumerate() {
            let runs = match &a.body {
                Body::Res(_) => 0,
                Body::Non(s) => s.runs.len(),
            };
            let mut bounds = vec![0];
            bounds.extend(a.cuts.iter().copied().filter(|c| *c > 0 && *c <= runs));
            bounds.push(runs);
            let mut queue: Vec<(usize, usize)> = bounds.windows(2).map(|w| (w[0], w[1])).rev().collect();
            while let Some((x, y)) = queue.pop() {
                let size = Self::encode_piece(a, 0, x, y, wide).len();
                if size > cap - 8 {
                    if y - x <= 1 {
                        // A single piece that cannot fit any record: not a realisable file.
                        std::panic::panic_any(crate::engine::Overrun);
                    }
                    let m = (x + y) / 2;
                    queue.push((m, y));
                    queue.push((x, m));
                    continue;
                }
                exts.push(Ext { attr: i, x, y, size, rec: 0, inst: 0 });
            }
        }
        let total: usize = exts.iter().map(|e| e.size).sum();
        let multi = exts.iter().any(|e| e.x > 0);
        let mut use_list = multi || total > cap || src.chance(spec.list_pct);
        // Records: index 0 is the base.
        let mut recs: Vec<u64> = vec![spec.rec];
        let mut room: Vec<usize> = vec![cap];
        let mut list_kind = ListKind::None;
        let mut list_stream = None;
        let list_pad = if src.chance(self.list_pad_pct) { 8 } else { 0 };
        let entry_len = |a: &Attr| align8(26 + 2 * a.name.len()) + list_pad;
        let list_len: usize = exts.iter().map(|e| entry_len(&spec.attrs[e.attr])).sum();
        if use_list && exts.iter().all(|e| spec.attrs[e.attr].ty == T_STD) {
            use_list = false;
        }
        if use_list {
            // Standard information always stays in the base record; so does the list itself.
            let std_size: usize = exts.iter().filter(|e| spec.attrs[e.attr].ty == T_STD).map(|e| e.size).sum();
            let res_size = align8(24 + list_len);
            let non = src.chance(spec.list_non_pct) || std_size + res_size > room[0];
            if std_size + 64 + 48 > room[0] {
                std::panic::panic_any(crate::engine::Overrun);
            }
            if non {
                list_kind = ListKind::Non;
                let s = alloc_stream(src, &mut self.al, self.geo.cluster, list_len as u64, 3);
                room[0] -= align8(64 + s.pairs(0, s.runs.len(), wide).len());
                list_stream = Some(s);
            } else {
                list_kind = ListKind::Res;
                room[0] -= res_size;
            }
            room[0] -= std_size;
            let share = multi && spec.rec != 0 && src.chance(30);
            for k in 0..exts.len() {
                let ty = spec.attrs[exts[k].attr].ty;
                if ty == T_STD {
                    continue;
                }
                let size = exts[k].size;
                if src.chance(spec.stay_pct) && room[0] >= size {
                    exts[k].rec = 0;
                    room[0] -= size;
                    continue;
                }
                // An existing extension record with room, or a new one. Two extents of one
                // attribute may share a record.
                let here = exts[k].attr;
                let cands: Vec<usize> = (1..recs.len())
                    .filter(|r| room[*r] >= size && (share || !exts[..k].iter().any(|e| e.attr == here && e.rec == *r)))
                    .collect();
                let r = if !cands.is_empty() && src.chance(60) {
                    *src.pick(&cands)
                } else {
                    let n = self.new_rec(src);
                    recs.push(n);
                    room.push(cap);
                    recs.len() - 1
                };
                exts[k].rec = r;
                room[r] -= size;
            }
            // An extent in the base record after one in an extension record etc. is fine, but two
            // extents of one attribute in the base record are not.
            for k in 1..exts.len() {
                if !share && exts[k].rec == 0 && exts[..k].iter().any(|e| e.attr == exts[k].attr && e.rec == 0) {
                    let n = self.new_rec(src);
                    recs.push(n);
                    room.push(cap - exts[k].size);
                    exts[k].rec = recs.len() - 1;
                }
            }
        }
        // Sequence numbers per record.
        let seqs: Vec<u16> = recs.iter().enumerate().map(|(i, _)| if i == 0 { spec.seq } else { 1 + src.below(5) as u16 }).collect();
        // Instances: unique per record, assigned in arbitrary order; extension records typically start at 0.
        let sorted = |spec: &FileSpec, exts: &Vec<Ext>, r: usize| -> Vec<usize> {
            let mut v: Vec<usize> = (0..exts.len()).filter(|k| exts[*k].rec == r).collect();
            let up = default_upcase();
            v.sort_by_key(|k| {
                let e = &exts[*k];
                let a = &spec.attrs[e.attr];
                (a.ty, crate::vol::up(up, &a.name), a.name.clone(), e.attr, e.x)
            });
            v
        };
        let mut list_inst = 0;
        for r in 0..recs.len() {
            let order = sorted(&spec, &exts, r);
            let n = order.len() + 1;
            let base = if r == 0 && src.bool() { src.below(300) as u16 } else { 0 };
            let p = if src.bool() { (0..n).collect() } else { src.perm(n) };
            for (i, k) in order.iter().enumerate() {
                exts[*k].inst = base + p[i] as u16;
            }
            if r == 0 {
                list_inst = base + p[n - 1] as u16;
            }
        }
        // The attribute list: sorted by type, name, lowest VCN.
        let mut all: Vec<usize> = (0..exts.len()).collect();
        {
            let upt = default_upcase();
            all.sort_by_key(|k| {
                let e = &exts[*k];
                let a = &spec.attrs[e.attr];
                (a.ty, up(upt, &a.name), a.name.clone(), e.attr, e.x)
            });
        }
        let mut list_entries = vec![];
        let mut list_bytes = vec![];
        if use_list {
            for k in &all {
                let e = &exts[*k];
                let a = &spec.attrs[e.attr];
                let lowest = match &a.body {
                    Body::Non(s) => s.clusters_before(e.x),
                    _ => 0,
                };
                let le = ListEntry { ty: a.ty, name: a.name.clone(), lowest, file_ref: fref(recs[e.rec], seqs[e.rec]), inst: e.inst };
                let mut lb = list_entry(&le);
                lb.resize(lb.len() + list_pad, 0);
                let n = lb.len() as u16;
                p16(&mut lb, 4, n);
                list_bytes.extend(lb);
                list_entries.push(le);
            }
            if let Some(s) = &list_stream {
                s.store(&mut self.disk, 0, &list_bytes);
            }
        }
        // Encode the records.
        let mut attrs: Vec<LAttr> = spec.attrs.iter().map(|a| LAttr { a: a.clone(), pieces: vec![] }).collect();
        let mut raw = vec![];
        let mut used0 = 0;
        for r in 0..recs.len() {
            let order = sorted(&spec, &exts, r);
            let mut encoded: Vec<Vec<u8>> = vec![];
            let mut off = first_attr_off(self.usa_off, self.geo.frs as usize);
            let mut raws = vec![];
            let mut list_done = r != 0 || !use_list;
            let push_list = |encoded: &mut Vec<Vec<u8>>, off: &mut usize, raws: &mut Vec<RawAttr>| {
                let h = AttrHdr { ty: T_LIST, inst: list_inst, ..Default::default() };
                let e = match &list_stream {
                    None => attr_resident(&h, &list_bytes, 0),
                    Some(s) => attr_nonres(
                        &h,
                        &NonRes { lowest: 0, highest: s.runs.iter().map(|r| r.len).sum::<u64>() as i64 - 1, comp_unit: 0, alloc: s.alloc_bytes(), data: s.data, init: s.init, total: None },
                        &s.pairs(0, s.runs.len(), wide),
                    ),
                };
                raws.push(RawAttr { ty: T_LIST, name: vec![], flags: 0, inst: list_inst, resident: list_stream.is_none(), len: list_bytes.len() as u64, off: *off, size: e.len() });
                *off += e.len();
                encoded.push(e);
            };
            for k in &order {
                let e = &exts[*k];
                let a = &spec.attrs[e.attr];
                if !list_done && a.ty > T_LIST {
                    push_list(&mut encoded, &mut off, &mut raws);
                    list_done = true;
                }
                let b = Self::encode_piece(a, e.inst, e.x, e.y, wide);
                let len = match &a.body {
                    Body::Res(v) => v.len() as u64,
                    Body::Non(s) => if e.x == 0 { s.data } else { 0 },
                };
                raws.push(RawAttr { ty: a.ty, name: a.name.clone(), flags: a.flags, inst: e.inst, resident: matches!(a.body, Body::Res(_)), len, off, size: b.len() });
                attrs[e.attr].pieces.push(Piece { rec: recs[r], inst: e.inst, off, len: b.len(), runs: (e.x, e.y) });
                off += b.len();
                encoded.push(b);
            }
            if !list_done {
                push_list(&mut encoded, &mut off, &mut raws);
            }
            let h = RecHdr {
                usa_off: self.usa_off,
                usn: 1 + src.below(0xFFFF) as u16,
                lsn: src.u64(),
                seq: seqs[r],
                links: if r == 0 { spec.links } else { 0 },
                flags: if r == 0 { spec.flags } else { 1 },
                base_ref: if r == 0 { 0 } else { fref(recs[0], seqs[0]) },
                next_inst: 400,
                recno: recs[r] as u32,
                attrs_off: first_attr_off(self.usa_off, self.geo.frs as usize),
            };
            let slack = if src.chance(30) { src.u64() | 1 } else { 0 };
            let mut rec = match file_record(&h, self.geo.frs as usize, &encoded, slack) {
                Some(x) => x,
                None => panic!("record does not fit: cap {cap} off {off}"),
            };
            if r == 0 {
                used0 = g32(&rec, 24);
            }
            protect(&mut rec, h.usa_off, h.usn);
            if recs[r] != 0 {
                self.mft.store(&mut self.disk, recs[r] * self.geo.frs, &rec);
            } else {
                let m = self.mft.clone();
                m.store(&mut self.disk, 0, &rec);
            }
            raw.push((recs[r], raws));
        }
        for a in attrs.iter_mut() {
            a.pieces.sort_by_key(|p| p.runs.0);
        }
        let m = FileM { rec: spec.rec, seq: spec.seq, links: spec.links, flags: spec.flags, used: used0, list: list_kind, list_entries, list_pad, list_stream, attrs, raw };
        self.files.insert(spec.rec, m.clone());
        m
    }
    /// Writes record 0 and the boot sector and fixes the device length.
    pub fn finish(&mut self, src: &mut Src) {
        let mut a = Attr::non(T_DATA, &[], self.mft.clone());
        a.cuts = self.mft_cut.into_iter().collect();
        let list_non_pct = if self.mft_cut.is_some() { src.below(101) } else { 0 };
        let fname = FileNameV { parent: fref(5, 5), ns: 3, name: utf16("$MFT"), ..Default::default() };
        let mut attrs = vec![self.std_attr(src)];
        if self.cap() > 500 {
            attrs.push(Attr::res(T_NAME, &[], file_name(&fname)));
        }
        attrs.push(a);
        let spec = FileSpec { rec: 0, seq: 1, links: 1, flags: 1, attrs, list_pct: 0, list_non_pct, stay_pct: 100 };
        self.add_file(src, spec);
        let extra = *src.pick(&[0u64, 0, 1, 100]);
        let clusters = self.al.end + extra;
        self.disk.len = clusters * self.geo.cluster;
        self.boot.total_sectors = clusters * (self.geo.cluster / self.geo.sector);
        let b = self.boot.encode(self.disk.seed);
        self.disk.write(0, &b);
    }
}

// ---------------------------------------------------------------- indexes

#[derive(Clone, Debug)]
pub struct Item {
    pub hdr8: u64,
    pub key: Vec<u8>,
    pub data: Vec<u8>,
    pub pad: usize,
}
impl Item {
    fn bytes(&self, sub: Option<u64>) -> Vec<u8> {
        index_entry_pad(self.hdr8, &self.key, &self.data, sub, false, self.pad)
    }
    fn size(&self) -> usize {
        align8(16 + self.key.len() + self.data.len()) + self.pad
    }
}
#[derive(Clone, Debug)]
pub struct NodeM {
    /// Index record slot; usize::MAX for the root.
    pub slot: usize,
    pub items: Vec<usize>,
    /// Per entry (items + last): child node index.
    pub children: Vec<Option<usize>>,
    /// Key length of the last entry, which has no key.
    pub end_key: u16,
}
pub struct IndexM {
    pub irs: u64,
    pub vcn_unit: u64,
    pub nodes: Vec<NodeM>, // nodes[0] is the root
    pub slots: usize,
    pub depth: usize,
    /// Root value bytes.
    pub root: Vec<u8>,
    /// Allocation contents by slot (None: not a used record).
    pub records: Vec<Option<Vec<u8>>>,
    pub large: bool,
    pub empty_nodes: usize,
    pub rec_entries_off: usize,
    /// This many records lie in a sparse run before slot `gap_at`.
    pub gap_at: usize,
    pub gap: u64,
}

pub fn gen_irs(src: &mut Src, cluster: u64) -> u64 {
    match src.weighted(&[100, 60, 20, 1]) {
        0 => 4096,
        1 => *src.pick(&[1024u64, 2048, 512, 8192]),
        2 => cluster.clamp(512, 65536),
        _ => *src.pick(&[131_072u64, 16384, 65536, 262_144, 32768, 524_288, 2 << 20]).max(&cluster.min(1 << 17)),
    }
}

pub struct TreeOpts {
    /// Bytes available to root entries.
    pub root_cap: usize,
    pub max_depth: usize,
    pub split_pct: u64,
    pub hole_pct: u64,
    /// Allow separators without subnode / subnodes that are empty.
    pub irregular: bool,
}

pub fn build_index(src: &mut Src, items: &[Item], irs: u64, cluster: u64, ty: u32, collation: u32, o: &TreeOpts) -> IndexM {
    let usa_off = *src.pick(&[40usize, 40, 40, 48]);
    let rec_entries_at = align8(usa_off + usa_len(irs as usize));
    let rec_cap = irs as usize - rec_entries_at;
    let mut nodes: Vec<NodeM> = vec![];
    let mut depth = 0;
    let mut empty_nodes = 0;

    fn make(
        src: &mut Src,
        items: &[Item],
        lo: usize,
        hi: usize,
        cap: usize,
        level: usize,
        rec_cap: usize,
        o: &TreeOpts,
        nodes: &mut Vec<NodeM>,
        depth: &mut usize,
        empties: &mut usize,
    ) -> usize {
        *depth = (*depth).max(level);
        let me = nodes.len();
        nodes.push(NodeM { slot: usize::MAX, items: vec![], children: vec![], end_key: 0 });
        if nodes.len() > 3000 {
            std::panic::panic_any(crate::engine::Overrun);
        }
        let n = hi - lo;
        let leaf_size: usize = items[lo..hi].iter().map(|i| i.size()).sum::<usize>() + 16;
        let fits = leaf_size <= cap;
        let leaf = fits && (level >= o.max_depth || n == 0 || !src.chance(o.split_pct));
        if leaf {
            if level > 0 && n == 0 {
                *empties += 1;
            }
            nodes[me].items = (lo..hi).collect();
            nodes[me].children = vec![None; n + 1];
            return me;
        }
        // Internal node: pick separators.
        let forced_deep = level >= o.max_depth;
        let mut seps: Vec<usize> = vec![];
        let want = if forced_deep {
            // Just split so that the children fit.
            leaf_size / rec_cap + 1
        } else if level == 0 && src.chance(30) {
            0
        } else {
            src.size(1, n.min(12) as u64) as usize
        };
        if forced_deep {
            for k in 1..=want {
                let p = lo + n * k / (want + 1);
                if p < hi && !seps.contains(&p) {
                    seps.push(p);
                }
            }
        } else {
            let mut set = BTreeSet::new();
            for _ in 0..want {
                set.insert(lo + src.below(n as u64) as usize);
            }
            seps = set.into_iter().collect();
        }
        // Drop separators until the node fits.
        loop {
            let sz: usize = seps.iter().map(|s| items[*s].size() + 8).sum::<usize>() + 24;
            if sz <= cap || seps.is_empty() {
                break;
            }
            let k = seps.len() / 2;
            seps.remove(k);
        }
        if seps.is_empty() && level > 0 && n > 0 {
            let s = lo + n / 2;
            if items[s].size() + 8 + 24 <= cap {
                seps.push(s);
            } else {
                std::panic::panic_any(crate::engine::Overrun);
            }
        }
        if 24 > cap {
            std::panic::panic_any(crate::engine::Overrun);
        }
        let mut children = vec![];
        let mut start = lo;
        let mut ends: Vec<usize> = seps.clone();
        ends.push(hi);
        for e in ends.iter() {
            let child = if start == *e {
                if o.irregular && src.chance(25) && level < o.max_depth {
                    Some(make(src, items, start, *e, rec_cap, level + 1, rec_cap, o, nodes, depth, empties))
                } else {
                    None
                }
            } else {
                Some(make(src, items, start, *e, rec_cap, level + 1, rec_cap, o, nodes, depth, empties))
            };
            children.push(child);
            start = *e + 1;
        }
        nodes[me].items = seps;
        nodes[me].children = children;
        me
    }
    make(src, items, 0, items.len(), o.root_cap, 0, rec_cap, o, &mut nodes, &mut depth, &mut empty_nodes);

    // Assign record slots: arbitrary order with unused records in between.
    let nrec = nodes.len() - 1;
    let mut slots = nrec;
    let order = if src.bool() { (0..nrec).collect() } else { src.perm(nrec) };
    let mut place: Vec<usize> = vec![];
    let mut cur = 0;
    for _ in 0..nrec {
        if src.chance(o.hole_pct) {
            cur += 1 + src.below(2) as usize;
        }
        place.push(cur);
        cur += 1;
    }
    slots = slots.max(cur);
    if src.chance(o.hole_pct) {
        slots += 1;
    }
    for i in 0..nrec {
        nodes[i + 1].slot = place[order[i]];
    }
    let vcn_unit = if cluster <= irs { cluster } else { 512 };
    // Rarely, a huge sparse run lies between two records.
    let (mut gap_at, mut gap) = (0usize, 0u64);
    if nrec > 0 && src.chance(2) {
        let per = (cluster / irs).max(1);
        gap_at = (src.below(slots as u64 + 1) / per * per) as usize;
        let bytes = (1u64 << *src.pick(&[31u32, 32, 32, 32, 33, 36, 44])) + *src.pick(&[0u64, 0, 0, 1 << 16, 0xFFFF_0000]);
        gap = (bytes / irs).max(per);
        match src.below(3) {
            // The whole allocation, or the part before a record, has that size.
            0 => gap -= (slots as u64).min(gap / 2),
            1 => gap -= (gap_at as u64).min(gap / 2),
            _ => gap += src.below(4),
        }
        gap = gap / per * per;
    }
    let vcn = |slot: usize| (slot as u64 + if slot >= gap_at { gap } else { 0 }) * irs / vcn_unit;
    let mut records: Vec<Option<Vec<u8>>> = vec![None; slots];
    let mut root_entries = vec![];
    let stale_end = src.chance(12);
    for k in 0..nodes.len() {
        if stale_end && src.bool() {
            nodes[k].end_key = if src.bool() { 8 + src.below(100) } else { src.below(0x10000) } as u16;
        }
        let nd = &nodes[k];
        let mut e = vec![];
        for (j, it) in nd.items.iter().enumerate() {
            e.extend(items[*it].bytes(nd.children[j].map(|c| vcn(nodes[c].slot))));
        }
        let last = nd.children.last().unwrap().map(|c| vcn(nodes[c].slot));
        let mut end = index_entry(0, &[], &[], last, true);
        // The last entry has no key, whatever its key length says.
        p16(&mut end, 10, nd.end_key);
        e.extend(end);
        let has = nd.children.iter().any(|c| c.is_some());
        if k == 0 {
            root_entries = e;
        } else {
            let slack = if src.chance(40) { src.u64() | 1 } else { 0 };
            let mut r = index_record(irs as usize, vcn(nd.slot), src.u64(), usa_off, &e, has, slack).expect("index record overflow");
            let usn = 1 + src.below(0xFFFF) as u16;
            protect(&mut r, usa_off, usn);
            records[nd.slot] = Some(r);
        }
    }
    let large = nodes.len() > 1 || (slots > 0) || (nrec == 0 && o.hole_pct > 0 && src.chance(10));
    let cpir = if cluster <= irs { (irs / cluster).min(127) as i8 } else { -(irs.ilog2() as i8) };
    let root = index_root(ty, collation, irs as u32, cpir, &root_entries, large);
    IndexM { irs, vcn_unit, nodes, slots, depth, root, records, large, empty_nodes, rec_entries_off: rec_entries_at, gap_at, gap }
}

impl IndexM {
    pub fn vcn(&self, slot: usize) -> u64 {
        self.offset(slot) / self.vcn_unit
    }
    /// Where this slot lies in the allocation.
    pub fn offset(&self, slot: usize) -> u64 {
        (slot as u64 + if slot >= self.gap_at { self.gap } else { 0 }) * self.irs
    }
    /// Size of the allocation in bytes.
    pub fn total(&self) -> u64 {
        ((self.slots as u64).max(1) + self.gap) * self.irs
    }
    /// In-order sequence of item numbers (model traversal).
    pub fn inorder(&self) -> Vec<usize> {
        fn go(m: &IndexM, n: usize, out: &mut Vec<usize>) {
            let nd = &m.nodes[n];
            for (j, c) in nd.children.iter().enumerate() {
                if let Some(c) = c {
                    go(m, *c, out);
                }
                if j < nd.items.len() {
                    out.push(nd.items[j]);
                }
            }
        }
        let mut v = vec![];
        go(self, 0, &mut v);
        v
    }
    /// In-order sequence of (node, entry number within the node).
    pub fn inorder_places(&self) -> Vec<(usize, usize)> {
        fn go(m: &IndexM, n: usize, out: &mut Vec<(usize, usize)>) {
            let nd = &m.nodes[n];
            for (j, c) in nd.children.iter().enumerate() {
                if let Some(c) = c {
                    go(m, *c, out);
                }
                if j < nd.items.len() {
                    out.push((n, j));
                }
            }
        }
        let mut v = vec![];
        go(self, 0, &mut v);
        v
    }
    /// The node's bytes (fixed up) and the offsets of its entries within the root value or the record.
    pub fn node_bytes(&self, node: usize) -> (Vec<u8>, Vec<usize>) {
        if node == 0 {
            let v = self.root.clone();
            let e = entry_offsets(&v, 16 + g32(&v, 16) as usize, 16 + g32(&v, 20) as usize);
            (v, e)
        } else {
            let mut v = self.records[self.nodes[node].slot].clone().unwrap();
            unprotect(&mut v);
            let e = entry_offsets(&v, 24 + g32(&v, 24) as usize, 24 + g32(&v, 28) as usize);
            (v, e)
        }
    }
    /// Allocation bytes: all slots. Unused slots hold anything (here: zeros, garbage, or stale data).
    pub fn alloc_stream(&self, src: &mut Src, vol: &mut Vol, max_runs: u64) -> Stream {
        let cluster = vol.geo.cluster;
        let slots = (self.slots as u64).max(1);
        let mut s = if self.gap == 0 {
            alloc_stream(src, &mut vol.al, cluster, slots * self.irs, max_runs)
        } else {
            let before = self.gap_at as u64;
            let mut a = alloc_stream(src, &mut vol.al, cluster, before * self.irs, (max_runs / 2).max(1));
            a.runs.push(Run { lcn: None, len: self.gap * self.irs / cluster });
            let b = alloc_stream(src, &mut vol.al, cluster, (slots - before) * self.irs, (max_runs / 2).max(1));
            a.runs.extend(b.runs);
            a
        };
        s.data = self.total();
        s.init = s.data;
        for (i, r) in self.records.iter().enumerate() {
            let at = self.offset(i);
            if let Some(r) = r {
                s.store(&mut vol.disk, at, r);
            } else if src.bool() {
                s.store(&mut vol.disk, at, &vec![0u8; self.irs as usize]);
            }
        }
        s
    }
}

pub const I30: [u16; 4] = [b'$' as u16, b'I' as u16, b'3' as u16, b'0' as u16];

#[derive(Clone, Debug)]
pub struct DirEnt {
    pub fref: u64,
    pub key: FileNameV,
}
pub struct DirM {
    /// Entries in collation order.
    pub ents: Vec<DirEnt>,
    pub index: IndexM,
    pub stream: Option<Stream>,
    pub file: FileM,
}
pub struct DirOpts {
    pub max_entries: u64,
    pub max_name: usize,
    pub max_depth: usize,
    pub list_pct: u64,
    pub dup_pct: u64,
    pub rec: Option<u64>,
    pub small_irs: bool,
    /// The directory's own file name.
    pub named: Option<Vec<u16>>,
}
impl Default for DirOpts {
    fn default() -> Self {
        DirOpts { max_entries: 60, max_name: 255, max_depth: 4, list_pct: 15, dup_pct: 0, rec: None, small_irs: false, named: None }
    }
}

pub fn gen_fn(src: &mut Src, name: Vec<u16>, ns: u8) -> FileNameV {
    FileNameV {
        parent: fref(5, 5),
        times: [src.u64(), src.interesting(64), 2, 3],
        alloc: src.interesting(64),
        data: src.interesting(64),
        attrs: src.interesting(32) as u32,
        ea: 0,
        ns,
        name,
    }
}

/// A directory with arbitrary contents and tree shape.
pub fn gen_dir(src: &mut Src, vol: &mut Vol, o: &DirOpts) -> DirM {
    let irs = if o.small_irs { *src.pick(&[512u64, 1024]) } else { gen_irs(src, vol.geo.cluster) };
    // The longest name that fits any node of this index.
    let rec_cap = irs as usize - align8(48 + usa_len(irs as usize));
    let max_name = o.max_name.min((rec_cap - 24 - 8 - 16 - 66 - 24) / 2);
    // Enough long names to use more than 16 bits of a large record.
    let big = irs > 65536 && !src.chance(20);
    let n = if big { src.range(100, 400) } else { src.size(0, o.max_entries) } as usize;
    let mut names: BTreeMap<(Vec<u16>, Vec<u16>), ()> = BTreeMap::new();
    let mut keys_up: BTreeSet<Vec<u16>> = BTreeSet::new();
    let mut list: Vec<Vec<u16>> = vec![];
    for _ in 0..n {
        // New name, or a variation of a previous one (prefix, extension, one unit changed).
        let nm = if !list.is_empty() && src.chance(30) {
            let base = src.pick(&list).clone();
            match src.below(3) {
                0 => base[..src.usize(1, base.len())].to_vec(),
                1 => {
                    let mut b = base;
                    if b.len() < max_name {
                        b.push(gen_unit(src));
                    }
                    b
                }
                _ => {
                    let mut b = base;
                    let i = src.usize(0, b.len() - 1);
                    b[i] = gen_unit(src);
                    b
                }
            }
        } else if big {
            let mut b = gen_name(src, 1, 12.min(max_name));
            b.resize(max_name.max(12), b[0]);
            b
        } else {
            gen_name(src, 1, max_name)
        };
        let u = up(&vol.upcase, &nm);
        if keys_up.contains(&u) && !src.chance(o.dup_pct) {
            continue;
        }
        keys_up.insert(u.clone());
        list.push(nm.clone());
        names.insert((u, nm), ());
    }
    let ents: Vec<DirEnt> = names
        .into_keys()
        .map(|(_, nm)| {
            let ns = src.below(4) as u8;
            let fr = fref(src.interesting(48), src.interesting(16) as u16);
            let key = gen_fn(src, nm, ns);
            DirEnt { fref: fr, key }
        })
        .collect();
    make_dir(src, vol, o, irs, ents)
}

/// Builds the directory file for already ordered entries.
pub fn make_dir(src: &mut Src, vol: &mut Vol, o: &DirOpts, irs: u64, ents: Vec<DirEnt>) -> DirM {
    let items: Vec<Item> = ents
        .iter()
        .map(|e| Item { hdr8: e.fref, key: file_name(&e.key), data: vec![], pad: if src.chance(4) { *src.pick(&[8usize, 4, 2, 1, 16, 7]) } else { 0 } })
        .collect();
    // Base record budget: std info + name + root header + allocation + list.
    let cap = vol.cap();
    let root_cap = if cap > 500 { src.usize(48, cap - 350) } else { 48 };
    let t = TreeOpts {
        root_cap,
        max_depth: if irs > 65536 { 1 } else { src.usize(1, o.max_depth) },
        split_pct: *src.pick(&[20u64, 50, 85]),
        hole_pct: *src.pick(&[0u64, 25]),
        irregular: src.bool(),
    };
    let index = build_index(src, &items, irs, vol.geo.cluster, T_NAME, 1, &t);
    let mut attrs = vec![vol.std_attr(src)];
    if let Some(n) = &o.named {
        let f = gen_fn(src, n.clone(), 1);
        attrs.push(Attr::res(T_NAME, &[], file_name(&f)));
    }
    attrs.push(Attr::res(T_IROOT, &I30, index.root.clone()));
    let mut stream = None;
    if index.large {
        let max_runs = *src.pick(&[1u64, 3, 8]);
        let s = index.alloc_stream(src, vol, max_runs);
        let mut a = Attr::non(T_IALLOC, &I30, s.clone());
        if src.chance(o.list_pct * 2) {
            vol.gen_cuts(src, &mut a);
        }
        attrs.push(a);
        attrs.push(Attr::res(T_BITMAP, &I30, vec![0xFF; 8]));
        stream = Some(s);
    }
    let rec = match o.rec {
        Some(r) => r,
        None => vol.new_rec(src),
    };
    let seq = 1 + src.below(100) as u16;
    let stay = if src.bool() { 50 } else { 90 };
    let spec = FileSpec { rec, seq, links: 1, flags: 3, attrs, list_pct: o.list_pct, list_non_pct: 30, stay_pct: stay };
    let file = vol.add_file(src, spec);
    DirM { ents, index, stream, file }
}
