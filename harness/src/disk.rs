//! A sparse virtual disk. Bytes nobody wrote have a position-dependent pseudo random value, so a
//! stream's content can simply *be* the disk's background at its clusters: any misplaced read shows.

use crate::engine::{mix, Budget};
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone)]
pub struct Disk {
    pub seed: u64,
    pub len: u64,
    /// Non-overlapping written extents.
    pub blobs: BTreeMap<u64, Vec<u8>>,
}

impl Disk {
    pub fn new(seed: u64, len: u64) -> Self {
        Disk { seed, len, blobs: BTreeMap::new() }
    }
    pub fn from_image(image: Vec<u8>) -> Self {
        let len = image.len() as u64;
        let mut blobs = BTreeMap::new();
        blobs.insert(0, image);
        Disk { seed: 0, len, blobs }
    }
    fn bg_word(&self, w: u64) -> u64 {
        mix(w ^ self.seed)
    }
    fn fill_bg(&self, pos: u64, buf: &mut [u8]) {
        let mut i = 0usize;
        while i < buf.len() {
            let p = pos + i as u64;
            let w = self.bg_word(p / 8).to_le_bytes();
            let o = (p % 8) as usize;
            let n = (8 - o).min(buf.len() - i);
            buf[i..i + n].copy_from_slice(&w[o..o + n]);
            i += n;
        }
    }
    /// Reads up to buf.len() bytes at pos, limited by the device end.
    pub fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize {
        if pos >= self.len {
            return 0;
        }
        let n = (self.len - pos).min(buf.len() as u64) as usize;
        let buf = &mut buf[..n];
        let end = pos + n as u64;
        // Fast path: fully inside one blob.
        if let Some((s, b)) = self.blobs.range(..=pos).next_back() {
            if *s + b.len() as u64 >= end {
                let o = (pos - *s) as usize;
                buf.copy_from_slice(&b[o..o + n]);
                return n;
            }
        }
        self.fill_bg(pos, buf);
        let first = self.blobs.range(..=pos).next_back().map(|(s, _)| *s).unwrap_or(pos);
        for (s, b) in self.blobs.range(first..end) {
            let bs = *s;
            let be = bs + b.len() as u64;
            let lo = bs.max(pos);
            let hi = be.min(end);
            if lo < hi {
                buf[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&b[(lo - bs) as usize..(hi - bs) as usize]);
            }
        }
        n
    }
    pub fn get(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        let got = self.read_at(pos, &mut v);
        v.truncate(got);
        v
    }
    /// Writes a new extent; overlapping extents are patched.
    pub fn write(&mut self, pos: u64, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        let end = pos + data.len() as u64;
        let first = self.blobs.range(..=pos).next_back().map(|(s, _)| *s).unwrap_or(pos);
        let overlaps = self.blobs.range(first..end).any(|(s, b)| *s < end && *s + b.len() as u64 > pos);
        if !overlaps {
            self.blobs.insert(pos, data.to_vec());
            return;
        }
        // Patch bytes covered by existing extents, insert the rest.
        let keys: Vec<(u64, u64)> = self
            .blobs
            .range(first..end)
            .map(|(s, b)| (*s, *s + b.len() as u64))
            .filter(|(s, e)| *s < end && *e > pos)
            .collect();
        let mut cur = pos;
        for (s, e) in keys {
            if cur < s {
                self.blobs.insert(cur, data[(cur - pos) as usize..(s - pos) as usize].to_vec());
                cur = s;
            }
            let hi = e.min(end);
            if cur < hi {
                let b = self.blobs.get_mut(&s).unwrap();
                b[(cur - s) as usize..(hi - s) as usize].copy_from_slice(&data[(cur - pos) as usize..(hi - pos) as usize]);
                cur = hi;
            }
        }
        if cur < end {
            self.blobs.insert(cur, data[(cur - pos) as usize..].to_vec());
        }
    }
    pub fn reader(&self) -> Dev<'_> {
        Dev::new(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// Return at most n bytes.
    Short(usize),
    Interrupted,
    Error,
    /// Return Ok(0) (as at the end of the device).
    Eof,
}

/// A reader over a `Disk` with an I/O budget, an optional fault schedule and an access log.
pub struct Dev<'d> {
    pub disk: &'d Disk,
    pub pos: u64,
    pub ops: u64,
    pub bytes: u64,
    pub max_ops: u64,
    pub max_bytes: u64,
    /// Fault for the n-th read call (counted from `ops`).
    pub faults: Vec<Fault>,
    pub fault_idx: usize,
    pub faults_hit: u64,
    pub seek_faults: bool,
    pub log: Option<Vec<(u64, u64)>>,
    /// The device ends here (if earlier than the disk does).
    pub cut: u64,
    /// Reads that start outside these ranges fail (bad sectors).
    pub only: Option<Vec<(u64, u64)>>,
}

pub const FAULT_MSG: &str = "injected device error";

impl<'d> Dev<'d> {
    pub fn new(disk: &'d Disk) -> Self {
        Dev {
            disk,
            pos: 0,
            ops: 0,
            bytes: 0,
            max_ops: 3_000_000,
            max_bytes: 8 << 30,
            faults: vec![],
            fault_idx: 0,
            faults_hit: 0,
            seek_faults: false,
            log: None,
            cut: u64::MAX,
            only: None,
        }
    }
    fn tick(&mut self, n: u64) {
        crate::engine::touched();
        self.ops += 1;
        self.bytes += n;
        if self.ops > self.max_ops || self.bytes > self.max_bytes {
            let m = format!("more I/O than any bounded operation needs: {} calls, {} bytes", self.ops, self.bytes);
            std::panic::panic_any(Budget(m));
        }
    }
    pub fn reset_budget(&mut self, ops: u64, bytes: u64) {
        self.ops = 0;
        self.bytes = 0;
        self.max_ops = ops;
        self.max_bytes = bytes;
    }
}

impl<'d> Read for Dev<'d> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut want = buf.len();
        let f = self.faults.get(self.fault_idx).copied().unwrap_or(Fault::None);
        self.fault_idx += 1;
        match f {
            Fault::None => {}
            Fault::Short(n) => {
                if n < want {
                    self.faults_hit += 1;
                    want = n.max(1).min(want);
                }
            }
            Fault::Interrupted => {
                self.faults_hit += 1;
                self.tick(0);
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            Fault::Error => {
                self.faults_hit += 1;
                self.tick(0);
                return Err(io::Error::new(io::ErrorKind::Other, FAULT_MSG));
            }
            Fault::Eof => {
                if want > 0 {
                    self.faults_hit += 1;
                }
                self.tick(0);
                return Ok(0);
            }
        }
        if let Some(r) = &self.only {
            if want > 0 && !r.iter().any(|(a, b)| *a <= self.pos && self.pos < *b) {
                self.faults_hit += 1;
                self.tick(0);
                return Err(io::Error::new(io::ErrorKind::Other, FAULT_MSG));
            }
        }
        want = want.min(self.cut.saturating_sub(self.pos).min(usize::MAX as u64) as usize);
        let n = self.disk.read_at(self.pos, &mut buf[..want]);
        if let Some(l) = &mut self.log {
            l.push((self.pos, n as u64));
        }
        self.tick(n as u64);
        self.pos += n as u64;
        Ok(n)
    }
}
impl<'d> Seek for Dev<'d> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick(0);
        if self.seek_faults {
            let f = self.faults.get(self.fault_idx).copied().unwrap_or(Fault::None);
            if f == Fault::Error {
                self.fault_idx += 1;
                self.faults_hit += 1;
                return Err(io::Error::new(io::ErrorKind::Other, FAULT_MSG));
            }
        }
        let n = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            SeekFrom::End(n) => self.disk.len.checked_add_signed(n),
        };
        match n {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}
