//! Coverage-guided search over choice tapes. Built with SanitizerCoverage (see check.sh), the edge
//! counters of the code under test say which cases reached something new; those are kept, and new
//! cases are made by editing their tapes. One process per thread, as the counters are global.

use crate::engine::*;
use crate::props::Prop;
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[cfg(feature = "guided")]
mod cov {
    //! The callbacks of SanitizerCoverage.
    static mut RANGES: [(usize, usize); 64] = [(0, 0); 64];
    static mut COUNT: usize = 0;
    /// Value profile: how close the operands of each comparison have come.
    pub static mut CMP: [u8; 1 << 16] = [0; 1 << 16];
    /// Operands of recent comparisons with constants.
    pub static mut CONSTS: [u64; 64] = [0; 64];
    pub static mut NEXT: usize = 0;

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: usize, stop: usize) {
        unsafe {
            if start < stop && COUNT < 64 && !(0..COUNT).any(|i| RANGES[i] == (start, stop)) {
                RANGES[COUNT] = (start, stop);
                COUNT += 1;
            }
        }
    }
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_pcs_init(_: usize, _: usize) {}

    #[inline(always)]
    fn cmp(a: u64, b: u64, constant: bool) {
        unsafe {
            let ret: u64;
            // Built with frame pointers: the caller of the callback.
            core::arch::asm!("mov {}, [rbp + 8]", out(reg) ret, options(nostack, readonly));
            let d = (a ^ b).count_ones() as u64;
            let h = (ret ^ (ret >> 16)).wrapping_mul(0x9E37_79B1).wrapping_add(d * 7919) & 0xFFFF;
            CMP[h as usize] = 1;
            if constant && a != b {
                CONSTS[NEXT & 63] = a;
                NEXT = NEXT.wrapping_add(1);
            }
        }
    }
    macro_rules! callbacks {
        ($($n:ident $c:ident $t:ty),*) => { $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $n(a: $t, b: $t) {
                cmp(a as u64, b as u64, false);
            }
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $c(a: $t, b: $t) {
                cmp(a as u64, b as u64, true);
            }
        )* };
    }
    callbacks!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64);
    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

    pub fn counters() -> Vec<&'static mut [u8]> {
        unsafe { (0..COUNT).map(|i| std::slice::from_raw_parts_mut(RANGES[i].0 as *mut u8, RANGES[i].1 - RANGES[i].0)).collect() }
    }
    pub fn compares() -> &'static mut [u8] {
        unsafe { &mut *std::ptr::addr_of_mut!(CMP) }
    }
    pub fn consts() -> [u64; 64] {
        unsafe { CONSTS }
    }
}
#[cfg(not(feature = "guided"))]
mod cov {
    pub fn counters() -> Vec<&'static mut [u8]> {
        vec![]
    }
    pub fn compares() -> &'static mut [u8] {
        &mut []
    }
    pub fn consts() -> [u64; 64] {
        [0; 64]
    }
}

const MAX_CORPUS: usize = 3000;

struct Item {
    tape: Vec<u64>,
    /// How often it was chosen, and how often that led to something new.
    tried: u32,
    cost: u32,
}

/// What the coverage says about the last case: 2 new edges or counts, 1 only a closer comparison.
struct Virgin {
    edges: Vec<u8>,
    cmps: Vec<u8>,
}
fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
impl Virgin {
    fn clear() {
        for c in cov::counters() {
            c.fill(0);
        }
        cov::compares().fill(0);
    }
    fn update(&mut self) -> (u32, u32) {
        let (mut new, mut near) = (0, 0);
        let mut k = 0;
        for c in cov::counters() {
            if self.edges.len() < k + c.len() {
                self.edges.resize(k + c.len(), 0);
            }
            let e = &mut self.edges[k..k + c.len()];
            for (c8, e8) in c.chunks(8).zip(e.chunks_mut(8)) {
                if c8.iter().all(|x| *x == 0) {
                    continue;
                }
                for (x, v) in c8.iter().zip(e8) {
                    let b = bucket(*x);
                    if b & !*v != 0 {
                        *v |= b;
                        new += 1;
                    }
                }
            }
            k += c.len();
        }
        let m = cov::compares();
        self.cmps.resize(m.len(), 0);
        for (x, v) in m.iter().zip(self.cmps.iter_mut()) {
            if *x != 0 && *v == 0 {
                *v = 1;
                near += 1;
            }
        }
        (new, near)
    }
}

fn edit(rng: &mut Rng, corpus: &[Item], at: usize) -> Vec<u64> {
    let mut t = corpus[at].tape.clone();
    let mut below = |n: usize| ((rng.next() as u128 * n.max(1) as u128) >> 64) as usize;
    let mut times = 1 + below(4);
    if below(4) == 0 {
        times += below(12);
    }
    for _ in 0..times {
        if t.is_empty() {
            break;
        }
        let i = below(t.len());
        match below(14) {
            0..=2 => t[i] = ((below(1 << 32) as u64) << 32) | below(1 << 32) as u64,
            3 | 4 => t[i] = below(20) as u64,
            5 => t[i] = t[i].wrapping_add(1 + below(8) as u64),
            6 => t[i] = t[i].wrapping_sub(1 + below(8) as u64),
            7 => {
                let c = cov::consts();
                t[i] = c[below(64)].wrapping_add(below(3) as u64).wrapping_sub(1);
            }
            8 => {
                let n = (1 + below(8)).min(t.len() - i);
                t.drain(i..i + n);
            }
            9 => {
                let n = (1 + below(16)).min(t.len() - i);
                let b: Vec<u64> = t[i..i + n].to_vec();
                let j = below(t.len() + 1);
                t.splice(j..j, b);
            }
            10 => {
                let o = &corpus[below(corpus.len())].tape;
                if !o.is_empty() {
                    let j = if below(2) == 0 { i.min(o.len() - 1) } else { below(o.len()) };
                    let n = (1 + below(40)).min(o.len() - j).min(t.len() - i);
                    t[i..i + n].copy_from_slice(&o[j..j + n]);
                }
            }
            11 => {
                // The rest comes from another one.
                let o = &corpus[below(corpus.len())].tape;
                t.truncate(i);
                if i < o.len() {
                    t.extend_from_slice(&o[i..]);
                }
            }
            12 => t.truncate(i),
            _ => {
                let n = (1 + below(6)).min(t.len() - i);
                for x in &mut t[i..i + n] {
                    *x = ((below(1 << 32) as u64) << 32) | below(1 << 32) as u64;
                }
            }
        }
    }
    t
}

/// One searching process. Writes `out.guided` (the tape being run) and, if a case fails, `out.tape`.
pub fn search(p: &'static Prop, seed: u64, part: u64, cases: u64, secs: u64, out: &str) -> i32 {
    install_hook();
    let progress = std::fs::File::create(format!("{out}.guided")).expect("progress file");
    let t0 = Instant::now();
    let started = std::sync::Arc::new(AtomicU64::new(0));
    let s2 = started.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let v = s2.load(SeqCst);
        if v != 0 && t0.elapsed().as_millis() as u64 > v + 60_000 {
            std::process::exit(3);
        }
    });
    let out = out.to_string();
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let base = mix(hash_bytes(seed.wrapping_mul(0xA24B_AED4) ^ part, p.id.as_bytes()));
        let mut rng = Rng::new(base);
        let mut virgin = Virgin { edges: vec![], cmps: vec![] };
        let mut corpus: Vec<Item> = vec![];
        let mut distinct: HashSet<u64> = HashSet::new();
        let (mut runs, mut discards, mut nontrivial) = (0u64, 0u64, 0u64);
        let (mut slow, mut found_edges) = (0u64, 0u64);
        let warm = (cases / 10).clamp(50, 2000);
        while runs < cases && t0.elapsed().as_secs() < secs {
            runs += 1;
            let tail = rng.next();
            let fresh = corpus.is_empty() || runs <= warm || rng.next() % 16 == 0;
            let tape = if fresh {
                vec![]
            } else {
                // Mostly the recent or little tried ones.
                let n = corpus.len() as u64;
                let a = (rng.next() % n) as usize;
                let b = (n - 1 - rng.next() % n.min(50)) as usize;
                let c = (rng.next() % n) as usize;
                let k = match rng.next() % 3 {
                    0 => b,
                    1 if (corpus[a].tried, corpus[a].cost) > (corpus[c].tried, corpus[c].cost) => c,
                    _ => a,
                };
                corpus[k].tried += 1;
                edit(&mut rng, &corpus, k)
            };
            let mut raw = Vec::with_capacity(tape.len() * 8 + 16);
            raw.extend_from_slice(&tail.to_le_bytes());
            raw.extend_from_slice(&(tape.len() as u64).to_le_bytes());
            for x in &tape {
                raw.extend_from_slice(&x.to_le_bytes());
            }
            let _ = progress.write_all_at(&raw, 0);
            let mut src = Src::mixed(tape, tail);
            let mut ctx = Ctx::default();
            Virgin::clear();
            started.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
            let c0 = Instant::now();
            let r = run_case(p.f, &mut src, &mut ctx);
            let us = c0.elapsed().as_micros() as u64;
            started.store(0, SeqCst);
            let (new, near) = virgin.update();
            slow = slow.max(us);
            match r {
                Outcome::Discard => {
                    discards += 1;
                    continue;
                }
                Outcome::Harness(m) => {
                    eprintln!("guided case: {m}");
                    return 2;
                }
                Outcome::Fail(e) => {
                    let t = src.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                    let _ = std::fs::write(format!("{out}.tape"), t);
                    eprintln!("guided search: {}: {}", e.sig, e.msg);
                    return 1;
                }
                Outcome::Pass => {}
            }
            if ctx.nontrivial {
                nontrivial += 1;
                if distinct.len() < 1_000_000 {
                    distinct.insert(src.rec.iter().fold(0, |h, v| mix(h ^ *v)));
                }
            }
            found_edges += new as u64;
            if (new > 0 || near > 0) && us < 200_000 && src.rec.len() < 50_000 {
                if corpus.len() >= MAX_CORPUS {
                    let k = (rng.next() % corpus.len() as u64) as usize;
                    corpus.swap_remove(k);
                }
                corpus.push(Item { tape: src.rec, tried: 0, cost: us as u32 });
            }
        }
        let edges = virgin.edges.iter().filter(|x| **x != 0).count();
        let cmps = virgin.cmps.iter().filter(|x| **x != 0).count();
        println!(
            "{runs} {discards} {nontrivial} {} {} {edges} {} {cmps} {found_edges} {slow}",
            distinct.len(),
            corpus.len(),
            virgin.edges.len()
        );
        let _ = std::io::stdout().flush();
        0
    });
    h.unwrap().join().unwrap_or(2)
}
