//! Property-based testing engine: a choice tape ("Hypothesis style") with internal shrinking.
//!
//! Every random decision of a generator is one `draw` on a `Src`. In random mode the values come
//! from a PRNG seeded with (VERIF_SEED, property, case index) and are recorded; the record *is*
//! the test case. Replay and shrinking feed a (modified) record back to the very same function.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// Thrown (as a panic payload) when a generator asks for more choices than a case may have.
pub struct Overrun;
/// Thrown by the budgeted reader when the code under test performs more I/O than allowed.
pub struct Budget(pub String);

const MAX_CHOICES: usize = 400_000;

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: None, tape, pos: 0, rec: vec![] }
    }
    /// The tape, and random values after its end.
    pub fn mixed(tape: Vec<u64>, seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), tape, pos: 0, rec: vec![] }
    }
    fn taped(&mut self) -> Option<u64> {
        let v = self.tape.get(self.pos).copied();
        self.pos += 1;
        v
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match (self.taped(), &mut self.rng) {
            (Some(v), _) => {
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
            (None, Some(r)) => {
                if n == 1 {
                    0
                } else {
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
            }
            (None, None) => 0,
        };
        self.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match (self.taped(), &mut self.rng) {
            (Some(v), _) => v,
            (None, Some(r)) => r.next(),
            (None, None) => 0,
        };
        self.push(v);
        v
    }
    fn push(&mut self, v: u64) {
        self.rec.push(v);
        if self.rec.len() > MAX_CHOICES {
            std::panic::panic_any(Overrun);
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability p/100; shrinks towards false.
    pub fn chance(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index chosen with the given integer weights; the first is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A size in lo..=hi biased to small values (one of several magnitudes).
    pub fn size(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        let bits = 64 - span.leading_zeros() as u64; // 0..=64
        let b = self.below(bits + 1);
        let cap = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 }.min(span);
        lo + self.range(0, cap)
    }
    /// A value of `bits` bits with a bias to boundary values.
    pub fn interesting(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(8) {
            0 => self.below(17),
            1 => self.below(300),
            2 => mask.wrapping_sub(self.below(17)),
            3 => (mask >> 1).wrapping_add(self.below(9)).wrapping_sub(4),
            4 => {
                let k = self.below(bits as u64);
                (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2)
            }
            5 => self.size(0, mask),
            _ => self.u64(),
        };
        v & mask
    }
    /// Fisher-Yates permutation.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u64) as usize;
            v.swap(i, j);
        }
        v
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Coarse root-cause key (used while shrinking to stay on the same failure).
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::engine::Fail { sig: String::from($sig), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail { sig: String::from($sig), msg: format!($($a)*) }); } };
}

/// Per-case context: classification and human readable description.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub desc: String,
    pub want_desc: bool,
    /// Identity of the case for `distinct` counting (0: use the hash of the tape).
    pub key: u64,
    /// Recorded findings this case ran into.
    pub known: Vec<&'static str>,
}
impl Ctx {
    /// The case shows this defect: accepted only if the known-findings file lists it.
    pub fn known(&mut self, id: &'static str) {
        if !self.known.contains(&id) {
            self.known.push(id);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    pub static BACKTRACE: RefCell<bool> = RefCell::new(false);
    /// Whether the code under test has read from a device in this case.
    static TOUCHED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
thread_local! {
    static OBS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
thread_local! {
    /// The observed results themselves, if wanted.
    pub static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
/// Adds a result of the code under test to the digest of the case (see C22).
pub fn obs(b: &[u8]) {
    TRACE.with(|t| {
        if let Some(t) = &mut *t.borrow_mut() {
            let text = b.len() <= 200 && b.iter().all(|c| (32..127).contains(c));
            let s = if text { String::from_utf8_lossy(b).into_owned() } else { format!("{} bytes, hash {:016x}: {:02x?}", b.len(), hash_bytes(0, b), &b[..b.len().min(16)]) };
            t.push(s);
        }
    });
    OBS.with(|o| o.set(hash_bytes(o.get(), b)));
}
pub fn digest() -> u64 {
    OBS.with(|o| o.get())
}
/// Called by the readers given to the code under test.
pub fn touched() {
    TOUCHED.with(|t| t.set(true));
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if BACKTRACE.with(|b| *b.borrow()) && p.downcast_ref::<Overrun>().is_none() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// The known-findings file: (property, id, what fails) of every finding that is not repaired.
pub fn findings() -> &'static Vec<(String, String, String)> {
    static F: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let text = std::fs::read_to_string(format!("{dir}/KNOWN-FINDINGS.txt")).unwrap_or_default();
        text.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, l) = l.split_once(" id=")?;
                let (id, what) = l.split_once(' ')?;
                Some((p.to_string(), id.to_string(), what.to_string()))
            })
            .collect()
    })
}
fn listed(id: &str) -> bool {
    findings().iter().any(|f| f.1 == id)
}

pub enum Outcome {
    Pass,
    Fail(Fail),
    /// The generator ran out of choices; the case does not count.
    Discard,
    /// A bug of this harness, not of the code under test.
    Harness(String),
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> R;

/// Runs one case and classifies panics.
pub fn run_case(f: PropFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    crate::alloc_track::reset();
    TOUCHED.with(|t| t.set(false));
    OBS.with(|o| o.set(0));
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(Ok(())) => match ctx.known.iter().find(|k| !listed(k)) {
            Some(k) => Outcome::Fail(Fail { sig: k.to_string(), msg: format!("{k} (not listed in KNOWN-FINDINGS.txt)") }),
            None => Outcome::Pass,
        },
        Ok(Err(e)) => {
            if e.sig.starts_with("HARNESS") {
                Outcome::Harness(e.msg)
            } else {
                Outcome::Fail(e)
            }
        }
        Err(p) => {
            if p.is::<Overrun>() {
                return Outcome::Discard;
            }
            if let Some(b) = p.downcast_ref::<Budget>() {
                return Outcome::Fail(Fail { sig: "unbounded-io".into(), msg: b.0.clone() });
            }
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            // Paths of this crate are relative ("src/..."), those of the code under test are not.
            if loc.starts_with("src/") {
                // A comparison that stumbles over a result of the code under test (say, a slice
                // index out of the reported length): the result was not what it has to be.
                if TOUCHED.with(|t| t.get()) {
                    let m = format!("unexpected result, met at {loc}: {msg}");
                    return Outcome::Fail(Fail { sig: format!("unexpected@{}", strip_line(&loc)), msg: m });
                }
                return Outcome::Harness(format!("harness panic at {loc}: {msg}"));
            }
            Outcome::Fail(Fail { sig: format!("panic@{}", strip_line(&loc)), msg: format!("panic at {loc}: {msg}") })
        }
    }
}
fn strip_line(loc: &str) -> String {
    loc.split(':').take(2).collect::<Vec<_>>().join(":")
}

/// Shrinks a failing tape; every candidate is run through the property itself.
pub fn shrink(f: PropFn, tape: Vec<u64>, fail: &Fail, max_runs: usize) -> (Vec<u64>, Fail, usize) {
    let sig = fail.sig.clone();
    let mut best = tape;
    let mut best_fail = fail.clone();
    let mut runs = 0usize;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let try_tape = |cand: Vec<u64>, best: &mut Vec<u64>, best_fail: &mut Fail, runs: &mut usize| -> bool {
        if *runs >= max_runs || std::time::Instant::now() > deadline {
            return false;
        }
        *runs += 1;
        let mut s = Src::replay(cand);
        let mut c = Ctx::default();
        if let Outcome::Fail(e) = run_case(f, &mut s, &mut c) {
            if e.sig == sig && (s.rec.len() < best.len() || (s.rec.len() == best.len() && s.rec < *best)) {
                *best = s.rec;
                *best_fail = e;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // 1. Delete blocks.
        let mut size = best.len().next_power_of_two().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_tape(c, &mut best, &mut best_fail, &mut runs) {
                    i += size;
                }
            }
            size /= 2;
        }
        // 2. Zero blocks.
        let mut size = 32;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    try_tape(c, &mut best, &mut best_fail, &mut runs);
                }
                i += size;
            }
            size /= 2;
        }
        // 3. Lower values (and lower + delete what follows, for collection sizes).
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                // binary search for a smaller failing value
                while lo < hi {
                    let m = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = m;
                    if try_tape(c, &mut best, &mut best_fail, &mut runs) {
                        hi = m;
                    } else {
                        lo = m + 1;
                    }
                    if runs >= max_runs {
                        break;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    for d in [1usize, 2, 3, 4, 6, 8] {
                        if i + 1 + d <= best.len() && best[i] > 0 {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(i + 1..i + 1 + d);
                            if try_tape(c, &mut best, &mut best_fail, &mut runs) {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= max_runs || std::time::Instant::now() > deadline {
            break;
        }
    }
    (best, best_fail, runs)
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Labels = BTreeMap<String, u64>;
