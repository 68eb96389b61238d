//! Drives properties: fixed number of cases per tier over 8 threads in a child process, isolation of
//! crashes and hangs, shrinking, replay files and evidence.

use crate::engine::*;
use crate::props::{self, Prop};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const STACK: usize = 4 << 20;
/// CPU seconds an isolated case may use; normal cases need milliseconds.
const CPU_LIMIT: u64 = 40;
const STALL: Duration = Duration::from_secs(60);

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Cfg {
    id: String,
    tier: String,
    seed: u64,
    cases: u64,
    secs: u64,
    skip: Vec<u64>,
}

fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(hash_bytes(seed.wrapping_mul(0x9E37_79B9), id.as_bytes()) ^ mix(i.wrapping_add(1)))
}
fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn parse(args: &[String]) -> Cfg {
    let id = args.first().cloned().unwrap_or_default();
    let env = |k: &str| std::env::var(k).ok();
    let tier = opt(args, "--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
    let seed_s = opt(args, "--seed").or(env("VERIF_SEED")).unwrap_or("1".into());
    let seed = seed_s.parse::<u64>().unwrap_or_else(|_| hash_bytes(0, seed_s.as_bytes()) >> 1);
    let p = props::find(&id);
    let cases = opt(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(match (&p, tier.as_str()) {
        (Some(p), "thorough") => p.thorough,
        (Some(p), _) => p.quick,
        _ => 0,
    });
    let secs = opt(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 6 * 3600 } else { 540 });
    let skip = opt(args, "--skip").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    Cfg { id, tier, seed, cases, secs, skip }
}

pub fn main(args: Vec<String>) -> i32 {
    let cmd = args.first().cloned().unwrap_or_default();
    let rest = if args.is_empty() { &args[..] } else { &args[1..] };
    match cmd.as_str() {
        "check" => check(parse(rest)),
        "worker" => worker(parse(rest), opt(rest, "--out").unwrap()),
        "guided" => {
            let cfg = parse(rest);
            let p = props::find(&cfg.id).expect("property");
            let part = opt(rest, "--part").and_then(|x| x.parse().ok()).unwrap_or(0);
            crate::guided::search(p, cfg.seed, part, cfg.cases, cfg.secs, &opt(rest, "--out").unwrap())
        }
        "tape" => tape(&rest[0]),
        "one" => one(parse(rest), opt(rest, "--case").unwrap().parse().unwrap()),
        "replay" => replay(&rest[0]),
        "list" => {
            for p in props::all() {
                println!("{} quick={} thorough={} directed={}", p.id, p.quick, p.thorough, p.directed.len());
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <ID> [--tier quick|thorough] [--seed N] [--cases N] | replay <file> | list");
            2
        }
    }
}

// ------------------------------------------------------------------ replay files

struct Found {
    /// Case index, or u64::MAX - k for the k-th directed case.
    case: u64,
    tape: Vec<u64>,
    fail: Fail,
    desc: String,
}
/// Not a numbered case but one of the coverage-guided search.
const GUIDED: u64 = u64::MAX / 2 + 1;
fn directed_case(k: usize) -> u64 {
    u64::MAX - k as u64
}
fn case_name(p: &Prop, case: u64) -> String {
    if case == GUIDED {
        return "guided".into();
    }
    let k = (u64::MAX - case) as usize;
    if k < p.directed.len() {
        format!("directed:{}", p.directed[k].0)
    } else {
        format!("{case}")
    }
}
fn case_fn(p: &Prop, case: u64) -> PropFn {
    let k = (u64::MAX - case) as usize;
    if k < p.directed.len() {
        p.directed[k].1
    } else {
        p.f
    }
}
fn write_replay(p: &Prop, cfg: &Cfg, f: &Found) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let mut h = hash_bytes(0, f.fail.sig.as_bytes());
    for t in &f.tape {
        h = mix(h ^ *t);
    }
    let path = format!("{dir}/{}-{:012x}.json", p.id, h & 0xFFFF_FFFF_FFFF);
    let tape = f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let s = format!(
        "{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"sig\": {},\n \"message\": {},\n \"description\": {},\n \"tape\": [{}]\n}}\n",
        js(p.id),
        js(&case_name(p, f.case)),
        cfg.seed,
        js(&f.fail.sig),
        js(&f.fail.msg),
        js(&f.desc),
        tape
    );
    let _ = std::fs::write(&path, s);
    path
}
fn field(s: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\":");
    let i = s.find(&k)? + k.len();
    let t = s[i..].trim_start();
    if let Some(r) = t.strip_prefix('"') {
        let e = r.find('"')?;
        Some(r[..e].to_string())
    } else if let Some(r) = t.strip_prefix('[') {
        let e = r.find(']')?;
        Some(r[..e].to_string())
    } else {
        let e = t.find([',', '\n', '}'])?;
        Some(t[..e].trim().to_string())
    }
}
fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let id = field(&s, "property").unwrap_or_default();
    let Some(p) = props::find(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let case = field(&s, "case").unwrap_or_default();
    if matches!(field(&s, "sig").as_deref(), Some("hang" | "crash")) {
        // The case never finished, so there is no whole tape: run it again by its number, or with
        // the beginning of its tape.
        if case == "guided" {
            return match isolate_tape(&id, path) {
                Some(why) => {
                    println!("{why}");
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
                None => {
                    println!("property {id} held on this case");
                    0
                }
            };
        }
        let seed = field(&s, "seed").and_then(|x| x.parse().ok()).unwrap_or(1);
        let Ok(n) = case.parse() else { return 2 };
        let cfg = Cfg { id: id.clone(), tier: "quick".into(), seed, cases: 0, secs: 0, skip: vec![] };
        return match isolate(&cfg, n) {
            Some(why) => {
                println!("{why}");
                println!("VIOLATION property={id} replay={path}");
                1
            }
            None => {
                println!("property {id} held on this case");
                0
            }
        };
    }
    let tape: Vec<u64> = field(&s, "tape").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let f = match case.strip_prefix("directed:") {
        Some(n) => match p.directed.iter().find(|d| d.0 == n) {
            Some(d) => d.1,
            None => {
                eprintln!("unknown directed case {n}");
                return 2;
            }
        },
        None => p.f,
    };
    install_hook();
    set_cpu_limit(CPU_LIMIT * 3);
    BACKTRACE.with(|b| *b.borrow_mut() = std::env::var("RUST_BACKTRACE").is_ok());
    let mut src = Src::replay(tape);
    let mut ctx = Ctx { want_desc: true, ..Default::default() };
    match run_case(f, &mut src, &mut ctx) {
        Outcome::Fail(e) => {
            println!("case: {}", ctx.desc);
            println!("{}: {}", e.sig, e.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
        Outcome::Discard => {
            println!("discarded");
            0
        }
        Outcome::Pass => {
            println!("case: {}", ctx.desc);
            println!("property {} held on this case", p.id);
            0
        }
    }
}

fn set_cpu_limit(_secs: u64) {
    // Applied by the parent through the shell's ulimit (no libc dependency here).
}

// ------------------------------------------------------------------ isolated single case

/// Runs one case alone, without shrinking. Exit 0 pass, 1 fail, 2 harness error; may crash.
fn one(cfg: Cfg, case: u64) -> i32 {
    let p = props::find(&cfg.id).expect("property");
    install_hook();
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        BACKTRACE.with(|b| *b.borrow_mut() = std::env::var("RUST_BACKTRACE").is_ok());
        let mut src = Src::random(case_seed(p.id, cfg.seed, case));
        let mut ctx = Ctx { want_desc: true, ..Default::default() };
        let r = run_case(case_fn(p, case), &mut src, &mut ctx);
        println!("labels {:?} nontrivial {} peak {} choices {}", ctx.labels, ctx.nontrivial, crate::alloc_track::peak(), src.rec.len());
        println!("desc: {}", ctx.desc);
        match r {
            Outcome::Pass => 0,
            Outcome::Discard => {
                println!("discard");
                0
            }
            Outcome::Harness(m) => {
                println!("harness: {m}");
                2
            }
            Outcome::Fail(e) => {
                println!("fail {}: {}", e.sig, e.msg);
                1
            }
        }
    });
    h.unwrap().join().unwrap_or(2)
}

/// Re-runs a suspicious case alone: Some(reason) if it crashes or exceeds the CPU limit again.
fn isolate(cfg: &Cfg, case: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let sh = format!(
        "ulimit -c 0; ulimit -t {CPU_LIMIT}; exec '{}' one {} --seed {} --case {}",
        exe.display(),
        cfg.id,
        cfg.seed,
        case
    );
    let out = Command::new("sh").arg("-c").arg(sh).stdin(std::process::Stdio::null()).output().ok()?;
    died(&out)
}
fn died(out: &std::process::Output) -> Option<String> {
    if let Some(s) = out.status.signal() {
        let err = String::from_utf8_lossy(&out.stderr);
        let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
        return Some(match s {
            24 | 9 => format!("hang: the case used more than {CPU_LIMIT} s of CPU time (normal cases need milliseconds)"),
            _ => format!("crash: the process died with signal {s} ({tail})"),
        });
    }
    None
}

/// Runs the case of a file with the beginning of its tape and the seed of the rest.
fn tape(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let Some(p) = props::find(&field(&s, "property").unwrap_or_default()) else { return 2 };
    let tape: Vec<u64> = field(&s, "tape").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let tail = field(&s, "seed").and_then(|x| x.parse().ok()).unwrap_or(0);
    install_hook();
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let r = run_case(p.f, &mut Src::mixed(tape, tail), &mut Ctx::default());
        matches!(r, Outcome::Fail(_)) as i32
    });
    h.unwrap().join().unwrap_or(2)
}
fn isolate_tape(id: &str, path: &str) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let sh = format!("ulimit -c 0; ulimit -t {CPU_LIMIT}; exec '{}' tape '{path}'", exe.display());
    let out = Command::new("sh").arg("-c").arg(sh).stdin(std::process::Stdio::null()).output().ok()?;
    died(&out).map(|why| format!("{id}: {why}"))
}

// ------------------------------------------------------------------ coverage-guided stage

/// Searches with the instrumented build. Returns the exit code and the evidence.
fn guided(p: &'static Prop, cfg: &Cfg, exe: &str, base: &str) -> (i32, String) {
    let secs = opt_env("VERIF_GUIDED_SECS").unwrap_or(if cfg.tier == "thorough" { 1200 } else { 40 });
    let cases = opt_env("VERIF_GUIDED_CASES").unwrap_or(if cfg.tier == "thorough" { u64::MAX } else { p.quick / 80 });
    let t0 = Instant::now();
    let mut kids = vec![];
    for part in 0..THREADS {
        let out = format!("{base}.{part}");
        let sh = format!(
            "ulimit -c 0; exec '{exe}' guided {} --seed {} --part {part} --cases {cases} --secs {secs} --out '{out}'",
            p.id, cfg.seed
        );
        let kid = Command::new("sh").arg("-c").arg(sh).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn();
        if let Ok(k) = kid {
            kids.push((out, k));
        }
    }
    let mut sums = [0u64; 10];
    let (mut edges, mut cmps, mut slow, mut ended) = (0, 0, 0, 0);
    let mut verdict: Option<(String, Found, bool)> = None;
    for (out, k) in kids {
        let Ok(o) = k.wait_with_output() else { continue };
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let v: Vec<u64> = text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        match o.status.code() {
            Some(0) if v.len() == 10 => {
                for (a, b) in sums.iter_mut().zip(&v) {
                    *a += b;
                }
                edges = edges.max(v[5]);
                cmps = cmps.max(v[7]);
                slow = slow.max(v[9]);
                ended += 1;
            }
            Some(1) if verdict.is_none() => {
                let t = std::fs::read_to_string(format!("{out}.tape")).unwrap_or_default();
                let tape: Vec<u64> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
                // Again in the plain build.
                let t2 = tape.clone();
                let h = std::thread::Builder::new().stack_size(STACK).spawn(move || run_case(p.f, &mut Src::replay(t2), &mut Ctx::default()));
                if let Ok(Outcome::Fail(fail)) = h.unwrap().join() {
                    verdict = Some((String::new(), Found { case: GUIDED, tape, fail, desc: String::new() }, true));
                } else {
                    eprintln!("guided search: a failure that does not show again: {}", String::from_utf8_lossy(&o.stderr));
                }
            }
            Some(2) => eprintln!("{}", String::from_utf8_lossy(&o.stderr)),
            Some(0 | 1) => {}
            _ if verdict.is_none() => {
                // Died or stalled: the case it was running.
                let raw = std::fs::read(format!("{out}.guided")).unwrap_or_default();
                let w: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                if w.len() >= 2 && w.len() >= 2 + w[1] as usize {
                    let c2 = Cfg { id: cfg.id.clone(), tier: cfg.tier.clone(), seed: w[0], cases: 0, secs: 0, skip: vec![] };
                    let f = Found { case: GUIDED, tape: w[2..2 + w[1] as usize].to_vec(), fail: Fail { sig: "crash".into(), msg: "crash or hang".into() }, desc: String::new() };
                    let path = write_replay(p, &c2, &f);
                    let why = isolate_tape(p.id, &path).and_then(|_| isolate_tape(p.id, &path));
                    let _ = std::fs::remove_file(&path);
                    match why {
                        Some(why) => {
                            let f = Found { fail: Fail { sig: "crash".into(), msg: why }, ..f };
                            let path = write_replay(p, &c2, &f);
                            verdict = Some((path, f, false));
                        }
                        None => eprintln!("guided search: ended with {:?} for no reproducible cause", o.status),
                    }
                }
            }
            _ => {}
        }
        for e in ["guided", "tape"] {
            let _ = std::fs::remove_file(format!("{out}.{e}"));
        }
    }
    let ev = format!(
        "{{\"processes\": {ended}, \"evaluations\": {}, \"discarded\": {}, \"distinct_nontrivial\": {}, \"kept_tapes\": {}, \"edges_reached\": {edges}, \"comparison_profile\": {cmps}, \"slowest_case_us\": {slow}, \"wall_s\": {:.1}}}",
        sums[0],
        sums[1],
        sums[3],
        sums[4],
        t0.elapsed().as_secs_f64()
    );
    println!("   guided search: {} cases in {ended} processes, {} distinct non-trivial, {edges} edges, {} kept tapes, {:.1} s", sums[0], sums[3], sums[4], t0.elapsed().as_secs_f64());
    let Some((path, f, finished)) = verdict else { return (0, ev) };
    let path = if finished { report(p, cfg, f) } else { path };
    println!("VIOLATION property={} replay={}", p.id, path);
    (1, ev)
}
fn opt_env(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|x| x.parse().ok())
}

// ------------------------------------------------------------------ parent

fn check(cfg: Cfg) -> i32 {
    let Some(p) = props::find(&cfg.id) else {
        eprintln!("unknown property {:?}", cfg.id);
        return 2;
    };
    let t0 = Instant::now();
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let evidence = format!("{dir}/{}.json", p.id);
    let _ = std::fs::remove_file(&evidence);
    let base = std::env::temp_dir().join(format!("ntfs-check-{}-{}", p.id, std::process::id()));
    let base_s = base.display().to_string();
    let mut skip: Vec<u64> = vec![];
    let mut attempt = 0;
    let code = loop {
        attempt += 1;
        let exe = std::env::current_exe().unwrap();
        let skip_s = skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let status = Command::new(exe)
            .args(["worker", &cfg.id, "--tier", &cfg.tier, "--seed", &cfg.seed.to_string(), "--cases", &cfg.cases.to_string()])
            .args(["--secs", &cfg.secs.to_string(), "--out", &base_s, "--skip", &skip_s])
            .status();
        let status = match status {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                break 2;
            }
        };
        match status.code() {
            Some(c @ (0 | 1)) => break c,
            Some(2) => break 2,
            _ => {
                // The worker died or stalled: which cases were running?
                let prog = std::fs::read(format!("{base_s}.progress")).unwrap_or_default();
                let mut suspects: Vec<u64> = prog
                    .chunks_exact(16)
                    .filter(|c| c[8] == 1)
                    .map(|c| u64::from_le_bytes(c[..8].try_into().unwrap()))
                    .collect();
                suspects.sort();
                eprintln!("worker ended with {status:?}; re-running cases {suspects:?} in isolation");
                let mut verdict = None;
                for s in &suspects {
                    if let Some(why) = isolate(&cfg, *s) {
                        // Twice, to be sure.
                        if isolate(&cfg, *s).is_some() {
                            verdict = Some((*s, why));
                            break;
                        }
                    }
                }
                if let Some((case, why)) = verdict {
                    let sig = if why.starts_with("hang") { "hang" } else { "crash" };
                    let mut src = Src::random(case_seed(p.id, cfg.seed, case));
                    // The whole tape is not known (the case never finished): replay by seed.
                    src.rec.clear();
                    let f = Found { case, tape: vec![], fail: Fail { sig: sig.into(), msg: why }, desc: format!("run: harness one {} --seed {} --case {}", p.id, cfg.seed, case) };
                    let path = write_replay(p, &cfg, &f);
                    println!("{}", f.fail.msg);
                    let ev = evidence_json(p, &cfg, &Stats::default(), t0.elapsed().as_secs_f64(), 1, attempt);
                    let _ = std::fs::write(&evidence, ev);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    break 1;
                }
                if attempt >= 3 {
                    eprintln!("worker keeps dying without a reproducible cause");
                    break 2;
                }
                skip.extend(suspects);
            }
        }
    };
    for e in ["progress"] {
        let _ = std::fs::remove_file(format!("{base_s}.{e}"));
    }
    match std::env::var("VERIF_GUIDED") {
        Ok(exe) if code == 0 && !exe.is_empty() => {
            install_hook();
            let (code, ev) = guided(p, &cfg, &exe, &base_s);
            if let Ok(t) = std::fs::read_to_string(&evidence) {
                let t = t.replacen("\"coverage\": {", &format!("\"coverage\": {{\n  \"guided\": {ev},"), 1);
                let t = if code == 1 { t.replace("\"violations\": 0", "\"violations\": 1") } else { t };
                let _ = std::fs::write(&evidence, t);
            }
            code
        }
        _ => code,
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discards: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    choices: u64,
    samples: Vec<(u64, String)>,
    peak: u64,
    slowest_ms: u64,
    directed: u64,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.discards += o.discards;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.choices += o.choices;
        self.samples.extend(o.samples);
        self.peak = self.peak.max(o.peak);
        self.slowest_ms = self.slowest_ms.max(o.slowest_ms);
        self.directed += o.directed;
    }
}

fn evidence_json(p: &Prop, cfg: &Cfg, st: &Stats, wall: f64, violations: u64, attempts: u64) -> String {
    let mut samples: Vec<(u64, String)> = st.samples.clone();
    samples.sort();
    let samples = samples.iter().take(8).map(|(i, s)| format!("{{\"case\": {}, \"input\": {}}}", js(&case_name(p, *i)), js(&s.chars().take(700).collect::<String>()))).collect::<Vec<_>>().join(",\n   ");
    let labels = st.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"discarded\": {},\n  \"directed_cases\": {},\n  \"mean_choices_per_case\": {},\n  \"peak_alloc_bytes_of_a_case\": {},\n  \"slowest_case_ms\": {},\n  \"worker_attempts\": {},\n  \"class_counts\": {{{}}},\n  \"known_findings_met\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(p.id),
        js(&cfg.tier),
        cfg.seed,
        st.evaluations,
        st.distinct.len(),
        js(p.rule),
        st.discards,
        st.directed,
        st.choices / st.evaluations.max(1),
        st.peak,
        st.slowest_ms,
        attempts,
        labels,
        st.known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
        samples,
        props::ASSUMPTIONS.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    )
}

// ------------------------------------------------------------------ worker

fn worker(cfg: Cfg, out: String) -> i32 {
    let p: &'static Prop = props::find(&cfg.id).expect("property");
    let t0 = Instant::now();
    install_hook();
    let progress = std::fs::File::create(format!("{out}.progress")).expect("progress file");
    let ndir = p.directed.len() as u64;
    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(ndir + cfg.cases);
    let done = AtomicBool::new(false);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let started: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(0)).collect();
    let deadline = t0 + Duration::from_secs(cfg.secs);
    let skip: HashSet<u64> = cfg.skip.iter().copied().collect();
    let now_ms = || t0.elapsed().as_millis() as u64 + 1;

    std::thread::scope(|s| {
        // Watchdog: a stalled case ends the process; the parent isolates it.
        let monitor = s.spawn(|| {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for st in &started {
                    let v = st.load(SeqCst);
                    if v != 0 && now_ms() > v + STALL.as_millis() as u64 {
                        eprintln!("a case is running for more than {STALL:?}");
                        std::process::exit(3);
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..THREADS {
            let (next, limit, found, harness, stats, started, progress, skip, cfg) = (&next, &limit, &found, &harness, &stats, &started, &progress, &skip, &cfg);
            let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || {
                let mut st = Stats::default();
                let mut rec = [0u8; 16];
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= limit.load(SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    let case = if i < ndir { directed_case(i as usize) } else { i - ndir };
                    if skip.contains(&case) {
                        continue;
                    }
                    rec[..8].copy_from_slice(&case.to_le_bytes());
                    rec[8] = 1;
                    let _ = progress.write_all_at(&rec, t as u64 * 16);
                    started[t].store(now_ms(), SeqCst);
                    let c0 = Instant::now();
                    let mut src = Src::random(case_seed(p.id, cfg.seed, case));
                    let mut ctx = Ctx { want_desc: st.samples.len() < 2, ..Default::default() };
                    let r = run_case(case_fn(p, case), &mut src, &mut ctx);
                    st.slowest_ms = st.slowest_ms.max(c0.elapsed().as_millis() as u64);
                    st.peak = st.peak.max(crate::alloc_track::peak());
                    started[t].store(0, SeqCst);
                    rec[8] = 0;
                    let _ = progress.write_all_at(&rec, t as u64 * 16);
                    match r {
                        Outcome::Discard => {
                            st.discards += 1;
                            continue;
                        }
                        Outcome::Harness(m) => {
                            harness.lock().unwrap().push(format!("case {}: {m}", case_name(p, case)));
                            limit.fetch_min(0, SeqCst);
                            break;
                        }
                        Outcome::Fail(fail) => {
                            found.lock().unwrap().push(Found { case, tape: src.rec.clone(), fail, desc: String::new() });
                            // Lower indices still finish, so the reported case is deterministic.
                            limit.fetch_min(i, SeqCst);
                        }
                        Outcome::Pass => {}
                    }
                    st.evaluations += 1;
                    if i < ndir {
                        st.directed += 1;
                    }
                    st.choices += src.rec.len() as u64;
                    for l in ctx.labels {
                        *st.labels.entry(l).or_insert(0) += 1;
                    }
                    for k in ctx.known {
                        *st.known.entry(k).or_insert(0) += 1;
                    }
                    if ctx.nontrivial {
                        st.nontrivial += 1;
                        let key = if ctx.key != 0 {
                            ctx.key
                        } else {
                            src.rec.iter().fold(case_fn(p, case) as usize as u64, |h, v| mix(h ^ *v))
                        };
                        // Memory bound for very long runs; the count is then a lower bound.
                        if st.distinct.len() < 4_000_000 {
                            st.distinct.insert(key);
                        }
                        if st.samples.len() < 2 && !ctx.desc.is_empty() {
                            st.samples.push((case, ctx.desc));
                        }
                    }
                }
                stats.lock().unwrap().merge(st);
            });
            hs.push(h.unwrap());
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
        let _ = monitor.join();
    });

    let st = stats.into_inner().unwrap();
    let dir = format!("{}/evidence", verif_dir());
    let evidence = format!("{dir}/{}.json", p.id);
    let harness = harness.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    // Directed cases come first.
    found.sort_by_key(|f| if f.case > u64::MAX / 2 { (0, u64::MAX - f.case) } else { (1, f.case) });
    if let Some(f) = found.into_iter().next() {
        let _ = std::fs::write(&evidence, evidence_json(p, &cfg, &st, t0.elapsed().as_secs_f64(), 1, 1));
        let path = report(p, &cfg, f);
        println!("VIOLATION property={} replay={}", p.id, path);
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !harness.is_empty() {
        for h in harness.iter().take(5) {
            eprintln!("{h}");
        }
        return 2;
    }
    let _ = std::fs::write(&evidence, evidence_json(p, &cfg, &st, t0.elapsed().as_secs_f64(), 0, 1));
    println!(
        "{}: {} cases ({} distinct non-trivial, {} discarded, {} directed), {:.1} s",
        p.id,
        st.evaluations,
        st.distinct.len(),
        st.discards,
        st.directed,
        t0.elapsed().as_secs_f64()
    );
    for (_, id, what) in findings().iter().filter(|f| f.0 == p.id) {
        if let Some(n) = st.known.get(id.as_str()) {
            println!("KNOWN-FINDING: property={} {id}: {what} ({n} cases)", p.id);
        }
    }
    for (k, v) in &st.labels {
        println!("   {k}: {v}");
    }
    println!("   slowest case {} ms, peak allocation {} bytes, {} choices/case", st.slowest_ms, st.peak, st.choices / st.evaluations.max(1));
    if st.evaluations < cfg.cases / 20 {
        eprintln!("only {} of {} cases ran", st.evaluations, cfg.cases);
        return 2;
    }
    0
}

/// Shrinks a failing case and writes its replay file.
fn report(p: &'static Prop, cfg: &Cfg, f: Found) -> String {
    println!("case {} fails: {}: {}", case_name(p, f.case), f.fail.sig, f.fail.msg);
    // Keep the unshrunk case in case shrinking itself runs into trouble.
    let raw_path = write_replay(p, cfg, &f);
    let (tape, fail, runs) = shrink_guarded(p, &f);
    let mut ctx = Ctx { want_desc: true, ..Default::default() };
    let mut src = Src::replay(tape.clone());
    let again = matches!(run_case(case_fn(p, f.case), &mut src, &mut ctx), Outcome::Fail(_));
    let g = if again { Found { case: f.case, tape, fail, desc: ctx.desc } } else { f };
    let path = write_replay(p, cfg, &g);
    if path != raw_path {
        let _ = std::fs::remove_file(&raw_path);
    }
    println!("shrunk in {runs} runs to {} choices: {}: {}", g.tape.len(), g.fail.sig, g.fail.msg);
    println!("minimal case: {}", g.desc);
    path
}

fn shrink_guarded(p: &'static Prop, f: &Found) -> (Vec<u64>, Fail, usize) {
    let func = case_fn(p, f.case);
    let (tape, fail) = (f.tape.clone(), f.fail.clone());
    let (t2, f2) = (tape.clone(), fail.clone());
    let (tx, rx) = std::sync::mpsc::channel();
    let _ = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let r = shrink(func, tape, &fail, 6000);
        let _ = tx.send(r);
    });
    // A candidate that hangs must not keep us from reporting.
    rx.recv_timeout(Duration::from_secs(100)).unwrap_or((t2, f2, 0))
}
