//! The properties of the harness, compiled for a 32-bit platform (wasm32). See /verif/DESIGN.md, C22.
#![allow(dead_code)]
#[path = "../../harness/src/alloc_track.rs"]
mod alloc_track;
#[path = "../../harness/src/disk.rs"]
mod disk;
#[path = "../../harness/src/enc.rs"]
mod enc;
#[macro_use]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/vol.rs"]
mod vol;
#[path = "../../harness/src/world.rs"]
mod world;

use std::cell::RefCell;

#[global_allocator]
static GLOBAL: alloc_track::Counting = alloc_track::Counting;

thread_local! {
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
fn put(s: &str) {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.clear();
        o.extend_from_slice(s.as_bytes());
    });
}
#[no_mangle]
pub extern "C" fn out_ptr() -> *const u8 {
    OUT.with(|o| o.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn out_len() -> usize {
    OUT.with(|o| o.borrow().len())
}
#[no_mangle]
pub extern "C" fn init() {
    std::panic::set_hook(Box::new(|info| {
        put(&info.to_string());
    }));
}
/// Room for n choices.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u64 {
    Box::leak(vec![0u64; n].into_boxed_slice()).as_mut_ptr()
}
/// The repository's test image, in room for n choices.
#[no_mangle]
pub unsafe extern "C" fn image(at: *mut u64, n: usize) {
    let v = Box::from_raw(std::ptr::slice_from_raw_parts_mut(at, n));
    props::c05::set_test_image(v.iter().flat_map(|x| x.to_le_bytes()).collect());
}
/// Runs property `p` on the choices: 0 pass, 1 fail, 2 discard, 4 harness error; traps on a panic.
#[no_mangle]
pub unsafe extern "C" fn run(p: u32, tape: *mut u64, n: usize) -> u32 {
    let (status, text) = answer(p, Box::from_raw(std::ptr::slice_from_raw_parts_mut(tape, n)).into_vec());
    put(&text);
    status
}

pub fn answer(p: u32, tape: Vec<u64>) -> (u32, String) {
    let id = format!("C{:02}", p & 0x7fff_ffff);
    let trace = p >> 31 != 0;
    engine::TRACE.with(|t| *t.borrow_mut() = trace.then(Vec::new));
    let Some(prop) = props::find(&id) else {
        return (4, "no such property".into());
    };
    put("");
    let mut src = engine::Src::replay(tape);
    let mut ctx = engine::Ctx::default();
    match engine::run_case(prop.f, &mut src, &mut ctx) {
        engine::Outcome::Pass => {
            // The same as `summary` in the harness.
            let mut s = format!("{} choices, digest {:016x}, {}", src.rec.len(), engine::digest(), ctx.labels.join(", "));
            if let Some(t) = engine::TRACE.with(|t| t.borrow_mut().take()) {
                s += "\n";
                s += &t.join("\n");
            }
            (0, s)
        }
        engine::Outcome::Fail(f) => (1, format!("{}\n{}", f.sig, f.msg)),
        engine::Outcome::Discard => (2, String::new()),
        engine::Outcome::Harness(m) => (4, m),
    }
}
