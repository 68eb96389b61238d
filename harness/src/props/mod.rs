use crate::engine::PropFn;

mod c01;
mod c02;
mod c03;
mod c04;
pub mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
#[cfg(feature = "sector")]
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
#[cfg(not(target_arch = "wasm32"))]
mod c22;

pub struct Prop {
    pub id: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub directed: &'static [(&'static str, PropFn)],
}

pub const ASSUMPTIONS: &[&str] = &[
    "The volume builder and the oracles (src/vol.rs, src/enc.rs) encode the NTFS on-disk format correctly; they are written from the format documentation and share no code with the crate.",
    "Case i is a pure function of VERIF_SEED, the property and i; the crate is built with debug assertions and overflow checks.",
];

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c15::PROP, &c16::PROP, &c18::PROP, &c19::PROP, &c20::PROP, &c21::PROP, &c23::PROP];
    #[cfg(feature = "sector")]
    v.push(&c17::PROP);
    #[cfg(not(target_arch = "wasm32"))]
    v.push(&c22::PROP);
    v.sort_by_key(|p| p.id);
    v
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}
