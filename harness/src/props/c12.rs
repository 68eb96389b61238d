//! C12: name comparison is a case-insensitive total order by the volume's own table.
use super::Prop;
use crate::api::*;
use crate::enc::*;
use crate::engine::*;
use crate::vol::*;
use nt_string::u16strle::U16StrLe;
use ntfs::UpcaseOrd;
use std::cmp::Ordering;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C12",
    f: prop,
    quick: 300_000,
    thorough: 3_000_000,
    rule: "a case is a volume with a generated uppercase table (usual, identity, with overrides, random, partly uninitialized), stored resident to fragmented, over several records, beside named streams, sometimes with a wrong size; 30 pairs/triples of generated UTF-16 names (related by prefix, case, single units) are compared in every operand combination and with the model order. Non-trivial: the table was accepted and compared with at least one pair equal up to case and one differing.",
    directed: &[],
};

fn order(t: &[u16], a: &[u16], b: &[u16]) -> Ordering {
    let n = a.len().min(b.len());
    for i in 0..n {
        let (x, y) = (t[a[i] as usize], t[b[i] as usize]);
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}
fn related(src: &mut Src, t: &[u16], a: &[u16]) -> Vec<u16> {
    let mut b = a.to_vec();
    match src.below(7) {
        0 => b.truncate(src.usize(0, a.len())),
        1 => b.push(gen_unit(src)),
        2 => b = up(t, a),
        3 => {
            // Another unit with the same uppercase unit.
            if !b.is_empty() {
                let i = src.usize(0, b.len() - 1);
                let u = t[b[i] as usize];
                let mut k = src.u64() as u16;
                for _ in 0..0x10000u32 {
                    if t[k as usize] == u {
                        break;
                    }
                    k = k.wrapping_add(1);
                }
                b[i] = k;
            }
        }
        4 => {
            if !b.is_empty() {
                let i = src.usize(0, b.len() - 1);
                b[i] = gen_unit(src);
            }
        }
        5 => {
            if !b.is_empty() {
                let i = src.usize(0, b.len() - 1);
                b[i] = b[i].wrapping_add(1 + src.below(2) as u16 * 0xFFFE);
            }
        }
        _ => b = gen_name(src, 0, 12),
    }
    b
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 24, ..Default::default() });
    let mut table: Vec<u16> = match src.weighted(&[4, 1, 1]) {
        0 => gen_upcase(src).to_vec(),
        1 => {
            ctx.label("random table");
            let s = src.u64();
            (0..65536u64).map(|i| mix(s ^ i) as u16).collect()
        }
        _ => {
            ctx.label("table with few values");
            let s = src.u64();
            (0..65536u64).map(|i| (mix(s ^ i) % 5) as u16 * 0x40).collect()
        }
    };
    // Placement.
    let bytes = u16s(&table);
    let len = if src.chance(25) {
        ctx.label("wrong size");
        match src.below(5) {
            0 => 131_072 - 2 * (1 + src.below(3)),
            1 => 131_072 + 1 + src.below(4),
            2 => src.below(131_072),
            3 => 131_072 - 1,
            _ => src.range(131_073, 1 << 40),
        }
    } else {
        131_072
    };
    let max_runs = *src.pick(&[1u64, 4, 20]);
    let mut s = alloc_stream(src, &mut vol.al, vol.geo.cluster, bytes.len() as u64, max_runs);
    s.store(&mut vol.disk, 0, &bytes);
    if len > s.alloc_bytes() {
        let more = len.div_ceil(vol.geo.cluster) - s.alloc_bytes() / vol.geo.cluster;
        s.runs.push(Run { lcn: None, len: more });
    }
    s.data = len;
    s.init = len;
    if len == 131_072 && src.chance(8) {
        ctx.label("partly uninitialized");
        s.init = src.range(0, len);
        for (i, x) in table.iter_mut().enumerate() {
            let o = 2 * i as u64;
            if o + 2 > s.init {
                // Byte-wise: half of the entry may be initialized.
                *x = if o + 1 == s.init { *x & 0xFF } else { 0 };
            }
        }
    }
    ctx.label_if(s.runs.len() > 1, "fragmented table");
    let mut a = Attr::non(T_DATA, &[], s);
    if src.chance(30) {
        vol.gen_cuts(src, &mut a);
    }
    let mut attrs = vec![vol.std_attr(src), a];
    if src.chance(40) {
        attrs.push(Attr::res(T_DATA, &utf16("$Info"), junk(src, 32)));
        ctx.label("named stream beside it");
    }
    let list_pct = if src.chance(30) { 100 } else { 0 };
    let f = vol.add_file(src, FileSpec { rec: 10, seq: 10, links: 1, flags: 1, attrs, list_pct, list_non_pct: 40, stay_pct: 50 });
    ctx.label_if(f.list != ListKind::None, "attribute list");
    vol.finish(src);
    let mut dev = vol.disk.reader();
    let mut ntfs = open(&mut dev)?;
    let r = ntfs.read_upcase_table(&mut dev);
    ctx.describe(|| format!("{}; table of {len} bytes, first changed units {:?}", desc_geo(&vol.geo), (0..65536usize).filter(|i| table[*i] != default_upcase()[*i]).take(6).map(|i| (i, table[i])).collect::<Vec<_>>()));
    if len != 131_072 {
        ck!(r.is_err(), "size-accepted", "an uppercase table of {len} bytes is accepted");
        return Ok(());
    }
    r.okay("read_upcase_table")?;
    let table = Arc::new(table);
    let (mut eq, mut ne) = (false, false);
    for _ in 0..30 {
        let a = if src.bool() { gen_name(src, 0, 8) } else { gen_name(src, 0, 255) };
        let b = related(src, &table, &a);
        let c = related(src, &table, &b);
        let mut got = vec![];
        for (x, y) in [(&a, &b), (&b, &a), (&b, &c), (&a, &c), (&a, &a)] {
            let (xb, yb) = (u16s(x), u16s(y));
            let (xs, ys) = (U16StrLe(&xb), U16StrLe(&yb));
            let want = order(&table, x, y);
            let g = xs.upcase_cmp(&ntfs, &ys);
            ck!(g == want, "order", "{x:x?} against {y:x?}: {g:?} expected {want:?}");
            if let Some(t) = to_str(y) {
                let g = xs.upcase_cmp(&ntfs, &&t[..]);
                ck!(g == want, "order-str", "{x:x?} against the string {t:?}: {g:?} expected {want:?}");
            }
            if let Some(t) = to_str(x) {
                let g = (&t[..]).upcase_cmp(&ntfs, &ys);
                ck!(g == want, "order-str", "the string {t:?} against {y:x?}: {g:?} expected {want:?}");
            }
            eq |= want == Ordering::Equal && x != y;
            ne |= want != Ordering::Equal;
            got.push(g);
        }
        ck!(got[0] == got[1].reverse(), "antisymmetry", "{a:x?} and {b:x?}: {:?} / {:?}", got[0], got[1]);
        ck!(got[4] == Ordering::Equal, "reflexivity", "{a:x?} is not equal to itself");
        if got[0] != Ordering::Greater && got[2] != Ordering::Greater {
            ck!(got[3] != Ordering::Greater, "transitivity", "{a:x?} <= {b:x?} <= {c:x?} but {:?}", got[3]);
        }
    }
    // Every unit at least once per few cases: a sweep over a random stretch of the table.
    let start = src.below(65536) as u32;
    for k in 0..512u32 {
        let u = (start + k * 7) as u16;
        let (xb, yb) = (u16s(&[u]), u16s(&[table[u as usize]]));
        let g = U16StrLe(&xb).upcase_cmp(&ntfs, &U16StrLe(&yb));
        let want = table[u as usize].cmp(&table[table[u as usize] as usize]);
        ck!(g == want, "order", "unit {u:#x} against its uppercase {:#x}: {g:?} expected {want:?}", table[u as usize]);
    }
    ctx.label_if(eq, "equal but for case");
    ctx.nontrivial = eq && ne;
    Ok(())
}
