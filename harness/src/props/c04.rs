//! C04: directory lookup finds a name exactly when the directory holds it.
use super::c03::{check_entry, desc_dir, label_dir};
use super::Prop;
use crate::api::*;
use crate::disk::Dev;
use crate::engine::*;
use crate::vol::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsFileName;
use ntfs::{Ntfs, NtfsIndexEntry, NtfsIndexFinder};
use std::cmp::Ordering;

pub static PROP: Prop = Prop {
    id: "C04",
    f: prop,
    quick: 480_000,
    thorough: 6_000_000,
    rule: "a case is a volume with a generated uppercase table, a generated directory tree and a sequence of lookups (stored names, case variants, prefixes, extensions, near misses, absent names, any UTF-16, custom comparators) through one reused finder; each answer is compared with a linear scan of the model. Non-trivial: the tree has at least two nodes, and at least one lookup hit and one missed.",
    directed: &[],
};

/// Another spelling of `n` under table `t`.
fn variant(src: &mut Src, t: &[u16], n: &[u16]) -> Vec<u16> {
    n.iter()
        .map(|c| {
            let cands = [t[*c as usize], c ^ 0x20, c.wrapping_add(0x20), c.wrapping_sub(0x20), c.wrapping_add(1), gen_unit(src)];
            let d = *src.pick(&cands);
            if t[d as usize] == t[*c as usize] { d } else { *c }
        })
        .collect()
}
fn gen_needle(src: &mut Src, t: &[u16], d: &DirM) -> Vec<u16> {
    if d.ents.is_empty() || src.chance(10) {
        return gen_name(src, 0, 12);
    }
    let n = src.pick(&d.ents).key.name.clone();
    match src.weighted(&[4, 4, 2, 2, 2]) {
        0 => n,
        1 => variant(src, t, &n),
        2 => n[..src.usize(0, n.len() - 1)].to_vec(),
        3 => {
            let mut m = n;
            m.push(gen_unit(src));
            m
        }
        _ => {
            let mut m = variant(src, t, &n);
            let i = src.usize(0, m.len() - 1);
            m[i] = match src.below(3) {
                0 => m[i].wrapping_add(1),
                1 => m[i].wrapping_sub(1),
                _ => gen_unit(src),
            };
            m
        }
    }
}
type Found<'a> = Option<Result<NtfsIndexEntry<'a, NtfsFileNameIndex>, ntfs::NtfsError>>;

fn judge(got: Found, d: &DirM, ok: &[usize], what: &str) -> R {
    match got {
        None => ck!(ok.is_empty(), "lookup-missed", "{what}: not found, although the directory holds {}", show(&d.ents[ok[0]].key.name)),
        Some(Err(e)) => fail!("lookup-error", "{what}: unexpected error: {e}"),
        Some(Ok(e)) => {
            let k = units(&e.key().okay("key")?.name());
            let Some(i) = d.ents.iter().position(|x| x.key.name == k) else {
                fail!("lookup-foreign", "{what}: found {}, which the directory does not hold", show(&k));
            };
            ck!(ok.contains(&i), "lookup-wrong", "{what}: found {}", show(&k));
            check_entry(&e, &d.ents[i], what)?;
        }
    }
    Ok(())
}

fn lookup(src: &mut Src, ctx: &mut Ctx, ntfs: &Ntfs, dev: &mut Dev, t: &[u16], d: &DirM, finder: &mut NtfsIndexFinder<NtfsFileNameIndex>, hits: &mut [u64; 2]) -> R {
    let equal_to = |q: &[u16]| -> Vec<usize> {
        let u = up(t, q);
        (0..d.ents.len()).filter(|i| up(t, &d.ents[*i].key.name) == u).collect()
    };
    match src.weighted(&[6, 3, 1, 1]) {
        0 => {
            let q = gen_needle(src, t, d);
            let Some(s) = to_str(&q) else { return Ok(()) };
            let ok = equal_to(&q);
            hits[ok.is_empty() as usize] += 1;
            ctx.describe(|| format!("find {s:?}"));
            judge(NtfsFileNameIndex::find(finder, ntfs, dev, &s), d, &ok, &format!("find({s:?})"))
        }
        1 => {
            // The same order, for any UTF-16 needle.
            let q = gen_needle(src, t, d);
            let ok = equal_to(&q);
            hits[ok.is_empty() as usize] += 1;
            let uq = up(t, &q);
            ctx.label_if(to_str(&q).is_none(), "needle with unpaired surrogates");
            ctx.describe(|| format!("find units {q:x?}"));
            let r = finder.find(dev, |k: &NtfsFileName| uq.cmp(&up(t, &units(&k.name()))));
            judge(r, d, &ok, &format!("find({q:x?})"))
        }
        2 => {
            // By rank: exact positions and the gaps between them.
            let p = src.range(0, 2 * d.ents.len() as u64) as usize;
            let rank = |k: &NtfsFileName| -> usize {
                let n = units(&k.name());
                2 * d.ents.iter().position(|x| x.key.name == n).unwrap_or(0) + 1
            };
            let ok: Vec<usize> = if p % 2 == 1 { vec![p / 2] } else { vec![] };
            hits[ok.is_empty() as usize] += 1;
            ctx.label("search by rank");
            ctx.describe(|| format!("find rank {p}"));
            let r = finder.find(dev, |k| p.cmp(&rank(k)));
            judge(r, d, &ok, &format!("find(rank {p})"))
        }
        _ => {
            // By first unit only: any of a range may be returned.
            let q = gen_needle(src, t, d);
            let f = q.first().map(|c| t[*c as usize]);
            let ok: Vec<usize> = (0..d.ents.len()).filter(|i| d.ents[*i].key.name.first().map(|c| t[*c as usize]) == f).collect();
            hits[ok.is_empty() as usize] += 1;
            ctx.label("search by first unit");
            let r = finder.find(dev, |k| -> Ordering { f.cmp(&units(&k.name()).first().map(|c| t[*c as usize])) });
            judge(r, d, &ok, &format!("find(first unit {f:x?})"))
        }
    }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut vol = Vol::new(src, &VolOpts { records: 40, mft_runs: 2, upcase: true, ..Default::default() });
    let o = DirOpts { max_entries: *src.pick(&[12u64, 60, 150]), max_name: *src.pick(&[8usize, 40, 255]), max_depth: *src.pick(&[2usize, 4, 7]), dup_pct: if src.chance(20) { 50 } else { 0 }, small_irs: src.chance(25), ..Default::default() };
    let d = gen_dir(src, &mut vol, &o);
    vol.finish(src);
    label_dir(ctx, &vol, &d);
    ctx.describe(|| desc_dir(&vol, &d));
    let mut dev = vol.disk.reader();
    let ntfs = open_up(&mut dev)?;
    let t = vol.upcase.clone();
    let file = ntfs.file(&mut dev, d.file.rec).okay("file")?;
    let index = file.directory_index(&mut dev).okay("directory_index")?;
    let mut finder = index.finder();
    let mut hits = [0, 0];
    for _ in 0..src.range(4, 30) {
        lookup(src, ctx, &ntfs, &mut dev, &t, &d, &mut finder, &mut hits)?;
    }
    // Every stored name is found.
    if src.chance(30) {
        for e in &d.ents {
            let Some(s) = to_str(&e.key.name) else { continue };
            let u = up(&t, &e.key.name);
            let ok: Vec<usize> = (0..d.ents.len()).filter(|i| up(&t, &d.ents[*i].key.name) == u).collect();
            judge(NtfsFileNameIndex::find(&mut finder, &ntfs, &mut dev, &s), &d, &ok, &format!("find stored name {s:?}"))?;
        }
        ctx.label("all names looked up");
    }
    ctx.label_if(vol.upcase != *default_upcase(), "special uppercase table");
    ctx.nontrivial = d.index.nodes.len() > 1 && hits[0] > 0 && hits[1] > 0;
    Ok(())
}
