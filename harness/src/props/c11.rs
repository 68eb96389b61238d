//! C11: timestamps convert exactly and out-of-range times are refused.
use super::Prop;
use crate::engine::*;
use ntfs::NtfsTime;
use std::time::{Duration, SystemTime};
use time::OffsetDateTime;

pub static PROP: Prop = Prop {
    id: "C11",
    f: prop,
    quick: 20_000_000,
    thorough: 2_000_000_000,
    rule: "a case is a 64-bit timestamp, a calendar time (with UTC offset) or a system time, chosen around the epochs, the limits of every representation, day/leap year boundaries and at random. Conversions are compared with an independent proleptic Gregorian calendar computation. Non-trivial: every case.",
    directed: &[],
};

/// Intervals from 1601 to 1970, derived from the calendar instead of a constant.
fn epoch_diff() -> i128 {
    (days_from_civil(1970, 1, 1) - days_from_civil(1601, 1, 1)) as i128 * 86_400 * 10_000_000
}
/// Days since 0000-03-01, proleptic Gregorian.
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let mut days = 0;
    let y2 = if m <= 2 { y - 1 } else { y };
    days += 365 * y2 + y2.div_euclid(4) - y2.div_euclid(100) + y2.div_euclid(400);
    let mp = (m + 9) % 12;
    days + (153 * mp + 2) / 5 + d - 1
}
fn gen_ts(src: &mut Src) -> u64 {
    let e = epoch_diff() as u64;
    const DAY: u64 = 864_000_000_000;
    match src.below(7) {
        0 => src.u64(),
        1 => src.interesting(64),
        2 => e.wrapping_add(src.below(41)).wrapping_sub(20),
        3 => u64::MAX - src.below(2_000_000_000),
        4 => {
            let d = src.below(u64::MAX / DAY);
            (d * DAY).wrapping_add(src.below(5)).wrapping_sub(2)
        }
        // Seconds since 1970 around typical limits.
        5 => {
            let s = *src.pick(&[0x7FFF_FFFFu64, 0xFFFF_FFFF, 0x1_0000_0000, 253_402_300_800, 253_402_300_799, 0]);
            e + s * 10_000_000 + src.below(20_000_001) - if s > 0 { 10_000_000 } else { 0 }
        }
        _ => e.wrapping_add(src.range(0, 40_000 * DAY)).wrapping_sub(src.range(0, 40_000 * DAY)),
    }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    match src.below(4) {
        0 | 1 => timestamp(src, ctx),
        2 => calendar(src, ctx),
        _ => system(src, ctx),
    }
}
fn timestamp(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("timestamp");
    let t = gen_ts(src);
    ctx.describe(|| format!("timestamp {t}"));
    let nt = NtfsTime::from(t);
    ck!(nt.nt_timestamp() == t, "raw", "{t} reads {}", nt.nt_timestamp());
    let dt = OffsetDateTime::from(nt);
    // Exact calendar meaning.
    let days = days_from_civil(dt.year() as i64, dt.month() as i64, dt.day() as i64) - days_from_civil(1601, 1, 1);
    let secs = days as i128 * 86_400 + dt.hour() as i128 * 3600 + dt.minute() as i128 * 60 + dt.second() as i128;
    let (o, ns) = (dt.offset().whole_seconds() as i128, dt.nanosecond() as i128);
    let got = (secs - o) * 1_000_000_000 + ns;
    ck!(got == t as i128 * 100, "calendar", "timestamp {t} becomes {dt:?}, {} ns off", got - t as i128 * 100);
    match NtfsTime::try_from(dt) {
        Ok(b) => ck!(b.nt_timestamp() == t, "round-trip", "timestamp {t} comes back as {}", b.nt_timestamp()),
        Err(e) => fail!("round-trip", "timestamp {t} does not come back: {e}"),
    }
    // Order.
    let u = if src.bool() { gen_ts(src) } else { t.wrapping_add(src.below(3)).wrapping_sub(1) };
    let (a, b) = (NtfsTime::from(t), NtfsTime::from(u));
    ck!(a.cmp(&b) == t.cmp(&u) && (a == b) == (t == u), "order", "{t} and {u} compare as {:?}", a.cmp(&b));
    ck!(OffsetDateTime::from(a).cmp(&OffsetDateTime::from(b)) == t.cmp(&u), "order", "{t} and {u} change their order");
    Ok(())
}
/// `ns`: nanoseconds since 1601.
fn expect(what: &str, ns: i128, got: Result<u64, String>) -> R {
    let max = u64::MAX as i128 * 100;
    match got {
        Ok(t) => {
            let d = t as i128 * 100 - ns;
            if ns % 100 == 0 && ns >= 0 && ns <= max {
                ck!(d == 0, "inexact", "{what}: timestamp {t} is {d} ns off");
            }
            ck!(d.abs() < 100, "inexact", "{what}: timestamp {t} is {d} ns off");
        }
        Err(e) => ck!(ns < 0 || ns > max, "refused", "{what}: refused: {e}"),
    }
    Ok(())
}
fn calendar(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("calendar time");
    let e = epoch_diff() * 100;
    // All times the `time` crate can hold with large dates: years -999999 to 999999.
    let (lo, hi) = (-377_705_023_201i128 * 1_000_000_000, 253_402_300_799i128 * 1_000_000_000);
    let (lo, hi) = if src.bool() { (lo * 80, hi * 120) } else { (lo, hi) };
    let max = u64::MAX as i128 * 100 - e;
    let ns = match src.below(5) {
        0 => lo + (((src.u64() as u128) << 40 ^ src.u64() as u128) % (hi - lo) as u128) as i128,
        1 => -e + src.range(0, 2000) as i128 - 1000,
        2 => max + src.range(0, 2000) as i128 - 1000,
        3 => {
            let t = gen_ts(src);
            t as i128 * 100 - e + src.range(0, 200) as i128 - 100
        }
        _ => src.range(0, 400) as i128 - 200,
    };
    let Ok(dt) = OffsetDateTime::from_unix_timestamp_nanos(ns) else { return Ok(()) };
    // The same moment in another time zone.
    let dt = if src.bool() {
        let o = time::UtcOffset::from_whole_seconds(src.range(0, 172_000) as i32 - 86_000).unwrap();
        dt.checked_to_offset(o).unwrap_or(dt)
    } else {
        dt
    };
    ctx.describe(|| format!("calendar time {dt:?}"));
    ctx.label_if(ns < -e || ns > max, "not representable");
    ctx.label_if(ns.rem_euclid(100) != 0, "not a whole interval");
    expect(&format!("{dt:?}"), ns + e, NtfsTime::try_from(dt).map(|t| t.nt_timestamp()).map_err(|e| e.to_string()))
}
fn system(src: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("system time");
    let e = epoch_diff();
    let last = (u64::MAX as i128 - e) as u64; // intervals since 1970
    let nanos = src.below(1_000_000_000) as u32;
    let d = match src.below(6) {
        0 => Duration::new(src.interesting(63), nanos),
        1 => Duration::new(src.range(0, 1 << 33), nanos),
        2 => Duration::new((last / 10_000_000).wrapping_add(src.below(5)).wrapping_sub(2), nanos),
        3 => Duration::new(last / 10_000_000, ((last % 10_000_000) * 100) as u32 + src.below(300) as u32).saturating_sub(Duration::from_nanos(150)),
        4 => Duration::new(u64::MAX / 10_000_000 + src.below(5), nanos),
        _ => Duration::new(src.below(3), src.below(300) as u32),
    };
    let Some(st) = SystemTime::UNIX_EPOCH.checked_add(d) else { return Ok(()) };
    ctx.describe(|| format!("system time {d:?} after 1970"));
    let ns = d.as_nanos() as i128 + e * 100;
    ctx.label_if(ns > u64::MAX as i128 * 100, "not representable");
    expect(&format!("system time {d:?}"), ns, NtfsTime::try_from(st).map(|t| t.nt_timestamp()).map_err(|e| e.to_string()))?;
    // Before 1970: whatever is answered must be right, and it must not panic.
    if let Some(st) = SystemTime::UNIX_EPOCH.checked_sub(d) {
        if d > Duration::ZERO {
            if let Ok(t) = NtfsTime::try_from(st) {
                let ns = e * 100 - d.as_nanos() as i128;
                expect(&format!("system time {d:?} before 1970"), ns, Ok(t.nt_timestamp()))?;
            }
        }
    }
    Ok(())
}
