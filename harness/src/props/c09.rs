//! C09: boot sector geometry is interpreted or rejected exactly.
use super::Prop;
use crate::disk::Disk;
use crate::enc::*;
use crate::engine::*;
use ntfs::Ntfs;

pub static PROP: Prop = Prop {
    id: "C09",
    f: prop,
    quick: 8_000_000,
    thorough: 400_000_000,
    rule: "a case is a 512-byte boot sector whose fields are valid, at a limit or arbitrary (including all bytes random and short devices); acceptance and every reported value are compared with an independent interpretation. Non-trivial: the geometry is accepted, or exactly one field is invalid.",
    directed: &[],
};

/// (sector, cluster, record, size, mft position) or the number of violated rules.
fn oracle(b: &[u8]) -> Result<(u64, u64, u64, u64, u64), u32> {
    let mut bad = 0;
    if b[510..512] != [0x55, 0xAA] {
        bad += 1;
    }
    let sector = g16(b, 11) as u64;
    let sector_ok = [512, 1024, 2048, 4096].contains(&sector);
    let spc = match b[13] {
        x @ (1 | 2 | 4 | 8 | 16 | 32 | 64 | 128) => Some(x as u64),
        x if x > 128 => {
            let e = 256 - x as u32;
            if e <= 12 { Some(1u64 << e) } else { None }
        }
        _ => None,
    };
    bad += !sector_ok as u32;
    bad += spc.is_none() as u32;
    let cluster = sector * spc.unwrap_or(1);
    if sector_ok && spc.is_some() && !(512..=2 << 20).contains(&cluster) {
        bad += 1;
    }
    let r = b[64] as i8;
    let frs = match r {
        1..=127 => Some(cluster * r as u64),
        -12..=-10 => Some(1u64 << -(r as i32)),
        _ => None,
    };
    bad += frs.is_none() as u32;
    let lcn = g64(b, 48);
    let mft = lcn.checked_mul(cluster.max(1));
    bad += (lcn == 0 || mft.is_none()) as u32;
    let size = g64(b, 40).checked_mul(sector.max(1));
    bad += size.is_none() as u32;
    if bad > 0 { Err(bad) } else { Ok((sector, cluster, frs.unwrap(), size.unwrap(), mft.unwrap())) }
}

fn prop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut boot = Boot {
        sector_size: *src.pick(&[512u16, 1024, 2048, 4096]),
        spc: 1 << src.below(8),
        total_sectors: src.interesting(48),
        mft_lcn: 1 + src.interesting(40),
        mirr_lcn: src.u64(),
        frs: -10,
        irs: -12,
        serial: src.u64(),
        sig: [0x55, 0xAA],
    };
    // Zero to a few fields take an unusual value.
    for _ in 0..src.weighted(&[2, 5, 3, 2, 1]) {
        match src.below(7) {
            0 => boot.sector_size = if src.bool() { src.interesting(16) as u16 } else { *src.pick(&[0u16, 256, 511, 513, 1536, 4097, 8192, 32768]) },
            1 => boot.spc = src.u64() as u8,
            2 => boot.spc = (256 - src.range(1, 20)) as u8,
            3 => boot.total_sectors = src.interesting(64),
            4 => boot.mft_lcn = src.interesting(64),
            5 => boot.frs = src.u64() as i8,
            _ => boot.sig = if src.bool() { [0xAA, 0x55] } else { [src.u64() as u8, src.u64() as u8] },
        }
    }
    if src.chance(20) {
        // At the edge of what can be represented.
        let c = boot.sector_size.max(1) as u64 * if boot.spc > 128 { 1 << (256 - boot.spc as u64).min(40) } else { boot.spc.max(1) as u64 };
        boot.mft_lcn = (u64::MAX / c).wrapping_add(src.below(5)).wrapping_sub(2);
    }
    if src.chance(20) {
        boot.total_sectors = (u64::MAX / boot.sector_size.max(1) as u64).wrapping_add(src.below(5)).wrapping_sub(2);
    }
    let mut b = boot.encode(src.u64());
    match src.weighted(&[6, 2, 1]) {
        0 => {}
        1 => {
            // Fields that are documented as zero or not used by the reader hold anything.
            let s = src.u64();
            for i in (0..11).chain(14..40).chain(56..64).chain(65..72).chain(80..510) {
                b[i] = mix(s ^ i as u64) as u8;
            }
            ctx.label("arbitrary unused fields");
        }
        _ => {
            let s = src.u64();
            for (i, x) in b.iter_mut().enumerate() {
                *x = mix(s ^ i as u64) as u8;
            }
            if src.bool() {
                b[510] = 0x55;
                b[511] = 0xAA;
            }
            ctx.label("random sector");
        }
    }
    let want = oracle(&b);
    let mut len = 1 << 20;
    if src.chance(3) {
        len = src.range(0, 511);
    }
    ctx.describe(|| format!("device {len}; sector {} spc {} frs {} lcn {} sectors {} signature {:x?}", g16(&b, 11), b[13], b[64] as i8, g64(&b, 48), g64(&b, 40), &b[510..512]));
    let serial = g64(&b, 72);
    let mut disk = Disk::new(0x5eed, len);
    disk.write(0, &b);
    let mut dev = disk.reader();
    // The reader may be anywhere.
    dev.pos = src.below(1000);
    let got = Ntfs::new(&mut dev);
    if len < 512 {
        ctx.label("short device");
        ck!(got.is_err(), "short-accepted", "a device of {len} bytes is accepted");
        return Ok(());
    }
    match (got, want) {
        (Err(_), Err(n)) => {
            ctx.nontrivial = n == 1;
            ctx.label("rejected");
            Ok(())
        }
        (Err(e), Ok(_)) => fail!("rejected-valid", "a supported geometry is rejected: {e}"),
        (Ok(_), Err(_)) => fail!("accepted-invalid", "an unsupported geometry is accepted"),
        (Ok(n), Ok((sector, cluster, frs, size, mft))) => {
            ctx.nontrivial = true;
            ctx.label("accepted");
            ctx.label_if(b[13] > 128, "negative exponent for sectors per cluster");
            ctx.label_if((b[64] as i8) > 0, "record size in clusters");
            ctx.label_if(cluster == 2 << 20, "largest cluster");
            ck!(n.sector_size() as u64 == sector, "sector", "sector_size {} expected {sector}", n.sector_size());
            ck!(n.cluster_size() as u64 == cluster, "cluster", "cluster_size {} expected {cluster}", n.cluster_size());
            ck!(n.file_record_size() as u64 == frs, "record", "file_record_size {} expected {frs}", n.file_record_size());
            ck!(n.size() == size, "size", "size {} expected {size}", n.size());
            ck!(n.serial_number() == serial, "serial", "serial_number {:#x} expected {serial:#x}", n.serial_number());
            ck!(n.mft_position().value().map(|x| x.get()) == Some(mft), "mft", "mft_position {:?} expected {mft}", n.mft_position());
            Ok(())
        }
    }
}
