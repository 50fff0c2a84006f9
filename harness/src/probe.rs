//! Arithmetic of the engine against the machine's: run by hand (`tools/probe.sh`), belongs to no property.

use crate::sym::*;

fn word(n: usize) -> u64 {
    let mut x = match byte(0, 5) {
        0 => return byte(0, 3) as u64,
        1 => return !0 - byte(0, 3) as u64,
        2 => return 1 << 63 | byte(0, 3) as u64,
        3 => return (1 << 63) - 1 - byte(0, 3) as u64,
        4 => return (byte(0, 255) as u64) << 31,
        _ => 0,
    };
    for _ in 0..n {
        x = x << 8 | byte(0, 255) as u64;
    }
    x
}

fn put(x: u128) {
    out(&x.to_le_bytes());
}

/// cfg = kind constant
pub fn h_arith() {
    let mut c = Cfg::new();
    let kind = c.next();
    let k = c.next();
    let x = word(8);
    let y = word(8);
    let (w, v) = (x as u128 | (y as u128) << 64, (k as u128) << 33 | k as u128);
    let d = std::hint::black_box(v);
    match kind {
        0 => put(w.wrapping_add(d)),
        1 => put(w.wrapping_sub(d)),
        2 => put(w.wrapping_mul(d)),
        3 => put(w << std::hint::black_box(k as u32 % 128)),
        4 => put(w >> std::hint::black_box(k as u32 % 128)),
        5 => put(((w as i128) >> std::hint::black_box(k as u32 % 128)) as u128),
        6 => put(w.checked_add(d << 40).unwrap_or(1)),
        7 => put(w.checked_sub(d << 40).unwrap_or(1)),
        8 => put(w.checked_mul(d).unwrap_or(1)),
        9 => put((w as i128).checked_add((d << 40) as i128).unwrap_or(1) as u128),
        10 => put((w as i128).checked_sub((d << 40) as i128).unwrap_or(1) as u128),
        11 => put(w.min(d << 30)),
        12 => put((w as i128).max((d << 30) as i128) as u128),
        13 => put(x.reverse_bits() as u128),
        14 => put((x as u32).reverse_bits() as u128),
        15 => put((x as i64).saturating_add(std::hint::black_box(k as i64) << 40) as u64 as u128),
        16 => put((x as i32).saturating_sub(std::hint::black_box(k as i32) << 16) as u32 as u128),
        17 => put(x as u128 * std::hint::black_box(k) as u128),
        18 => put(((x as u128 + y as u128) >> 1) as u64 as u128),
        19 => put((x as u8).reverse_bits() as u128),
        20 => put(x as u128 * y as u128 % 7),
        21 => put(x.rotate_left(k as u32) as u128),
        22 => put(x.swap_bytes() as u128),
        _ => put((x % (k + 1)) as u128),
    }
    check(kind < 100, 1);
    // a side to choose, so that models are solved for
    reach((w & 3 == 1) as u64);
}
