//! Floating-point operations on concrete bits.
//!
//! Codes: 1..5 + - * / %, 16.. comparisons, 40/41 from unsigned/signed,
//! 42/43 to unsigned/signed, 44/45 to f64/f32, 46/47 saturating to
//! unsigned/signed, 50..54 trunc floor ceil round rint.

fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}
fn sx(x: u64, w: u32) -> i64 {
    ((x << (64 - w)) as i64) >> (64 - w)
}

pub fn eval(code: u32, w: u32, aw: u32, x: u64, y: u64) -> Option<u64> {
    if w > 64 || aw > 64 {
        return None;
    }
    if code < 40 {
        return Some(if aw == 64 {
            fop(code, f64::from_bits(x), f64::from_bits(y), |v| v.to_bits(), |c, p, q| match c {
                1 => p + q,
                2 => p - q,
                3 => p * q,
                4 => p / q,
                _ => p % q,
            })
        } else {
            fop(code, f32::from_bits(x as u32), f32::from_bits(y as u32), |v| v.to_bits() as u64, |c, p, q| match c {
                1 => p + q,
                2 => p - q,
                3 => p * q,
                4 => p / q,
                _ => p % q,
            })
        });
    }
    if code >= 50 {
        return Some(if aw == 64 {
            let v = f64::from_bits(x);
            match code {
                50 => v.trunc(),
                51 => v.floor(),
                52 => v.ceil(),
                53 => v.round(),
                _ => v.round_ties_even(),
            }
            .to_bits()
        } else {
            let v = f32::from_bits(x as u32);
            match code {
                50 => v.trunc(),
                51 => v.floor(),
                52 => v.ceil(),
                53 => v.round(),
                _ => v.round_ties_even(),
            }
            .to_bits() as u64
        });
    }
    let s = if code == 41 { sx(x, aw) } else { 0 };
    let f = if aw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
    Some(match (code, w) {
        (40, 64) => (x as f64).to_bits(),
        (40, 32) => (x as f32).to_bits() as u64,
        (41, 64) => (s as f64).to_bits(),
        (41, 32) => (s as f32).to_bits() as u64,
        (44, 64) => (f32::from_bits(x as u32) as f64).to_bits(),
        (45, 32) => (f64::from_bits(x) as f32).to_bits() as u64,
        (42, _) => f as u64 & mask64(w),
        (43, _) => f as i64 as u64 & mask64(w),
        (46, _) => (f as u64).min(mask64(w)),
        (47, _) => {
            let m = (mask64(w) >> 1) as i64;
            (f as i64).clamp(-m - 1, m) as u64 & mask64(w)
        }
        _ => return None,
    })
}

fn fop<T: Copy + PartialOrd>(code: u32, p: T, q: T, bits: impl Fn(T) -> u64, ar: impl Fn(u32, T, T) -> T) -> u64 {
    if code < 16 {
        return bits(ar(code, p, q));
    }
    let un = p.partial_cmp(&q).is_none();
    let r = match code - 16 {
        0 => p == q,
        1 => p > q,
        2 => p >= q,
        3 => p < q,
        4 => p <= q,
        5 => !un && p != q,
        6 => !un,
        7 => un || p == q,
        8 => un || p > q,
        9 => un || p >= q,
        10 => un || p < q,
        11 => un || p <= q,
        12 => p != q,
        _ => un,
    };
    r as u64
}
