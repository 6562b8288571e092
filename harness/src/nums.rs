//! Numbers for the geometry properties: exact (integer-valued or dyadic) and arbitrary floats,
//! and comparisons that do not depend on the order in which the code adds things up.
use crate::dict;
use crate::engine::Src;
use crate::scene::Float;

pub const EPS: f64 = Float::EPSILON as f64;

/// Integer of at most `bits` bits: small, near powers of two, or anything.
pub fn int(s: &mut Src, bits: u32) -> i64 {
    let m = if bits >= 63 { i64::MAX } else { 1i64 << bits };
    if let Some(v) = dict::int(s) {
        if v >= -m && v <= m {
            return v;
        }
    }
    match s.weighted(&[4, 3, 2, 3]) {
        0 => s.int(-3, 3),
        1 => s.int(-100.min(m), 100.min(m)),
        2 => {
            let p = 1i64 << s.below(bits as u64 + 1).min(62);
            let v = p.saturating_add(s.int(-1, 1)).min(m);
            if s.chance(1, 2) { -v } else { v }
        }
        _ => s.int(-m, m),
    }
}

/// A type of coordinates.
pub trait Num: Copy + std::fmt::Debug + PartialEq + PartialOrd + 'static {
    const IS_INT: bool;
    /// Bits of a value that may be added a few times.
    const LIN: u32;
    /// Bits of a value of which products may be added a few times.
    const BI: u32;
    /// Bits of a value of which triple products may be added a few times.
    const TRI: u32;
    /// v * 2^e (e is 0 for integers)
    fn mk(v: i64, e: i32) -> Self;
    /// self == v * 2^e, exactly
    fn is(self, v: i128, e: i32) -> bool;
    /// A scale exponent: 0 for integers.
    fn exponent(s: &mut Src) -> i32;
    fn f(self) -> f64;
}

impl Num for i64 {
    const IS_INT: bool = true;
    const LIN: u32 = 60;
    const BI: u32 = 30;
    const TRI: u32 = 19;
    fn mk(v: i64, _: i32) -> i64 {
        v
    }
    fn is(self, v: i128, _: i32) -> bool {
        self as i128 == v
    }
    fn exponent(_: &mut Src) -> i32 {
        0
    }
    fn f(self) -> f64 {
        self as f64
    }
}

impl Num for Float {
    const IS_INT: bool = false;
    #[cfg(feature = "f64")]
    const LIN: u32 = 50;
    #[cfg(not(feature = "f64"))]
    const LIN: u32 = 21;
    #[cfg(feature = "f64")]
    const BI: u32 = 25;
    #[cfg(not(feature = "f64"))]
    const BI: u32 = 10;
    #[cfg(feature = "f64")]
    const TRI: u32 = 16;
    #[cfg(not(feature = "f64"))]
    const TRI: u32 = 6;
    fn mk(v: i64, e: i32) -> Float {
        v as Float * (2.0 as Float).powi(e)
    }
    fn is(self, v: i128, e: i32) -> bool {
        self as f64 == v as f64 * 2f64.powi(e)
    }
    fn exponent(s: &mut Src) -> i32 {
        match s.weighted(&[4, 2, 1]) {
            0 => 0,
            1 => s.int(-6, 6) as i32,
            _ => s.int(-25, 25) as i32,
        }
    }
    fn f(self) -> f64 {
        self as f64
    }
}

pub fn ints3(s: &mut Src, bits: u32) -> [i64; 3] {
    let mut v = [int(s, bits), int(s, bits), int(s, bits)];
    // ties, signs and zeros on purpose
    match s.below(8) {
        0 => v[1] = v[0],
        1 => v[2] = v[0],
        2 => v[2] = v[1],
        3 => v = [v[0]; 3],
        4 => v[1] = -v[0],
        _ => {}
    }
    v
}

/// An arbitrary finite float of moderate size (2^-59 .. 2^38, or zero).
pub fn real(s: &mut Src) -> Float {
    if let Some(v) = dict::real(s) {
        if v == 0.0 || (v.abs() > 2f64.powi(-59) && v.abs() < 2f64.powi(38)) {
            return v as Float;
        }
    }
    match s.weighted(&[3, 4, 3, 1]) {
        0 => s.int(-8, 8) as Float / 8.0,
        1 => s.int(-1_000_000, 1_000_000) as Float / 1000.0,
        2 => {
            // the square of the smallest is still a normal number, the cube of the largest finite
            let m = 0.5 + s.int(0, (1 << 40) - 1) as f64 / (1u64 << 41) as f64;
            let x = m * 2f64.powi(if s.chance(1, 3) { s.int(-58, 38) } else { s.int(-12, 12) } as i32);
            (if s.chance(1, 2) { -x } else { x }) as Float
        }
        _ => *s.pick(&[0.0, 1.0, -1.0, 0.1, -0.1, 1e-3, 1e6, -1e6, 0.999, 1.001, 3.25]) as Float,
    }
}

pub fn reals3(s: &mut Src) -> [Float; 3] {
    let mut v = [real(s), real(s), real(s)];
    match s.below(10) {
        0 => v[1] = v[0],
        1 => v[2] = v[1],
        2 => v = [v[0]; 3],
        _ => {}
    }
    v
}

/// |got - exp| <= k * eps * scale (scale: sum of the magnitudes of the terms)
pub fn near(got: Float, exp: f64, k: f64, scale: f64) -> bool {
    let g = got as f64;
    if g == exp {
        return true;
    }
    // 2^-140 covers subnormal results
    (g - exp).abs() <= k * EPS * scale + if EPS > 1e-10 { 2f64.powi(-140) } else { 2f64.powi(-1060) }
}

pub fn bytes(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}
pub fn ibytes(v: &[i64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

// ------------------------------------------------------------------ exact 4x4 linear algebra

pub type IM = [[i128; 4]; 4];

pub fn minor3(m: &IM, r: usize, c: usize) -> i128 {
    let rs: Vec<usize> = (0..4).filter(|&i| i != r).collect();
    let cs: Vec<usize> = (0..4).filter(|&i| i != c).collect();
    let a = |i: usize, j: usize| m[rs[i]][cs[j]];
    a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
        + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))
}

pub fn det4(m: &IM) -> i128 {
    (0..4).map(|c| if c % 2 == 0 { m[0][c] * minor3(m, 0, c) } else { -m[0][c] * minor3(m, 0, c) }).sum()
}

/// Exact inverse, rounded to f64 per entry; None if singular. Entries up to 2^28.
pub fn inverse4(m: &IM) -> Option<[[f64; 4]; 4]> {
    let d = det4(m);
    if d == 0 {
        return None;
    }
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            let mut c = minor3(m, j, i);
            if (i + j) % 2 == 1 {
                c = -c;
            }
            r[i][j] = c as f64 / d as f64;
        }
    }
    Some(r)
}

/// Largest row sum.
pub fn norm_inf(m: &[[f64; 4]; 4]) -> f64 {
    m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}

pub fn max_abs(m: &[[f64; 4]; 4]) -> f64 {
    m.iter().flatten().fold(0.0, |a, x| a.max(x.abs()))
}

/// An integer matrix of one of many shapes. `big` bounds the entries.
pub fn gen_im(s: &mut Src, big: i64) -> (IM, &'static str) {
    let e = |s: &mut Src| -> i128 {
        if let Some(v) = dict::int(s) {
            if v.abs() <= big {
                return v as i128;
            }
        }
        (match s.below(4) {
            0 => s.int(-1, 1),
            1 => s.int(-9.min(big), 9.min(big)),
            2 => s.int(-100.min(big), 100.min(big)),
            _ => s.int(-big, big),
        }) as i128
    };
    let mut m: IM = [[0; 4]; 4];
    let perm = |s: &mut Src| -> [usize; 4] {
        let mut p = [0, 1, 2, 3];
        for i in (1..4).rev() {
            let j = s.idx(i + 1);
            p.swap(i, j);
        }
        p
    };
    let name = match s.below(9) {
        0 => {
            for i in 0..4 {
                for j in 0..4 {
                    m[i][j] = e(s);
                }
            }
            "dense"
        }
        1 => {
            for i in 0..4 {
                for j in 0..4 {
                    if s.chance(1, 2) {
                        m[i][j] = e(s);
                    }
                }
            }
            "sparse"
        }
        2 => {
            let p = perm(s);
            for i in 0..4 {
                m[i][p[i]] = if s.chance(1, 2) { 1 } else { e(s) };
            }
            "permutation-like"
        }
        3 => {
            for i in 0..4 {
                m[i][i] = e(s);
            }
            "diagonal"
        }
        4 => {
            let p = perm(s);
            for i in 0..4 {
                for j in i..4 {
                    m[p[i]][j] = e(s);
                }
            }
            "row-permuted triangular"
        }
        5 => {
            let p = perm(s);
            for i in 0..4 {
                for j in i..4 {
                    m[i][p[j]] = e(s);
                }
            }
            "column-permuted triangular"
        }
        6 => {
            // affine map
            for r in m.iter_mut().take(3) {
                for x in r.iter_mut() {
                    *x = e(s);
                }
            }
            m[3][3] = 1;
            "affine"
        }
        7 => {
            // one huge entry per row or column among small ones
            for i in 0..4 {
                for j in 0..4 {
                    m[i][j] = s.int(-3.min(big), 3.min(big)) as i128;
                }
                let j = s.idx(4);
                m[i][j] = s.int(-big, big) as i128;
            }
            "unbalanced"
        }
        _ => {
            for i in 0..4 {
                m[i][i] = 1;
            }
            let k = 1 + s.idx(2);
            for _ in 0..k {
                let (i, j) = (s.idx(4), s.idx(4));
                m[i][j] = e(s);
            }
            "near identity"
        }
    };
    (m, name)
}

/// A matrix m * scale of a shape with a natural scale (entries of m up to 2^25): rows or
/// columns of length one, rotations, shears, symmetric and skew ones, reflections.
pub fn gen_special(s: &mut Src) -> (IM, f64, &'static str) {
    let mut m: IM = [[0; 4]; 4];
    for i in 0..4 {
        m[i][i] = 1;
    }
    match s.below(8) {
        0 | 1 => {
            // rows (or columns) of length five, scaled by a fifth
            let pool: &[[i128; 4]] = &[[5, 0, 0, 0], [3, 4, 0, 0], [1, 2, 2, 4], [0, 3, 4, 0], [4, 0, 0, 3], [2, 1, 4, 2], [0, 0, 5, 0], [4, 3, 0, 0], [0, 4, 3, 0]];
            let affine = s.chance(1, 2);
            for i in 0..4 {
                let mut r = *s.pick(pool);
                let p = s.idx(4);
                r.rotate_left(p);
                for x in r.iter_mut() {
                    if s.chance(1, 3) {
                        *x = -*x;
                    }
                }
                if affine && i == 3 {
                    r = [0, 0, 0, 5];
                }
                m[i] = r;
            }
            if s.chance(1, 3) {
                m = transpose(&m);
                return (m, 0.2, "columns of length one");
            }
            (m, 0.2, "rows of length one")
        }
        2 | 3 => {
            // a rotation of any axis pair by any angle, quantised to 24 bits
            let q = 2f64.powi(24);
            for i in 0..4 {
                m[i][i] = q as i128;
            }
            let angle = match s.below(3) {
                0 => s.int(-3142, 3142) as f64 / 1000.0,
                1 => s.int(-100, 100) as f64 / 10_000.0,
                _ => s.int(-100, 100) as f64 / 1_000_000.0,
            };
            let (i, j) = *s.pick(&[(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]);
            let (c, n) = ((angle.cos() * q).round() as i128, (angle.sin() * q).round() as i128);
            m[i][i] = c;
            m[j][j] = c;
            m[i][j] = -n;
            m[j][i] = n;
            if s.chance(1, 2) {
                for r in 0..3 {
                    m[r][3] = s.int(-8, 8) as i128 * (1 << 21);
                }
            }
            (m, 1.0 / q, "rotation")
        }
        4 => {
            // ones on the diagonal, anything on one side of it
            let up = s.chance(1, 2);
            for i in 0..4 {
                for j in 0..4 {
                    if (i < j) == up && i != j && s.chance(2, 3) {
                        m[i][j] = s.int(-9, 9) as i128;
                    }
                }
            }
            (m, 1.0, "shear")
        }
        5 => {
            // tiny deviations from the identity
            for i in 0..4 {
                m[i][i] = 1 << 24;
            }
            for _ in 0..1 + s.idx(4) {
                let (i, j) = (s.idx(4), s.idx(4));
                let d = 1i128 << s.below(20);
                m[i][j] += if s.chance(1, 2) { d } else { -d };
            }
            (m, 2f64.powi(-24), "nearly the identity")
        }
        6 => {
            for i in 0..4 {
                for j in i..4 {
                    let x = s.int(-9, 9) as i128;
                    m[i][j] = x;
                    m[j][i] = x;
                }
            }
            (m, if s.chance(1, 2) { 1.0 } else { 0.125 }, "symmetric")
        }
        _ => {
            // signed permutation, or skew
            if s.chance(1, 2) {
                for i in 0..4 {
                    for j in i..4 {
                        let x = if i == j { 0 } else { s.int(-9, 9) as i128 };
                        m[i][j] = x;
                        m[j][i] = -x;
                    }
                }
                return (m, 1.0, "skew");
            }
            for i in (1..4).rev() {
                let j = s.idx(i + 1);
                m.swap(i, j);
            }
            for r in m.iter_mut() {
                if s.chance(1, 2) {
                    *r = r.map(|x| -x);
                }
            }
            (m, 1.0, "signed permutation")
        }
    }
}

pub fn transpose(m: &IM) -> IM {
    let mut r = *m;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[j][i];
        }
    }
    r
}
