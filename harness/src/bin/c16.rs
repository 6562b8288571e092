//! C16: component selection picks the right component.
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{self, Point3};
use pbrtrs::verif::vector::{Vector2, Vector3};
use pbrtrs::verif::{pmax, pmin, ElemType};

trait Pick: Num + ElemType {
    /// any value that can be ordered
    fn any(s: &mut Src) -> Self;
}
impl Pick for i64 {
    fn any(s: &mut Src) -> i64 {
        if let Some(v) = dict::int(s) {
            return v;
        }
        match s.below(4) {
            0 => s.int(-2, 2),
            1 => *s.pick(&[i64::MIN, i64::MAX, 0, -1, 1, i64::MIN + 1, i64::MAX - 1]),
            2 => s.int(-1000, 1000),
            _ => s.bits() as i64,
        }
    }
}
impl Pick for Float {
    fn any(s: &mut Src) -> Float {
        match s.below(4) {
            0 => s.int(-2, 2) as Float,
            1 => *s.pick(&[Float::INFINITY, Float::NEG_INFINITY, 0.0, -0.0, Float::MAX, Float::MIN, Float::MIN_POSITIVE, -Float::MIN_POSITIVE, 1.0]),
            _ => real(s),
        }
    }
}

fn triple<T: Pick>(s: &mut Src) -> [T; 3] {
    let mut v = [T::any(s), T::any(s), T::any(s)];
    match s.below(6) {
        0 => v[1] = v[0],
        1 => v[2] = v[1],
        2 => v[0] = v[2],
        3 => v = [v[0]; 3],
        _ => {}
    }
    v
}

fn lo<T: Pick>(a: T, b: T) -> T {
    if b < a { b } else { a }
}
fn hi<T: Pick>(a: T, b: T) -> T {
    if b > a { b } else { a }
}

macro_rules! select {
    ($s:expr, $ty:ident, $a:expr, $b:expr) => {{
        let n = stringify!($ty);
        let (a, b) = ($a, $b);
        let (x, y) = ($ty::new(a[0], a[1], a[2]), $ty::new(b[0], b[1], b[2]));
        let mn = x.min(&y);
        let mx = x.max(&y);
        for (i, (g, h)) in [(mn.x, mx.x), (mn.y, mx.y), (mn.z, mx.z)].into_iter().enumerate() {
            ensure!(g == lo(a[i], b[i]), "{}: minimum of {:?} and {:?} has component {} {:?}", n, a, b, i, g);
            ensure!(h == hi(a[i], b[i]), "{}: maximum of {:?} and {:?} has component {} {:?}", n, a, b, i, h);
        }
        (x, mn)
    }};
}
macro_rules! components {
    ($s:expr, $ty:ident, $x:expr, $a:expr) => {{
        let n = stringify!($ty);
        let (x, a) = ($x, $a);
        let least = lo(lo(a[0], a[1]), a[2]);
        let most = hi(hi(a[0], a[1]), a[2]);
        ensure!(x.min_component() == least, "{}: smallest component of {:?} given as {:?}", n, a, x.min_component());
        ensure!(x.max_component() == most, "{}: largest component of {:?} given as {:?}", n, a, x.max_component());
        let d = x.max_dimension();
        let last = (0..3).rev().find(|&i| a[i] == most).unwrap();
        ensure!(d == last, "{}: index of the largest component of {:?} given as {}", n, a, d);
        let p = [$s.idx(3), $s.idx(3), $s.idx(3)];
        let q = x.permute(p[0], p[1], p[2]);
        ensure!([q.x, q.y, q.z] == [a[p[0]], a[p[1]], a[p[2]]], "{}: {:?} permuted by {:?} gives {:?}", n, a, p, q);
        for i in 0..3 {
            ensure!(x[i] == a[i], "{}: component {} of {:?} read as {:?}", n, i, a, x[i]);
        }
        let bad = *$s.pick(&[3usize, 4, 5, 7, 100, usize::MAX]);
        ensure!(guard(|| x[bad]).is_err(), "{}: component {} of a 3D value was readable", n, bad);
        let mut r = p;
        r[$s.idx(3)] = bad;
        ensure!(guard(|| x.permute(r[0], r[1], r[2])).is_err(), "{}: permutation {:?} was accepted", n, r);
    }};
}

fn order<T: Pick>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    let (a, b) = (triple::<T>(s), triple::<T>(s));
    s.ident(format!("{:?} {:?}", a, b).as_bytes());
    s.nontrivial(a != b);
    if a[0] == a[1] || a[1] == a[2] || a[0] == a[2] {
        s.label("tie");
    }
    s.note(|| format!("{}: {:?} and {:?}", kind, a, b));
    match s.below(3) {
        0 => {
            let (x, _) = select!(s, Vector3, a, b);
            components!(s, Vector3, x, a);
        }
        1 => {
            let (x, _) = select!(s, Normal3, a, b);
            components!(s, Normal3, x, a);
        }
        _ => {
            let (_, _) = select!(s, Point3, a, b);
            let v = Vector2::new(a[0], a[1]);
            ensure!(v[0] == a[0] && v[1] == a[1], "2D vector {:?} read as {:?}, {:?}", v, v[0], v[1]);
            let bad = *s.pick(&[2usize, 3, 4, 100, usize::MAX]);
            ensure!(guard(|| v[bad]).is_err(), "component {} of a 2D vector was readable", bad);
        }
    }
    // lists
    let mut l = vec![T::any(s)];
    while s.more(l.len(), 3, 30) {
        let x = T::any(s);
        let at = s.idx(l.len() + 1);
        l.insert(at, x);
    }
    let least = l.iter().copied().fold(l[0], lo);
    let most = l.iter().copied().fold(l[0], hi);
    ensure!(pmin(&l) == least, "minimum of {:?} given as {:?}", l, pmin(&l));
    ensure!(pmax(&l) == most, "maximum of {:?} given as {:?}", l, pmax(&l));
    Ok(())
}

fn facing<T: Num + ElemType>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    let (a, mut b) = (ints3(s, T::BI), ints3(s, T::BI));
    if s.chance(1, 4) {
        // perpendicular on purpose
        b = [a[1], -a[0], 0];
    }
    let e = T::exponent(s);
    let d: i128 = (0..3).map(|i| a[i] as i128 * b[i] as i128).sum();
    s.ident(&ibytes(&[a, b].concat()));
    s.nontrivial(d != 0);
    s.label(if d < 0 { "opposite hemisphere" } else if d == 0 { "perpendicular" } else { "same hemisphere" });
    s.note(|| format!("{}: facing {:?} towards {:?}, scale 2^{}", kind, a, b, e));
    let g = |v: &[i64; 3]| [T::mk(v[0], e), T::mk(v[1], e), T::mk(v[2], e)];
    let (ga, gb) = (g(&a), g(&b));
    let exp: [T; 3] = if d < 0 { g(&a.map(|x| -x)) } else { ga };
    let r = if s.chance(1, 2) {
        let v = Vector3::new(ga[0], ga[1], ga[2]).face_forward(&Vector3::new(gb[0], gb[1], gb[2]));
        [v.x, v.y, v.z]
    } else {
        let v = Normal3::new(ga[0], ga[1], ga[2]).face_forward(&Normal3::new(gb[0], gb[1], gb[2]));
        [v.x, v.y, v.z]
    };
    // a perpendicular vector stays as it is
    ensure!(r == exp, "facing {:?} towards {:?} gives {:?}", a, b, r);
    Ok(())
}

fn rounding(s: &mut Src) -> Check {
    s.label("rounding");
    let one = |s: &mut Src| -> Float {
        match s.below(5) {
            0 => s.int(-10, 10) as Float,
            1 => s.int(-100, 100) as Float / 4.0,
            2 => *s.pick(&[Float::INFINITY, Float::NEG_INFINITY, -0.0, Float::MIN_POSITIVE, -Float::MIN_POSITIVE, 0.5, -0.5, Float::MAX, 0.99999994, -0.99999994, 1e9, -1e9]),
            _ => real(s),
        }
    };
    let v = [one(s), one(s), one(s)];
    s.ident(&bytes(&v.map(|x| x as f64)));
    s.nontrivial(v.iter().any(|x| x.fract() != 0.0));
    s.note(|| format!("rounding {:?}", v));
    let p = Point3::new(v[0], v[1], v[2]);
    let (f, c) = (point::floor(&p), point::ceil(&p));
    for (i, (g, h)) in [(f.x, c.x), (f.y, c.y), (f.z, c.z)].into_iter().enumerate() {
        let x = v[i];
        let whole = |y: Float| y.is_infinite() || y % 1.0 == 0.0;
        ensure!(whole(g) && g <= x && (g == x || x - g < 1.0 || g + 1.0 > x), "rounding {:?} down gives {:?}", x, g);
        ensure!(whole(h) && h >= x && (h == x || h - x < 1.0 || h - 1.0 < x), "rounding {:?} up gives {:?}", x, h);
        if x.is_infinite() || x % 1.0 == 0.0 {
            ensure!(g == x && h == x, "whole number {:?} rounded to {:?} and {:?}", x, g, h);
        }
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    match s.below(6) {
        0 | 1 => order::<i64>(s, "integers"),
        2 | 3 => order::<Float>(s, "floats"),
        4 => if s.chance(1, 2) { facing::<i64>(s, "integer facing") } else { facing::<Float>(s, "float facing") },
        _ => rounding(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C16",
        rule: "pairs of component triples with ties, extremes and infinities, all index triples, lists up to 30 long, exact facing decisions, rounding; oracle: definition by comparison; non-trivial: the two triples differ, the dot product is not zero, or a component has a fraction",
        case,
        cases: (9_000_000, 70_000_000),
        stack_mb: 16,
    });
}
