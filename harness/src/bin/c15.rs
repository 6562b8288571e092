//! C15: vector, normal and point arithmetic is exact component-wise algebra.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{Point2, Point3};
use pbrtrs::verif::vector::{Vector2, Vector3};
use pbrtrs::verif::ElemType;

type W3 = [i128; 3];

fn w(v: &[i64; 3]) -> W3 {
    [v[0] as i128, v[1] as i128, v[2] as i128]
}
fn is3<T: Num>(what: &str, got: [T; 3], exp: W3, e: i32) -> Check {
    for i in 0..3 {
        ensure!(got[i].is(exp[i], e), "{}: component {} is {:?}, expected {} * 2^{}", what, i, got[i], exp[i], e);
    }
    Ok(())
}
fn zip(a: &W3, b: &W3, f: fn(i128, i128) -> i128) -> W3 {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}
fn dot(a: &W3, b: &W3) -> i128 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: &W3, b: &W3) -> W3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}

/// What vectors and normals have in common, for values a, b and the scalar k.
macro_rules! common {
    ($s:expr, $ty:ident, $t:ident, $a:expr, $b:expr, $la:expr, $lb:expr, $k:expr, $div:expr, $e:expr) => {{
        let n = stringify!($ty);
        let c = |v: $ty<$t>| [v.x, v.y, v.z];
        let mk = |v: &[i64; 3]| $ty::new($t::mk(v[0], $e), $t::mk(v[1], $e), $t::mk(v[2], $e));
        // linear operations, on large values
        let (a, b, wa, wb) = (mk($la), mk($lb), w($la), w($lb));
        is3(&format!("{} new", n), c(a), wa, $e)?;
        for i in 0..3 {
            ensure!(a[i].is(wa[i], $e), "{}: index {} gives {:?}", n, i, a[i]);
        }
        is3(&format!("{} + {}", n, n), c(a + b), zip(&wa, &wb, |x, y| x + y), $e)?;
        is3(&format!("{} - {}", n, n), c(a - b), zip(&wa, &wb, |x, y| x - y), $e)?;
        is3(&format!("-{}", n), c(-a), wa.map(|x| -x), $e)?;
        is3(&format!("-&{}", n), c(-&a), wa.map(|x| -x), $e)?;
        is3(&format!("{0} - {0} + {0}", n), c((a - b) + b), wa, $e)?;
        // products, on values of half the size
        let (a, b, wa, wb) = (mk($a), mk($b), w($a), w($b));
        let k: i64 = $k;
        is3(&format!("{} * k", n), c(a * $t::mk(k, 0)), wa.map(|x| x * k as i128), $e)?;
        is3(&format!("&{} * k", n), c(&a * $t::mk(k, 0)), wa.map(|x| x * k as i128), $e)?;
        if k != 0 {
            // the quotient of an exact multiple
            let m = a * $t::mk(k, 0);
            let q = m / $t::mk(k, 0);
            is3(&format!("{} * k / k", n), c(q), wa, $e)?;
        }
        if $t::IS_INT {
            let d: i64 = $div;
            is3(&format!("{} / k", n), c(a / $t::mk(d, 0)), wa.map(|x| x / d as i128), $e)?;
        } else {
            let p = ($div as i32).rem_euclid(8) - 4;
            let q = a / $t::mk(1, p);
            is3(&format!("{} / 2^p", n), c(q), wa, $e - p)?;
        }
        ensure!(a.dot(&b).is(dot(&wa, &wb), 2 * $e), "{}: dot product {:?}, expected {} * 2^{}", n, a.dot(&b), dot(&wa, &wb), 2 * $e);
        ensure!(b.dot(&a).is(dot(&wa, &wb), 2 * $e), "{}: dot product is not symmetric", n);
        ensure!(a.len_sq().is(dot(&wa, &wa), 2 * $e), "{}: squared length {:?}, expected {} * 2^{}", n, a.len_sq(), dot(&wa, &wa), 2 * $e);
        let l = (dot(&wa, &wa) as f64).sqrt() * 2f64.powi($e);
        ensure!(near(a.len(), l, 4.0, l), "{}: length {:e}, expected {:e}", n, a.len(), l);
        let x = a.cross(&b);
        is3(&format!("{} cross product", n), c(x), cross(&wa, &wb), 2 * $e)?;
    }};
}

fn exact<T>(s: &mut Src, kind: &'static str) -> Check
where
    T: Num + ElemType,
{
    s.label(kind);
    let e = T::exponent(s);
    let (la, lb) = (ints3(s, T::LIN), ints3(s, T::LIN));
    let (a, mut b) = (ints3(s, T::BI), ints3(s, T::BI));
    match s.below(8) {
        0 => b = a,
        1 => b = a.map(|x| -x),
        _ => {}
    }
    let k = int(s, T::BI);
    let div = loop_nonzero(s, T::BI);
    s.ident(&ibytes(&[la, lb, a, b].concat()));
    s.ident(&ibytes(&[k, div, e as i64]));
    s.nontrivial(a.iter().filter(|x| **x != 0).count() >= 2 && b.iter().filter(|x| **x != 0).count() >= 2);
    s.note(|| format!("{}: a {:?} b {:?}, large {:?} {:?}, scalar {}, divisor {}, scale 2^{}", kind, a, b, la, lb, k, div, e));
    match s.below(3) {
        0 => common!(s, Vector3, T, &a, &b, &la, &lb, k, div, e),
        1 => common!(s, Normal3, T, &a, &b, &la, &lb, k, div, e),
        _ => points::<T>(&a, &la, &lb, k, div, e)?,
    }
    Ok(())
}

fn loop_nonzero(s: &mut Src, bits: u32) -> i64 {
    let k = int(s, bits);
    if k == 0 { 1 } else { k }
}

fn points<T: Num + ElemType>(a: &[i64; 3], la: &[i64; 3], lb: &[i64; 3], k: i64, div: i64, e: i32) -> Check {
    let p3 = |v: &[i64; 3]| Point3::new(T::mk(v[0], e), T::mk(v[1], e), T::mk(v[2], e));
    let v3 = |v: &[i64; 3]| Vector3::new(T::mk(v[0], e), T::mk(v[1], e), T::mk(v[2], e));
    let cp = |p: Point3<T>| [p.x, p.y, p.z];
    let cv = |p: Vector3<T>| [p.x, p.y, p.z];
    let (p, q, wp, wq) = (p3(la), p3(lb), w(la), w(lb));
    is3("point", cp(p), wp, e)?;
    is3("point + vector", cp(p + v3(lb)), zip(&wp, &wq, |x, y| x + y), e)?;
    is3("point - vector", cp(p - v3(lb)), zip(&wp, &wq, |x, y| x - y), e)?;
    is3("point - point", cv(p - q), zip(&wp, &wq, |x, y| x - y), e)?;
    is3("&point - point", cv(&p - q), zip(&wp, &wq, |x, y| x - y), e)?;
    is3("point plus the difference to another point", cp(p + (q - p)), wq, e)?;
    is3("absolute point", cp(p.abs()), wp.map(|x| x.abs()), e)?;
    let p2 = Point2::new(T::mk(la[0], e), T::mk(la[1], e));
    ensure!(p2.x.is(wp[0], e) && p2.y.is(wp[1], e), "2D point {:?}", p2);
    let ab = p2.abs();
    ensure!(ab.x.is(wp[0].abs(), e) && ab.y.is(wp[1].abs(), e), "absolute 2D point {:?} of {:?}", ab, p2);
    let (p, wp) = (p3(a), w(a));
    is3("point * k", cp(p * T::mk(k, 0)), wp.map(|x| x * k as i128), e)?;
    is3("&point * k", cp(&p * T::mk(k, 0)), wp.map(|x| x * k as i128), e)?;
    let u = Vector2::new(T::mk(a[0], e), T::mk(a[1], e));
    ensure!(u[0].is(wp[0], e) && u[1].is(wp[1], e), "2D vector {:?}", u);
    if k != 0 {
        let m = p * T::mk(k, 0);
        is3("point * k / k", cp(m / T::mk(k, 0)), wp, e)?;
        let m = Vector2::new(T::mk(a[0], e) * T::mk(k, 0), T::mk(a[1], e) * T::mk(k, 0));
        let q = m / T::mk(k, 0);
        ensure!(q.x.is(wp[0], e) && q.y.is(wp[1], e), "2D vector {:?} / {} is {:?}", m, k, q);
    }
    if T::IS_INT {
        is3("point / k", cp(p / T::mk(div, 0)), wp.map(|x| x / div as i128), e)?;
        let q = u / T::mk(div, 0);
        ensure!(q.x.is(wp[0] / div as i128, 0) && q.y.is(wp[1] / div as i128, 0), "2D vector {:?} / {} is {:?}", u, div, q);
    } else {
        let x = (div as i32).rem_euclid(8) - 4;
        is3("point / 2^k", cp(p / T::mk(1, x)), wp, e - x)?;
        let q = u / T::mk(1, x);
        ensure!(q.x.is(wp[0], e - x) && q.y.is(wp[1], e - x), "2D vector {:?} / 2^{} is {:?}", u, x, q);
    }
    ensure!(guard(|| u / T::mk(0, 0)).is_err(), "2D vector {:?} was divided by zero", u);
    Ok(())
}

fn rounded(s: &mut Src) -> Check {
    s.label("arbitrary floats");
    s.nontrivial(true);
    let (a, b) = (reals3(s), reals3(s));
    let k = real(s);
    let (fa, fb, fk) = (a.map(|x| x as f64), b.map(|x| x as f64), k as f64);
    s.ident(&bytes(&[fa, fb, [fk, 0.0, 0.0]].concat()));
    s.note(|| format!("a {:?} b {:?} scalar {:?}", a, b, k));
    let near3 = |what: &str, g: [Float; 3], f: &dyn Fn(usize) -> (f64, f64)| -> Check {
        for i in 0..3 {
            let (e, sc) = f(i);
            ensure!(near(g[i], e, 12.0, sc), "{}: component {} is {:e}, expected {:e}", what, i, g[i], e);
        }
        Ok(())
    };
    macro_rules! common {
        ($ty:ident) => {{
            let n = stringify!($ty);
            let (x, y) = ($ty::new(a[0], a[1], a[2]), $ty::new(b[0], b[1], b[2]));
            let c = |v: $ty<Float>| [v.x, v.y, v.z];
            near3(&format!("{} sum", n), c(x + y), &|i| (fa[i] + fb[i], fa[i].abs() + fb[i].abs()))?;
            near3(&format!("{} difference", n), c(x - y), &|i| (fa[i] - fb[i], fa[i].abs() + fb[i].abs()))?;
            near3(&format!("{} multiple", n), c(x * k), &|i| (fa[i] * fk, (fa[i] * fk).abs()))?;
            near3(&format!("&{} multiple", n), c(&x * k), &|i| (fa[i] * fk, (fa[i] * fk).abs()))?;
            if k != 0.0 {
                near3(&format!("{} quotient", n), c(x / k), &|i| (fa[i] / fk, (fa[i] / fk).abs()))?;
            }
            let d: f64 = (0..3).map(|i| fa[i] * fb[i]).sum();
            let sc: f64 = (0..3).map(|i| (fa[i] * fb[i]).abs()).sum();
            ensure!(near(x.dot(&y), d, 12.0, sc), "{}: dot product {:e}, expected {:e}", n, x.dot(&y), d);
            let l: f64 = (0..3).map(|i| fa[i] * fa[i]).sum();
            ensure!(near(x.len_sq(), l, 12.0, l), "{}: squared length {:e}, expected {:e}", n, x.len_sq(), l);
            ensure!(near(x.len(), l.sqrt(), 12.0, l.sqrt()), "{}: length {:e}, expected {:e}", n, x.len(), l.sqrt());
            near3(&format!("{} cross product", n), c(x.cross(&y)), &|i| {
                let (j, m) = ((i + 1) % 3, (i + 2) % 3);
                (fa[j] * fb[m] - fa[m] * fb[j], (fa[j] * fb[m]).abs() + (fa[m] * fb[j]).abs())
            })?;
        }};
    }
    common!(Vector3);
    common!(Normal3);
    let (p, q) = (Point3::new(a[0], a[1], a[2]), Point3::new(b[0], b[1], b[2]));
    let v = Vector3::new(b[0], b[1], b[2]);
    near3("point + vector", { let r = p + v; [r.x, r.y, r.z] }, &|i| (fa[i] + fb[i], fa[i].abs() + fb[i].abs()))?;
    near3("point - vector", { let r = p - v; [r.x, r.y, r.z] }, &|i| (fa[i] - fb[i], fa[i].abs() + fb[i].abs()))?;
    near3("point - point", { let r = p - q; [r.x, r.y, r.z] }, &|i| (fa[i] - fb[i], fa[i].abs() + fb[i].abs()))?;
    near3("point multiple", { let r = p * k; [r.x, r.y, r.z] }, &|i| (fa[i] * fk, (fa[i] * fk).abs()))?;
    if k != 0.0 {
        near3("point quotient", { let r = p / k; [r.x, r.y, r.z] }, &|i| (fa[i] / fk, (fa[i] / fk).abs()))?;
        let u = Vector2::new(a[0], a[1]) / k;
        ensure!(near(u.x, fa[0] / fk, 12.0, (fa[0] / fk).abs()) && near(u.y, fa[1] / fk, 12.0, (fa[1] / fk).abs()), "2D quotient {:?} of {:?} and {:?}", u, a, k);
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    match s.below(5) {
        0 | 1 => exact::<i64>(s, "integers"),
        2 | 3 => exact::<Float>(s, "exact floats"),
        _ => rounded(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C15",
        rule: "pairs of vectors, normals or points and a scalar (integers up to 2^60, dyadic floats with exactly representable results, arbitrary floats with a rounding bound) against exact integer arithmetic; non-trivial: both operands have at least two non-zero components",
        case,
        cases: (10_000_000, 80_000_000),
        stack_mb: 16,
    });
}
