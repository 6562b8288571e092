//! C17: derived frames are orthonormal and interpolation is affine.
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::point;
use pbrtrs::verif::vector::coordinate_system;
use pbrtrs::verif::{lerp, Point3f, Vector3f};

fn frame(s: &mut Src) -> Check {
    let one = |s: &mut Src| -> f64 {
        if let Some(v) = dict::real(s) {
            if v.abs() < 1e6 {
                return v;
            }
        }
        match s.below(4) {
            0 => s.int(-1, 1) as f64,
            1 => s.int(-1000, 1000) as f64 / 1000.0,
            2 => s.int(-1000, 1000) as f64 * 10f64.powi(-(s.int(0, 12) as i32)),
            _ => *s.pick(&[1e-30, -1e-30, 1e-20, 1e-10, 1e-7, -1e-4, 1e-45, 0.0]),
        }
    };
    let mut d = [one(s), one(s), one(s)];
    match s.below(6) {
        0 => d[1] = d[0],
        1 => d[1] = -d[0],
        2 => d[2] = d[1],
        3 => d[s.idx(3)] = 0.0,
        _ => {}
    }
    let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    if l < 1e-25 {
        d = [0.0, 0.0, 1.0];
    } else {
        d = d.map(|x| x / l);
        let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        d = d.map(|x| x / l);
    }
    let v1 = Vector3f::new(d[0] as Float, d[1] as Float, d[2] as Float);
    s.label("frame");
    s.ident(&bytes(&d));
    s.nontrivial(d.iter().filter(|x| **x != 0.0).count() >= 2);
    s.note(|| format!("frame around {:?}", v1));
    let (v2, v3) = coordinate_system::<Float>(&v1);
    let f = |v: &Vector3f| [v.x as f64, v.y as f64, v.z as f64];
    let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    let (a, b, c) = (f(&v1), f(&v2), f(&v3));
    let tol = 16.0 * EPS;
    for (n, v) in [("second", b), ("third", c)] {
        ensure!((dot(v, v) - 1.0).abs() <= tol, "{} vector {:?} of the frame around {:?} has squared length {}", n, v, a, dot(v, v));
        ensure!(dot(a, v).abs() <= tol, "{} vector {:?} is not perpendicular to {:?}: {:e}", n, v, a, dot(a, v));
    }
    ensure!(dot(b, c).abs() <= tol, "vectors {:?} and {:?} of the frame around {:?} are not perpendicular: {:e}", b, c, a, dot(b, c));
    let x = [b[1] * c[2] - b[2] * c[1], b[2] * c[0] - b[0] * c[2], b[0] * c[1] - b[1] * c[0]];
    ensure!((dot(a, x) - 1.0).abs() <= 4.0 * tol, "frame {:?} {:?} {:?} is not right-handed: {}", a, b, c, dot(a, x));
    Ok(())
}

fn param(s: &mut Src) -> Float {
    match s.below(4) {
        0 => *s.pick(&[0.0, 1.0, 0.5, 0.25, 2.0, -1.0]),
        1 => s.int(0, 1000) as Float / 1000.0,
        2 => s.int(-3000, 3000) as Float / 1000.0,
        _ => real(s),
    }
}

fn check(what: &str, t: Float, a: Float, b: Float, g: Float) -> Check {
    let (ft, fa, fb) = (t as f64, a as f64, b as f64);
    let e = fa + (fb - fa) * ft;
    let sc = fa.abs() * (1.0 + ft.abs()) + fb.abs() * ft.abs();
    ensure!(near(g, e, 16.0, sc), "{}: from {:?} to {:?} at {:?} gives {:?}, expected {:e}", what, a, b, t, g, e);
    Ok(())
}

fn interpolate(s: &mut Src) -> Check {
    let t = param(s);
    let (a, b) = (reals3(s), reals3(s));
    s.label(if t == 0.0 { "at 0" } else if t == 1.0 { "at 1" } else if t > 0.0 && t < 1.0 { "in between" } else { "outside" });
    s.ident(&bytes(&[a, b, [t, 0.0, 0.0]].concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(a != b && t != 0.0);
    s.note(|| format!("from {:?} to {:?} at {:?}", a, b, t));
    for i in 0..3 {
        check("number", t, a[i], b[i], lerp(t, a[i], b[i]))?;
    }
    let p = point::lerp(t, &Point3f::new(a[0], a[1], a[2]), &Point3f::new(b[0], b[1], b[2]));
    for (i, g) in [p.x, p.y, p.z].into_iter().enumerate() {
        check(["point x", "point y", "point z"][i], t, a[i], b[i], g)?;
    }
    Ok(())
}

fn exact(s: &mut Src) -> Check {
    // integer ends and dyadic fractions: every evaluation order is exact
    let bits = if cfg!(feature = "f64") { 20 } else { 10 };
    let (a, b) = (ints3(s, bits), ints3(s, bits));
    let q = s.int(-32, 32);
    let t = q as Float / 16.0;
    s.label("exact");
    s.ident(&ibytes(&[a, b, [q, 0, 0]].concat()));
    s.nontrivial(a != b && q != 0);
    s.note(|| format!("from {:?} to {:?} at {}/16", a, b, q));
    let f = |v: &[i64; 3]| Point3f::new(v[0] as Float, v[1] as Float, v[2] as Float);
    let p = point::lerp(t, &f(&a), &f(&b));
    for (i, g) in [p.x, p.y, p.z].into_iter().enumerate() {
        let e = ((a[i] * 16 + (b[i] - a[i]) * q) as f64 / 16.0) as Float;
        ensure!(g == e, "point component {} from {} to {} at {}/16 is {:?}, expected {:?}", i, a[i], b[i], q, g, e);
        let n = lerp(t, a[i] as Float, b[i] as Float);
        ensure!(n == e, "number from {} to {} at {}/16 is {:?}, expected {:?}", a[i], b[i], q, n, e);
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    match s.below(4) {
        0 | 1 => frame(s),
        2 => interpolate(s),
        _ => exact(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C17",
        rule: "unit vectors (axis-aligned, with equal, opposite or tiny components) and interpolations at fractions inside and outside 0..1, exact on dyadic values, else with a rounding bound; non-trivial: at least two non-zero components, or different ends and a fraction other than 0",
        case,
        cases: (16_000_000, 120_000_000),
        stack_mb: 16,
    });
}
