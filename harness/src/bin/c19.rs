//! C19: box measures are geometrically right.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::boundingbox::{self, Bounds3};
use pbrtrs::verif::point::Point3;
use pbrtrs::verif::{ElemType, Point3f};

fn extents(s: &mut Src, bits: u32) -> [i64; 3] {
    let mut d = ints3(s, bits).map(|x| x.abs());
    for x in d.iter_mut() {
        if s.chance(1, 8) {
            *x = 0;
        }
    }
    d
}

fn pt<T: Num + ElemType>(v: &[i64; 3], e: i32) -> Point3<T> {
    Point3::new(T::mk(v[0], e), T::mk(v[1], e), T::mk(v[2], e))
}

/// Integer-valued boxes: every measure is exact.
fn exact<T: Num + ElemType>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    let e = T::exponent(s).clamp(-20, 20);
    let a = ints3(s, T::TRI);
    let d = extents(s, T::TRI - 1);
    let b = [a[0] + d[0], a[1] + d[1], a[2] + d[2]];
    // the corners may be given in any order
    let (mut p, mut q) = (a, b);
    for i in 0..3 {
        if s.chance(1, 2) {
            std::mem::swap(&mut p[i], &mut q[i]);
        }
    }
    s.ident(&ibytes(&[p, q].concat()));
    s.ident(&ibytes(&[e as i64]));
    s.nontrivial(d.iter().filter(|x| **x > 0).count() >= 2);
    s.note(|| format!("{}: from {:?} to {:?}, scale 2^{}", kind, p, q, e));
    let bx = Bounds3::<T>::new(pt(&p, e), pt(&q, e));
    let w = d.map(|x| x as i128);
    let g = bx.diagonal();
    for (i, c) in [g.x, g.y, g.z].into_iter().enumerate() {
        ensure!(c.is(w[i], e), "diagonal component {} of {:?}..{:?} is {:?}", i, a, b, c);
    }
    let area = 2 * (w[0] * w[1] + w[1] * w[2] + w[0] * w[2]);
    ensure!(bx.surface_area().is(area, 2 * e), "surface area of {:?}..{:?} is {:?}, expected {} * 2^{}", a, b, bx.surface_area(), area, 2 * e);
    let vol = w[0] * w[1] * w[2];
    ensure!(bx.volume().is(vol, 3 * e), "volume of {:?}..{:?} is {:?}, expected {} * 2^{}", a, b, bx.volume(), vol, 3 * e);
    let m = bx.maximum_extent();
    let most = *w.iter().max().unwrap();
    ensure!(m == (0..3).rev().find(|&i| w[i] == most).unwrap(), "longest axis of {:?}..{:?} is {}", a, b, m);
    // relative offset of the corners, and of whole multiples of the side
    for k in 0..8usize {
        let up: Vec<bool> = (0..3).map(|i| k >> i & 1 == 1).collect();
        let c: Vec<i64> = (0..3).map(|i| if up[i] { b[i] } else { a[i] }).collect();
        let o = bx.offset(&pt(&[c[0], c[1], c[2]], e));
        for (i, v) in [o.x, o.y, o.z].into_iter().enumerate() {
            let want = if d[i] == 0 { 0 } else { up[i] as i128 };
            ensure!(v.is(want, 0), "offset of corner {:?} of {:?}..{:?}: component {} is {:?}, expected {}", c, a, b, i, v, want);
        }
    }
    let t = [s.int(-8, 8), s.int(-8, 8), s.int(-8, 8)];
    let c = [a[0] + t[0] * d[0], a[1] + t[1] * d[1], a[2] + t[2] * d[2]];
    let o = bx.offset(&pt(&c, e));
    for (i, v) in [o.x, o.y, o.z].into_iter().enumerate() {
        let want = if d[i] == 0 { 0 } else { t[i] as i128 };
        ensure!(v.is(want, 0), "offset of {:?} in {:?}..{:?}: component {} is {:?}, expected {}", c, a, b, i, v, want);
    }
    // an integer offset is truncated; a float one is the quotient
    if !T::IS_INT {
        let r = ints3(s, T::TRI);
        let o = bx.offset(&pt(&r, e));
        for (i, v) in [o.x, o.y, o.z].into_iter().enumerate() {
            if d[i] > 0 {
                let x = (r[i] - a[i]) as f64 / d[i] as f64;
                ensure!((v.f() - x).abs() <= 4.0 * EPS * x.abs(), "offset of {:?} in {:?}..{:?}: component {} is {:?}, expected {:e}", r, a, b, i, v, x);
            }
        }
    }
    Ok(())
}

fn arr(p: Point3f) -> [Float; 3] {
    [p.x, p.y, p.z]
}

/// Arbitrary float boxes: within a rounding bound.
fn float(s: &mut Src) -> Check {
    s.label("sphere and interpolation");
    let (p, mut q) = (reals3(s), reals3(s));
    for i in 0..3 {
        if s.chance(1, 6) {
            q[i] = p[i];
        }
    }
    let (lo, hi): (Vec<Float>, Vec<Float>) = (0..3).map(|i| (p[i].min(q[i]), p[i].max(q[i]))).unzip();
    let f3 = |v: &[Float]| Point3f::new(v[0], v[1], v[2]);
    let bx = Bounds3::new(f3(&p), f3(&q));
    let side: Vec<f64> = (0..3).map(|i| hi[i] as f64 - lo[i] as f64).collect();
    let size: Vec<f64> = (0..3).map(|i| (hi[i] as f64).abs().max((lo[i] as f64).abs())).collect();
    s.ident(&bytes(&[p, q].concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(side.iter().filter(|x| **x > 0.0).count() >= 2);
    s.note(|| format!("float box from {:?} to {:?}", p, q));
    // measures
    let g = bx.diagonal();
    for (i, c) in [g.x, g.y, g.z].into_iter().enumerate() {
        ensure!(near(c, side[i], 1.0, side[i]), "diagonal component {} of {:?}..{:?} is {:?}", i, lo, hi, c);
    }
    let area = 2.0 * (side[0] * side[1] + side[1] * side[2] + side[0] * side[2]);
    ensure!(near(bx.surface_area(), area, 8.0, area), "surface area of {:?}..{:?} is {:?}, expected {:e}", lo, hi, bx.surface_area(), area);
    let vol = side[0] * side[1] * side[2];
    ensure!(near(bx.volume(), vol, 8.0, vol), "volume of {:?}..{:?} is {:?}, expected {:e}", lo, hi, bx.volume(), vol);
    let m = bx.maximum_extent();
    let longest = side.iter().fold(0.0f64, |a, x| a.max(*x));
    ensure!(m < 3 && side[m] >= longest * (1.0 - 4.0 * EPS), "longest axis of {:?}..{:?} is {}", lo, hi, m);
    // sphere
    let (c, r) = boundingbox::bounding_sphere(&bx);
    let c = arr(c);
    for i in 0..3 {
        let want = (lo[i] as f64 + hi[i] as f64) / 2.0;
        ensure!(near(c[i], want, 2.0, size[i]), "centre of the sphere around {:?}..{:?} is {:?}", lo, hi, c);
    }
    let want = side.iter().map(|x| x * x).sum::<f64>().sqrt() / 2.0;
    ensure!(near(r, want, 8.0, want + size.iter().sum::<f64>()), "radius of the sphere around {:?}..{:?} is {:?}, expected {:e}", lo, hi, r, want);
    // interpolation at a fraction, and back from the offset
    let t = [0, 1, 2].map(|_| match s.below(4) {
        0 => 0.0,
        1 => 1.0,
        2 => s.int(-16, 32) as Float / 16.0,
        _ => s.int(0, 1_000_000) as Float / 1_000_000.0,
    });
    s.ident(&bytes(&t.map(|x| x as f64)));
    let l = arr(boundingbox::lerp(&bx, &f3(&t)));
    for i in 0..3 {
        let want = lo[i] as f64 + (hi[i] as f64 - lo[i] as f64) * t[i] as f64;
        let scale = size[i] * (1.0 + t[i].abs() as f64);
        ensure!(near(l[i], want, 8.0, scale), "interpolating {:?}..{:?} at {:?} gives {:?}, component {} should be {:e}", lo, hi, t, l, i, want);
        if t[i] == 0.0 || t[i] == 1.0 {
            let end = if t[i] == 0.0 { lo[i] } else { hi[i] };
            ensure!(near(l[i], end as f64, 1.0, size[i]), "interpolating {:?}..{:?} at {:?} gives {:?}", lo, hi, t, l);
        }
    }
    // offset of an arbitrary point (near the box, unless an axis has no extent)
    let mut x = reals3(s);
    for i in 0..3 {
        if side[i] == 0.0 || s.chance(1, 2) {
            x[i] = (lo[i] as f64 + side[i] * (s.int(-8, 24) as f64 / 16.0)) as Float;
        }
    }
    s.ident(&bytes(&x.map(|x| x as f64)));
    s.note(|| format!("fraction {:?}, point {:?}", t, x));
    let o = bx.offset(&f3(&x));
    let o = [o.x, o.y, o.z];
    for i in 0..3 {
        if side[i] > 0.0 {
            let want = (x[i] as f64 - lo[i] as f64) / side[i];
            ensure!(near(o[i], want, 8.0, want.abs()), "offset of {:?} in {:?}..{:?} is {:?}, component {} should be {:e}", x, lo, hi, o, i, want);
        } else {
            ensure!(o[i] == 0.0, "offset of {:?} in {:?}..{:?} is {:?}", x, lo, hi, o);
        }
    }
    let back = arr(boundingbox::lerp(&bx, &f3(&o)));
    for i in 0..3 {
        let scale = (size[i] + x[i].abs() as f64) * (1.0 + o[i].abs() as f64);
        ensure!(near(back[i], x[i] as f64, 16.0, scale), "interpolating {:?}..{:?} by the offset {:?} of {:?} gives {:?}", lo, hi, o, x, back);
    }
    Ok(())
}

/// Dyadic boxes: the sphere's centre and the corners' distance are exact.
fn sphere(s: &mut Src) -> Check {
    s.label("dyadic box");
    let a = ints3(s, <Float as Num>::TRI);
    let d = extents(s, <Float as Num>::TRI - 1);
    let e = <Float as Num>::exponent(s);
    s.ident(&ibytes(&[a, d].concat()));
    s.ident(&ibytes(&[e as i64]));
    s.nontrivial(d.iter().filter(|x| **x > 0).count() >= 2);
    s.note(|| format!("sphere around {:?}, sides {:?}, scale 2^{}", a, d, e));
    let b = [a[0] + d[0], a[1] + d[1], a[2] + d[2]];
    let bx = Bounds3::new(pt::<Float>(&a, e), pt::<Float>(&b, e));
    let (c, r) = boundingbox::bounding_sphere(&bx);
    let c = arr(c);
    for i in 0..3 {
        ensure!(c[i].is((a[i] + b[i]) as i128, e - 1), "centre of the sphere around {:?}..{:?} (2^{}) is {:?}", a, b, e, c);
    }
    let want = (d.iter().map(|x| x * x).sum::<i64>() as f64).sqrt() * 2f64.powi(e - 1);
    ensure!(near(r, want, 4.0, want), "radius of the sphere around {:?}..{:?} (2^{}) is {:?}, expected {:e}", a, b, e, r, want);
    Ok(())
}

/// An empty box (the intersection of two disjoint ones) has no extent to enclose.
fn empty(s: &mut Src) -> Check {
    s.label("empty box");
    let e = <Float as Num>::exponent(s);
    let a = ints3(s, 8);
    let d = extents(s, 8);
    let b = [a[0] + d[0], a[1] + d[1], a[2] + d[2]];
    // a second box beyond a face of the first, on one axis at least
    let k = s.idx(3);
    let c = ints3(s, 8);
    let mut c = [c[0].min(b[0]), c[1].min(b[1]), c[2].min(b[2])];
    let mut f = [b[0].max(c[0] + 3), b[1].max(c[1] + 3), b[2].max(c[2] + 3)];
    c[k] = b[k] + s.int(1, 200);
    f[k] = c[k] + s.int(0, 200);
    s.ident(&ibytes(&[a, b, c, f].concat()));
    s.nontrivial(true);
    s.note(|| format!("intersection of {:?}..{:?} and {:?}..{:?}, scale 2^{}", a, b, c, f, e));
    let bx = |lo: &[i64; 3], hi: &[i64; 3]| Bounds3::new(pt::<Float>(lo, e), pt::<Float>(hi, e));
    let (p, q) = (bx(&a, &b), bx(&c, &f));
    let i = if s.chance(1, 2) { p.intersect(&q) } else { q.intersect(&p) };
    let (_, r) = boundingbox::bounding_sphere(&i);
    ensure!(r == 0.0, "the sphere around the empty intersection of {:?}..{:?} and {:?}..{:?} has radius {:?}", a, b, c, f, r);
    Ok(())
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 12) {
        return empty(s);
    }
    match s.below(5) {
        0 => exact::<i64>(s, "integer box"),
        1 => exact::<Float>(s, "float box"),
        2 => sphere(s),
        _ => float(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C19",
        rule: "boxes given by two corners in any order (cubes, flat, degenerate, negative, shifted), exact on integer-valued ones, else with a rounding bound, with probe points and fractions inside and outside; non-trivial: at least two axes of non-zero extent",
        case,
        cases: (14_000_000, 100_000_000),
        stack_mb: 16,
    });
}
