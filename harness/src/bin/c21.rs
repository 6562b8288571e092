//! C21: rays evaluate affinely and differentials scale around the main ray.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::ray::{Ray, RayDifferential};
use pbrtrs::verif::{Medium, Point3f, Vector3f};

type A = [Float; 3];
/// Far more than the rounding of a result too small to be a normal number.
const TINY: f64 = if EPS > 1e-10 { 1e-42 } else { 1e-320 };
fn p(v: &A) -> Point3f {
    Point3f::new(v[0], v[1], v[2])
}
fn v(a: &A) -> Vector3f {
    Vector3f::new(a[0], a[1], a[2])
}
fn pa(p: &Point3f) -> A {
    [p.x, p.y, p.z]
}
fn va(p: &Vector3f) -> A {
    [p.x, p.y, p.z]
}

/// Small dyadic values, on which everything below is exact, or arbitrary ones.
fn triple(s: &mut Src, exact: bool) -> A {
    if exact { ints3(s, 6).map(|x| x as Float / 4.0) } else { reals3(s) }
}

fn same(a: Float, b: Float) -> bool {
    a.to_bits() == b.to_bits()
}

fn main_ray(r: &Ray, o: &A, d: &A, t_max: Float, time: Float) -> Check {
    let (ro, rd) = (pa(&r.o), va(&r.d));
    ensure!((0..3).all(|i| same(ro[i], o[i])), "ray origin {:?}, expected {:?}", ro, o);
    ensure!((0..3).all(|i| same(rd[i], d[i])), "ray direction {:?}, expected {:?}", rd, d);
    ensure!(same(r.t_max, t_max), "ray limit {:?}, expected {:?}", r.t_max, t_max);
    ensure!(same(r.time, time), "ray time {:?}, expected {:?}", r.time, time);
    Ok(())
}

fn case(s: &mut Src) -> Check {
    let exact = s.chance(1, 2);
    s.label(if exact { "exact" } else { "rounded" });
    let (o, d) = (triple(s, exact), triple(s, exact));
    let (t_max, time);
    let ray = if s.chance(1, 3) {
        t_max = Float::INFINITY;
        time = 0.0;
        s.label("unbounded ray");
        Ray::new_infinite(p(&o), v(&d))
    } else {
        t_max = if s.chance(1, 4) { Float::INFINITY } else { real(s) };
        time = real(s);
        Ray::new(p(&o), v(&d), t_max, time, Medium {})
    };
    s.ident(&bytes(&[o, d].concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
    main_ray(&ray, &o, &d, t_max, time)?;
    for _ in 0..2 {
        let t = if exact { s.int(-64, 64) as Float / 8.0 } else { real(s) };
        s.note(|| format!("ray {:?} + t * {:?}, limit {:?}, time {:?}, at {:?}", o, d, t_max, time, t));
        s.ident(&bytes(&[t as f64]));
        s.nontrivial(t != 0.0 && d != [0.0; 3]);
        let g = pa(&ray.at(t));
        for i in 0..3 {
            let m = d[i] as f64 * t as f64;
            let want = o[i] as f64 + m;
            let ok = if exact { g[i] as f64 == want } else { near(g[i], want, 4.0, (o[i] as f64).abs() + m.abs()) };
            ensure!(ok, "point at {:?} on the ray {:?} + t * {:?} is {:?}, component {} should be {:e}", t, o, d, g, i, want);
        }
        main_ray(&ray, &o, &d, t_max, time)?;
    }
    if s.chance(1, 3) {
        return Ok(());
    }
    // differentials
    s.label("differentials");
    let mut rd = RayDifferential::new(ray);
    ensure!(!rd.has_differentials, "new ray differential is switched on");
    main_ray(&rd.ray, &o, &d, t_max, time)?;
    // offsets [rx_origin, ry_origin, rx_direction, ry_direction] from the main ray
    let mut cur: [A; 4] = [[0.0; 3]; 4];
    for c in cur.iter_mut() {
        *c = triple(s, exact);
    }
    rd.rx_origin = p(&cur[0]);
    rd.ry_origin = p(&cur[1]);
    rd.rx_direction = v(&cur[2]);
    rd.ry_direction = v(&cur[3]);
    rd.has_differentials = s.chance(1, 2);
    let on = rd.has_differentials;
    let base = [o, o, d, d];
    let mut want = [[0f64; 3]; 4];
    let mut err = [[0f64; 3]; 4];
    for k in 0..4 {
        for i in 0..3 {
            want[k][i] = cur[k][i] as f64 - base[k][i] as f64;
        }
    }
    s.note(|| format!("differentials {:?}, on: {}", cur, on));
    s.ident(&bytes(&cur.concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
    let mut n = 0;
    while s.more(n, 2, 6) {
        n += 1;
        let f: Float = if exact { *s.pick(&[2.0, 0.5, 1.0, -1.0, 4.0, 0.25, 3.0, 0.0]) } else { real(s) };
        s.note(|| format!("scale by {:?}", f));
        s.ident(&bytes(&[f as f64]));
        rd.scale_differentials(f);
        for k in 0..4 {
            for i in 0..3 {
                let b = (base[k][i] as f64).abs();
                // the offset is recomputed from the rounded sum: bound the error of each step
                let before = want[k][i].abs() + err[k][i];
                want[k][i] *= f as f64;
                err[k][i] = err[k][i] * (f as f64).abs() + 6.0 * EPS * ((b + before) * (f as f64).abs() + b) + TINY;
            }
        }
        let got = [pa(&rd.rx_origin), pa(&rd.ry_origin), va(&rd.rx_direction), va(&rd.ry_direction)];
        let name = ["x origin", "y origin", "x direction", "y direction"];
        for k in 0..4 {
            for i in 0..3 {
                let w = base[k][i] as f64 + want[k][i];
                let g = got[k][i] as f64;
                if !w.is_finite() || w.abs() > 1e30 {
                    return Ok(());
                }
                // exact values stay exact while they are short enough
                let ok = (g - w).abs() <= err[k][i] + 1e-40;
                ensure!(ok, "{} after {} scalings is {:?}, expected {:e} in component {} (error bound {:e})", name[k], n, got[k], w, i, err[k][i]);
            }
        }
        main_ray(&rd.ray, &o, &d, t_max, time)?;
        ensure!(rd.has_differentials == on, "scaling switched the differentials to {}", rd.has_differentials);
    }
    if n >= 2 {
        s.label("several scalings");
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C21",
        rule: "rays with any origin, direction, limit and time, evaluated at two parameters, and differentials with a history of up to six scalings, against affine arithmetic in double precision with a running error bound (exact on dyadic values); non-trivial: a parameter other than 0 and a direction other than zero",
        case,
        cases: (12_000_000, 90_000_000),
        stack_mb: 16,
    });
}
