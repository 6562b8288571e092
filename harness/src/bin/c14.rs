//! C14: transforms act on vectors as their matrix says and are classified correctly.
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::transform::Transform;
use pbrtrs::verif::vector::Vector3;
use pbrtrs::verif::{ElemType, Vector3f};
use pbrtrs::Matrix4;

const ID: [[Float; 4]; 4] = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];

/// A transform with exactly this matrix; its inverse does not matter here.
fn with(m: [[Float; 4]; 4]) -> Transform {
    Transform::new(Matrix4::new(m), Matrix4::new(ID))
}

fn act_exact<T: Num + ElemType>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    let bits = <Float as Num>::BI;
    let mut m = [[0i64; 4]; 4];
    for r in m.iter_mut() {
        for x in r.iter_mut() {
            *x = int(s, bits);
        }
    }
    let v = ints3(s, bits);
    let (em, ev) = (<Float as Num>::exponent(s), T::exponent(s));
    s.ident(&ibytes(&m.iter().flatten().copied().collect::<Vec<_>>()));
    s.ident(&ibytes(&v));
    s.ident(format!("{} {}", em, ev).as_bytes());
    s.nontrivial(v.iter().filter(|x| **x != 0).count() >= 2);
    s.note(|| format!("{}: matrix {:?} * 2^{}, vector {:?} * 2^{}", kind, m, em, v, ev));
    let t = with(m.map(|r| r.map(|x| <Float as Num>::mk(x, em))));
    let w = Vector3::new(T::mk(v[0], ev), T::mk(v[1], ev), T::mk(v[2], ev)).transform(&t);
    for (i, g) in [w.x, w.y, w.z].into_iter().enumerate() {
        let e: i128 = (0..3).map(|k| m[i][k] as i128 * v[k] as i128).sum();
        ensure!(g.is(e, em + ev), "component {} is {:?}, expected {} * 2^{}", i, g, e, em + ev);
    }
    Ok(())
}

fn act_rounded(s: &mut Src) -> Check {
    s.label("arbitrary floats");
    let mut m = [[0.0 as Float; 4]; 4];
    for r in m.iter_mut() {
        for x in r.iter_mut() {
            *x = real(s);
        }
    }
    let v = reals3(s);
    s.ident(&bytes(&m.iter().flatten().chain(&v).map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(true);
    s.note(|| format!("matrix {:?}, vector {:?}", m, v));
    let w = Vector3::new(v[0], v[1], v[2]).transform(&with(m));
    for (i, g) in [w.x, w.y, w.z].into_iter().enumerate() {
        let terms: Vec<f64> = (0..3).map(|k| m[i][k] as f64 * v[k] as f64).collect();
        let (e, sc) = (terms.iter().sum::<f64>(), terms.iter().map(|x| x.abs()).sum::<f64>());
        ensure!(near(g, e, 12.0, sc), "component {} is {:e}, expected {:e}", i, g, e);
    }
    Ok(())
}

fn constructors(s: &mut Src) -> Check {
    let d = reals3(s);
    let v = reals3(s);
    s.ident(&bytes(&[d, v].concat().iter().map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(d.iter().any(|x| *x != 0.0));
    let vec = Vector3::new(v[0], v[1], v[2]);
    if s.chance(1, 2) {
        s.label("translation");
        s.note(|| format!("translate {:?}, vector {:?}", d, v));
        let t = Transform::translate(&Vector3f::new(d[0], d[1], d[2]));
        let mut e = ID;
        for i in 0..3 {
            e[i][3] = d[i];
        }
        ensure!(t.m.mat == e, "translation by {:?} has matrix {:?}", d, t.m.mat);
        let w = vec.transform(&t);
        ensure!([w.x, w.y, w.z] == v, "translation changed the direction {:?} to {:?}", v, w);
        ensure!(t.is_identity() == d.iter().all(|x| *x == 0.0), "translation by {:?}: is_identity() is {}", d, t.is_identity());
        ensure!(!t.has_scale(), "translation by {:?} is reported as scaling", d);
    } else {
        s.label("scaling");
        let d = d.map(|x| if x == 0.0 { 1.0 } else { x });
        s.note(|| format!("scale {:?}, vector {:?}", d, v));
        let t = Transform::scale(d[0], d[1], d[2]);
        let mut e = ID;
        for i in 0..3 {
            e[i][i] = d[i];
        }
        ensure!(t.m.mat == e, "scaling by {:?} has matrix {:?}", d, t.m.mat);
        ensure!(t.is_identity() == d.iter().all(|x| *x == 1.0), "scaling by {:?}: is_identity() is {}", d, t.is_identity());
        judge_scale(s, &t)?;
    }
    Ok(())
}

/// has_scale() against the column lengths, away from the threshold.
fn judge_scale(s: &mut Src, t: &Transform) -> Check {
    let mut yes = false;
    for j in 0..3 {
        let l: f64 = (0..3).map(|i| (t.m.mat[i][j] as f64).powi(2)).sum();
        let d = (l - 1.0).abs();
        if (d - 0.001).abs() < 2e-6 {
            s.label("at the threshold, not judged");
            return Ok(());
        }
        yes |= d > 0.001;
    }
    s.label(if yes { "has scale" } else { "has no scale" });
    ensure!(t.has_scale() == yes, "has_scale() is {} for {:?}", t.has_scale(), t.m.mat);
    Ok(())
}

fn identity(s: &mut Src) -> Check {
    let mut m = ID;
    let mut same = true;
    let (i, j) = (s.idx(4), s.idx(4));
    let was = m[i][j];
    match s.below(7) {
        0 => {
            s.label("identity itself");
            if s.chance(1, 2) && i != j {
                m[i][j] = -0.0;
            }
        }
        1 => m[i][j] = if was == 0.0 { Float::MIN_POSITIVE } else { 1.0 + Float::EPSILON },
        2 => m[i][j] = if was == 0.0 { -1e-9 } else { 1.0 - Float::EPSILON / 2.0 },
        3 => m[i][j] = real(s),
        4 => m[i][j] = if let Some(d) = dict::real(s) { was + d as Float } else { *s.pick(&[Float::NAN, Float::INFINITY, -1.0, 2.0, 1e-30]) },
        5 => {
            // exchanged rows
            let k = s.idx(4);
            m.swap(i, k);
        }
        _ => {
            let x = real(s);
            m[i][j] = x;
            m[j][i] = -x;
        }
    }
    for r in 0..4 {
        for c in 0..4 {
            same &= m[r][c] == ID[r][c];
        }
    }
    s.ident(&bytes(&m.iter().flatten().map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(!same);
    s.label("deviation from the identity");
    s.note(|| format!("matrix {:?}", m));
    let t = with(m);
    ensure!(t.is_identity() == same, "is_identity() is {} for {:?}", t.is_identity(), m);
    Ok(())
}

fn scale_class(s: &mut Src) -> Check {
    // an orthonormal frame, possibly with one axis stretched a little or a lot
    let (a, b, c) = (s.int(-314, 314) as f64 / 100.0, s.int(-314, 314) as f64 / 100.0, s.int(-314, 314) as f64 / 100.0);
    let (sa, ca, sb, cb, sc, cc) = (a.sin(), a.cos(), b.sin(), b.cos(), c.sin(), c.cos());
    let mut q = [
        [ca * cb, ca * sb * sc - sa * cc, ca * sb * cc + sa * sc],
        [sa * cb, sa * sb * sc + ca * cc, sa * sb * cc - ca * sc],
        [-sb, cb * sc, cb * cc],
    ];
    if s.chance(1, 4) {
        q = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
        let k = s.idx(3);
        q.swap(0, k);
    }
    match s.below(8) {
        0 => {
            // shear: ones on the diagonal
            q = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            for _ in 0..1 + s.idx(2) {
                let (i, j) = (s.idx(3), s.idx(3));
                if i != j {
                    q[i][j] = *s.pick(&[0.01, 0.03, 0.033, 0.1, -0.04, 0.5, 1.0, -2.0]);
                }
            }
        }
        1 => {
            for x in q.iter_mut().flatten() {
                *x = s.int(-8, 8) as f64 / 8.0;
            }
        }
        2 => {
            // rows of length one, columns of any
            let pool = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.6, 0.8, 0.0], [0.0, 0.6, 0.8], [0.8, 0.0, 0.6]];
            for r in q.iter_mut() {
                *r = *s.pick(&pool);
            }
        }
        _ => {}
    }
    let mut f = [1.0f64; 3];
    for x in f.iter_mut() {
        if s.chance(1, 3) {
            let sq: f64 = if let Some(d) = dict::real(s).filter(|d| d.abs() < 1e6) { if s.chance(1, 2) { (1.0 + d).abs() } else { d * d } } else { *s.pick(&[1.0, 1.0009, 1.00099, 1.00101, 1.0011, 0.9991, 0.99901, 0.99899, 0.9989, 0.5, 2.0, 0.0, 1.002, 0.998, 100.0, 1.0005, 0.9995]) };
            *x = sq.sqrt() * if s.chance(1, 5) { -1.0 } else { 1.0 };
        }
    }
    let mut m = ID;
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (q[i][j] * f[j]) as Float;
        }
        if s.chance(1, 2) {
            m[i][3] = real(s);
        }
        if s.chance(1, 6) {
            m[3][i] = real(s);
        }
    }
    s.ident(&bytes(&m.iter().flatten().map(|x| *x as f64).collect::<Vec<_>>()));
    s.nontrivial(true);
    s.note(|| format!("matrix {:?}", m));
    judge_scale(s, &with(m))
}

fn case(s: &mut Src) -> Check {
    match s.below(7) {
        0 => act_exact::<Float>(s, "exact floats"),
        1 => act_exact::<i64>(s, "integer vector"),
        2 => act_rounded(s),
        3 => constructors(s),
        4 => identity(s),
        _ => scale_class(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C14",
        rule: "vectors through matrices against exact arithmetic, constructor matrices, single deviations from the identity, frames with stretched axes around the one-thousandth threshold (2e-6 around it is not judged); non-trivial: at least two non-zero components, a non-zero parameter, or a matrix other than the identity",
        case,
        cases: (12_000_000, 100_000_000),
        stack_mb: 16,
    });
}
