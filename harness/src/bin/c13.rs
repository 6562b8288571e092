//! C13: a transform and its stored inverse undo each other.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::transform::Transform;
use pbrtrs::verif::Vector3f;
use pbrtrs::Matrix4;

type F4 = [[f64; 4]; 4];

fn to64(m: &Matrix4<Float>) -> F4 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m.mat[i][j] as f64;
        }
    }
    r
}
fn tr(m: &F4) -> F4 {
    let mut r = *m;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[j][i];
        }
    }
    r
}

/// Entry-wise comparison; `tol[i][j]` is absolute.
fn close(what: &str, got: &F4, exp: &F4, tol: &F4) -> Check {
    for i in 0..4 {
        for j in 0..4 {
            ensure!((got[i][j] - exp[i][j]).abs() <= tol[i][j], "{}: entry ({},{}) is {:e}, expected {:e}; matrix {:?}", what, i, j, got[i][j], exp[i][j], got);
        }
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    // (transform, its exact matrix, its exact inverse, tolerances of both)
    let zero = [[0.0; 4]; 4];
    let mut id = zero;
    for i in 0..4 {
        id[i][i] = 1.0;
    }
    let (t, m, inv, mt, it): (Transform, F4, F4, F4, F4);
    match s.below(3) {
        0 => {
            let d = reals3(s);
            s.label("translation");
            s.nontrivial(d.iter().any(|x| *x != 0.0));
            s.ident(&bytes(&d.map(|x| x as f64)));
            s.note(|| format!("translate {:?}", d));
            t = Transform::translate(&Vector3f::new(d[0], d[1], d[2]));
            let (mut a, mut b) = (id, id);
            for i in 0..3 {
                a[i][3] = d[i] as f64;
                b[i][3] = -d[i] as f64;
            }
            (m, inv, mt, it) = (a, b, zero, zero);
        }
        1 => {
            let mut d = reals3(s);
            for x in d.iter_mut() {
                if *x == 0.0 {
                    *x = 1.0;
                }
            }
            s.label("scaling");
            s.nontrivial(d.iter().any(|x| *x != 1.0));
            s.ident(b"s");
            s.ident(&bytes(&d.map(|x| x as f64)));
            s.note(|| format!("scale {:?}", d));
            t = Transform::scale(d[0], d[1], d[2]);
            let (mut a, mut b, mut e) = (id, id, zero);
            for i in 0..3 {
                a[i][i] = d[i] as f64;
                b[i][i] = 1.0 / d[i] as f64;
                e[i][i] = 4.0 * EPS * b[i][i].abs();
            }
            (m, inv, mt, it) = (a, b, zero, e);
        }
        _ => {
            let big = *s.pick(&[3, 10, 100]);
            let (im, sc, shape) = if s.chance(1, 3) {
                gen_special(s)
            } else {
                let (im, shape) = gen_im(s, big);
                (im, 2f64.powi(if s.chance(1, 6) { s.int(-60, 60) } else { s.int(-8, 8) } as i32), shape)
            };
            let ai = match inverse4(&im) {
                Some(x) => x,
                None => {
                    s.label("singular by chance");
                    return Ok(());
                }
            };
            let (mut a, mut b) = (zero, zero);
            for i in 0..4 {
                for j in 0..4 {
                    // rounding of the entries (scale 1/5) is within the tolerance of the inverse
                    a[i][j] = (im[i][j] as f64 * sc) as Float as f64;
                    b[i][j] = ai[i][j] / sc;
                }
            }
            let cond = norm_inf(&a) * norm_inf(&b);
            let tol = 40.0 * EPS * cond;
            s.ident(&bytes(&a.iter().flatten().copied().collect::<Vec<_>>()));
            s.note(|| format!("{} matrix {:?}, condition {:.3e}", shape, a, cond));
            if tol > 0.05 {
                s.label("ill-conditioned, not judged");
                return Ok(());
            }
            s.label("from a matrix");
            s.nontrivial(shape != "diagonal");
            let f = Matrix4::new(a.map(|r| r.map(|x| x as Float)));
            t = match guard(|| Transform::new_(f)) {
                Ok(t) => t,
                Err(p) => return Err(format!("invertible matrix {:?} was refused: {}", a, p)),
            };
            let tt = [[tol * max_abs(&b); 4]; 4];
            (m, inv, mt, it) = (a, b, zero, tt);
        }
    }
    close("matrix", &to64(&t.m), &m, &mt)?;
    close("inverse", &to64(&t.inverse().m), &inv, &it)?;
    close("inverse of the inverse", &to64(&t.inverse().inverse().m), &m, &mt)?;
    // chains of invert and transpose against the pair (matrix, inverse)
    let (mut cur, mut a, mut b, mut ta, mut tb) = (t, m, inv, mt, it);
    let mut n = 0;
    let mut chain = String::new();
    while s.more(n, 3, 10) {
        if s.chance(1, 2) {
            cur = cur.inverse();
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ta, &mut tb);
            chain.push('i');
        } else {
            cur = cur.transpose();
            a = tr(&a);
            b = tr(&b);
            ta = tr(&ta);
            tb = tr(&tb);
            chain.push('t');
        }
        n += 1;
        close(&format!("matrix after {}", chain), &to64(&cur.m), &a, &ta)?;
        close(&format!("inverse after {}", chain), &to64(&cur.inverse().m), &b, &tb)?;
    }
    s.note(|| format!("chain {:?}", chain));
    s.ident(chain.as_bytes());
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C13",
        rule: "translations, scalings and transforms of integer-valued matrices (nine shapes, and rotations, shears, near-identity, unit-row, symmetric, skew ones) with the exact inverse as oracle, followed by chains of up to ten inversions and transpositions; non-trivial: not the identity (and, for matrices, judged and not diagonal)",
        case,
        cases: (10_000_000, 80_000_000),
        stack_mb: 16,
    });
}
