//! C12: matrix operations obey matrix algebra.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::ElemType;
use pbrtrs::Matrix4;

type A4 = [[i64; 4]; 4];

fn gen(s: &mut Src, bits: u32) -> A4 {
    let mut m = [[0; 4]; 4];
    let style = s.below(4);
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = match style {
                0 => int(s, bits),
                1 => if s.chance(1, 3) { int(s, bits) } else { 0 },
                2 => (i == j) as i64,
                // every entry different
                _ => (i * 4 + j) as i64 + 1,
            };
        }
    }
    if style == 2 {
        let (i, j) = (s.idx(4), s.idx(4));
        m[i][j] = int(s, bits);
    }
    m
}

fn mk<T: Num + ElemType>(m: &A4, e: i32) -> Matrix4<T> {
    Matrix4::new(m.map(|r| r.map(|x| T::mk(x, e))))
}

fn same<T: Num + ElemType>(what: &str, got: &Matrix4<T>, exp: &IM, e: i32) -> Check {
    for i in 0..4 {
        for j in 0..4 {
            ensure!(got.mat[i][j].is(exp[i][j], e), "{}: entry ({},{}) is {:?}, expected {} * 2^{}; result {:?}", what, i, j, got.mat[i][j], exp[i][j], e, got.mat);
            ensure!(got[i][j].is(exp[i][j], e), "{}: reading row {}, column {} gives {:?}, expected {} * 2^{}", what, i, j, got[i][j], exp[i][j], e);
        }
    }
    Ok(())
}

fn wide(a: &A4) -> IM {
    a.map(|r| r.map(|x| x as i128))
}
fn mul(a: &IM, b: &IM) -> IM {
    let mut r = [[0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
fn add(a: &IM, b: &IM) -> IM {
    let mut r = *a;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] += b[i][j];
        }
    }
    r
}
fn tr(a: &IM) -> IM {
    let mut r = *a;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = a[j][i];
        }
    }
    r
}

fn exact<T: Num + ElemType>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    // products of three: entries of a third of the bits; products of two and sums: half
    let triple = s.chance(1, 2);
    let bits = if triple { T::TRI - 2 } else { T::BI };
    let (a, b, c) = (gen(s, bits), gen(s, bits), gen(s, bits));
    let e = T::exponent(s) / 2;
    for m in [&a, &b, &c] {
        s.ident(&ibytes(&m.iter().flatten().copied().collect::<Vec<_>>()));
    }
    s.ident(format!("{} {}", kind, e).as_bytes());
    s.nontrivial(a != b && b.iter().flatten().filter(|x| **x != 0).count() > 3);
    s.note(|| format!("{}: A {:?} B {:?} C {:?}, scale 2^{}", kind, a, b, c, e));
    let (wa, wb, wc) = (wide(&a), wide(&b), wide(&c));
    let (ma, mb, mc) = (mk::<T>(&a, e), mk::<T>(&b, e), mk::<T>(&c, e));
    same("matrix", &ma, &wa, e)?;
    same("A*B", &(ma * mb), &mul(&wa, &wb), 2 * e)?;
    same("A+B", &(ma + mb), &add(&wa, &wb), e)?;
    same("transpose of A", &ma.transpose(), &tr(&wa), e)?;
    same("transpose of the transpose of A", &ma.transpose().transpose(), &wa, e)?;
    same("transposed B times transposed A", &(mb.transpose() * ma.transpose()), &tr(&mul(&wa, &wb)), 2 * e)?;
    same("A*(B+C)", &(ma * (mb + mc)), &mul(&wa, &add(&wb, &wc)), 2 * e)?;
    let id: A4 = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]];
    let mi = mk::<T>(&id, 0);
    same("A*I", &(ma * mi), &wa, e)?;
    same("I*A", &(mi * ma), &wa, e)?;
    if triple {
        s.label("triple product");
        let abc = mul(&mul(&wa, &wb), &wc);
        same("(A*B)*C", &((ma * mb) * mc), &abc, 3 * e)?;
        same("A*(B*C)", &(ma * (mb * mc)), &abc, 3 * e)?;
    }
    // operands are left alone
    same("A after use", &ma, &wa, e)?;
    for i in [4usize, 5, 8, 16, usize::MAX] {
        ensure!(guard(|| ma[i]).is_err(), "row {} of a 4x4 matrix was readable", i);
    }
    Ok(())
}

fn rounded(s: &mut Src) -> Check {
    s.label("arbitrary floats");
    s.nontrivial(true);
    let mut g = || -> [[Float; 4]; 4] {
        let mut m = [[0.0; 4]; 4];
        for r in m.iter_mut() {
            for x in r.iter_mut() {
                *x = real(s);
            }
        }
        m
    };
    let (a, b) = (g(), g());
    s.ident(&bytes(&a.iter().chain(&b).flatten().map(|x| *x as f64).collect::<Vec<_>>()));
    s.note(|| format!("A {:?} B {:?}", a, b));
    let p = Matrix4::new(a) * Matrix4::new(b);
    let q = Matrix4::new(a) + Matrix4::new(b);
    let t = Matrix4::new(a).transpose();
    for i in 0..4 {
        for j in 0..4 {
            let (mut v, mut sc) = (0.0, 0.0);
            for k in 0..4 {
                let x = a[i][k] as f64 * b[k][j] as f64;
                v += x;
                sc += x.abs();
            }
            ensure!(near(p.mat[i][j], v, 16.0, sc), "product entry ({},{}) is {:e}, expected {:e}", i, j, p.mat[i][j], v);
            let (x, y) = (a[i][j] as f64, b[i][j] as f64);
            ensure!(near(q.mat[i][j], x + y, 4.0, x.abs() + y.abs()), "sum entry ({},{}) is {:e}, expected {:e}", i, j, q.mat[i][j], x + y);
            ensure!(t.mat[i][j] == a[j][i], "transpose entry ({},{}) is {:e}, expected {:e}", i, j, t.mat[i][j], a[j][i]);
        }
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    match s.below(5) {
        0 | 1 => exact::<i64>(s, "integers"),
        2 | 3 => exact::<Float>(s, "exact floats"),
        _ => rounded(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C12",
        rule: "triples of matrices (integers up to 2^30, dyadic floats with exactly representable results, arbitrary floats with a rounding bound) against exact integer arithmetic; non-trivial: A differs from B and B has more than three non-zero entries",
        case,
        cases: (4_000_000, 30_000_000),
        stack_mb: 16,
    });
}
