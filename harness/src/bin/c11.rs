//! C11: a matrix times its inverse is the identity; singular input is refused.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::Matrix4;

fn as_f64(m: &[[Float; 4]; 4]) -> [[f64; 4]; 4] {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[i][j] as f64;
        }
    }
    r
}

fn singular(s: &mut Src) -> Check {
    let (mut m, _) = gen_im(s, 100);
    let e = if s.chance(1, 6) { s.int(-60, 60) } else { s.int(-10, 10) } as i32;
    let kind = s.below(4);
    match kind {
        0 => {
            let r = s.idx(4);
            m[r] = [0; 4];
        }
        1 => {
            let c = s.idx(4);
            for row in m.iter_mut() {
                row[c] = 0;
            }
        }
        2 => m = [[0; 4]; 4],
        _ => {
            // rank one: signed powers of two, so that elimination is exact in any order
            let mut u = [0i32; 8];
            for x in u.iter_mut() {
                *x = s.int(0, 5) as i32;
            }
            let sg: Vec<i128> = (0..8).map(|_| if s.chance(1, 2) { -1 } else { 1 }).collect();
            for i in 0..4 {
                for j in 0..4 {
                    m[i][j] = sg[i] * sg[4 + j] * (1i128 << (u[i] + u[4 + j]));
                }
            }
        }
    }
    let label = ["zero row", "zero column", "zero matrix", "rank one"][kind as usize];
    s.label(label);
    s.nontrivial(true);
    let as_int = s.chance(1, 2);
    s.ident(&ibytes(&m.iter().flatten().map(|x| *x as i64).collect::<Vec<_>>()));
    s.ident(&[as_int as u8, e as u8]);
    s.note(|| format!("singular ({}) {:?} as {}", label, m, if as_int { "integers".into() } else { format!("floats * 2^{}", e) }));
    let r = if as_int {
        guard(|| Matrix4::new(m.map(|r| r.map(|x| x as i64))).inverse())
    } else {
        guard(|| Matrix4::new(m.map(|r| r.map(|x| x as Float * (2.0 as Float).powi(e)))).inverse())
    };
    match r {
        Err(_) => Ok(()),
        Ok(x) => Err(format!("singular matrix ({}) was inverted to {:?}", label, x.mat)),
    }
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 5) {
        return singular(s);
    }
    let big = *s.pick(&[3, 10, 100, 1000, 1 << 20]);
    let special = s.chance(1, 4);
    let (m, sc, shape) = if special {
        gen_special(s)
    } else {
        let (m, shape) = gen_im(s, big);
        (m, 1.0, shape)
    };
    s.label(shape);
    let as_int = s.chance(1, 3);
    // overall scale and row/column scales, powers of two
    let sc = if as_int { 1.0 } else { sc };
    let e = if as_int || special { 0 } else { (if s.chance(1, 6) { s.int(-60, 60) } else { s.int(-20, 20) }) as i32 };
    let mut rs = [0i32; 4];
    let mut cs = [0i32; 4];
    if !as_int && !special && s.chance(1, 3) {
        for i in 0..4 {
            rs[i] = s.int(-6, 6) as i32;
            cs[i] = s.int(-6, 6) as i32;
        }
        s.label("rescaled rows and columns");
    }
    s.ident(&ibytes(&m.iter().flatten().map(|x| *x as i64).collect::<Vec<_>>()));
    s.ident(format!("{} {} {:?} {:?}", as_int, e, rs, cs).as_bytes());
    let inv = match inverse4(&m) {
        Some(i) => i,
        None => {
            s.label("singular by chance");
            return Ok(());
        }
    };
    // exact matrix and inverse as f64 (scales are exact)
    let mut a = [[0.0f64; 4]; 4];
    let mut ai = [[0.0f64; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            a[i][j] = m[i][j] as f64 * sc * 2f64.powi(e + rs[i] + cs[j]);
            ai[i][j] = inv[i][j] / sc * 2f64.powi(-(e + cs[i] + rs[j]));
        }
    }
    let cond = norm_inf(&a) * norm_inf(&ai);
    let tol = 40.0 * EPS * cond;
    s.note(|| format!("{} matrix {:?} as {}, condition {:.3e}", shape, a, if as_int { "integers" } else { "floats" }, cond));
    if tol > 0.05 {
        s.label("ill-conditioned, not judged");
        return Ok(());
    }
    s.nontrivial(shape != "diagonal");
    s.label(if as_int { "integer entries" } else { "float entries" });
    let r = if as_int {
        guard(|| Matrix4::new(m.map(|r| r.map(|x| x as i64))).inverse())
    } else {
        let mut f = [[0.0 as Float; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                f[i][j] = a[i][j] as Float;
            }
        }
        guard(|| Matrix4::new(f).inverse())
    };
    let x = match r {
        Ok(x) => as_f64(&x.mat),
        Err(p) => return Err(format!("invertible matrix {:?} was refused: {}", a, p)),
    };
    // Against the exact inverse: being close to it is what makes both products the identity.
    let mx = max_abs(&ai);
    for i in 0..4 {
        for j in 0..4 {
            ensure!((x[i][j] - ai[i][j]).abs() <= tol * mx, "inverse of {:?}: entry ({},{}) is {:e}, expected {:e} (condition {:e})", a, i, j, x[i][j], ai[i][j], cond);
        }
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C11",
        rule: "integer matrices of nine shapes and special ones (rotations, shears, near-identity, unit-row, symmetric, skew), as integers or floats, rescaled by powers of two, compared with the exact inverse (integer adjugate), and exactly singular ones; non-trivial: judged and not diagonal, or singular",
        case,
        cases: (10_000_000, 80_000_000),
        stack_mb: 16,
    });
}
