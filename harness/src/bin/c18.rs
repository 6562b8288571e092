//! C18: bounding boxes behave as sets of points.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::boundingbox::Bounds3;
use pbrtrs::verif::point::Point3;
use pbrtrs::verif::ElemType;

trait Coord: Num + ElemType {
    fn step(self, up: bool) -> Self;
    fn extreme(s: &mut Src) -> Self;
    const ENDS: [Self; 2];
}
impl Coord for i64 {
    fn step(self, up: bool) -> i64 {
        if up { self.saturating_add(1) } else { self.saturating_sub(1) }
    }
    const ENDS: [i64; 2] = [i64::MIN, i64::MAX];
    fn extreme(s: &mut Src) -> i64 {
        *s.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1])
    }
}
impl Coord for Float {
    fn step(self, up: bool) -> Float {
        if up { self.next_up() } else { self.next_down() }
    }
    const ENDS: [Float; 2] = [Float::NEG_INFINITY, Float::INFINITY];
    fn extreme(s: &mut Src) -> Float {
        *s.pick(&[Float::INFINITY, Float::NEG_INFINITY, Float::MAX, Float::MIN, Float::MIN_POSITIVE, -0.0])
    }
}

type P<T> = [T; 3];
/// The model: lower and upper end per axis.
#[derive(Clone, Copy, Debug)]
struct Bx<T> {
    lo: P<T>,
    hi: P<T>,
}
fn lt<T: PartialOrd>(a: T, b: T) -> T {
    if b < a { b } else { a }
}
fn gt<T: PartialOrd>(a: T, b: T) -> T {
    if b > a { b } else { a }
}
fn each<T: Copy>(a: P<T>, b: P<T>, f: fn(T, T) -> T) -> P<T> {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}
impl<T: Coord> Bx<T> {
    fn span(a: P<T>, b: P<T>) -> Bx<T> {
        Bx { lo: each(a, b, lt), hi: each(a, b, gt) }
    }
    fn has(&self, p: P<T>) -> bool {
        (0..3).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
    }
    fn has_x(&self, p: P<T>) -> bool {
        (0..3).all(|i| self.lo[i] <= p[i] && p[i] < self.hi[i])
    }
    fn empty(&self) -> bool {
        (0..3).any(|i| self.lo[i] > self.hi[i])
    }
}
fn pt<T: Coord>(p: P<T>) -> Point3<T> {
    Point3::new(p[0], p[1], p[2])
}
fn lo<T: Coord>(b: &Bounds3<T>) -> P<T> {
    [b.p_min.x, b.p_min.y, b.p_min.z]
}
fn hi<T: Coord>(b: &Bounds3<T>) -> P<T> {
    [b.p_max.x, b.p_max.y, b.p_max.z]
}
fn same<T: Coord>(what: &str, b: &Bounds3<T>, m: &Bx<T>) -> Check {
    ensure!(lo(b) == m.lo && hi(b) == m.hi, "{} is {:?}..{:?}, expected {:?}..{:?}", what, lo(b), hi(b), m.lo, m.hi);
    Ok(())
}

fn coord<T: Coord>(s: &mut Src, e: i32) -> T {
    match s.weighted(&[8, 3, 2, 1]) {
        0 => T::mk(s.int(-4, 4), e),
        1 => T::mk(s.int(-100, 100), e),
        2 => T::mk(int(s, T::LIN), e),
        _ => T::extreme(s),
    }
}
fn pick_pt<T: Coord>(s: &mut Src, e: i32) -> P<T> {
    [coord(s, e), coord(s, e), coord(s, e)]
}

/// A point at, next to, or away from the faces of the boxes.
fn probe<T: Coord>(s: &mut Src, e: i32, bs: &[Bx<T>]) -> P<T> {
    let mut p = pick_pt(s, e);
    for i in 0..3 {
        if s.chance(4, 5) {
            let b = s.pick(bs);
            let v = if s.chance(1, 2) { b.hi[i] } else { b.lo[i] };
            p[i] = match s.below(4) {
                0 | 1 => v,
                2 => v.step(true),
                _ => v.step(false),
            };
        }
    }
    p
}

fn gen_box<T: Coord>(s: &mut Src, e: i32, others: &[Bx<T>]) -> Result<(Bounds3<T>, Bx<T>), String> {
    // corners of the second box are often taken from the first, so that boxes touch or nest
    let corner = |s: &mut Src| if !others.is_empty() && s.chance(1, 2) { probe(s, e, others) } else { pick_pt(s, e) };
    if s.chance(1, 40) {
        s.label("infinite box");
        let (bx, m) = (Bounds3::new_inf(), Bx { lo: [T::ENDS[0]; 3], hi: [T::ENDS[1]; 3] });
        for _ in 0..2 {
            let p = if others.is_empty() { pick_pt(s, e) } else { probe(s, e, others) };
            ensure!(bx.inside(&pt(p)), "the infinite box does not contain {:?}", p);
        }
        same("infinite box", &bx, &m)?;
        return Ok((bx, m));
    }
    let a = corner(s);
    let (b, bx, what) = if s.chance(1, 8) {
        (a, Bounds3::new_pt(pt(a)), "box of one point")
    } else {
        let mut b = corner(s);
        for i in 0..3 {
            if s.chance(1, 8) {
                b[i] = a[i];
            }
        }
        (b, Bounds3::new(pt(a), pt(b)), "box of two points")
    };
    let m = Bx::span(a, b);
    same(what, &bx, &m)?;
    Ok((bx, m))
}

fn observe<T: Coord>(s: &mut Src, what: &str, e: i32, b: &Bounds3<T>, m: &Bx<T>, all: &[Bx<T>]) -> Check {
    for _ in 0..4 {
        let p = probe(s, e, all);
        ensure!(b.inside(&pt(p)) == m.has(p), "{} {:?}: inside {:?} is {}", what, m, p, !m.has(p));
        ensure!(b.inside_exclusive(&pt(p)) == m.has_x(p), "{} {:?}: inside_exclusive {:?} is {}", what, m, p, !m.has_x(p));
    }
    Ok(())
}

fn corners<T: Coord>(b: &Bounds3<T>, m: &Bx<T>) -> Check {
    let c: Vec<P<T>> = (0..8).map(|k| { let p = b.corner(k); [p.x, p.y, p.z] }).collect();
    // the numbering may start at the lower or at the upper corner
    let fits = |flip: usize| (0..8).all(|k| (0..3).all(|i| c[k][i] == if (k ^ flip) >> i & 1 == 1 { m.hi[i] } else { m.lo[i] }));
    ensure!(fits(0) || fits(7), "corners of {:?} are {:?}", m, c);
    Ok(())
}

fn history<T: Coord>(s: &mut Src, kind: &'static str) -> Check {
    s.label(kind);
    let e = T::exponent(s);
    let (mut b, mut m) = gen_box::<T>(s, e, &[])?;
    let mut seen = vec![m];
    s.ident(format!("{:?}", m).as_bytes());
    s.note(|| format!("{}: box {:?}..{:?}", kind, m.lo, m.hi));
    observe(s, "box", e, &b, &m, &[m])?;
    corners(&b, &m)?;
    let mut n = 0;
    while s.more(n, 3, 8) {
        n += 1;
        let op = s.below(4);
        let what;
        match op {
            0 => {
                let p = probe(s, e, &seen);
                s.note(|| format!("union with point {:?}", p));
                s.ident(format!("{:?}", p).as_bytes());
                b = b.union_pt(&pt(p));
                m = Bx { lo: each(m.lo, p, lt), hi: each(m.hi, p, gt) };
                what = "union with a point";
                s.label("union with a point");
            }
            1 | 2 => {
                let (c, mc) = gen_box::<T>(s, e, &seen)?;
                s.ident(format!("{}{:?}", op, mc).as_bytes());
                let (ib, jb) = (b.intersect(&c), c.intersect(&b));
                let im = Bx { lo: each(m.lo, mc.lo, gt), hi: each(m.hi, mc.hi, lt) };
                let share = !im.empty();
                ensure!(b.overlaps(&c) == share, "{:?} overlaps {:?}: {}", m, mc, !share);
                ensure!(c.overlaps(&b) == share, "{:?} overlaps {:?}: {}", mc, m, !share);
                let both = [m, mc];
                for _ in 0..3 {
                    let p = probe(s, e, &both);
                    for (x, d) in [(&ib, "a with b"), (&jb, "b with a")] {
                        ensure!(x.inside(&pt(p)) == (m.has(p) && mc.has(p)),
                            "point {:?} in the intersection of {:?} and {:?} ({}): {}", p, m, mc, d, x.inside(&pt(p)));
                    }
                }
                if share {
                    s.label("boxes share a point");
                    same("intersection", &ib, &im)?;
                    same("intersection", &jb, &im)?;
                } else {
                    s.label("disjoint boxes");
                    for p in [m.lo, m.hi, mc.lo, mc.hi, im.lo, im.hi] {
                        ensure!(!ib.inside(&pt(p)) && !jb.inside(&pt(p)), "intersection of disjoint {:?} and {:?} contains {:?}", m, mc, p);
                    }
                }
                if op == 1 || !share {
                    s.note(|| format!("union with box {:?}..{:?}", mc.lo, mc.hi));
                    let um = Bx { lo: each(m.lo, mc.lo, lt), hi: each(m.hi, mc.hi, gt) };
                    same("union", &c.union(&b), &um)?;
                    b = b.union(&c);
                    m = um;
                    what = "union";
                    s.label("union");
                } else {
                    s.note(|| format!("intersection with box {:?}..{:?}", mc.lo, mc.hi));
                    b = ib;
                    m = im;
                    what = "intersection";
                    s.label("intersection");
                }
            }
            _ => {
                // growing needs room: not with extreme coordinates
                let lim = T::mk(1i64 << (T::LIN - 1), e);
                let small = |v: &P<T>| v.iter().all(|x| *x <= lim && -*x <= lim && (T::IS_INT || *x == T::mk(0, 0) || x.f().abs() >= 2f64.powi(e)));
                let big = T::IS_INT && [m.lo, m.hi].iter().flatten().any(|x| x.f() <= i64::MIN as f64);
                if big || !small(&m.lo) || !small(&m.hi) {
                    continue;
                }
                let d = T::mk(int(s, T::LIN - 2).abs(), e);
                s.note(|| format!("grow by {:?}", d));
                s.ident(format!("{:?}", d).as_bytes());
                b = b.expand(d);
                m = Bx { lo: m.lo.map(|x| x - d), hi: m.hi.map(|x| x + d) };
                what = "grown box";
                s.label("expand");
            }
        }
        same(what, &b, &m)?;
        seen.push(m);
        observe(s, what, e, &b, &m, &seen)?;
        corners(&b, &m)?;
    }
    s.nontrivial(n >= 1 && (0..3).any(|i| seen[0].lo[i] < seen[0].hi[i]));
    Ok(())
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 2) { history::<i64>(s, "integer box") } else { history::<Float>(s, "float box") }
}

fn main() {
    harness::engine::main(Prop {
        id: "C18",
        rule: "a box of two points (degenerate, infinite and extreme ones included) and a history of unions with points and boxes, intersections and growth against a model of intervals, with probe points on, next to and away from the faces; non-trivial: a box with extent and at least one operation",
        case,
        cases: (7_000_000, 50_000_000),
        stack_mb: 16,
    });
}
