//! C22: conversions between geometric types keep coordinates and refuse NaN.
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::Float;
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{Point2, Point3};
use pbrtrs::verif::vector::Vector3;
use pbrtrs::verif::{ElemType, HasNan};

trait Bits: ElemType {
    fn same(self, o: Self) -> bool;
    fn gen(s: &mut Src) -> Self;
}
impl Bits for i64 {
    fn same(self, o: i64) -> bool {
        self == o
    }
    fn gen(s: &mut Src) -> i64 {
        if s.chance(1, 8) { *s.pick(&[i64::MAX, i64::MIN]) } else { int(s, 62) }
    }
}
impl Bits for Float {
    fn same(self, o: Float) -> bool {
        self.to_bits() == o.to_bits() || (self != self && o != o)
    }
    fn gen(s: &mut Src) -> Float {
        match s.weighted(&[5, 2, 2, 2]) {
            0 => real(s),
            1 => *s.pick(&[Float::INFINITY, Float::NEG_INFINITY, Float::MAX, Float::MIN, -0.0, Float::MIN_POSITIVE]),
            2 => Float::from_bits(s.bits() as _),
            _ => *s.pick(&[Float::NAN, -Float::NAN]),
        }
    }
}

fn run<T: Bits>(s: &mut Src, nan: fn(&T) -> bool, kind: &'static str) -> Check {
    let a = [T::gen(s), T::gen(s), T::gen(s)];
    s.label(kind);
    s.ident(format!("{}{:?}", kind, a).as_bytes());
    s.nontrivial(!(a[0].same(a[1]) || a[1].same(a[2]) || a[0].same(a[2])));
    s.note(|| format!("{}: {:?}", kind, a));
    let keeps = |what: &str, b: [T; 3]| -> Check {
        ensure!((0..3).all(|i| b[i].same(a[i])), "{} turns {:?} into {:?}", what, a, b);
        Ok(())
    };
    let mkv = || Vector3::new(a[0], a[1], a[2]);
    let mkp = || Point3::new(a[0], a[1], a[2]);
    let p = Point3::from(mkv());
    keeps("vector to point", [p.x, p.y, p.z])?;
    let v = Vector3::from(mkp());
    keeps("point to vector", [v.x, v.y, v.z])?;
    let n = Normal3::from(mkv());
    keeps("vector to normal", [n.x, n.y, n.z])?;
    let back = Vector3::from(Point3::from(mkv()));
    keeps("vector to point and back", [back.x, back.y, back.z])?;
    let has = a.iter().any(nan);
    if has {
        s.label("with NaN");
    }
    ensure!(mkp().has_nan() == has, "has_nan of {:?} is {}", a, !has);
    match guard(|| Point2::from(mkp())) {
        Ok(q) => {
            ensure!(!has, "{:?} was projected to {:?}", a, q);
            ensure!(q.x.same(a[0]) && q.y.same(a[1]), "{:?} was projected to {:?}", a, q);
        }
        Err(e) => ensure!(has, "projection of {:?} was refused: {}", a, e),
    }
    Ok(())
}

fn case(s: &mut Src) -> Check {
    if s.chance(2, 3) {
        // not x.is_nan(): on a reference that is the code under test
        run::<Float>(s, |x| *x != *x, "float")
    } else {
        run::<i64>(s, |_| false, "integer")
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C22",
        rule: "coordinate triples of integers or floats (any bit pattern, infinities, NaN in any position) through every conversion, the NaN test and the projection; non-trivial: three different coordinates",
        case,
        cases: (12_000_000, 90_000_000),
        stack_mb: 16,
    });
}
