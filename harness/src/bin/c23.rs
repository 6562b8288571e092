//! C23: equality compares everything and nothing but the contents.
#[path = "../bridge.rs"]
#[allow(dead_code)]
mod bridge;
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::nums::*;
use harness::scene::*;
use harness::soup::corrupt_tokens;
use pbrtrs::parser::{verif, Directive, ParamSet, Parser, PreDirective};
use pbrtrs::verif::matrix::Matrix3;
use pbrtrs::verif::normal::Normal3;
use pbrtrs::verif::point::{Point2, Point3};
use pbrtrs::verif::transform::Transform;
use pbrtrs::verif::vector::{Vector2, Vector3};
use pbrtrs::verif::ElemType;
use pbrtrs::Matrix4;

type Parsed = (Vec<PreDirective>, Directive);

fn parse(t: &str) -> Result<Option<Parsed>, String> {
    guard(|| Parser::parse(t)).map(|r| r.ok()).map_err(|m| format!("the parser panicked: {}", m))
}

/// A text of the same length that says something slightly different (or nothing different).
fn alter(s: &mut Src, text: &str) -> (String, &'static str) {
    let mut c: Vec<char> = text.chars().collect();
    let choose = |s: &mut Src, f: &dyn Fn(&[char], usize) -> bool, c: &[char]| -> Option<usize> {
        let v: Vec<usize> = (0..c.len()).filter(|&i| f(c, i)).collect();
        if v.is_empty() { None } else { Some(*s.pick(&v)) }
    };
    match s.below(6) {
        0 | 1 => {
            if let Some(i) = choose(s, &|c, i| c[i].is_ascii_digit(), &c) {
                c[i] = (b'0' + s.below(10) as u8) as char;
            }
            (c.into_iter().collect(), "digit")
        }
        2 => {
            if let Some(i) = choose(s, &|c, i| c[i] == '-' || c[i] == '+', &c) {
                c[i] = if c[i] == '-' { '+' } else { '-' };
            }
            (c.into_iter().collect(), "sign")
        }
        3 => {
            // inside a string or a comment: most other places do not parse any more
            if let Some(i) = choose(s, &|c, i| c[i].is_alphabetic() && i > 0 && !c[i - 1].is_uppercase(), &c) {
                c[i] = *s.pick(&['a', 'z', 'A', 'é', '1', '_']);
            }
            (c.into_iter().collect(), "letter")
        }
        4 => {
            // words of the same length
            let ps = [
                ("AttributeBegin", "TransformBegin"), ("AttributeEnd", "TransformEnd"), ("rgb ", "xyz "), ("string ", "point2 "), ("texture ", "vector2 "), ("Transform ", "Translate "),
                ("Sampler", "Include"), ("\"true\"", "\"tree\""), ("integer ", "texture "), ("spectrum ", "blackbod "), ("All", "Any"), ("string ", "normal "),
            ];
            let (a, b) = *s.pick(&ps);
            let t: String = c.into_iter().collect();
            let (a, b) = if s.chance(1, 2) { (a, b) } else { (b, a) };
            (if s.chance(1, 2) { t.replace(a, b) } else { t.replacen(a, b, 1) }, "word")
        }
        _ => {
            // a blank becomes a line break, or another blank, somewhere between tokens or in a string
            if let Some(i) = choose(s, &|c, i| c[i] == ' ', &c) {
                c[i] = *s.pick(&['\n', '\t', ' ']);
            }
            (c.into_iter().collect(), "blank")
        }
    }
}

/// Every parameter set of the items of a block, directly in it.
fn sets(d: &Directive) -> Vec<&ParamSet> {
    let kids = match d {
        Directive::World(b) => verif::block(b).1,
        _ => return vec![],
    };
    kids.iter()
        .filter_map(|k| match k {
            Directive::Material(x) | Directive::Shape(x) | Directive::LightSource(x) | Directive::AreaLightSource(x) => Some(verif::directive(x).2),
            _ => None,
        })
        .collect()
}

fn copies(p: &ParamSet) -> Check {
    macro_rules! same {
        ($($f:ident)*) => { $( for x in &p.$f { ensure!(x.clone() == *x, "a copy of {:?} is not equal to it", x); } )* };
    }
    same!(bools ints floats point2fs vector2fs strings textures spectra);
    Ok(())
}

fn scenes(s: &mut Src) -> Check {
    let o = GenOpts { strings: s.below(2) as u8, numbers: s.below(2) as u8, max_params: 4, max_values: 4, ..GenOpts::normal() };
    let toks = gen_scene(s, &o);
    let l = gen_layout(s);
    let a = lay_out(s, &toks, &l);
    let (b, how) = match s.weighted(&[2, 12, 2, 3]) {
        0 => (a.text.clone(), "same text"),
        1 => alter(s, &a.text),
        2 => {
            let l = gen_layout(s);
            (lay_out(s, &toks, &l).text, "same tokens")
        }
        _ => {
            let mut t = toks.clone();
            corrupt_tokens(s, &mut t);
            (lay_out(s, &t, &Layout { wild: false, ..l }).text, "changed tokens")
        }
    };
    s.label(how);
    s.ident(a.text.as_bytes());
    s.ident(b.as_bytes());
    s.note(|| format!("texts {:?} and {:?}", a.text, b));
    let x = match parse(&a.text)? {
        Some(x) => x,
        None => return Err("well-formed scene was rejected".into()),
    };
    let y = match parse(&b)? {
        Some(y) => y,
        None => {
            s.label("the other text does not parse");
            return Ok(());
        }
    };
    s.nontrivial(a.text != b);
    let (mx, my) = (bridge::model(&x), bridge::model(&y));
    let same = mx == my;
    s.label(if same { "equal" } else { "different" });
    ensure!((x == y) == same, "scenes compare {} but are {}:\n{:?}\n{:?}", if same { "different" } else { "equal" }, if same { "equal" } else { "different" }, mx, my);
    ensure!((y == x) == same && (x != y) != same, "comparing the scenes the other way round gives another answer:\n{:?}\n{:?}", mx, my);
    // piece by piece
    for (i, (p, q)) in x.0.iter().zip(&y.0).enumerate() {
        ensure!((p == q) == (mx.pre[i] == my.pre[i]), "{:?} and {:?} compare {}", p, q, p == q);
    }
    ensure!((x.1 == y.1) == (mx.world == my.world), "the worlds compare {}: {:?} and {:?}", x.1 == y.1, mx.world, my.world);
    for p in sets(&x.1) {
        copies(p)?;
    }
    Ok(())
}

trait Val: ElemType + PartialEq {
    fn some(s: &mut Src) -> Self;
    fn near(self, s: &mut Src) -> Self;
}
impl Val for i64 {
    fn some(s: &mut Src) -> i64 {
        int(s, 62)
    }
    fn near(self, s: &mut Src) -> i64 {
        match s.below(5) {
            0 => self.wrapping_add(1),
            1 => self.wrapping_neg(),
            2 => self ^ (1 << s.below(63)),
            3 => dict::int(s).map_or(self, |d| self.wrapping_add(d)),
            _ => self.wrapping_sub(s.int(-300, 300)),
        }
    }
}
impl Val for Float {
    fn some(s: &mut Src) -> Float {
        if s.chance(1, 6) { *s.pick(&[Float::NAN, 0.0, -0.0, Float::INFINITY, Float::NEG_INFINITY, Float::MAX, Float::MIN_POSITIVE]) } else { real(s) }
    }
    fn near(self, s: &mut Src) -> Float {
        match s.below(7) {
            0 => self.next_up(),
            1 => self.next_down(),
            2 => -self,
            3 => self + (10.0 as Float).powi(s.int(-14, 2) as i32),
            4 => self * (1.0 + (10.0 as Float).powi(s.int(-14, 0) as i32)),
            5 => dict::real(s).map_or(self, |d| self + d as Float),
            _ => Self::some(s),
        }
    }
}

fn values<T: Val>(s: &mut Src, nan: fn(&T) -> bool, kind: &'static str) -> Check {
    s.label(kind);
    let x: Vec<T> = (0..16).map(|_| T::some(s)).collect();
    let mut y = x.clone();
    // no, one, or two components differ
    let k = s.idx(3);
    let n = *s.pick(&[2usize, 3, 16]);
    for _ in 0..k {
        let i = s.idx(n);
        y[i] = y[i].near(s);
    }
    // not x == y on slices: the components' own equality, by hand
    let eq = |m: usize| (0..m).all(|i| !nan(&x[i]) && !nan(&y[i]) && x[i] <= y[i] && x[i] >= y[i]);
    s.nontrivial(k > 0);
    s.ident(format!("{:?}{:?}", x, y).as_bytes());
    s.label(if eq(n) { "equal" } else { "different" });
    s.note(|| format!("{}: {:?} and {:?}", kind, x, y));
    macro_rules! two {
        ($what:expr, $a:expr, $b:expr, $m:expr) => {{
            let (a, b) = ($a, $b);
            let e = eq($m);
            ensure!((a == b) == e && (b == a) == e && (a != b) == !e, "{}: {:?} and {:?} compare {}", $what, a, b, a == b);
            let c = a;
            let whole = (0..$m).all(|i| !nan(&x[i]));
            ensure!((c == a) == whole, "{}: {:?} compared with a copy gives {}", $what, a, c == a);
        }};
    }
    let m4 = |v: &[T]| [[v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]], [v[8], v[9], v[10], v[11]], [v[12], v[13], v[14], v[15]]];
    let m3 = |v: &[T]| [[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]];
    two!("2D vectors", Vector2::new(x[0], x[1]), Vector2::new(y[0], y[1]), 2);
    two!("2D points", Point2::new(x[0], x[1]), Point2::new(y[0], y[1]), 2);
    two!("vectors", Vector3::new(x[0], x[1], x[2]), Vector3::new(y[0], y[1], y[2]), 3);
    two!("points", Point3::new(x[0], x[1], x[2]), Point3::new(y[0], y[1], y[2]), 3);
    two!("normals", Normal3::new(x[0], x[1], x[2]), Normal3::new(y[0], y[1], y[2]), 3);
    two!("3x3 matrices", Matrix3::new(m3(&x)), Matrix3::new(m3(&y)), 9);
    two!("matrices", Matrix4::new(m4(&x)), Matrix4::new(m4(&y)), 16);
    Ok(())
}

fn transforms(s: &mut Src) -> Check {
    s.label("transforms");
    let gen = |s: &mut Src| {
        let mut m = [[0.0 as Float; 4]; 4];
        for v in m.iter_mut().flatten() {
            *v = real(s);
        }
        m
    };
    let (a, b) = (gen(s), gen(s));
    let (mut c, mut d) = (a, b);
    let k = s.idx(3);
    for _ in 0..k {
        let (i, j) = (s.idx(4), s.idx(4));
        let m = if s.chance(1, 2) { &mut c } else { &mut d };
        m[i][j] = m[i][j].near(s);
    }
    let same = (0..16).all(|i| a[i / 4][i % 4] == c[i / 4][i % 4] && b[i / 4][i % 4] == d[i / 4][i % 4]);
    s.nontrivial(k > 0);
    s.ident(format!("{:?}{:?}{:?}{:?}", a, b, c, d).as_bytes());
    s.note(|| format!("transforms {:?} / {:?} and {:?} / {:?}", a, b, c, d));
    let (t, u) = (Transform::new(Matrix4::new(a), Matrix4::new(b)), Transform::new(Matrix4::new(c), Matrix4::new(d)));
    ensure!((t == u) == same && (u == t) == same && (t != u) == !same, "transforms {:?} and {:?} compare {}", t, u, t == u);
    ensure!(t == t.clone(), "a copy of {:?} is not equal to it", t);
    Ok(())
}

fn case(s: &mut Src) -> Check {
    match s.weighted(&[2, 3, 2, 1]) {
        0 => scenes(s),
        1 => values::<Float>(s, |x| *x != *x, "floats"),
        2 => values::<i64>(s, |_| false, "integers"),
        _ => transforms(s),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C23",
        rule: "pairs of scene texts (one changed in a digit, sign, letter, word, blank, token or layout, or not at all) whose parse results are compared with each other, oracle: equality of their contents read out; pairs of vectors, points, normals, matrices and transforms that differ in up to two components by as little as one unit in the last place; non-trivial: the two texts differ (and both parse), or a component was changed",
        case,
        cases: (1_500_000, 15_000_000),
        stack_mb: 64,
    });
}
