//! C04: numeric literals mean the number they spell.
#[path = "../bridge.rs"]
mod bridge;
use bridge::Got;
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::scene::*;

fn digits(s: &mut Src, max: usize) -> String {
    let n = match dict::len(s, max) {
        Some(k) if k > 0 => k,
        _ => 1 + match s.weighted(&[4, 3, 1]) {
            0 => s.idx(4),
            1 => s.idx(20),
            _ => s.idx(max),
        },
    };
    let style = s.below(5);
    (0..n)
        .map(|_| match style {
            0 => '9',
            1 => '0',
            _ => (b'0' + s.below(10) as u8) as char,
        })
        .collect()
}

/// (sign, whole digits, fraction digits if there is a point, exponent if there is one)
struct Lit {
    text: String,
    /// spelling without '+', digits guaranteed; what std's parser reads
    norm: String,
    point: bool,
    exp: Option<String>,
    mant: String,
}

fn gen_lit(s: &mut Src) -> Lit {
    let sign = *s.pick(&["", "", "-", "+"]);
    let form = s.weighted(&[4, 4, 2, 2]);
    let mut m = String::new();
    let big = 60;
    match form {
        0 => m.push_str(&digits(s, big)),
        1 => {
            m.push_str(&digits(s, big));
            m.push('.');
            m.push_str(&digits(s, big));
        }
        2 => {
            m.push('.');
            m.push_str(&digits(s, big));
        }
        _ => {
            m.push_str(&digits(s, big));
            m.push('.');
        }
    }
    if form == 0 && s.chance(1, 4) {
        // around the 64-bit and float-precision limits
        m = s
            .pick(&[
                "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551616", "4294967296", "2147483648",
                "16777217", "9007199254740993", "999999999999999999", "922337203685477580", "0009223372036854775807", "0", "1", "10",
            ])
            .to_string();
    }
    if form == 0 {
        if let Some(v) = dict::int(s) {
            m = v.unsigned_abs().to_string();
        }
    } else if form == 1 {
        let v = dict::real(s).map_or(String::new(), |v| v.abs().to_string());
        if v.contains('.') {
            m = v;
        }
    }
    let mut exp = None;
    if s.chance(1, 2) {
        let es = *s.pick(&["", "-", "+"]);
        let e = match s.weighted(&[4, 4, 3, 2, 1, 1]) {
            0 => s.below(10).to_string(),
            1 => s.below(25).to_string(),
            2 => (25 + s.below(40)).to_string(),
            3 => s.below(420).to_string(),
            4 => format!("00{}", s.below(30)),
            _ => s
                .pick(&["4294967296", "4294967297", "4294967298", "2147483648", "2147483649", "18446744073709551616", "18446744073709551617", "9223372036854775807", "256", "65536", "1000000", "308", "309", "38", "39", "45", "46", "323", "324"])
                .to_string(),
        };
        let e = dict::int(s).map_or(e, |v| v.unsigned_abs().to_string());
        exp = Some(format!("{}{}", es, e));
    }
    let text = format!("{}{}{}", sign, m, exp.as_ref().map_or(String::new(), |e| format!("e{}", e)));
    let n = if sign == "-" { "-" } else { "" };
    let norm = format!("{}{}{}", n, m, exp.as_ref().map_or(String::new(), |e| format!("e{}", e)));
    Lit { point: form != 0, exp, mant: format!("{}{}", n, m), text, norm }
}

/// Exact integer value if the literal has no point and no negative exponent and fits 64 bits.
fn exact_int(l: &Lit) -> Option<i64> {
    if l.point {
        return None;
    }
    let neg = l.mant.starts_with('-');
    let mut d = l.mant.trim_start_matches('-').trim_start_matches('0').to_owned();
    let e: u64 = match &l.exp {
        None => 0,
        Some(e) if e.starts_with('-') => return None,
        Some(e) => match e.trim_start_matches('+').parse() {
            Ok(v) => v,
            Err(_) => return None,
        },
    };
    if d.is_empty() {
        return Some(0);
    }
    if d.len() as u64 + e > 25 {
        return None;
    }
    for _ in 0..e {
        d.push('0');
    }
    let v: i128 = d.parse().ok()?;
    let v = if neg { -v } else { v };
    if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Some(v as i64) } else { None }
}

/// Fractional exponents are outside the usual grammar: rejected, or the number they spell.
fn fractional_exponent(s: &mut Src) -> Check {
    let m = format!("{}{}.{}", s.pick(&["", "-"]), s.below(1000), s.below(1000));
    let e = format!("{}{}.{}", s.pick(&["", "-", "+"]), s.below(25), s.pick(&["5", "25", "75", "0", "125", "", "1"]));
    let text = format!("WorldBegin Shape \"s\" \"float n\" [{}e{}] WorldEnd", m, e);
    s.ident(text.as_bytes());
    s.nontrivial(true);
    s.label("fractional exponent");
    s.note(|| text.clone());
    if let Got::Scene(Scene { world: Item::Block(_, _, c), .. }) = bridge::parse(&text)? {
        let want = m.parse::<f64>().unwrap() * 10f64.powf(e.parse().unwrap());
        match c.first() {
            Some(Item::Dir(d)) if d.params.floats.len() == 1 && d.params.floats[0].values.len() == 1 => {
                let got = d.params.floats[0].values[0] as f64;
                ensure!((got - want).abs() <= 1e-4 * want.abs(), "literal {}e{} was read as {}, expected {} or a rejection", m, e, got, want);
            }
            _ => return Err(format!("unexpected world {:?}", c)),
        }
    }
    Ok(())
}

/// Digits of other scripts, superscripts and fractions are no decimal digits.
fn foreign(s: &mut Src) -> Check {
    let mut l: Vec<char> = gen_lit(s).text.chars().collect();
    let ds: Vec<usize> = (0..l.len()).filter(|&i| l[i].is_ascii_digit()).collect();
    let i = *s.pick(&ds);
    let c = *s.pick(&['²', '³', '¹', '٣', '½', '५', '３', 'Ⅷ', '①', '〇', '𝟗', '౩']);
    if s.chance(1, 2) { l[i] = c } else { l.insert(i + s.idx(2), c) }
    let l: String = l.into_iter().collect();
    let ty = *s.pick(&["integer", "float"]);
    let text = format!("WorldBegin Shape \"s\" \"{} n\" [{}] WorldEnd", ty, l);
    s.ident(text.as_bytes());
    s.nontrivial(true);
    s.label("digit of another script");
    s.note(|| text.clone());
    match bridge::parse(&text)? {
        Got::Scene(sc) => Err(format!("literal {} was read as a number: {:?}", l, sc.world)),
        Got::Error(_) => Ok(()),
    }
}

/// Places for a float other than a float list: (text before, text after, how to read it back).
type Reader = fn(&Scene) -> Option<Float>;
fn place(s: &mut Src) -> (&'static str, &'static str, Reader, &'static str) {
    fn params(sc: &Scene) -> Option<&Params> {
        match &sc.world {
            Item::Block(_, _, c) if c.len() == 1 => match &c[0] {
                Item::Dir(d) => Some(&d.params),
                _ => None,
            },
            _ => None,
        }
    }
    fn nums(sc: &Scene, i: usize) -> Option<Float> {
        match &sc.pre[..] {
            [Pre::Nums(_, _, v)] => v.get(i).copied(),
            _ => None,
        }
    }
    const W: &str = " WorldBegin WorldEnd";
    match s.below(14) {
        0 => ("Translate ", " 2 3 WorldBegin WorldEnd", |x| nums(x, 0), "translation"),
        1 => ("Scale 1 2 ", W, |x| nums(x, 2), "scaling"),
        2 => ("Rotate 1 ", " 3 4 WorldBegin WorldEnd", |x| nums(x, 1), "rotation"),
        3 => ("LookAt 1 2 3 4 5 6 7 8 ", W, |x| nums(x, 8), "look-at"),
        4 => ("Transform 1 2 3 4 ", " 6 7 8 9 WorldBegin WorldEnd", |x| nums(x, 4), "matrix"),
        5 => ("ConcatTransform 1 2 3 4 5 6 ", " 8 9 WorldBegin WorldEnd", |x| nums(x, 6), "concatenated matrix"),
        6 => ("TransformTimes 1 ", W, |x| nums(x, 1), "transform times"),
        7 => ("WorldBegin Shape \"s\" \"float n\" ", " WorldEnd", |x| params(x)?.floats.first()?.values.first().copied(), "bare float"),
        8 => ("WorldBegin Shape \"s\" \"point2 n\" [1 2 ", " 4] WorldEnd", |x| params(x)?.point2s.first()?.values.get(1).map(|v| v[0]), "point"),
        9 => ("WorldBegin Shape \"s\" \"vector2 n\" [1 ", "] WorldEnd", |x| params(x)?.vector2s.first()?.values.first().map(|v| v[1]), "vector"),
        10 => ("WorldBegin Shape \"s\" \"rgb n\" [1 ", " 3] WorldEnd", |x| match params(x)?.spectra.first()?.values.first() { Some(Spec::Rgb(v)) => Some(v[1]), _ => None }, "rgb"),
        11 => ("WorldBegin Shape \"s\" \"xyz n\" [1 2 ", "] WorldEnd", |x| match params(x)?.spectra.first()?.values.first() { Some(Spec::Xyz(v)) => Some(v[2]), _ => None }, "xyz"),
        12 => ("WorldBegin Shape \"s\" \"blackbody n\" [", " 2] WorldEnd", |x| match params(x)?.spectra.first()?.values.first() { Some(Spec::Blackbody(v)) => Some(v[0]), _ => None }, "blackbody"),
        _ => ("WorldBegin Shape \"s\" \"spectrum n\" [1 2 3 ", "] WorldEnd", |x| match params(x)?.spectra.first()?.values.first() { Some(Spec::Samples(v)) => Some(v.get(1)?.1), _ => None }, "spectrum sample"),
    }
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 40) {
        return fractional_exponent(s);
    }
    if s.chance(1, 60) {
        return foreign(s);
    }
    let l = gen_lit(s);
    let want_f: Float = l.norm.parse().expect("std reads the normalised literal");
    let int = exact_int(&l);
    let as_int = s.chance(1, 3);
    let other = if !as_int && s.chance(1, 3) { Some(place(s)) } else { None };
    let follow = *s.pick(&[" ", "\n", "]", "#x\n"]);
    s.ident(l.text.as_bytes());
    s.ident(&[as_int as u8]);
    s.nontrivial(l.text.len() >= 2);
    s.label(if l.point { "with point" } else { "without point" });
    if l.exp.is_some() {
        s.label("with exponent");
    }
    if want_f.is_infinite() {
        s.label("overflows the float");
    }
    if want_f == 0.0 && l.mant.chars().any(|c| ('1'..='9').contains(&c)) {
        s.label("underflows the float");
    }
    let neg_exp = l.exp.as_ref().is_some_and(|e| e.starts_with('-'));
    // the plain forms that must be accepted; the others may also be rejected
    let huge_exp = l.exp.as_ref().is_some_and(|e| e.trim_start_matches(['+', '-']).parse::<i64>().is_err());
    let must_int = int.is_some();
    let must_accept_float = !huge_exp && if l.point || neg_exp { l.point || l.mant.parse::<i64>().is_ok() } else { must_int };
    let text = if let Some((a, b, _, what)) = &other {
        s.label(what);
        format!("{}{}{}", a, l.text, b)
    } else if as_int {
        format!("WorldBegin Shape \"s\" \"integer n\" [7 {}{} \"float x\" 2 WorldEnd", l.text, if follow == "]" { "]".into() } else { format!("{}]", follow) })
    } else {
        format!("WorldBegin Shape \"s\" \"float n\" [7 {}{} \"float x\" 2 WorldEnd", l.text, if follow == "]" { "]".into() } else { format!("{}]", follow) })
    };
    s.note(|| format!("literal {:?} as {}", l.text, if as_int { "integer" } else { "float" }));
    bridge::before(s, &text);
    let sc = match bridge::parse(&text)? {
        Got::Error(e) => {
            if as_int {
                ensure!(!must_int, "integer literal {} was rejected: {}", l.text, e);
            } else {
                ensure!(!must_accept_float, "literal {} was rejected as a float: {}", l.text, e);
            }
            s.label("rejected");
            return Ok(());
        }
        Got::Scene(sc) => sc,
    };
    s.label(if as_int { "accepted as integer" } else { "accepted as float" });
    if let Some((_, _, read, what)) = &other {
        let got = match read(&sc) {
            Some(g) => g,
            None => return Err(format!("literal {} ({}): not found in {:?}", l.text, what, sc)),
        };
        ensure!(close(got, want_f), "literal {} ({}) was read as {:?}, expected {:?}", l.text, what, got, want_f);
        return Ok(());
    }
    let children = match &sc.world {
        Item::Block(_, _, c) => c,
        _ => return Err("no world".into()),
    };
    let d = match children.first() {
        Some(Item::Dir(d)) if children.len() == 1 => d,
        _ => return Err(format!("literal {}: unexpected world {:?}", l.text, children)),
    };
    if as_int {
        ensure!(d.params.ints.len() == 1 && d.params.ints[0].values.len() == 2 && d.params.ints[0].values[0] == 7, "literal {}: parameters {:?}", l.text, d.params.ints);
        let got = d.params.ints[0].values[1];
        ensure!(!l.point, "fractional literal {} was accepted as the integer {}", l.text, got);
        match int {
            Some(v) => ensure!(got == v, "literal {} was read as {}", l.text, got),
            None => {
                if neg_exp {
                    // exact only
                    let f: f64 = l.norm.parse().unwrap();
                    ensure!(got as f64 == f, "literal {} was read as the integer {}", l.text, got);
                } else {
                    return Err(format!("literal {} outside the 64-bit range was read as the integer {}", l.text, got));
                }
            }
        }
    } else {
        ensure!(d.params.floats.len() == 2 && d.params.floats[0].values.len() == 2 && d.params.floats[0].values[0] == 7.0, "literal {}: parameters {:?}", l.text, d.params.floats);
        let got = d.params.floats[0].values[1];
        ensure!(close(got, want_f), "literal {} was read as {:?}, expected {:?}", l.text, got, want_f);
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C04",
        rule: "one literal (up to 60+60 digits, all sign/point/exponent forms, exponents up to 2^64) in an integer or float list or in one of 14 other places (each transform, bare float, point, vector, rgb, xyz, blackbody, sample), also with a digit of another script (to be rejected); non-trivial: at least two characters",
        case,
        cases: (4_000_000, 25_000_000),
        stack_mb: 64,
    });
}
