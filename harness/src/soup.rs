//! Hostile texts and corruptions, shared by several properties.
use crate::dict;
use crate::engine::Src;
use crate::scene::*;

pub const VOCAB: &[&str] = &[
    "WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Shape", "Material", "LightSource",
    "AreaLightSource", "Texture", "Include", "Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "Identity", "Translate",
    "Scale", "Rotate", "LookAt", "Transform", "ConcatTransform", "TransformTimes", "CoordinateSystem", "CoordSysTransform",
    "ActiveTransform", "All", "[", "]", "\"", "\\", "#", "\n", "\r\n", " ", "1", "-", "+", ".", "e", "0", "1e", "1e5", "1e-5", "-.5", "5.",
    "1.2.3", "1e400", "1e-400", "1e99999999999999999999", "99999999999999999999", "-9223372036854775808", "1e19", "9e18", "1e4294967296",
    "1e2.5", "1e1e1", "\"float x\"", "\"integer n\"", "\"rgb Kd\"", "\"spectrum s\"", "\"point2 p\"", "\"bool b\"", "\"true\"", "\"string s\"",
    "\"texture t\"", "\"blackbody b\"", "\"xyz c\"", "\"a\"", "\"\"", "\"\\n\"", "\"\\", "²", "٣", "½", "é", "中", "😀", "\u{feff}", "\u{0}", "\t",
    "-e5", "+e5", ".e5", "--1", "+-1", "1-2", "1ed", "e5", "1e+", "1e-", "0e400", "0.0e400", "0.0000001e45", "nan", "inf", "-inf", "1_000", "0x10",
];

pub fn gen_bad_char(s: &mut Src) -> char {
    *s.pick(&['!', '@', '$', '%', '^', '&', '*', '(', ')', '{', '}', '~', '|', ';', ':', ',', '<', '>', '?', '/', '=', '_', '\'', '`', '\\', '\u{0}', '\u{7f}', '€', '😀', '\u{feff}', '—'])
}

/// A random token of any kind, well-formed or not.
pub fn gen_any_tok(s: &mut Src) -> Tok {
    let o = GenOpts { strings: 1, numbers: 0, ..GenOpts::normal() };
    match s.weighted(&[3, 3, 2, 2, 2, 2, 1]) {
        0 => Tok::Num(gen_num(s, &o)),
        1 => Tok::Str(gen_string(s, &o)),
        2 => Tok::LB,
        3 => Tok::RB,
        4 => {
            let mut v: Vec<&str> = vec!["WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Texture", "Include", "Identity", "ActiveTransform"];
            v.extend(WORLD_DIRS);
            v.extend(PRE_DIRS);
            v.extend(PRE_NUMS.iter().map(|x| x.0));
            Tok::Id(s.pick(&v).to_string())
        }
        5 if s.chance(1, 2) => Tok::Id(match dict::string(s) {
            Some(x) if !x.is_empty() && x.chars().all(|c| c.is_ascii_alphabetic()) => x,
            _ => "Foo".to_owned(),
        }),
        5 => Tok::Id(s.pick(&["Foo", "shape", "worldEnd", "true", "x", "Shapes", "End", "AttributeEn", "É", "ReverseOrientation", "NamedMaterial", "MakeNamedMaterial", "MediumInterface", "ObjectInstance", "ObjectBegin", "ObjectEnd", "SurfaceIntegrator", "SHAPE", "WorldBegi", "Attribute", "Light", "Transforms", "CoordinateSystem", "CoordSysTransform"]).to_string()),
        _ => {
            let ty = s.pick(&["integer", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture", "flaot", "int", "Float", "doubles", "point", "point3", "vector3", "normal", "color", "samples"]);
            let ty = match dict::string(s) {
                Some(x) if x.split_whitespace().count() == 1 => x,
                _ => ty.to_string(),
            };
            Tok::Str(format!("{} x", ty))
        }
    }
}

/// Changes a token list at one place. Returns a name for the kind of change.
pub fn corrupt_tokens(s: &mut Src, t: &mut Vec<Tok>) -> &'static str {
    let n = t.len();
    match s.weighted(&[4, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 3, 2]) {
        0 => {
            t.remove(s.idx(n));
            "delete token"
        }
        1 => {
            let x = gen_any_tok(s);
            t.insert(s.idx(n + 1), x);
            "insert token"
        }
        2 => {
            let x = gen_any_tok(s);
            let i = s.idx(n);
            t[i] = x;
            "replace token"
        }
        3 => {
            let i = s.idx(n);
            let x = t[i].clone();
            t.insert(i, x);
            "duplicate token"
        }
        4 => {
            let i = s.idx(n.max(2) - 1);
            if i + 1 < n {
                t.swap(i, i + 1);
            }
            "swap neighbours"
        }
        5 => {
            let i = s.idx(n);
            t.truncate(i);
            "truncate"
        }
        6 => {
            // drop a stretch
            let i = s.idx(n);
            let k = 1 + s.idx(4);
            t.drain(i..(i + k).min(n));
            "delete stretch"
        }
        7 => {
            // change the kind of a block end or begin
            let ids: Vec<usize> = (0..n).filter(|&i| matches!(&t[i], Tok::Id(x) if x.ends_with("End") || x.ends_with("Begin"))).collect();
            if let Some(&i) = pick_opt(s, &ids) {
                let k = s.pick(&["AttributeEnd", "TransformEnd", "WorldEnd", "AttributeBegin", "TransformBegin"]).to_string();
                t[i] = Tok::Id(k);
            }
            "change block keyword"
        }
        8 => {
            // change a parameter's declared type or shape
            let ids: Vec<usize> = (0..n).filter(|&i| matches!(&t[i], Tok::Str(x) if x.split_whitespace().count() == 2)).collect();
            if let Some(&i) = pick_opt(s, &ids) {
                let new = match s.below(4) {
                    0 => format!("{} x", s.pick(PARAM_TYPES)),
                    1 => s.pick(&["float", "", " ", "float a b", "x float", "Float x", "flt x", "integer", "rgb a b c"]).to_string(),
                    2 => format!("{} x", s.pick(&["int", "floats", "boolean", "str", "RGB", "textures", "spectrums", "point4", "f", "point3", "point", "vector", "vector3", "normal", "normal3", "color", "point2f", "float2"])),
                    _ => format!("{} extra", if let Tok::Str(x) = &t[i] { x.clone() } else { String::new() }),
                };
                t[i] = Tok::Str(new);
            }
            "change parameter declaration"
        }
        9 => {
            // add or remove a value inside a list
            let ids: Vec<usize> = (0..n).filter(|&i| t[i] == Tok::RB).collect();
            if let Some(&i) = pick_opt(s, &ids) {
                match s.below(3) {
                    0 => {
                        t.insert(i, Tok::Num("1".into()));
                    }
                    1 => {
                        if i > 0 && t[i - 1] != Tok::LB {
                            t.remove(i - 1);
                        }
                    }
                    _ => {
                        // empty the list
                        let mut j = i;
                        while j > 0 && t[j - 1] != Tok::LB {
                            j -= 1;
                        }
                        t.drain(j..i);
                    }
                }
            }
            "change list length"
        }
        10 => {
            // unwrap or wrap in brackets
            let ids: Vec<usize> = (0..n).filter(|&i| t[i] == Tok::LB).collect();
            if s.chance(1, 2) {
                if let Some(&i) = pick_opt(s, &ids) {
                    if let Some(j) = (i..t.len()).find(|&j| t[j] == Tok::RB) {
                        t.remove(j);
                    }
                    t.remove(i);
                }
            } else {
                let i = s.idx(n);
                t.insert(i + 1, Tok::RB);
                t.insert(i, Tok::LB);
            }
            "brackets"
        }
        11 => {
            // change the spelling of a word: a keyword, a declared type, a truth value
            let ids: Vec<usize> = (0..n).filter(|&i| matches!(&t[i], Tok::Id(_) | Tok::Str(_))).collect();
            let bools: Vec<usize> = (0..n).filter(|&i| matches!(&t[i], Tok::Str(x) if x == "true" || x == "false")).collect();
            let i = if !bools.is_empty() && s.chance(1, 4) { Some(*s.pick(&bools)) } else { pick_opt(s, &ids).copied() };
            if let Some(i) = i {
                let new = |s: &mut Src, x: &str| -> String {
                    let mut c: Vec<char> = x.chars().collect();
                    if c.is_empty() {
                        return "x".into();
                    }
                    let k = s.idx(c.len());
                    match s.below(9) {
                        0 => return x.to_lowercase(),
                        1 => return x.to_uppercase(),
                        2 => {
                            let first: String = c[..1].iter().collect();
                            return (if c[0].is_lowercase() { first.to_uppercase() } else { first.to_lowercase() }) + &c[1..].iter().collect::<String>();
                        }
                        3 => {
                            c.remove(k);
                        }
                        4 => c.push(*s.pick(&['s', 'e', '2', '3', 'f', 'é'])),
                        5 => c.insert(k, *s.pick(&['a', 'e', 'r', '1'])),
                        6 => {
                            let y = c[k];
                            c.insert(k, y);
                        }
                        7 => c.truncate(1 + k),
                        _ => c.swap(0, k),
                    }
                    c.into_iter().collect()
                };
                t[i] = match t[i].clone() {
                    // an identifier has to stay one token
                    Tok::Id(x) => {
                        let y = new(s, &x);
                        let ok = y.chars().next().map_or(false, |c| c.is_alphabetic()) && y.chars().all(|c| c.is_alphanumeric());
                        Tok::Id(if ok { y } else { x })
                    }
                    Tok::Str(x) if x == "true" || x == "false" => {
                        Tok::Str(if s.chance(1, 3) { s.pick(&["True", "TRUE", "yes", "on", "1", "t", " true", "true ", "0", "no", "off", "False", "nottrue", ""]).to_string() } else { new(s, &x) })
                    }
                    Tok::Str(x) => {
                        // the declared type rather than the name
                        let mut w = x.splitn(2, ' ');
                        match (w.next(), w.next()) {
                            (Some(a), Some(b)) => Tok::Str(format!("{} {}", new(s, a), b)),
                            _ => Tok::Str(new(s, &x)),
                        }
                    }
                    o => o,
                };
            }
            "change spelling of a word"
        }
        _ => {
            // change the kind of one value
            let ids: Vec<usize> = (0..n).filter(|&i| matches!(t[i], Tok::Num(_))).collect();
            if let Some(&i) = pick_opt(s, &ids) {
                t[i] = match s.below(5) {
                    0 => Tok::Num("1.5".into()),
                    1 => Tok::Str("true".into()),
                    2 => Tok::Id("x".into()),
                    3 => Tok::Str("1".into()),
                    _ => Tok::Num("2".into()),
                };
            }
            "change value kind"
        }
    }
}

pub fn pick_opt<'a, T>(s: &mut Src, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(s.pick(v))
    }
}

/// Changes a text at one place, by characters.
pub fn corrupt_text(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let n = c.len();
    match s.weighted(&[3, 3, 3, 2, 2, 2]) {
        0 => {
            if n > 0 {
                c.remove(s.idx(n));
            }
        }
        1 => {
            let x = if s.chance(1, 2) { gen_char(s) } else { gen_bad_char(s) };
            c.insert(s.idx(n + 1), x);
        }
        2 => {
            if n > 0 {
                let x = gen_char(s);
                let i = s.idx(n);
                c[i] = x;
            }
        }
        3 => {
            let i = s.idx(n + 1);
            c.truncate(i);
        }
        4 => {
            if n > 0 {
                let i = s.idx(n);
                let k = 1 + s.idx(6);
                c.drain(i..(i + k).min(n));
            }
        }
        _ => {
            let x: Vec<char> = s.pick(VOCAB).chars().collect();
            let i = s.idx(n + 1);
            c.splice(i..i, x);
        }
    }
    c.into_iter().collect()
}
