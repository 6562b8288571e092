//! Scene descriptions: the model, generators, printers, and an independent reference
//! lexer and recogniser. Nothing in here uses the code under test.

use crate::dict;
use crate::engine::Src;

#[cfg(feature = "f64")]
pub type Float = f64;
#[cfg(not(feature = "f64"))]
pub type Float = f32;

pub type Pos = (usize, usize);
pub const NOPOS: Pos = (0, 0);

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Rgb([Float; 3]),
    Xyz([Float; 3]),
    Blackbody([Float; 2]),
    Samples(Vec<(Float, Float)>),
    File(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Par<T> {
    pub name: String,
    pub pos: Pos,
    pub values: Vec<T>,
}

/// One list per parameter type, in source order within each.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Params {
    pub bools: Vec<Par<bool>>,
    pub ints: Vec<Par<i64>>,
    pub floats: Vec<Par<Float>>,
    pub point2s: Vec<Par<[Float; 2]>>,
    pub vector2s: Vec<Par<[Float; 2]>>,
    pub point3s: Vec<Par<[Float; 3]>>,
    pub vector3s: Vec<Par<[Float; 3]>>,
    pub normals: Vec<Par<[Float; 3]>>,
    pub spectra: Vec<Par<Spec>>,
    pub strings: Vec<Par<String>>,
    pub textures: Vec<Par<String>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    /// Keyword, e.g. "Shape".
    pub kind: String,
    /// Type string; for textures name, type and class.
    pub strs: Vec<String>,
    pub pos: Pos,
    pub params: Params,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Dir(Dir),
    /// Keyword without "Begin".
    Block(String, Pos, Vec<Item>),
    Include(Pos, String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pre {
    /// Keyword, numbers in source order.
    Nums(String, Pos, Vec<Float>),
    /// Keyword, string or identifier argument.
    Named(String, Pos, String),
    Identity(Pos),
    Dir(Dir),
    Include(Pos, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scene {
    pub pre: Vec<Pre>,
    pub world: Item,
}

// ------------------------------------------------------------------ comparison

/// Equal up to a few units in the last place.
pub fn close(a: Float, b: Float) -> bool {
    if a == b {
        return true;
    }
    if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() {
        // The literal may sit right at the overflow threshold.
        let m = Float::MAX * (1.0 - 4.0 * Float::EPSILON);
        return (a >= m && b >= m) || (a <= -m && b <= -m);
    }
    let tol = 4.0 * Float::EPSILON * a.abs().max(b.abs());
    // 8 * smallest subnormal
    let tiny: Float = Float::MIN_POSITIVE * Float::EPSILON * 8.0;
    (a - b).abs() <= tol + tiny
}

#[derive(Clone, Copy)]
pub struct Cmp {
    pub positions: bool,
}

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

impl Cmp {
    fn pos(&self, what: &str, got: Pos, exp: Pos) -> Result<(), String> {
        want!(!self.positions || got == exp, "{}: position {:?}, expected {:?}", what, got, exp);
        Ok(())
    }
    fn floats(&self, what: &str, g: &[Float], e: &[Float]) -> Result<(), String> {
        want!(g.len() == e.len(), "{}: {} numbers {:?}, expected {} {:?}", what, g.len(), g, e.len(), e);
        want!(g.iter().zip(e).all(|(a, b)| close(*a, *b)), "{}: numbers {:?}, expected {:?}", what, g, e);
        Ok(())
    }
    fn list<T: std::fmt::Debug, F: Fn(&T, &T) -> bool>(
        &self, what: &str, g: &[Par<T>], e: &[Par<T>], eq: F,
    ) -> Result<(), String> {
        want!(g.len() == e.len(), "{}: {} parameters, expected {}: got {:?}, expected {:?}", what, g.len(), e.len(), g, e);
        for (a, b) in g.iter().zip(e) {
            want!(a.name == b.name, "{}: parameter name {:?}, expected {:?}", what, a.name, b.name);
            self.pos(&format!("{} parameter {:?}", what, a.name), a.pos, b.pos)?;
            want!(
                a.values.len() == b.values.len() && a.values.iter().zip(&b.values).all(|(x, y)| eq(x, y)),
                "{}: parameter {:?} has values {:?}, expected {:?}", what, a.name, a.values, b.values
            );
        }
        Ok(())
    }
    pub fn params(&self, what: &str, g: &Params, e: &Params) -> Result<(), String> {
        let w = |t: &str| format!("{} / {}", what, t);
        self.list(&w("bool"), &g.bools, &e.bools, |a, b| a == b)?;
        self.list(&w("integer"), &g.ints, &e.ints, |a, b| a == b)?;
        self.list(&w("float"), &g.floats, &e.floats, |a, b| close(*a, *b))?;
        let two = |a: &[Float; 2], b: &[Float; 2]| close(a[0], b[0]) && close(a[1], b[1]);
        let three = |a: &[Float; 3], b: &[Float; 3]| (0..3).all(|i| close(a[i], b[i]));
        self.list(&w("point2"), &g.point2s, &e.point2s, two)?;
        self.list(&w("vector2"), &g.vector2s, &e.vector2s, two)?;
        self.list(&w("point3"), &g.point3s, &e.point3s, three)?;
        self.list(&w("vector3"), &g.vector3s, &e.vector3s, three)?;
        self.list(&w("normal"), &g.normals, &e.normals, three)?;
        self.list(&w("spectrum"), &g.spectra, &e.spectra, |a, b| match (a, b) {
            (Spec::Rgb(x), Spec::Rgb(y)) | (Spec::Xyz(x), Spec::Xyz(y)) => three(x, y),
            (Spec::Blackbody(x), Spec::Blackbody(y)) => two(x, y),
            (Spec::Samples(x), Spec::Samples(y)) => {
                x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p.0, q.0) && close(p.1, q.1))
            }
            (Spec::File(x), Spec::File(y)) => x == y,
            _ => false,
        })?;
        self.list(&w("string"), &g.strings, &e.strings, |a, b| a == b)?;
        self.list(&w("texture"), &g.textures, &e.textures, |a, b| a == b)
    }
    fn dir(&self, g: &Dir, e: &Dir) -> Result<(), String> {
        want!(g.kind == e.kind, "directive {}, expected {}", g.kind, e.kind);
        want!(g.strs == e.strs, "{}: strings {:?}, expected {:?}", g.kind, g.strs, e.strs);
        self.pos(&g.kind, g.pos, e.pos)?;
        self.params(&g.kind, &g.params, &e.params)
    }
    pub fn item(&self, g: &Item, e: &Item) -> Result<(), String> {
        match (g, e) {
            (Item::Dir(a), Item::Dir(b)) => self.dir(a, b),
            (Item::Include(p, a), Item::Include(q, b)) => {
                want!(a == b, "include path {:?}, expected {:?}", a, b);
                self.pos("Include", *p, *q)
            }
            (Item::Block(k, p, a), Item::Block(l, q, b)) => {
                want!(k == l, "block {}, expected {}", k, l);
                self.pos(k, *p, *q)?;
                for (x, y) in a.iter().zip(b) {
                    self.item(x, y)?;
                }
                want!(a.len() == b.len(), "{} block has {} children, expected {}", k, a.len(), b.len());
                Ok(())
            }
            _ => Err(format!("item {}, expected {}", item_name(g), item_name(e))),
        }
    }
    fn pre(&self, g: &Pre, e: &Pre) -> Result<(), String> {
        match (g, e) {
            (Pre::Nums(k, p, a), Pre::Nums(l, q, b)) if k == l => {
                self.floats(k, a, b)?;
                self.pos(k, *p, *q)
            }
            (Pre::Named(k, p, a), Pre::Named(l, q, b)) if k == l => {
                want!(a == b, "{} {:?}, expected {:?}", k, a, b);
                self.pos(k, *p, *q)
            }
            (Pre::Identity(p), Pre::Identity(q)) => self.pos("Identity", *p, *q),
            (Pre::Dir(a), Pre::Dir(b)) => self.dir(a, b),
            (Pre::Include(p, a), Pre::Include(q, b)) => {
                want!(a == b, "include path {:?}, expected {:?}", a, b);
                self.pos("Include", *p, *q)
            }
            _ => Err(format!("pre-world directive {}, expected {}", pre_name(g), pre_name(e))),
        }
    }
    pub fn scene(&self, g: &Scene, e: &Scene) -> Result<(), String> {
        for (a, b) in g.pre.iter().zip(&e.pre) {
            self.pre(a, b)?;
        }
        want!(g.pre.len() == e.pre.len(), "{} pre-world directives, expected {}", g.pre.len(), e.pre.len());
        self.item(&g.world, &e.world)
    }
}

fn item_name(i: &Item) -> &str {
    match i {
        Item::Dir(d) => &d.kind,
        Item::Block(k, _, _) => k,
        Item::Include(..) => "Include",
    }
}
fn pre_name(p: &Pre) -> &str {
    match p {
        Pre::Nums(k, _, _) | Pre::Named(k, _, _) => k,
        Pre::Identity(_) => "Identity",
        Pre::Dir(d) => &d.kind,
        Pre::Include(..) => "Include",
    }
}

// ------------------------------------------------------------------ tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    /// Spelling of a number.
    Num(String),
    /// Content of a string (unescaped).
    Str(String),
    LB,
    RB,
    /// Raw text that is no token of the language (used by corruptions).
    Raw(String),
}

/// What a number spelling means.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NumVal {
    Int(i64),
    Float(Float),
    /// Not a number at all.
    Bad,
    /// Left open by the specification.
    Unspec,
}

/// Meaning of a spelling of the form [+-]? (digits [. digits*]? | . digits) (e [+-]? digits)?
pub fn num_value(s: &str) -> NumVal {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut norm = String::new();
    if i < b.len() && (b[i] == '+' || b[i] == '-') {
        if b[i] == '-' {
            norm.push('-');
        }
        i += 1;
    }
    let mut digits = 0;
    let mut frac = false;
    while i < b.len() && (b[i].is_ascii_digit() || (b[i] == '.' && !frac)) {
        if b[i] == '.' {
            frac = true;
        } else {
            digits += 1;
        }
        norm.push(b[i]);
        i += 1;
    }
    if i < b.len() && b[i] == '.' {
        return NumVal::Bad; // a second point
    }
    if digits == 0 {
        return NumVal::Bad;
    }
    if i == b.len() {
        if frac {
            return NumVal::Float(norm.parse().unwrap());
        }
        return match norm.parse::<i64>() {
            Ok(v) => NumVal::Int(v),
            Err(_) => NumVal::Unspec, // outside 64 bits: rejected or nearest float
        };
    }
    if b[i] != 'e' {
        return NumVal::Unspec;
    }
    i += 1;
    let mut exp = String::new();
    if i < b.len() && (b[i] == '+' || b[i] == '-') {
        if b[i] == '-' {
            exp.push('-');
        }
        i += 1;
    }
    let mut ed = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        exp.push(b[i]);
        ed += 1;
        i += 1;
    }
    if ed == 0 && i == b.len() {
        return NumVal::Bad;
    }
    if i != b.len() {
        return NumVal::Unspec; // fractional or nested exponent
    }
    let e: i64 = match exp.parse::<i64>() {
        Ok(e) => e,
        Err(_) => return NumVal::Unspec,
    };
    if !frac {
        let m: i128 = match norm.parse::<i64>() {
            Ok(m) => m as i128,
            Err(_) => return NumVal::Unspec,
        };
        if m == 0 && e >= 0 {
            return NumVal::Int(0);
        }
        if (0..=18).contains(&e) {
            let v = m * 10i128.pow(e as u32);
            if v >= i64::MIN as i128 && v <= i64::MAX as i128 {
                return NumVal::Int(v as i64);
            }
            return NumVal::Unspec;
        }
        if e > 18 {
            return NumVal::Unspec;
        }
    }
    NumVal::Float(format!("{}e{}", norm, e).parse().unwrap())
}

// ------------------------------------------------------------------ reference parser

#[derive(Clone, Debug)]
pub enum Ref {
    Ok(Box<Scene>),
    /// Malformed; index of the token at which the prefix stops being a prefix of any
    /// well-formed scene, if there is one (None: the text ends too early).
    Bad(Option<usize>, &'static str),
    Unspec(&'static str),
}

/// (spelling class, position); the parser consumes these.
#[derive(Clone, Debug)]
pub struct PTok {
    pub tok: Tok,
    pub pos: Pos,
}

enum E {
    Bad(Option<usize>, &'static str),
    Unspec(&'static str),
}
type R<T> = Result<T, E>;

struct RefParser<'a> {
    t: &'a [PTok],
    i: usize,
}

pub const PRE_NUMS: &[(&str, usize)] = &[
    ("Translate", 3), ("Scale", 3), ("Rotate", 4), ("LookAt", 9), ("Transform", 9), ("ConcatTransform", 9), ("TransformTimes", 2),
];
pub const PRE_DIRS: &[&str] = &["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"];
pub const WORLD_DIRS: &[&str] = &["Material", "Shape", "LightSource", "AreaLightSource"];
pub const PARAM_TYPES: &[&str] = &[
    "integer", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture",
];
/// Directives that pbrt writes in other ways: accepting these later would be fine.
const OPEN_DIRS: &[&str] = &["PixelFilter"];

/// Is this the keyword of some directive?
pub fn is_directive(x: &str) -> bool {
    x.ends_with("Begin") || x.ends_with("End") || WORLD_DIRS.contains(&x) || PRE_DIRS.contains(&x)
        || PRE_NUMS.iter().any(|p| p.0 == x)
        || ["Texture", "Include", "Identity", "CoordinateSystem", "CoordSysTransform", "ActiveTransform"].contains(&x)
}

pub fn ref_parse(t: &[PTok]) -> Ref {
    let mut p = RefParser { t, i: 0 };
    match p.scene() {
        Ok(s) => {
            if p.i < t.len() {
                Ref::Bad(Some(p.i), "text after the world block")
            } else {
                Ref::Ok(Box::new(s))
            }
        }
        Err(E::Bad(i, w)) => Ref::Bad(i, w),
        Err(E::Unspec(w)) => Ref::Unspec(w),
    }
}

impl<'a> RefParser<'a> {
    fn bad<T>(&self, w: &'static str) -> R<T> {
        Err(E::Bad(if self.i < self.t.len() { Some(self.i) } else { None }, w))
    }
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i).map(|x| &x.tok)
    }
    fn pos(&self) -> Pos {
        self.t[self.i].pos
    }
    fn string(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            _ => self.bad("expected a string"),
        }
    }
    fn is_num(&self) -> bool {
        matches!(self.peek(), Some(Tok::Num(_)))
    }
    fn float(&mut self) -> R<Float> {
        match self.peek() {
            Some(Tok::Num(s)) => match num_value(s) {
                NumVal::Int(v) => {
                    self.i += 1;
                    Ok(v as Float)
                }
                NumVal::Float(v) => {
                    self.i += 1;
                    Ok(v)
                }
                NumVal::Unspec => Err(E::Unspec("number")),
                NumVal::Bad => self.bad("malformed number"),
            },
            _ => self.bad("expected a number"),
        }
    }
    fn int(&mut self) -> R<i64> {
        match self.peek() {
            Some(Tok::Num(s)) => match num_value(s) {
                NumVal::Int(v) => {
                    self.i += 1;
                    Ok(v)
                }
                NumVal::Float(_) => self.bad("expected an integer"),
                NumVal::Unspec => Err(E::Unspec("number")),
                NumVal::Bad => self.bad("malformed number"),
            },
            _ => self.bad("expected an integer"),
        }
    }
    fn boolean(&mut self) -> R<bool> {
        match self.peek() {
            Some(Tok::Str(s)) if s == "true" => {
                self.i += 1;
                Ok(true)
            }
            Some(Tok::Str(s)) if s == "false" => {
                self.i += 1;
                Ok(false)
            }
            _ => self.bad("expected a bool"),
        }
    }
    fn list<T>(&mut self, f: fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        if self.peek() != Some(&Tok::LB) {
            return self.bad("expected '['");
        }
        self.i += 1;
        let mut v = vec![];
        while self.peek() != Some(&Tok::RB) {
            v.push(f(self)?);
        }
        if v.is_empty() {
            return self.bad("empty list");
        }
        self.i += 1;
        Ok(v)
    }
    fn one_or_list<T>(&mut self, f: fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        if self.peek() == Some(&Tok::LB) {
            self.list(f)
        } else {
            Ok(vec![f(self)?])
        }
    }
    fn two(&mut self) -> R<[Float; 2]> {
        Ok([self.float()?, self.float()?])
    }
    fn exactly(&mut self, n: usize) -> R<Vec<Float>> {
        if self.peek() != Some(&Tok::LB) {
            return self.bad("expected '['");
        }
        self.i += 1;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.float()?);
        }
        if self.peek() != Some(&Tok::RB) {
            return self.bad("expected ']'");
        }
        self.i += 1;
        Ok(v)
    }
    fn params(&mut self) -> R<Params> {
        let mut ps = Params::default();
        while let Some(Tok::Str(s)) = self.peek() {
            let pos = self.pos();
            let words: Vec<&str> = s.split_whitespace().collect();
            if words.len() != 2 {
                return self.bad("parameter declaration");
            }
            let name = words[1].to_owned();
            let at = self.i;
            self.i += 1;
            macro_rules! push {
                ($l:ident, $v:expr) => {{
                    let values = $v;
                    ps.$l.push(Par { name, pos, values });
                }};
            }
            match words[0] {
                "integer" => push!(ints, self.one_or_list(Self::int)?),
                "float" => push!(floats, self.one_or_list(Self::float)?),
                "bool" => push!(bools, self.one_or_list(Self::boolean)?),
                "string" => push!(strings, self.one_or_list(Self::string)?),
                "point2" => push!(point2s, self.list(Self::two)?),
                "vector2" => push!(vector2s, self.list(Self::two)?),
                "rgb" => push!(spectra, { let v = self.exactly(3)?; vec![Spec::Rgb([v[0], v[1], v[2]])] }),
                "xyz" => push!(spectra, { let v = self.exactly(3)?; vec![Spec::Xyz([v[0], v[1], v[2]])] }),
                "blackbody" => push!(spectra, { let v = self.exactly(2)?; vec![Spec::Blackbody([v[0], v[1]])] }),
                "spectrum" => push!(spectra, {
                    match self.peek() {
                        Some(Tok::Str(f)) => {
                            let f = f.clone();
                            self.i += 1;
                            vec![Spec::File(f)]
                        }
                        Some(Tok::LB) => {
                            if let (Some(Tok::Str(_)), Some(Tok::RB)) = (self.t.get(self.i + 1).map(|x| &x.tok), self.t.get(self.i + 2).map(|x| &x.tok)) {
                                return Err(E::Unspec("spectrum file in brackets"));
                            }
                            let v = self.list(Self::float)?;
                            if v.len() % 2 != 0 {
                                return Err(E::Bad(Some(self.i - 1), "odd spectrum"));
                            }
                            vec![Spec::Samples(v.chunks(2).map(|c| (c[0], c[1])).collect())]
                        }
                        _ => return self.bad("expected spectrum"),
                    }
                }),
                "texture" => push!(textures, {
                    if self.peek() == Some(&Tok::LB) {
                        if let (Some(Tok::Str(_)), Some(Tok::RB)) = (self.t.get(self.i + 1).map(|x| &x.tok), self.t.get(self.i + 2).map(|x| &x.tok)) {
                            return Err(E::Unspec("texture name in brackets"));
                        }
                    }
                    vec![self.string()?]
                }),
                _ => return Err(E::Bad(Some(at), "unknown parameter type")),
            }
        }
        Ok(ps)
    }
    fn item(&mut self, depth: usize) -> R<Item> {
        let pos = if self.i < self.t.len() { self.pos() } else { NOPOS };
        let id = match self.peek() {
            Some(Tok::Id(s)) => s.clone(),
            _ => return self.bad("expected a directive"),
        };
        let at = self.i;
        self.i += 1;
        if WORLD_DIRS.contains(&id.as_str()) {
            let ty = self.string()?;
            let params = self.params()?;
            return Ok(Item::Dir(Dir { kind: id, strs: vec![ty], pos, params }));
        }
        match id.as_str() {
            "Texture" => {
                let strs = vec![self.string()?, self.string()?, self.string()?];
                let params = self.params()?;
                Ok(Item::Dir(Dir { kind: id, strs, pos, params }))
            }
            "Include" => Ok(Item::Include(pos, self.string()?)),
            "AttributeBegin" | "TransformBegin" => {
                if depth > 90 {
                    return Err(E::Unspec("nesting depth"));
                }
                let kind = id.trim_end_matches("Begin").to_owned();
                let c = self.block(&kind, depth + 1)?;
                Ok(Item::Block(kind, pos, c))
            }
            x if x == "AttributeEnd" || x == "TransformEnd" || x == "WorldEnd" => Err(E::Bad(Some(at), "mismatched block end")),
            "WorldBegin" => Err(E::Unspec("world block inside a block")),
            _ => Err(E::Bad(Some(at), "unknown directive")),
        }
    }
    fn block(&mut self, kind: &str, depth: usize) -> R<Vec<Item>> {
        let end = format!("{}End", kind);
        let mut v = vec![];
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if *s == end => {
                    self.i += 1;
                    return Ok(v);
                }
                _ => v.push(self.item(depth)?),
            }
        }
    }
    fn predir(&mut self) -> R<Pre> {
        let pos = if self.i < self.t.len() { self.pos() } else { NOPOS };
        let id = match self.peek() {
            Some(Tok::Id(s)) => s.clone(),
            _ => return self.bad("expected a directive"),
        };
        let at = self.i;
        self.i += 1;
        if let Some((_, n)) = PRE_NUMS.iter().find(|x| x.0 == id) {
            let mut v = vec![];
            while self.is_num() {
                v.push(self.float()?);
            }
            if self.peek() == Some(&Tok::LB) && v.is_empty() {
                let inner = self.t[self.i + 1..].iter().take_while(|x| matches!(x.tok, Tok::Num(_))).count();
                if inner == *n && self.t.get(self.i + 1 + n).map(|x| &x.tok) == Some(&Tok::RB) {
                    return Err(E::Unspec("bracketed transform numbers"));
                }
            }
            if v.len() != *n {
                self.i = self.i.min(at + 1 + n);
                return self.bad("number count");
            }
            return Ok(Pre::Nums(id, pos, v));
        }
        if PRE_DIRS.contains(&id.as_str()) {
            let ty = self.string()?;
            let params = self.params()?;
            return Ok(Pre::Dir(Dir { kind: id, strs: vec![ty], pos, params }));
        }
        match id.as_str() {
            "Identity" => Ok(Pre::Identity(pos)),
            "CoordinateSystem" | "CoordSysTransform" => {
                let s = self.string()?;
                Ok(Pre::Named(id, pos, s))
            }
            "ActiveTransform" => match self.peek() {
                Some(Tok::Id(s)) => {
                    if is_directive(s) {
                        return Err(E::Unspec("directive as the name of an active transform"));
                    }
                    let s = s.clone();
                    self.i += 1;
                    Ok(Pre::Named(id, pos, s))
                }
                _ => self.bad("expected an identifier"),
            },
            "Include" => Ok(Pre::Include(pos, self.string()?)),
            x if x == "AttributeEnd" || x == "TransformEnd" || x == "WorldEnd" => Err(E::Bad(Some(at), "block end without block")),
            x if OPEN_DIRS.contains(&x) => Err(E::Unspec("directive of pbrt that is not supported here")),
            _ => Err(E::Bad(Some(at), "unknown directive")),
        }
    }
    fn scene(&mut self) -> R<Scene> {
        let mut pre = vec![];
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if s == "WorldBegin" => {
                    let pos = self.pos();
                    self.i += 1;
                    let c = self.block("World", 1)?;
                    return Ok(Scene { pre, world: Item::Block("World".into(), pos, c) });
                }
                _ => pre.push(self.predir()?),
            }
        }
    }
}

// ------------------------------------------------------------------ reference lexer

pub enum Lex {
    Toks(Vec<PTok>),
    /// Malformed at this position.
    Bad(Pos, &'static str),
    Unspec(&'static str),
}

/// Line/column of every character of the text, CRLF counting as one line break.
/// Returns the characters without the CR of CRLF, each with its position, plus the end position.
pub fn positions(text: &str) -> (Vec<(char, Pos)>, Pos) {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let (mut r, mut c) = (1, 1);
    for i in 0..cs.len() {
        if cs[i] == '\r' && cs.get(i + 1) == Some(&'\n') {
            continue;
        }
        out.push((cs[i], (r, c)));
        if cs[i] == '\n' {
            r += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    (out, (r, c))
}

pub fn ref_lex(text: &str) -> Lex {
    let (cs, end) = positions(text);
    let at = |i: usize| cs.get(i).map(|x| x.0);
    let pos = |i: usize| cs.get(i).map_or(end, |x| x.1);
    let mut i = 0;
    let mut v = vec![];
    let mut unspec: Option<&'static str> = None;
    while let Some(c) = at(i) {
        if c.is_whitespace() {
            i += 1;
        } else if c == '#' {
            while let Some(c) = at(i) {
                if c == '\n' {
                    break;
                }
                if c == '\r' {
                    unspec = Some("carriage return in a comment");
                }
                i += 1;
            }
        } else if c == '"' {
            let start = i;
            let mut s = String::new();
            i += 1;
            loop {
                match at(i) {
                    None => return if let Some(u) = unspec { Lex::Unspec(u) } else { Lex::Bad(pos(start), "unterminated string") },
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => {
                        match at(i + 1) {
                            None => return if let Some(u) = unspec { Lex::Unspec(u) } else { Lex::Bad(pos(start), "unterminated string") },
                            Some('n') => s.push('\n'),
                            Some(c) => s.push(c),
                        }
                        i += 2;
                    }
                    Some(c) => {
                        s.push(c);
                        i += 1;
                    }
                }
            }
            v.push(PTok { tok: Tok::Str(s), pos: pos(start) });
        } else if c == '[' || c == ']' {
            v.push(PTok { tok: if c == '[' { Tok::LB } else { Tok::RB }, pos: pos(i) });
            i += 1;
        } else if c == '-' || c == '+' || c == '.' || c.is_numeric() {
            let start = i;
            let mut s = String::new();
            let mut foreign = false;
            // The longest stretch that could belong to the number.
            while let Some(c) = at(i) {
                if c.is_numeric() && !c.is_ascii() && !s.chars().any(|x| x.is_alphabetic() && x != 'e') {
                    foreign = true;
                }
                let prev = s.chars().last();
                let sign_ok = s.is_empty() || prev == Some('e');
                if c.is_alphanumeric() || c == '.' || ((c == '+' || c == '-') && sign_ok) {
                    if !c.is_ascii() && !foreign {
                        unspec = unspec.or(Some("non-ASCII character in a number"));
                    }
                    s.push(c);
                    i += 1;
                } else {
                    break;
                }
            }
            if matches!(at(i), Some('+') | Some('-')) {
                unspec = unspec.or(Some("sign directly after a number"));
            }
            match if foreign { NumVal::Bad } else { num_value(&s) } {
                NumVal::Bad => {
                    return if let Some(u) = unspec { Lex::Unspec(u) } else { Lex::Bad(pos(start), "malformed number") }
                }
                NumVal::Unspec => unspec = unspec.or(Some("number")),
                _ => {}
            }
            v.push(PTok { tok: Tok::Num(s), pos: pos(start) });
        } else if c.is_alphabetic() {
            let start = i;
            let mut s = String::new();
            while let Some(c) = at(i) {
                if !c.is_alphanumeric() {
                    break;
                }
                s.push(c);
                i += 1;
            }
            v.push(PTok { tok: Tok::Id(s), pos: pos(start) });
        } else {
            return if let Some(u) = unspec { Lex::Unspec(u) } else { Lex::Bad(pos(i), "illegal character") };
        }
    }
    match unspec {
        Some(u) => Lex::Unspec(u),
        None => Lex::Toks(v),
    }
}

/// Reference verdict on a text. A lexical fault makes the text malformed wherever it is.
pub fn ref_text(text: &str) -> Ref {
    match ref_lex(text) {
        Lex::Toks(t) => ref_parse(&t),
        Lex::Unspec(w) => Ref::Unspec(w),
        Lex::Bad(_, w) => Ref::Bad(None, w),
    }
}

// ------------------------------------------------------------------ generators

#[derive(Clone, Copy)]
pub struct GenOpts {
    /// 0 plain words, 1 anything
    pub strings: u8,
    /// 0 short ordinary numbers, 1 every form
    pub numbers: u8,
    pub max_pre: usize,
    pub max_items: usize,
    pub max_params: usize,
    pub max_values: usize,
    pub max_depth: usize,
}

impl GenOpts {
    pub fn normal() -> GenOpts {
        GenOpts { strings: 0, numbers: 0, max_pre: 6, max_items: 6, max_params: 4, max_values: 6, max_depth: 5 }
    }
}

const WORDS: &[&str] = &[
    "a", "sphere", "glass", "perspective", "halton", "matte", "Kd", "image", "true", "false", "float", "WorldEnd", "integer n", "x1", "bvh",
    "AttributeEnd", "infinite", "checks", "scene.pbrt", "dir/file.spd", "",
];
const NAMES: &[&str] = &[
    "a", "radius", "fov", "Kd", "L", "xresolution", "float", "true", "n", "uscale", "x_1", "été", "a\"b", "a\\b", "[", "]", "#", "1", "WorldEnd",
];

pub fn gen_char(s: &mut Src) -> char {
    if let Some(c) = dict::char(s) {
        return c;
    }
    match s.weighted(&[12, 6, 6, 3, 3, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(&['"', '\\', '#', '[', ']', 'n', '.', '-', '+', '/', '\'', '\t', ' ', '0', 'e', 'r', 't', '`', '{', '%']),
        2 => *s.pick(&[' ', '\n', '"', '\\', '#', 'n']),
        3 => *s.pick(&['é', 'ß', 'Ω', '中', '😀', '\u{a0}', '\u{2028}', '\u{feff}', '²', '٣', '\u{0}', '\u{7f}', '\u{301}', '\u{10ffff}', '\u{85}']),
        4 => char::from_u32(s.below(0x250) as u32).unwrap_or('a'),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('a'),
    }
}

pub fn gen_string(s: &mut Src, o: &GenOpts) -> String {
    let mut t = String::new();
    if let Some(d) = dict::string(s) {
        // a literal of the code: alone, with something before or after it, twice
        match s.weighted(&[5, 2, 2, 1]) {
            0 => t = d,
            1 => t = format!("{}{}", d, gen_char(s)),
            2 => t = format!("{}{}", gen_char(s), d),
            _ => t = format!("{}{}{}", d, gen_char(s), d),
        }
    } else if o.strings == 0 || s.chance(1, 6) {
        return s.pick(WORDS).to_string();
    } else {
        let mut n = 0;
        while s.more(n, 5, 40) {
            t.push(gen_char(s));
            n += 1;
        }
        if let Some(k) = dict::len(s, 20_000) {
            // so many characters, or so many bytes
            let bytes = s.chance(1, 2);
            let long = |t: &String| if bytes { t.len() >= k } else { t.chars().count() >= k };
            if t.is_empty() || k > 400 {
                t = t.repeat(1 + k / t.len().max(1));
            }
            while !t.is_empty() && k <= 400 && !long(&t) {
                t.push(gen_char(s));
            }
        }
    }
    if t.len() < 200 && s.chance(1, 150) {
        let k = *s.pick(&[20, 40, 70, 150, 300, 1200]);
        t = t.repeat(k);
    } else if s.chance(1, 4000) {
        // longer than any fixed-size or 16-bit counter
        let c = gen_char(s);
        t = c.to_string().repeat(*s.pick(&[5_000usize, 66_000]));
    }
    // A raw CR before a line feed would be a line ending, not content.
    let t: Vec<char> = t.chars().collect();
    (0..t.len()).filter(|&i| !(t[i] == '\r' && t.get(i + 1) == Some(&'\n'))).map(|i| t[i]).collect()
}

fn gen_name(s: &mut Src, o: &GenOpts) -> String {
    let mut t = String::new();
    let mut n = 0;
    if let Some(d) = dict::string(s) {
        t = d.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
        if !t.is_empty() && s.chance(2, 3) {
            return t;
        }
    }
    if t.is_empty() && (o.strings == 0 || s.chance(1, 2)) {
        return s.pick(NAMES).to_string();
    }
    while n == 0 || s.more(n, 3, 12) {
        let c = gen_char(s);
        t.push(if c.is_whitespace() { '_' } else { c });
        n += 1;
    }
    if s.chance(1, 60) {
        t = t.repeat(*s.pick(&[10usize, 22, 40, 90, 300]));
    }
    t
}

fn digits(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    let mut n = 0;
    if let Some(k) = dict::len(s, max) {
        return (0..k.max(1)).map(|_| (b'0' + s.below(10) as u8) as char).collect();
    }
    while n == 0 || s.more(n, 2, max) {
        t.push((b'0' + s.below(10) as u8) as char);
        n += 1;
    }
    t
}

/// Spelling of an integer whose value fits 64 bits.
pub fn gen_int(s: &mut Src, o: &GenOpts) -> String {
    let mut t = String::new();
    if let Some(v) = dict::int(s) {
        return v.to_string();
    }
    t.push_str(s.pick(&["", "", "-", "+"]));
    if o.numbers == 0 {
        t.push_str(&digits(s, 4));
        return t;
    }
    match s.weighted(&[4, 2, 2, 2, 1]) {
        0 => t.push_str(&digits(s, 18)),
        1 => {
            for _ in 0..s.below(25) {
                t.push('0');
            }
            t.push_str(&digits(s, 18));
        }
        2 => {
            // mantissa with exponent, product below 10^18
            let m = digits(s, 9);
            let e = s.below(10);
            t.push_str(&m);
            t.push('e');
            t.push_str(s.pick(&["", "+"]));
            t.push_str(s.pick(&["", "0", "00"]));
            t.push_str(&e.to_string());
        }
        3 => {
            let v = s.bits() as i64;
            return v.to_string();
        }
        _ => {
            return s
                .pick(&["9223372036854775807", "-9223372036854775808", "0", "-0", "+0", "9223372036854775806", "1e18", "9e18", "-9e18", "16777217", "2147483648", "4294967296", "0e18"])
                .to_string()
        }
    }
    t
}

/// Spelling of a float (with a point or a negative exponent).
pub fn gen_real(s: &mut Src, o: &GenOpts) -> String {
    let mut t = String::new();
    if let Some(v) = dict::real(s) {
        t = v.to_string();
        if t.len() < 30 {
            return if t.contains('.') { t } else { t + "." };
        }
        t.clear();
    }
    t.push_str(s.pick(&["", "", "-", "+"]));
    let big = if o.numbers == 0 { 3 } else { 25 };
    match s.weighted(&[4, 2, 2, 1]) {
        0 => {
            t.push_str(&digits(s, big));
            t.push('.');
            t.push_str(&digits(s, big));
        }
        1 => {
            t.push('.');
            t.push_str(&digits(s, big));
        }
        2 => {
            t.push_str(&digits(s, big));
            t.push('.');
        }
        _ => {
            // integer mantissa, negative exponent
            t.push_str(&digits(s, if o.numbers == 0 { 3 } else { 18 }));
            t.push_str("e-");
            let e = if o.numbers == 0 { 1 + s.below(4) } else { 1 + s.below(60) };
            t.push_str(&e.to_string());
            return t;
        }
    }
    if s.chance(1, if o.numbers == 0 { 8 } else { 2 }) {
        t.push('e');
        t.push_str(s.pick(&["", "-", "+"]));
        let e = if o.numbers == 0 { s.below(5) } else {
            match s.weighted(&[4, 3, 2, 1]) {
                0 => s.below(12),
                1 => s.below(50),
                2 => s.below(400),
                _ => s.below(100_000),
            }
        };
        t.push_str(&e.to_string());
    }
    t
}

/// Spelling of any number accepted where a float is expected.
pub fn gen_num(s: &mut Src, o: &GenOpts) -> String {
    if s.chance(1, 8) {
        // values that repeat within a scene
        return s.pick(&["0", "1", "-1", "0.0", "1.0", "0.5", "-0", "-0.0", "2", "1e0", "100"]).to_string();
    }
    if s.chance(1, 2) { gen_real(s, o) } else { gen_int(s, o) }
}

fn listed(s: &mut Src, out: &mut Vec<Tok>, bare_ok: bool, vals: Vec<Tok>) {
    if bare_ok && vals.len() == 1 && s.chance(1, 2) {
        out.extend(vals);
        return;
    }
    out.push(Tok::LB);
    out.extend(vals);
    out.push(Tok::RB);
}

fn gen_values(s: &mut Src, o: &GenOpts, f: fn(&mut Src, &GenOpts) -> Tok) -> Vec<Tok> {
    let mut v = vec![f(s, o)];
    if let Some(k) = dict::len(s, 300) {
        while v.len() < k {
            v.push(f(s, o));
        }
        return v;
    }
    let avg = if s.chance(1, 40) { 40 } else { 1 };
    let max = if avg > 1 { 300 } else { o.max_values };
    while s.more(v.len(), avg, max) {
        v.push(f(s, o));
    }
    v
}

/// Amount of pairs in a list of points, vectors or samples.
fn n_pairs(s: &mut Src, o: &GenOpts) -> usize {
    if let Some(k) = dict::len(s, 300) {
        return k.max(1);
    }
    if s.chance(1, 40) {
        let k = *s.pick(&[20usize, 40, 140, 300]);
        return 1 + s.idx(k);
    }
    1 + s.idx(o.max_values.max(1))
}

/// Tokens of one parameter.
pub fn gen_param(s: &mut Src, o: &GenOpts, out: &mut Vec<Tok>) {
    let ty = *s.pick(PARAM_TYPES);
    let name = gen_name(s, o);
    let blank = |s: &mut Src| -> &'static str { if s.chance(1, 8) { *s.pick(&["  ", "\t", " \n ", "   ", "\u{a0}", "\u{3000}", "\n", " \u{2003}", "\u{c}"]) } else { " " } };
    let mid = blank(s);
    let mut decl = format!("{}{}{}", ty, mid, name);
    if s.chance(1, 16) {
        decl = format!("{}{}{}", s.pick(&["", " ", "\t", "\n", "\u{2003}"]), decl, s.pick(&["", " ", "  ", "\n", "\u{3000}"]));
    }
    out.push(Tok::Str(decl));
    let num = |s: &mut Src, o: &GenOpts| Tok::Num(gen_num(s, o));
    let n_nums = |s: &mut Src, o: &GenOpts, n: usize| (0..n).map(|_| num(s, o)).collect::<Vec<_>>();
    match ty {
        "integer" => {
            let v = gen_values(s, o, |s, o| Tok::Num(gen_int(s, o)));
            listed(s, out, true, v)
        }
        "float" => {
            let v = gen_values(s, o, num);
            listed(s, out, true, v)
        }
        "bool" => {
            let v = gen_values(s, o, |s, _| Tok::Str(s.pick(&["true", "false"]).to_string()));
            listed(s, out, true, v)
        }
        "string" => {
            let v = gen_values(s, o, |s, o| Tok::Str(gen_string(s, o)));
            listed(s, out, true, v)
        }
        "point2" | "vector2" => {
            let k = n_pairs(s, o);
            let v = n_nums(s, o, 2 * k);
            listed(s, out, false, v)
        }
        "rgb" | "xyz" => {
            let v = n_nums(s, o, 3);
            listed(s, out, false, v)
        }
        "blackbody" => {
            let v = n_nums(s, o, 2);
            listed(s, out, false, v)
        }
        "spectrum" => {
            if s.chance(1, 3) {
                out.push(Tok::Str(gen_string(s, o)));
            } else {
                let k = n_pairs(s, o);
                let v = n_nums(s, o, 2 * k);
                listed(s, out, false, v)
            }
        }
        _ => out.push(Tok::Str(gen_string(s, o))),
    }
}

pub fn gen_params(s: &mut Src, o: &GenOpts, out: &mut Vec<Tok>) {
    let mut n = 0;
    if o.max_params > 0 && s.chance(1, 10) {
        if let Some(k) = dict::len(s, 150) {
            for _ in 0..k {
                gen_param(s, o, out);
            }
            return;
        }
    }
    let (avg, max) = if o.max_params > 0 && s.chance(1, 200) { (40, 150) } else { (1, o.max_params) };
    while s.more(n, avg, max) {
        gen_param(s, o, out);
        n += 1;
    }
}

fn id(s: &str) -> Tok {
    Tok::Id(s.to_owned())
}

pub fn gen_item(s: &mut Src, o: &GenOpts, depth: usize, out: &mut Vec<Tok>) {
    match s.weighted(&[4, if depth < o.max_depth { 3 } else { 0 }, 1, 1]) {
        0 => {
            out.push(id(s.pick(WORLD_DIRS)));
            out.push(Tok::Str(gen_string(s, o)));
            gen_params(s, o, out);
        }
        1 => {
            let k = *s.pick(&["Attribute", "Transform"]);
            out.push(id(&format!("{}Begin", k)));
            let mut n = 0;
            while s.more(n, 1, o.max_items) {
                gen_item(s, o, depth + 1, out);
                n += 1;
            }
            out.push(id(&format!("{}End", k)));
        }
        2 => {
            out.push(id("Texture"));
            for _ in 0..3 {
                out.push(Tok::Str(gen_string(s, o)));
            }
            gen_params(s, o, out);
        }
        _ => {
            out.push(id("Include"));
            out.push(Tok::Str(gen_string(s, o)));
        }
    }
}

pub fn gen_pre(s: &mut Src, o: &GenOpts, out: &mut Vec<Tok>) {
    match s.weighted(&[4, 4, 1, 1, 1, 1]) {
        0 => {
            let (k, n) = *s.pick(PRE_NUMS);
            out.push(id(k));
            for _ in 0..n {
                out.push(Tok::Num(gen_num(s, o)));
            }
        }
        1 => {
            out.push(id(s.pick(PRE_DIRS)));
            out.push(Tok::Str(gen_string(s, o)));
            gen_params(s, o, out);
        }
        2 => out.push(id("Identity")),
        3 => {
            out.push(id(s.pick(&["CoordinateSystem", "CoordSysTransform"])));
            out.push(Tok::Str(gen_string(s, o)));
        }
        4 => {
            out.push(id("ActiveTransform"));
            out.push(id(s.pick(&["All", "StartTime", "EndTime", "All2", "x1y2", "é9Z", "a", "Worl", "shape"])));
        }
        _ => {
            out.push(id("Include"));
            out.push(Tok::Str(gen_string(s, o)));
        }
    }
}

/// Tokens of a well-formed scene.
pub fn gen_scene(s: &mut Src, o: &GenOpts) -> Vec<Tok> {
    let mut out = vec![];
    let mut n = 0;
    let (avg, max) = if o.max_pre > 0 && s.chance(1, 300) { (50, 300) } else { (2, o.max_pre) };
    let k = if o.max_pre > 0 && s.chance(1, 20) { dict::len(s, 150).unwrap_or(0) } else { 0 };
    while n < k || s.more(n, avg, max) {
        gen_pre(s, o, &mut out);
        n += 1;
    }
    out.push(id("WorldBegin"));
    n = 0;
    let (avg, max) = if s.chance(1, 300) { (60, 400) } else { (3, o.max_items + 2) };
    let k = if s.chance(1, 20) { dict::len(s, 150).unwrap_or(0) } else { 0 };
    while n < k || s.more(n, avg, max) {
        gen_item(s, o, 0, &mut out);
        n += 1;
    }
    out.push(id("WorldEnd"));
    out
}

// ------------------------------------------------------------------ layout

/// How a layout writes gaps and strings.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    /// 0: single blanks; 1: anything
    pub wild: bool,
    /// 0 LF, 1 CRLF, 2 mixed
    pub eol: u8,
    pub comments: bool,
    /// May omit the blank where none is needed.
    pub tight: bool,
    /// Unicode white space other than blank, tab and line breaks.
    pub exotic: bool,
}

pub fn gen_layout(s: &mut Src) -> Layout {
    if s.chance(1, 8) {
        return Layout { wild: false, eol: 0, comments: false, tight: false, exotic: false };
    }
    Layout {
        wild: true,
        eol: s.below(3) as u8,
        comments: s.chance(2, 3),
        tight: s.chance(1, 3),
        exotic: s.chance(1, 6),
    }
}

fn eol(s: &mut Src, l: &Layout) -> &'static str {
    match l.eol {
        0 => "\n",
        1 => "\r\n",
        _ => if s.chance(1, 2) { "\r\n" } else { "\n" },
    }
}

const COMMENTS: &[&str] = &[
    "", " c", "#", " WorldEnd", " \"", " [ ] 1 2", "\"unclosed", " é 中 😀", " \\n \\", "\tx", " AttributeBegin", " # # ", " a \\",
];

fn comment(s: &mut Src) -> String {
    if s.chance(1, 4) {
        let mut t = String::new();
        let mut n = 0;
        let (avg, max) = if s.chance(1, 100) { (150, 1200) } else { (6, 60) };
        while s.more(n, avg, max) {
            let c = gen_char(s);
            t.push(if c == '\n' || c == '\r' { ' ' } else { c });
            n += 1;
        }
        t
    } else {
        s.pick(COMMENTS).to_string()
    }
}

/// Text between two tokens; `need` says that the tokens would run together otherwise.
pub fn gap(s: &mut Src, l: &Layout, need: bool) -> String {
    if !l.wild {
        return if need || s.below(1) == 0 { " ".to_owned() } else { String::new() };
    }
    let mut g = String::new();
    if !need && l.tight && s.chance(3, 4) {
        return g;
    }
    if s.chance(1, 600) {
        // a long stretch of blanks, lines or comments
        let k = *s.pick(&[60usize, 130, 260, 520, 1100, 70_000]);
        let k = dict::len(s, 70_000).unwrap_or(k).max(1);
        let unit = match s.below(4) {
            0 => " ".to_owned(),
            1 => eol(s, l).to_owned(),
            2 => "\t".to_owned(),
            _ => if l.comments { format!("# c{}", eol(s, l)) } else { " ".to_owned() },
        };
        return unit.repeat(k);
    }
    let mut n = 0;
    loop {
        match s.weighted(&[8, 4, 2, 1, if l.comments { 3 } else { 0 }, if l.exotic { 2 } else { 0 }]) {
            0 => g.push(' '),
            1 => g.push_str(eol(s, l)),
            2 => g.push('\t'),
            3 => g.push_str("   "),
            4 => {
                g.push('#');
                g.push_str(&comment(s));
                g.push_str(eol(s, l));
            }
            _ => g.push(*s.pick(&['\u{a0}', '\u{3000}', '\u{b}', '\u{c}', '\u{2003}', '\u{2028}', '\u{85}'])),
        }
        n += 1;
        if !s.more(n, 1, 12) {
            break;
        }
    }
    g
}

/// Writes a string literal for the content, choosing among the equivalent spellings.
pub fn spell_string(s: &mut Src, content: &str, wild: bool) -> String {
    let mut t = String::from("\"");
    let cs: Vec<char> = content.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '"' | '\\' => {
                t.push('\\');
                t.push(c);
            }
            '\n' => {
                // raw, backslash-n, or backslash + raw line break
                let after_cr = i > 0 && cs[i - 1] == '\r';
                if after_cr || !wild || s.chance(1, 2) {
                    t.push_str("\\n");
                } else if s.chance(1, 4) {
                    t.push_str("\\\n");
                } else {
                    t.push('\n');
                }
            }
            'n' => t.push('n'),
            c => {
                if wild && s.chance(1, 16) {
                    t.push('\\');
                }
                t.push(c);
            }
        }
    }
    t.push('"');
    t
}

fn tok_text(s: &mut Src, l: &Layout, t: &Tok) -> String {
    match t {
        Tok::Id(x) | Tok::Num(x) | Tok::Raw(x) => x.clone(),
        Tok::Str(x) => spell_string(s, x, l.wild),
        Tok::LB => "[".to_owned(),
        Tok::RB => "]".to_owned(),
    }
}

/// Identifiers and numbers need something between them; brackets and strings do not.
fn need_gap(a: &Tok, b: &Tok) -> bool {
    let word = |t: &Tok| matches!(t, Tok::Id(_) | Tok::Num(_) | Tok::Raw(_));
    word(a) && word(b)
}

pub struct Laid {
    pub text: String,
    /// Position of each token.
    pub toks: Vec<PTok>,
    /// Character offset of each token in `text`.
    pub offs: Vec<usize>,
}

/// Lays tokens out as text; says where each token landed.
pub fn lay_out(s: &mut Src, toks: &[Tok], l: &Layout) -> Laid {
    let mut text = String::new();
    let mut starts = vec![];
    if l.wild && s.chance(1, 2) {
        text.push_str(&gap(s, l, false));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let need = need_gap(&toks[i - 1], t);
            let g = gap(s, l, need);
            text.push_str(&g);
        }
        starts.push(text.len());
        let x = tok_text(s, l, t);
        text.push_str(&x);
    }
    if l.wild && s.chance(1, 2) {
        text.push_str(&gap(s, l, false));
        if l.comments && s.chance(1, 4) {
            // a comment that ends with the text
            text.push('#');
            text.push_str(&comment(s));
        }
    }
    // byte offset -> position
    let mut out = vec![];
    let mut offs = vec![];
    let mut k = 0;
    let (mut r, mut c) = (1, 1);
    let b: Vec<(usize, char)> = text.char_indices().collect();
    for (ci, (off, ch)) in b.iter().enumerate() {
        if k < starts.len() && starts[k] == *off {
            out.push(PTok { tok: toks[k].clone(), pos: (r, c) });
            offs.push(ci);
            k += 1;
        }
        if *ch == '\r' && b.get(ci + 1).map(|x| x.1) == Some('\n') {
            continue;
        }
        if *ch == '\n' {
            r += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    assert_eq!(out.len(), toks.len(), "layout lost a token");
    Laid { text, toks: out, offs }
}

pub fn block_shape(toks: &[Tok]) -> (usize, usize, bool) {
    // (blocks, max depth, something follows a nested block in the same block)
    let (mut blocks, mut depth, mut max, mut after) = (0, 0usize, 0, false);
    for i in 0..toks.len() {
        if let Tok::Id(s) = &toks[i] {
            if s.ends_with("Begin") {
                blocks += 1;
                depth += 1;
                max = max.max(depth);
            } else if s.ends_with("End") {
                depth = depth.saturating_sub(1);
                if let Some(Tok::Id(n)) = toks.get(i + 1) {
                    if !n.ends_with("End") {
                        after = true;
                    }
                }
            }
        }
    }
    (blocks, max, after)
}
