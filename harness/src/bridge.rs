//! Turns the parser's result into the model. Needs the read-access hook of /repo.
use harness::scene::*;
use pbrtrs::parser::{self, verif, Directive, Param, ParamSet, Parser, PreDirective};
use pbrtrs::verif::Spectrum;

fn par<T, U>(ps: &[Param<T>], f: impl Fn(&T) -> U) -> Vec<Par<U>> {
    ps.iter()
        .map(|p| {
            let (name, pos, values) = verif::param(p);
            Par { name: name.to_owned(), pos: verif::pos(pos), values: values.iter().map(&f).collect() }
        })
        .collect()
}

fn params(p: &ParamSet) -> Params {
    Params {
        bools: par(&p.bools, |x| *x),
        ints: par(&p.ints, |x| *x as i64),
        floats: par(&p.floats, |x| *x),
        point2s: par(&p.point2fs, |x| [x.x, x.y]),
        vector2s: par(&p.vector2fs, |x| [x.x, x.y]),
        point3s: par(&p.point3fs, |x| [x.x, x.y, x.z]),
        vector3s: par(&p.vector3fs, |x| [x.x, x.y, x.z]),
        normals: par(&p.normal3fs, |x| [x.x, x.y, x.z]),
        spectra: par(&p.spectra, |x| match x {
            Spectrum::Rgb(a, b, c) => Spec::Rgb([*a, *b, *c]),
            Spectrum::Xyz(a, b, c) => Spec::Xyz([*a, *b, *c]),
            Spectrum::Spectrum(v) => Spec::Samples(v.clone()),
            Spectrum::File(f) => Spec::File(f.to_str().unwrap().to_owned()),
            Spectrum::Blackbody(a, b) => Spec::Blackbody([*a, *b]),
        }),
        strings: par(&p.strings, |x| x.clone()),
        textures: par(&p.textures, |x| x.clone()),
    }
}

fn dir(kind: &str, d: &parser::DirectiveStruct) -> Dir {
    let (ty, pos, ps) = verif::directive(d);
    Dir { kind: kind.to_owned(), strs: vec![ty.to_owned()], pos: verif::pos(pos), params: params(ps) }
}

fn item(d: &Directive) -> Item {
    let block = |k: &str, b: &parser::BlockStruct| {
        let (pos, c) = verif::block(b);
        Item::Block(k.to_owned(), verif::pos(pos), c.iter().map(item).collect())
    };
    match d {
        Directive::Material(x) => Item::Dir(dir("Material", x)),
        Directive::Shape(x) => Item::Dir(dir("Shape", x)),
        Directive::LightSource(x) => Item::Dir(dir("LightSource", x)),
        Directive::AreaLightSource(x) => Item::Dir(dir("AreaLightSource", x)),
        Directive::Attribute(b) => block("Attribute", b),
        Directive::Transform(b) => block("Transform", b),
        Directive::World(b) => block("World", b),
        Directive::Include(p, f) => Item::Include(verif::pos(p), f.to_str().unwrap().to_owned()),
        Directive::Texture(t) => {
            let (name, ty, class, pos, ps) = verif::texture(t);
            Item::Dir(Dir {
                kind: "Texture".into(),
                strs: vec![name.to_owned(), ty.to_owned(), class.to_owned()],
                pos: verif::pos(pos),
                params: params(ps),
            })
        }
    }
}

fn pre(p: &PreDirective) -> Pre {
    let nums = |k: &str, p: &parser::Pos, v: Vec<Float>| Pre::Nums(k.to_owned(), verif::pos(p), v);
    let mat = |m: &[[Float; 3]; 3]| m.iter().flatten().copied().collect::<Vec<_>>();
    match p {
        PreDirective::Identity(p) => Pre::Identity(verif::pos(p)),
        PreDirective::Translate(p, v) => nums("Translate", p, vec![v.x, v.y, v.z]),
        PreDirective::Scale(p, v) => nums("Scale", p, vec![v.x, v.y, v.z]),
        PreDirective::Rotate(p, a, v) => nums("Rotate", p, vec![*a, v.x, v.y, v.z]),
        PreDirective::LookAt(p, m) => nums("LookAt", p, mat(&m.mat)),
        PreDirective::CoordinateSystem(p, s) => Pre::Named("CoordinateSystem".into(), verif::pos(p), s.clone()),
        PreDirective::CoordSysTransform(p, s) => Pre::Named("CoordSysTransform".into(), verif::pos(p), s.clone()),
        PreDirective::Transform(p, m) => nums("Transform", p, mat(&m.mat)),
        PreDirective::ConcatTransform(p, m) => nums("ConcatTransform", p, mat(&m.mat)),
        PreDirective::ActiveTransform(p, s) => Pre::Named("ActiveTransform".into(), verif::pos(p), s.clone()),
        PreDirective::TransformTimes(p, a, b) => nums("TransformTimes", p, vec![*a, *b]),
        PreDirective::Camera(x) => Pre::Dir(dir("Camera", x)),
        PreDirective::Sampler(x) => Pre::Dir(dir("Sampler", x)),
        PreDirective::Film(x) => Pre::Dir(dir("Film", x)),
        PreDirective::Filter(x) => Pre::Dir(dir("Filter", x)),
        PreDirective::Integrator(x) => Pre::Dir(dir("Integrator", x)),
        PreDirective::Accelerator(x) => Pre::Dir(dir("Accelerator", x)),
        PreDirective::Include(p, f) => Pre::Include(verif::pos(p), f.to_str().unwrap().to_owned()),
    }
}

pub fn model((ps, w): &(Vec<PreDirective>, Directive)) -> Scene {
    Scene { pre: ps.iter().map(pre).collect(), world: item(w) }
}

pub enum Got {
    Scene(Scene),
    Error(String),
}

/// Parses with the code under test. Err: it panicked.
pub fn parse(text: &str) -> Result<Got, String> {
    let r = harness::engine::guard(|| Parser::parse(text)).map_err(|m| format!("the parser panicked: {}", m))?;
    Ok(match r {
        Ok(r) => Got::Scene(model(&r)),
        // the message as a user gets to see it
        Err(e) => Got::Error(harness::engine::guard(|| e.to_string()).map_err(|m| format!("printing the error panicked: {}", m))?),
    })
}

/// Sometimes parses a part of the text first (usually malformed, in any production), with
/// whatever result: what was parsed before must not matter.
#[allow(dead_code)]
pub fn before(s: &mut harness::engine::Src, text: &str) {
    if s.chance(1, 6) {
        let mut k = s.idx(text.len() + 1);
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        s.label("after a parse of its beginning");
        s.note(|| format!("parsed first: its first {} bytes", k));
        let _ = harness::engine::guard(|| Parser::parse(&text[..k]).is_ok());
    }
}

/// Parses and requires a scene.
#[allow(dead_code)]
pub fn parse_ok(text: &str) -> Result<Scene, String> {
    match parse(text)? {
        Got::Scene(s) => Ok(s),
        Got::Error(e) => Err(format!("well-formed scene was rejected: {}", e)),
    }
}
