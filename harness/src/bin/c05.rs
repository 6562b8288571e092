//! C05: string literals are read back exactly.
#[path = "../bridge.rs"]
mod bridge;
use harness::engine::*;
use harness::scene::*;

fn content(s: &mut Src) -> String {
    let o = GenOpts { strings: 1, ..GenOpts::normal() };
    gen_string(s, &o)
}

fn case(s: &mut Src) -> Check {
    // every place where a string can occur
    let mut toks: Vec<Tok> = vec![];
    let mut strs: Vec<String> = vec![];
    let id = |x: &str| Tok::Id(x.to_owned());
    let mut put = |s: &mut Src, toks: &mut Vec<Tok>| {
        let c = content(s);
        strs.push(c.clone());
        toks.push(Tok::Str(c));
    };
    let mut n = 0;
    while s.more(n, 1, 3) {
        toks.push(id(s.pick(&["Include", "CoordinateSystem", "CoordSysTransform", "Camera", "Film"])));
        put(s, &mut toks);
        n += 1;
    }
    toks.push(id("WorldBegin"));
    n = 0;
    while n == 0 || s.more(n, 1, 4) {
        match s.below(7) {
            0 => {
                toks.push(id(s.pick(WORLD_DIRS)));
                put(s, &mut toks);
            }
            1 => {
                toks.push(id("Include"));
                put(s, &mut toks);
            }
            2 => {
                toks.push(id("Texture"));
                for _ in 0..3 {
                    put(s, &mut toks);
                }
            }
            k => {
                toks.push(id("Shape"));
                toks.push(Tok::Str("s".into()));
                match k {
                    3 => {
                        toks.push(Tok::Str("string x".into()));
                        put(s, &mut toks);
                    }
                    4 => {
                        toks.push(Tok::Str("string x".into()));
                        toks.push(Tok::LB);
                        for _ in 0..1 + s.idx(3) {
                            put(s, &mut toks);
                        }
                        toks.push(Tok::RB);
                    }
                    5 => {
                        toks.push(Tok::Str("texture x".into()));
                        put(s, &mut toks);
                    }
                    _ => {
                        toks.push(Tok::Str("spectrum x".into()));
                        put(s, &mut toks);
                    }
                }
            }
        }
        n += 1;
    }
    toks.push(id("WorldEnd"));
    let mut l = gen_layout(s);
    l.wild = true;
    let laid = lay_out(s, &toks, &l);
    s.ident(laid.text.as_bytes());
    s.nontrivial(strs.iter().any(|x| x.chars().any(|c| !c.is_ascii_alphanumeric())));
    for (c, name) in [('"', "quote"), ('\\', "backslash"), ('\n', "line break"), ('#', "hash"), ('[', "bracket"), (' ', "blank")] {
        if strs.iter().any(|x| x.contains(c)) {
            s.label(name);
        }
    }
    if strs.iter().any(|x| !x.is_ascii()) {
        s.label("non-ASCII");
    }
    if strs.iter().any(|x| x.is_empty()) {
        s.label("empty");
    }
    s.note(|| format!("text {:?}", laid.text));
    let exp = match ref_parse(&laid.toks) {
        Ref::Ok(x) => x,
        r => panic!("generator made a scene the reference does not accept: {:?}", r),
    };
    bridge::before(s, &laid.text);
    let got = bridge::parse_ok(&laid.text)?;
    Cmp { positions: false }.scene(&got, &exp)
}

fn main() {
    harness::engine::main(Prop {
        id: "C05",
        rule: "scenes whose strings (types, names, paths, string/texture/spectrum values) have arbitrary content in arbitrary equivalent spellings; non-trivial: a string with a character other than an ASCII letter or digit",
        case,
        cases: (1_200_000, 8_000_000),
        stack_mb: 64,
    });
}
