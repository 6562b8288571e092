//! C03: parameters keep type, name, order and values.
#[path = "../bridge.rs"]
mod bridge;
use harness::engine::*;
use harness::scene::*;

fn case(s: &mut Src) -> Check {
    let o = GenOpts {
        strings: s.below(2) as u8,
        numbers: s.below(2) as u8,
        max_params: 12,
        max_values: 10,
        ..GenOpts::normal()
    };
    // one or two directives with many parameters, before or inside the world
    let mut toks = vec![];
    let npre = s.idx(2);
    let mut params = vec![];
    for _ in 0..npre {
        toks.push(Tok::Id(s.pick(PRE_DIRS).to_string()));
        toks.push(Tok::Str(gen_string(s, &o)));
        gen_many(s, &o, &mut toks, &mut params);
    }
    toks.push(Tok::Id("WorldBegin".into()));
    let n = 1 + s.idx(2);
    for _ in 0..n {
        let wrap = s.chance(1, 4);
        if wrap {
            toks.push(Tok::Id("AttributeBegin".into()));
        }
        if s.chance(1, 4) {
            toks.push(Tok::Id("Texture".into()));
            toks.push(Tok::Str(gen_string(s, &o)));
            toks.push(Tok::Str(gen_string(s, &o)));
        } else {
            toks.push(Tok::Id(s.pick(WORLD_DIRS).to_string()));
        }
        toks.push(Tok::Str(gen_string(s, &o)));
        gen_many(s, &o, &mut toks, &mut params);
        if wrap {
            toks.push(Tok::Id("AttributeEnd".into()));
        }
    }
    toks.push(Tok::Id("WorldEnd".into()));
    let l = gen_layout(s);
    let laid = lay_out(s, &toks, &l);
    s.ident(laid.text.as_bytes());
    s.nontrivial(params.len() >= 2);
    for p in &params {
        s.label(p);
    }
    s.note(|| format!("scene {:?}", laid.text));
    let exp = match ref_parse(&laid.toks) {
        Ref::Ok(x) => x,
        r => panic!("generator made a scene the reference does not accept: {:?}", r),
    };
    bridge::before(s, &laid.text);
    let got = bridge::parse_ok(&laid.text)?;
    Cmp { positions: false }.scene(&got, &exp)
}

fn gen_many(s: &mut Src, o: &GenOpts, toks: &mut Vec<Tok>, kinds: &mut Vec<&'static str>) {
    let mut n = 0;
    while s.more(n, 3, o.max_params) {
        let at = toks.len();
        gen_param(s, o, toks);
        if let Tok::Str(d) = &toks[at] {
            let ty = d.split_whitespace().next().unwrap();
            kinds.push(PARAM_TYPES.iter().find(|t| **t == ty).unwrap());
        }
        n += 1;
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C03",
        rule: "one to three directives with up to 12 parameters of all 11 declared types each, bare or bracketed, up to 300 values; non-trivial: at least two parameters",
        case,
        cases: (400_000, 3_000_000),
        stack_mb: 64,
    });
}
