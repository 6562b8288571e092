//! C02: the parsed scene mirrors the text.
#[path = "../bridge.rs"]
mod bridge;
use harness::engine::*;
use harness::scene::*;

fn case(s: &mut Src) -> Check {
    let o = match s.weighted(&[4, 2, 1]) {
        0 => GenOpts { max_params: 1, max_values: 2, max_items: 8, max_depth: 6, max_pre: 8, ..GenOpts::normal() },
        1 => GenOpts { max_params: 2, strings: 1, ..GenOpts::normal() },
        _ => GenOpts { max_params: 0, max_items: 30, max_depth: 25, max_pre: 30, ..GenOpts::normal() },
    };
    let mut toks = gen_scene(s, &o);
    if s.chance(1, 50) {
        // a deep chain of blocks around what the world contains
        let at = toks.iter().position(|t| matches!(t, Tok::Id(x) if x == "WorldBegin")).unwrap() + 1;
        for _ in 0..1 + s.idx(60) {
            let k = *s.pick(&["Attribute", "Transform"]);
            toks.insert(at, Tok::Id(format!("{}Begin", k)));
            let end = toks.len() - 1;
            toks.insert(end, Tok::Id(format!("{}End", k)));
        }
    }
    let l = gen_layout(s);
    let laid = lay_out(s, &toks, &l);
    let (blocks, depth, after) = block_shape(&toks);
    s.ident(laid.text.as_bytes());
    s.nontrivial(blocks >= 2 || toks.len() > 12);
    if blocks >= 2 {
        s.label("nested block");
    }
    if depth >= 4 {
        s.label("depth 4 or more");
    }
    if after {
        s.label("sibling after a nested block");
    }
    s.note(|| format!("scene {:?}", laid.text));
    let exp = match ref_parse(&laid.toks) {
        Ref::Ok(x) => x,
        r => panic!("generator made a scene the reference does not accept: {:?}", r),
    };
    bridge::before(s, &laid.text);
    let got = bridge::parse_ok(&laid.text)?;
    Cmp { positions: false }.scene(&got, &exp)
}

fn main() {
    harness::engine::main(Prop {
        id: "C02",
        rule: "well-formed scenes (up to 300 pre-world directives, blocks nested up to 85 deep), random layout; non-trivial: at least one nested block or more than 12 tokens",
        case,
        cases: (700_000, 5_000_000),
        stack_mb: 64,
    });
}
