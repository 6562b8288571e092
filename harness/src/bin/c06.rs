//! C06: source positions are exact.
#[path = "../bridge.rs"]
mod bridge;
use harness::engine::*;
use harness::scene::*;

fn case(s: &mut Src) -> Check {
    let o = GenOpts { strings: s.below(2) as u8, numbers: s.below(2) as u8, max_params: 3, max_values: 3, ..GenOpts::normal() };
    let toks = gen_scene(s, &o);
    let mut l = gen_layout(s);
    l.wild = true;
    let laid = lay_out(s, &toks, &l);
    s.ident(laid.text.as_bytes());
    let lines = laid.text.matches('\n').count();
    s.nontrivial(lines >= 1 && toks.len() > 2);
    if laid.text.contains("\r\n") {
        s.label("CRLF");
    }
    if laid.text.contains('\t') {
        s.label("tab");
    }
    if !laid.text.is_ascii() {
        s.label("non-ASCII");
    }
    if laid.text.contains('#') {
        s.label("hash");
    }
    if toks.iter().any(|t| matches!(t, Tok::Str(x) if x.contains('\n'))) {
        s.label("line break in a string");
    }
    s.note(|| format!("text {:?}", laid.text));
    let exp = match ref_parse(&laid.toks) {
        Ref::Ok(x) => x,
        r => panic!("generator made a scene the reference does not accept: {:?}", r),
    };
    bridge::before(s, &laid.text);
    let got = bridge::parse_ok(&laid.text)?;
    Cmp { positions: true }.scene(&got, &exp)
}

fn main() {
    harness::engine::main(Prop {
        id: "C06",
        rule: "well-formed scenes in random layouts (LF/CRLF/mixed, comments, tabs, multi-line and non-ASCII strings); every position of every directive, block and parameter compared; non-trivial: more than one line and more than two tokens",
        case,
        cases: (500_000, 4_000_000),
        stack_mb: 64,
    });
}
