//! C07: layout, comments and line endings never change the meaning.
#[path = "../bridge.rs"]
mod bridge;
use harness::engine::*;
use harness::scene::*;

fn case(s: &mut Src) -> Check {
    let o = GenOpts { strings: s.below(2) as u8, numbers: s.below(2) as u8, max_params: 3, max_values: 4, ..GenOpts::normal() };
    let toks = gen_scene(s, &o);
    let plain = Layout { wild: false, eol: 0, comments: false, tight: false, exotic: false };
    let l1 = if s.chance(1, 2) { plain } else { gen_layout(s) };
    let mut l2 = gen_layout(s);
    l2.wild = true;
    let a = lay_out(s, &toks, &l1);
    let b = lay_out(s, &toks, &l2);
    s.ident(a.text.as_bytes());
    s.ident(b.text.as_bytes());
    s.nontrivial(a.text != b.text);
    for (t, n) in [("\r\n", "CRLF"), ("#", "comment"), ("\t", "tab"), ("\"[", "no blank before a bracket")] {
        if b.text.contains(t) {
            s.label(n);
        }
    }
    s.note(|| format!("text 1 {:?}\ntext 2 {:?}", a.text, b.text));
    let exp = match ref_parse(&a.toks) {
        Ref::Ok(x) => x,
        r => panic!("generator made a scene the reference does not accept: {:?}", r),
    };
    bridge::before(s, &a.text);
    let ga = bridge::parse_ok(&a.text).map_err(|e| format!("text 1: {}", e))?;
    let gb = bridge::parse_ok(&b.text).map_err(|e| format!("text 2: {}", e))?;
    let c = Cmp { positions: false };
    c.scene(&gb, &ga).map_err(|e| format!("text 2 against text 1: {}", e))?;
    c.scene(&ga, &exp).map_err(|e| format!("text 1: {}", e))?;
    // replacing every line end by the other kind, outside strings that span lines
    if !toks.iter().any(|t| matches!(t, Tok::Str(x) if x.contains('\r'))) {
        let lf = b.text.replace("\r\n", "\n");
        let crlf = lf.replace('\n', "\r\n");
        let g1 = bridge::parse_ok(&lf).map_err(|e| format!("text 2 with LF: {}", e))?;
        let g2 = bridge::parse_ok(&crlf).map_err(|e| format!("text 2 with CRLF: {}", e))?;
        let p = Cmp { positions: true };
        p.scene(&g1, &gb).map_err(|e| format!("text 2 with LF endings: {}", e))?;
        p.scene(&g2, &gb).map_err(|e| format!("text 2 with CRLF endings: {}", e))?;
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C07",
        rule: "a well-formed scene in two random layouts, the second also with all line ends changed to LF and to CRLF; all parses compared with each other and with the expected scene; non-trivial: the two texts differ",
        case,
        cases: (200_000, 2_000_000),
        stack_mb: 64,
    });
}
