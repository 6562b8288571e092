//! C08: malformed scenes are rejected, never silently repaired.
#[path = "../bridge.rs"]
mod bridge;
use bridge::Got;
use harness::engine::*;
use harness::scene::*;
use harness::soup::*;

fn case(s: &mut Src) -> Check {
    let o = GenOpts { max_pre: 3, max_items: 3, max_params: 3, max_values: 3, max_depth: 3, ..GenOpts::normal() };
    let mut toks = gen_scene(s, &o);
    let by_text = s.chance(1, 3);
    let (what, text, verdict);
    if by_text {
        let l = gen_layout(s);
        let laid = lay_out(s, &toks, &l);
        text = corrupt_text(s, &laid.text);
        what = "corrupted characters";
        verdict = ref_text(&text);
    } else {
        let mut w = corrupt_tokens(s, &mut toks);
        if s.chance(1, 6) && !toks.is_empty() {
            corrupt_tokens(s, &mut toks);
            w = "two corruptions";
        }
        what = w;
        let mut l = gen_layout(s);
        if s.chance(1, 2) {
            l.wild = false;
        }
        let laid = lay_out(s, &toks, &l);
        verdict = ref_parse(&laid.toks);
        text = laid.text;
    }
    s.label(what);
    s.ident(text.as_bytes());
    s.note(|| format!("{}: {:?}; reference: {}", what, text, match &verdict { Ref::Ok(_) => "well formed".into(), Ref::Bad(_, w) => format!("malformed ({})", w), Ref::Unspec(w) => format!("open ({})", w) }));
    bridge::before(s, &text);
    let got = bridge::parse(&text)?;
    match (&verdict, &got) {
        (Ref::Bad(_, w), Got::Scene(sc)) => {
            s.nontrivial(true);
            Err(format!("malformed scene ({}) was accepted as {:?}", w, sc))
        }
        (Ref::Bad(_, w), Got::Error(_)) => {
            s.nontrivial(true);
            s.label("malformed");
            s.label(w);
            Ok(())
        }
        (Ref::Ok(e), Got::Scene(sc)) => {
            s.label("still well formed");
            Cmp { positions: true }.scene(sc, e)
        }
        (Ref::Ok(_), Got::Error(e)) => Err(format!("well-formed scene was rejected: {}", e)),
        (Ref::Unspec(w), _) => {
            s.label("left open");
            s.label(w);
            Ok(())
        }
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C08",
        rule: "a well-formed scene corrupted in its tokens (13 kinds of change) or characters, judged by the reference recogniser; non-trivial: the reference says malformed",
        case,
        cases: (1_000_000, 8_000_000),
        stack_mb: 64,
    });
}
