//! C09: transform directives take exactly their numbers, in order.
#[path = "../bridge.rs"]
mod bridge;
use bridge::Got;
use harness::dict;
use harness::engine::*;
use harness::scene::*;

fn case(s: &mut Src) -> Check {
    let o = GenOpts { numbers: s.below(2) as u8, ..GenOpts::normal() };
    let id = |x: &str| Tok::Id(x.to_owned());
    let mut toks = vec![];
    let mut wrong = false;
    let mut n = 0;
    while n == 0 || s.more(n, 1, 5) {
        match s.weighted(&[8, 1, 1, 1]) {
            0 => {
                let (k, need) = *s.pick(PRE_NUMS);
                let count = if s.chance(2, 3) { need } else { s.idx(need + 9) };
                let count = if s.chance(1, 3) { dict::len(s, 300).unwrap_or(count) } else { count };
                wrong |= count != need;
                toks.push(id(k));
                for _ in 0..count {
                    toks.push(Tok::Num(gen_num(s, &o)));
                }
            }
            1 => {
                toks.push(id("Identity"));
                if s.chance(1, 6) {
                    toks.push(Tok::Num("1".into()));
                    wrong = true;
                }
            }
            2 => {
                toks.push(id(s.pick(&["CoordinateSystem", "CoordSysTransform"])));
                match s.weighted(&[6, 1, 1]) {
                    0 => toks.push(Tok::Str(gen_string(s, &o))),
                    1 => {
                        toks.push(Tok::Str("a".into()));
                        toks.push(Tok::Str("b".into()));
                        wrong = true;
                    }
                    _ => wrong = true,
                }
            }
            _ => {
                toks.push(id("ActiveTransform"));
                match s.weighted(&[6, 1]) {
                    0 => toks.push(id(s.pick(&["All", "StartTime", "EndTime", "All2", "x1y2", "é9Z", "a", "Worl"]))),
                    _ => {
                        toks.push(Tok::Str("All".into()));
                        wrong = true;
                    }
                }
            }
        }
        n += 1;
    }
    toks.push(id("WorldBegin"));
    toks.push(id("WorldEnd"));
    // a stray, missing or doubled token anywhere
    let disturbed = s.chance(1, 6);
    if disturbed {
        for _ in 0..1 + s.idx(2) {
            let at = s.idx(toks.len());
            match s.below(6) {
                0 => {
                    toks.remove(at);
                }
                1 => {
                    let t = toks[at].clone();
                    toks.insert(at, t);
                }
                k => {
                    let t = match (k, s.below(4)) {
                        (2, _) | (3, _) => Tok::Num(gen_num(s, &o)),
                        (4, 0) => Tok::LB,
                        (4, 1) => Tok::RB,
                        (4, _) => id(s.pick(&["All", "Identity", "Translate", "x"])),
                        _ => Tok::Str(gen_string(s, &o)),
                    };
                    toks.insert(at, t);
                }
            }
            if toks.is_empty() {
                break;
            }
        }
    }
    let l = gen_layout(s);
    let laid = lay_out(s, &toks, &l);
    s.ident(laid.text.as_bytes());
    s.nontrivial(true);
    s.label(if disturbed { "stray or missing token" } else if wrong { "wrong count" } else { "right counts" });
    s.note(|| format!("text {:?}", laid.text));
    bridge::before(s, &laid.text);
    let got = bridge::parse(&laid.text)?;
    match (ref_parse(&laid.toks), got) {
        (Ref::Ok(e), Got::Scene(g)) => {
            assert!(disturbed || !wrong);
            Cmp { positions: false }.scene(&g, &e)
        }
        (Ref::Ok(_), Got::Error(e)) => Err(format!("rejected: {}", e)),
        (Ref::Bad(..), Got::Error(_)) => {
            assert!(disturbed || wrong);
            Ok(())
        }
        (Ref::Bad(_, w), Got::Scene(g)) => Err(format!("accepted in spite of {}: {:?}", w, g.pre)),
        (Ref::Unspec(_), _) if disturbed => {
            s.label("not specified");
            Ok(())
        }
        (Ref::Unspec(w), _) => panic!("generator left the specification: {}", w),
    }
}

fn main() {
    harness::engine::main(Prop {
        id: "C09",
        rule: "up to five transform directives with the right or a wrong count of numbers (0 to 8 too many), or with a stray, missing or doubled token, all spellings; every case is non-trivial",
        case,
        cases: (1_300_000, 10_000_000),
        stack_mb: 64,
    });
}
