//! C10: errors point at the fault.
#[path = "../bridge.rs"]
mod bridge;
use bridge::Got;
use harness::engine::*;
use harness::ensure;
use harness::scene::*;
use harness::soup::*;

/// First "(line, column)" in a message.
fn first_pos(m: &str) -> Option<Pos> {
    let b: Vec<char> = m.chars().collect();
    let num = |mut i: usize| -> Option<(usize, usize)> {
        let st = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == st { None } else { b[st..i].iter().collect::<String>().parse().ok().map(|v| (v, i)) }
    };
    for i in 0..b.len() {
        if b[i] == '(' {
            if let Some((r, j)) = num(i + 1) {
                if b.get(j) == Some(&',') && b.get(j + 1) == Some(&' ') {
                    if let Some((c, k)) = num(j + 2) {
                        if b.get(k) == Some(&')') {
                            return Some((r, c));
                        }
                    }
                }
            }
        }
    }
    None
}

fn case(s: &mut Src) -> Check {
    let o = GenOpts { max_pre: 3, max_items: 3, max_params: 3, max_values: 4, max_depth: 3, strings: s.below(2) as u8, ..GenOpts::normal() };
    let mut toks = gen_scene(s, &o);
    if s.chance(1, 3) {
        // an illegal character between two tokens
        let c = gen_bad_char(s);
        let at = s.idx(toks.len());
        toks.insert(at, Tok::Raw(c.to_string()));
        let l = gen_layout(s);
        let laid = lay_out(s, &toks, &l);
        let exp = laid.toks[at].pos;
        s.ident(laid.text.as_bytes());
        s.nontrivial(exp != (1, 1));
        s.label("illegal character");
        s.note(|| format!("illegal {:?} at {:?} in {:?}", c, exp, laid.text));
        return match bridge::parse(&laid.text)? {
            Got::Scene(_) => Err(format!("a text with the illegal character {:?} was accepted", c)),
            Got::Error(e) => {
                ensure!(first_pos(&e) == Some(exp), "illegal character {:?} is at {:?}, the error says {:?}", c, exp, e);
                Ok(())
            }
        };
    }
    if s.chance(1, 4) {
        return lexical(s, &o, toks);
    }
    let what = corrupt_tokens(s, &mut toks);
    let l = gen_layout(s);
    let laid = lay_out(s, &toks, &l);
    s.ident(laid.text.as_bytes());
    s.note(|| format!("{}: {:?}", what, laid.text));
    let (i, why) = match ref_parse(&laid.toks) {
        Ref::Bad(Some(i), why) => (i, why),
        _ => {
            s.label("no definite offender");
            return Ok(());
        }
    };
    bridge::before(s, &laid.text);
    let e = match bridge::parse(&laid.text)? {
        // C08 is about this
        Got::Scene(_) => return Ok(()),
        Got::Error(e) => e,
    };
    s.nontrivial(true);
    s.label(why);
    let off = laid.toks[i].pos;
    // the directive whose arguments were being read
    let start = (0..i).rev().find(|&j| is_keyword(&laid.toks[j].tok)).unwrap_or(0);
    let lo = laid.toks[start].pos;
    let exact = matches!(
        why,
        "expected a directive" | "unknown directive" | "mismatched block end" | "block end without block" | "expected ']'" | "text after the world block"
    ) || (matches!(why, "expected a number" | "expected an integer" | "expected a bool") && in_list(&laid.toks, i));
    s.note(|| format!("offender: token {} at {:?} ({}); error {:?}", i, off, why, e));
    match first_pos(&e) {
        Some(p) => {
            ensure!(p <= off && p >= lo, "the offender is at {:?} in the directive at {:?} ({}), the error says {:?}", off, lo, why, e);
            ensure!(!exact || p == off, "the offender is at {:?} ({}), the error says {:?}", off, why, e);
        }
        None => ensure!(!exact, "the offender is at {:?} ({}), the error names no position: {:?}", off, why, e),
    }
    s.label(if exact { "exact" } else { "range" });
    Ok(())
}

/// A malformed number or an unterminated string.
fn lexical(s: &mut Src, o: &GenOpts, mut toks: Vec<Tok>) -> Check {
    let at = s.idx(toks.len());
    let sign = *s.pick(&["", "-", "+"]);
    let d = |s: &mut Src| s.int(0, 9999).to_string();
    // (literal, offset of the offending character if it is a definite one)
    let (lit, off) = match s.below(5) {
        0 => {
            let head = format!("{}{}.{}", sign, d(s), d(s));
            (format!("{}.{}", head, d(s)), Some(head.len()))
        }
        1 => {
            let head = format!("{}{}e{}{}", sign, d(s), s.pick(&["", "-", "+"]), d(s));
            (format!("{}e{}", head, d(s)), Some(head.len()))
        }
        2 => (format!("{}{}e{}", sign, d(s), s.pick(&["", "-", "+"])), None),
        3 => (s.pick(&["-", "+", ".", "-.", "+."]).to_string(), None),
        _ => {
            let mut t = spell_string(s, "", true);
            let more = gen_string(s, o).replace(['"', '\\', '\r'], " ");
            t.pop();
            (t + &more, None)
        }
    };
    let string = lit.starts_with('"');
    if string {
        // nothing after it, or a later quote would close it
        toks.truncate(at);
    }
    toks.insert(at, Tok::Raw(lit.clone()));
    let l = gen_layout(s);
    let mut laid = lay_out(s, &toks, &l);
    if string {
        // drop the gap at the end: it might contain quotes
        laid.text = laid.text.chars().take(laid.offs[at] + lit.chars().count()).collect();
    }
    let start = laid.toks[at].pos;
    let (end, last) = if string { let e = positions(&laid.text).1; (e, e) } else { ((start.0, start.1 + lit.chars().count() - 1), (start.0, start.1 + lit.chars().count())) };
    s.ident(laid.text.as_bytes());
    s.nontrivial(true);
    s.label(if string { "unterminated string" } else { "malformed number" });
    s.note(|| format!("{:?} at {:?} in {:?}", lit, start, laid.text));
    match bridge::parse(&laid.text)? {
        Got::Scene(_) => Err(format!("a text with the malformed {:?} was accepted", lit)),
        Got::Error(e) => {
            let p = first_pos(&e);
            if let Some(o) = off {
                let exp = (start.0, start.1 + o);
                ensure!(p == Some(exp), "the offending character of {:?} is at {:?}, the error says {:?}", lit, exp, e);
            } else if let Some(p) = p {
                ensure!(p >= start && p <= last, "{:?} lies at {:?} to {:?}, the error says {:?}", lit, start, end, e);
            }
            Ok(())
        }
    }
}

fn is_keyword(t: &Tok) -> bool {
    matches!(t, Tok::Id(x) if is_directive(x))
}

/// Is token i in the place of a single-valued list element (some '[' before it without ']' in between)?
fn in_list(t: &[PTok], i: usize) -> bool {
    for j in (0..i).rev() {
        match t[j].tok {
            // the elements of these lists are pairs
            Tok::LB => return !matches!(j.checked_sub(1).map(|k| &t[k].tok), Some(Tok::Str(d)) if d.contains("point2") || d.contains("vector2")),
            Tok::RB | Tok::Id(_) => return false,
            _ => {}
        }
    }
    false
}

fn main() {
    harness::engine::main(Prop {
        id: "C10",
        rule: "a well-formed scene with one illegal character, one malformed literal or one token-level corruption; the first position in the error message is compared with the offender determined by the reference recogniser; non-trivial: the reference names an offender",
        case,
        cases: (800_000, 6_000_000),
        stack_mb: 64,
    });
}
