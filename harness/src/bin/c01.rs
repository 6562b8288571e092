//! C01: no text crashes or hangs the parser; the outcome is a function of the text.
use harness::dict;
use harness::engine::*;
use harness::ensure;
use harness::scene::*;
use harness::soup::*;
use pbrtrs::parser::Parser;

fn soup(s: &mut Src) -> String {
    let mut t = String::new();
    let mut n = 0;
    let glue = s.below(3);
    while s.more(n, 25, 200) {
        if s.chance(1, 5) {
            t.push(gen_char(s));
        } else if let Some(d) = dict::string(s) {
            t.push_str(&d);
        } else {
            t.push_str(s.pick(VOCAB));
        }
        match glue {
            0 => t.push(' '),
            1 => if s.chance(1, 2) { t.push(' ') },
            _ => {}
        }
        n += 1;
    }
    t
}

fn unicode(s: &mut Src) -> String {
    let mut t = String::new();
    let mut n = 0;
    while s.more(n, 20, 120) {
        let c = match s.below(3) {
            0 => gen_char(s),
            1 => char::from_u32(s.below(0x110000) as u32).unwrap_or('x'),
            _ => char::from_u32(s.below(0x80) as u32).unwrap(),
        };
        t.push(c);
        n += 1;
    }
    t
}

fn scene_text(s: &mut Src) -> String {
    let o = GenOpts { strings: s.below(2) as u8, numbers: s.below(2) as u8, ..GenOpts::normal() };
    let toks = gen_scene(s, &o);
    let l = gen_layout(s);
    lay_out(s, &toks, &l).text
}

fn corrupted(s: &mut Src) -> String {
    let mut t = scene_text(s);
    let k = 1 + s.idx(3);
    for _ in 0..k {
        t = corrupt_text(s, &t);
    }
    t
}

/// A long run of one construct, put inside an otherwise ordinary scene or on its own.
fn long_run(s: &mut Src) -> String {
    let size = dict::len(s, 200_000).unwrap_or(*s.pick(&[1usize, 10, 100, 1_000, 10_000, 60_000, 200_000]));
    let unit = *s.pick(&[
        "# c\n", "#\n", " ", "\n", "\r\n", "\t\n ", "# x\r\n ", "[", "]", "1", "1 ", "9", ".", "-", "+", "e", "1e", "e1", "1e1", "0.", "a", "A1 ", "\"\" ", "\"", "\\",
        "\\\"", "é", "²", "😀", "# \u{e9}\n\n", "AttributeBegin ", "TransformBegin\n", "AttributeEnd ", "AttributeBegin AttributeEnd ", "WorldBegin ",
        "Identity ", "Shape \"s\" ", "\"float x\" 1 ", "\"float x\" [1] ", "0", "00", "1e-",
    ]);
    let run = unit.repeat(size);
    match s.below(7) {
        0 => run,
        1 => format!("{}WorldBegin WorldEnd", run),
        2 => format!("WorldBegin {} WorldEnd", run),
        3 => format!("WorldBegin Shape \"s\" \"float x\" [{}] WorldEnd", run),
        4 => format!("WorldBegin Shape \"{}\" WorldEnd", run),
        5 => format!("Translate 1 2 1{} WorldBegin WorldEnd", run),
        _ => format!("WorldBegin WorldEnd {}", run),
    }
}

fn nested(s: &mut Src) -> String {
    let d = dict::len(s, 100_000).unwrap_or(*s.pick(&[1usize, 5, 20, 50, 100, 200, 500, 2_000, 20_000, 100_000]));
    let kinds: Vec<&str> = (0..3).map(|_| *s.pick(&["Attribute", "Transform", "World"])).collect();
    let close = s.chance(3, 4);
    let mut t = String::from("WorldBegin\n");
    for i in 0..d {
        t.push_str(kinds[i % 3]);
        t.push_str("Begin ");
    }
    t.push_str("Shape \"s\" ");
    if close {
        for i in (0..d).rev() {
            t.push_str(kinds[i % 3]);
            t.push_str("End ");
        }
        t.push_str("WorldEnd");
    }
    t
}

/// Texts that differ from each other in a few characters, parsed in arbitrary order with
/// unrelated texts in between: each one's outcome is always the same.
fn siblings(s: &mut Src) -> Check {
    let base: Vec<char> = scene_text(s).chars().collect();
    let mut texts: Vec<String> = vec![base.iter().collect()];
    for _ in 0..1 + s.idx(3) {
        let mut c = base.clone();
        for _ in 0..1 + s.idx(2) {
            if c.is_empty() {
                break;
            }
            let i = s.idx(c.len());
            match s.below(4) {
                // same length, mostly still a scene
                0 => {
                    let ds: Vec<usize> = (0..c.len()).filter(|&j| c[j].is_ascii_digit()).collect();
                    let j = if ds.is_empty() { i } else { *s.pick(&ds) };
                    c[j] = (b'0' + s.below(10) as u8) as char;
                }
                1 => c[i] = gen_char(s),
                2 => {
                    c.truncate(i);
                }
                _ => {
                    let x = c[i];
                    c.insert(i, x);
                }
            }
        }
        texts.push(c.into_iter().collect());
    }
    texts.push(s.pick(&["", "WorldBegin WorldEnd", "WorldBegin Shape \"s\" WorldEnd", "\"", "Foo"]).to_string());
    s.label("sibling texts");
    s.nontrivial(true);
    s.ident(texts.concat().as_bytes());
    let mut first: Vec<Option<String>> = vec![None; texts.len()];
    let mut order = vec![];
    let mut n = 0;
    while n < 4 || s.more(n, 8, 40) {
        let i = s.idx(texts.len());
        order.push(i);
        n += 1;
    }
    s.note(|| format!("texts {:?} parsed in the order {:?}", texts, order));
    s.flush_notes();
    for &i in &order {
        let r = guard(|| Parser::parse(&texts[i])).map_err(|m| format!("the parser panicked: {}", m))?;
        let r = format!("{:?}", r);
        match &first[i] {
            None => first[i] = Some(r),
            Some(f) => ensure!(*f == r, "the outcome for text {} changed after other texts were parsed:\n{}\n{}", i, f, r),
        }
    }
    Ok(())
}

/// Different texts parsed on several threads at once: each outcome is that of parsing it alone.
fn threads(s: &mut Src) -> Check {
    let k = 2 + s.idx(5);
    let texts: Vec<String> = (0..k)
        .map(|_| match s.below(6) {
            0 => corrupted(s),
            1 => soup(s),
            2 => {
                let d = *s.pick(&[1usize, 10, 60, 120, 200]);
                format!("WorldBegin {} {} WorldEnd", "AttributeBegin ".repeat(d), "AttributeEnd ".repeat(d))
            }
            _ => scene_text(s),
        })
        .collect();
    let reps = 3 + s.idx(20);
    s.label("threads");
    s.nontrivial(true);
    s.ident(texts.concat().as_bytes());
    s.note(|| format!("{} times at once on {} threads: {:?}", reps, k, texts));
    s.flush_notes();
    let run = |t: &str| guard(|| Parser::parse(t)).map_err(|m| format!("the parser panicked: {}", m)).map(|r| format!("{:?}", r));
    let alone: Vec<String> = texts.iter().map(|t| run(t)).collect::<Result<_, String>>()?;
    let go = std::sync::Barrier::new(k);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..k)
            .map(|i| {
                let (t, want, go) = (&texts[i], &alone[i], &go);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || -> Check {
                        go.wait();
                        for _ in 0..reps {
                            let got = run(t)?;
                            ensure!(got == *want, "parsed while other threads parse other texts, the outcome differs:\n{}\n{}", want, got);
                        }
                        Ok(())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect::<Result<Vec<()>, String>>().map(|_| ())
    })
}

/// The outcome for a text does not depend on what was parsed before.
fn history(s: &mut Src) -> Check {
    s.costly();
    if s.chance(1, 3) {
        return threads(s);
    }
    if s.chance(1, 2) {
        return siblings(s);
    }
    let text = if s.chance(1, 2) { scene_text(s) } else { nested(s) };
    let k = 1 + s.idx(3);
    let others: Vec<String> = (0..k)
        .map(|_| match s.below(4) {
            0 => corrupted(s),
            1 => soup(s),
            2 => scene_text(s),
            // stops inside nested blocks
            _ => "WorldBegin AttributeBegin ".to_owned() + s.pick(&["", "TransformBegin ", "TransformBegin AttributeBegin AttributeEnd Shape \"s\" "]) + s.pick(&["", "]", "Foo", "WorldEnd", "\"", "!"]),
        })
        .collect();
    let reps = *s.pick(&[1usize, 2, 5, 30, 130, 260]);
    s.label("history");
    s.ident(text.as_bytes());
    s.ident(others.concat().as_bytes());
    s.nontrivial(true);
    s.note(|| format!("text {:?}, before and after {} times {:?}", text.chars().take(400).collect::<String>(), reps, others));
    s.flush_notes();
    let run = |t: &str| guard(|| Parser::parse(t)).map_err(|m| format!("the parser panicked: {}", m)).map(|r| format!("{:?}", r));
    let a = run(&text)?;
    for i in 0..reps {
        let t = &others[i % k];
        if t.len() < 3000 || i < 3 {
            run(t)?;
        }
    }
    let b = run(&text)?;
    ensure!(a == b, "the outcome changed after other texts were parsed:\n{}\n{}", a.chars().take(2000).collect::<String>(), b.chars().take(2000).collect::<String>());
    Ok(())
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 150) {
        return history(s);
    }
    let (label, text) = match s.weighted(&[160, 120, 100, 20, 2, 1]) {
        0 => ("token soup", soup(s)),
        1 => ("corrupted scene", corrupted(s)),
        2 => ("random characters", unicode(s)),
        3 => ("well-formed scene", scene_text(s)),
        4 => ("long run", long_run(s)),
        _ => ("deep nesting", nested(s)),
    };
    if label == "long run" || label == "deep nesting" {
        s.costly();
    }
    s.label(label);
    s.ident(text.as_bytes());
    s.nontrivial(text.chars().count() >= 8);
    s.note(|| {
        if text.len() > 800 {
            format!("{} text of {} bytes: {:?} ... {:?}", label, text.len(), text.chars().take(120).collect::<String>(), text.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>())
        } else {
            format!("{} text {:?}", label, text)
        }
    });
    s.flush_notes();
    let a = guard(|| Parser::parse(&text));
    let a = match a {
        Ok(r) => r,
        Err(m) => return Err(format!("the parser panicked: {}", m)),
    };
    s.label(if a.is_ok() { "accepted" } else { "rejected" });
    if let Err(e) = &a {
        let x = guard(|| e.to_string()).map_err(|m| format!("printing the error panicked: {}", m))?;
        let y = guard(|| e.to_string()).map_err(|m| format!("printing the error panicked: {}", m))?;
        ensure!(x == y, "the error prints differently the second time:\n{}\n{}", x, y);
    }
    // The result is dropped here too: dropping a deep tree must not overflow either.
    if text.len() < 4000 {
        let b = guard(|| Parser::parse(&text)).map_err(|m| format!("the second parse panicked: {}", m))?;
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        ensure!(x == y, "two parses of the same text differ:\n{}\n{}", x, y);
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C01",
        rule: "texts from six generators (also parsed again after up to 260 other parses, and on several threads at once; token soup, corrupted scenes, random Unicode, well-formed scenes, long runs of one construct up to 800 kB, nesting up to 100000 levels); non-trivial: at least 8 characters",
        case,
        cases: (300_000, 2_000_000),
        stack_mb: 8,
    });
}
