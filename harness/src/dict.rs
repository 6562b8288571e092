//! A fuzzing dictionary: literals of the code under test, used as string contents,
//! characters, numbers and lengths. It steers generation only; no verdict depends on it.
//!
//! Two parts: the literals of the tree the harness was written for (`baseline.dict`), and
//! those that have come to it since, which check.py lists in the file named by VERIF_DICT.
use crate::engine::Src;
use std::sync::OnceLock;

#[derive(Default)]
struct Part {
    strs: Vec<String>,
    chars: Vec<char>,
    ints: Vec<i64>,
    reals: Vec<f64>,
}

fn unhex(h: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}

fn load(text: &str) -> Part {
    let mut p = Part::default();
    for line in text.lines() {
        let item = line.rsplit(' ').next().unwrap_or("");
        if let Some(x) = item.strip_prefix("s:").and_then(unhex) {
            for c in x.chars() {
                if (x.chars().count() <= 3 || !c.is_ascii()) && !p.chars.contains(&c) {
                    p.chars.push(c);
                }
            }
            p.strs.push(x);
        } else if let Some(x) = item.strip_prefix("i:").and_then(|x| x.parse::<i64>().ok()) {
            p.ints.push(x);
            p.reals.push(x as f64);
        } else if let Some(x) = item.strip_prefix("f:").and_then(|x| x.parse::<f64>().ok()) {
            p.reals.push(x);
            if x.fract() == 0.0 && x.abs() < 1e15 {
                p.ints.push(x as i64);
            }
        }
    }
    p
}

static BASE: OnceLock<Part> = OnceLock::new();
static FRESH: OnceLock<Part> = OnceLock::new();

fn base() -> &'static Part {
    BASE.get_or_init(|| load(include_str!("../baseline.dict")))
}
fn fresh() -> &'static Part {
    FRESH.get_or_init(|| load(&std::env::var("VERIF_DICT").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default()))
}

/// Draws an entry, if this is to be a draw from the dictionary at all.
fn draw<T: Clone>(s: &mut Src, f: fn(&Part) -> &Vec<T>) -> Option<T> {
    let (new, old) = (f(fresh()), f(base()));
    if new.is_empty() {
        if old.is_empty() || !s.chance(1, 40) {
            return None;
        }
        return Some(s.pick(old).clone());
    }
    if !s.chance(1, 12) {
        return None;
    }
    Some(if s.chance(3, 4) || old.is_empty() { s.pick(new).clone() } else { s.pick(old).clone() })
}

pub fn string(s: &mut Src) -> Option<String> {
    draw(s, |p| &p.strs)
}

pub fn char(s: &mut Src) -> Option<char> {
    draw(s, |p| &p.chars)
}

/// A number of the code, one beside it, its negative, or a power of two it names.
pub fn int(s: &mut Src) -> Option<i64> {
    let v = draw(s, |p| &p.ints)?;
    let v = match s.weighted(&[6, 1, 1]) {
        0 => v,
        1 if (0..62).contains(&v) => 1 << v,
        2 if (0..19).contains(&v) => 10i64.pow(v as u32),
        _ => v.saturating_mul(2),
    };
    let v = v.saturating_add(s.int(-2, 2));
    Some(if s.chance(1, 3) { v.saturating_neg() } else { v })
}

/// A number of the code, something close to it, or something simple made of it.
pub fn real(s: &mut Src) -> Option<f64> {
    let v = draw(s, |p| &p.reals)?;
    let v = match s.weighted(&[5, 2, 1, 1, 1, 1]) {
        0 => v,
        1 => v * (1.0 + s.int(-64, 64) as f64 / 65536.0),
        2 => v.abs().sqrt(),
        3 => 1.0 / v,
        4 => v * v,
        _ => v * (1.0 + s.int(-8, 8) as f64 / 8.0),
    };
    let v = if s.chance(1, 4) { v + s.int(-2, 2) as f64 } else { v };
    let v = if s.chance(1, 3) { -v } else { v };
    Some(if v.is_finite() { v } else { 1.0 })
}

/// A length of at most `max`: a number of the code, or a little more or less. A case has
/// at most one great length, and none once it is large, so that lengths do not multiply.
pub fn len(s: &mut Src, max: usize) -> Option<usize> {
    let v = int(s)?.unsigned_abs() as usize;
    if v > max || (v > 8 && (s.long > 0 || s.drawn() > 3000)) {
        return None;
    }
    s.long += (v > 8) as u32;
    Some(v)
}
