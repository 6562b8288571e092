//! C20: iterating a 2D integer region visits every cell exactly once.
use harness::dict;
use harness::engine::*;
use harness::ensure;
use pbrtrs::verif::boundingbox::Bounds2;
use pbrtrs::verif::point::Point2;

/// A region too large to run through: its first points.
fn beginning(s: &mut Src, x0: i64, y0: i64) -> Check {
    let x0 = x0.clamp(-(1 << 41), 1 << 41);
    let y0 = y0.clamp(-(1 << 41), 1 << 41);
    let wide = s.chance(1, 2);
    let (w, h) = (if wide { 1i64 << s.int(17, 61) } else { s.int(1, 40) }, 1i64 << s.int(17, 61));
    s.ident(&[x0, y0, w, h].iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>());
    s.nontrivial(true);
    s.label("beginning of a huge region");
    s.note(|| format!("first points of region ({}, {}), {} wide, {} high", x0, y0, w, h));
    let it = Bounds2 { p_min: Point2::new(x0, y0), p_max: Point2::new(x0 + w, y0 + h) }.into_iter();
    let mut n = 0;
    for p in it.take(300) {
        let (x, y) = (x0 + n % w, y0 + n / w);
        ensure!(p.x == x && p.y == y, "({}, {}) + {} x {}: ({}, {}) in the place of ({}, {})", x0, y0, w, h, p.x, p.y, x, y);
        n += 1;
    }
    ensure!(n == 300, "({}, {}) + {} x {}: ended after {} points", x0, y0, w, h, n);
    Ok(())
}

/// One or two iterators over small regions, used in every way an iterator can be, in turns.
fn used(s: &mut Src) -> Check {
    let n = 1 + s.idx(2);
    let mut all = Vec::new();
    let mut note = String::new();
    for _ in 0..n {
        let (x0, y0, w, h) = (s.int(-9, 9), s.int(-9, 9), s.int(-1, 9), s.int(-1, 9));
        note += &format!("({}, {}) + {} x {}; ", x0, y0, w, h);
        let it = Bounds2 { p_min: Point2::new(x0, y0), p_max: Point2::new(x0 + w, y0 + h) }.into_iter();
        let cells: Vec<(i64, i64)> = (0..h.max(0)).flat_map(|j| (0..w.max(0)).map(move |i| (x0 + i, y0 + j))).collect();
        all.push((it, cells, 0usize));
    }
    s.nontrivial(all.iter().any(|a| a.1.len() >= 2));
    s.label("iterators used in every way");
    let mut steps = 0;
    let mut end = 0;
    while s.more(steps, 6, 30) {
        steps += 1;
        let at = s.idx(n);
        let (it, cells, pos) = &mut all[at];
        let k = s.idx(12);
        let way = s.idx(6);
        note += &format!("#{}: {} {}; ", at, ["next", "nth", "size_hint", "take", "find", "position"][way], k);
        let rest = &cells[(*pos).min(cells.len())..];
        let (got, want): (Vec<(i64, i64)>, Vec<(i64, i64)>) = match way {
            0 => {
                *pos += 1;
                (it.next().map(|p| (p.x, p.y)).into_iter().collect(), rest.iter().take(1).cloned().collect())
            }
            1 => {
                *pos += k + 1;
                (it.nth(k).map(|p| (p.x, p.y)).into_iter().collect(), rest.iter().skip(k).take(1).cloned().collect())
            }
            2 => {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= rest.len() && hi.is_none_or(|h| h >= rest.len()), "{}size_hint ({}, {:?}) with {} left", note, lo, hi, rest.len());
                (vec![], vec![])
            }
            3 => {
                *pos += k;
                (it.by_ref().take(k).map(|p| (p.x, p.y)).collect(), rest.iter().take(k).cloned().collect())
            }
            4 => {
                let f = |p: &(i64, i64)| (p.0 + p.1).rem_euclid(12) as usize == k;
                let want = rest.iter().position(f);
                *pos += want.map_or(rest.len(), |i| i + 1);
                (it.find(|p| f(&(p.x, p.y))).map(|p| (p.x, p.y)).into_iter().collect(), want.map(|i| rest[i]).into_iter().collect())
            }
            _ => {
                let f = |p: &(i64, i64)| (p.0 - p.1).rem_euclid(12) as usize == k;
                let want = rest.iter().position(f);
                *pos += want.map_or(rest.len(), |i| i + 1);
                let got = it.position(|p| f(&(p.x, p.y)));
                ensure!(got == want, "{}position {:?} instead of {:?}", note, got, want);
                (vec![], vec![])
            }
        };
        ensure!(got == want, "{}gives {:?} instead of {:?}", note, got, want);
    }
    for (it, cells, pos) in all {
        let rest = &cells[pos.min(cells.len())..];
        end = (end + s.idx(7)) % 7;
        let k = 1 + s.idx(5);
        note += &format!("then {} {}; ", ["collect", "count", "last", "fold", "step_by", "skip", "for_each"][end], k);
        let mut seen = Vec::new();
        let want: Vec<(i64, i64)> = match end {
            0 => {
                seen.extend(it.take(999).collect::<Vec<_>>().into_iter().map(|p| (p.x, p.y)));
                rest.to_vec()
            }
            1 => {
                let c = it.count();
                ensure!(c == rest.len(), "{}counts {} instead of {}", note, c, rest.len());
                vec![]
            }
            2 => {
                seen.extend(it.last().map(|p| (p.x, p.y)));
                rest.last().cloned().into_iter().collect()
            }
            3 => {
                seen = guard(|| it.fold(seen, |mut v, p| {
                    assert!(v.len() < 999, "fold does not end");
                    v.push((p.x, p.y));
                    v
                })).map_err(|e| format!("{}{}", note, e))?;
                rest.to_vec()
            }
            4 => {
                seen.extend(it.step_by(k).take(999).map(|p| (p.x, p.y)));
                rest.iter().step_by(k).cloned().collect()
            }
            5 => {
                seen.extend(it.skip(k).take(999).map(|p| (p.x, p.y)));
                rest.iter().skip(k).cloned().collect()
            }
            _ => {
                guard(|| it.for_each(|p| {
                    assert!(seen.len() < 999, "for_each does not end");
                    seen.push((p.x, p.y))
                })).map_err(|e| format!("{}{}", note, e))?;
                rest.to_vec()
            }
        };
        ensure!(seen == want, "{}gives {:?} instead of {:?}", note, seen, want);
    }
    s.ident(note.as_bytes());
    s.note(|| note);
    Ok(())
}

fn case(s: &mut Src) -> Check {
    if s.chance(1, 6) {
        return used(s);
    }
    let base = |s: &mut Src| if let Some(v) = dict::int(s) { v } else { match s.weighted(&[5, 3, 1, 1]) {
        0 => s.int(-5, 5),
        1 => s.int(-1000, 1000),
        2 => s.int(-(1 << 40), 1 << 40),
        _ => *s.pick(&[i64::MIN, i64::MIN + 3, i64::MAX - 70, i64::MAX - 2000]),
    } };
    let (x0, y0) = (base(s), base(s));
    if s.chance(1, 50) {
        return beginning(s, x0, y0);
    }
    let (w, h) = match s.weighted(&[600, 200, 200, 200, 100, 1]) {
        0 => (s.int(-2, 7), s.int(-2, 7)),
        1 => (s.int(0, 60), s.int(0, 60)),
        2 => (s.int(0, 1500), s.int(0, 2)),
        3 => (s.int(0, 2), s.int(0, 1500)),
        4 => (s.int(-1_000_000, 5), s.int(-5, 40)),
        _ => if s.chance(1, 2) { (70_000, s.int(1, 2)) } else { (s.int(1, 2), 70_000) },
    };
    let (w, h) = match dict::len(s, 70_000) {
        Some(n) if s.chance(1, 2) => (n as i64, h.min(if n > 2000 { 2 } else { 60 })),
        Some(n) => (w.min(if n > 2000 { 2 } else { 60 }), n as i64),
        None => (w, h),
    };
    let (x1, y1) = (x0.saturating_add(w), y0.saturating_add(h));
    s.ident(&[x0, y0, x1, y1].iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>());
    let cells = if x1 > x0 && y1 > y0 { (x1 - x0) * (y1 - y0) } else { 0 };
    s.nontrivial(cells >= 2);
    s.label(if cells == 0 { "no cells" } else if x1 - x0 == 1 { "one column" } else if y1 - y0 == 1 { "one row" } else { "several rows and columns" });
    s.note(|| format!("region ({}, {}) .. ({}, {}), {} cells", x0, y0, x1, y1, cells));
    let mut it = Bounds2 { p_min: Point2::new(x0, y0), p_max: Point2::new(x1, y1) }.into_iter();
    if cells > 0 {
        for y in y0..y1 {
            for x in x0..x1 {
                match it.next() {
                    None => return Err(format!("({}, {})..({}, {}): ended before ({}, {})", x0, y0, x1, y1, x, y)),
                    Some(p) => ensure!(p.x == x && p.y == y, "({}, {})..({}, {}): ({}, {}) in the place of ({}, {})", x0, y0, x1, y1, p.x, p.y, x, y),
                }
            }
        }
    }
    for _ in 0..3 {
        if let Some(p) = it.next() {
            return Err(format!("({}, {})..({}, {}): ({}, {}) after the last cell", x0, y0, x1, y1, p.x, p.y));
        }
    }
    // and through the adaptors a user would write
    if cells <= 4000 {
        let n = Bounds2 { p_min: Point2::new(x0, y0), p_max: Point2::new(x1, y1) }.into_iter().take(5000).count();
        ensure!(n as i64 == cells, "({}, {})..({}, {}): {} points", x0, y0, x1, y1, n);
    }
    Ok(())
}

fn main() {
    harness::engine::main(Prop {
        id: "C20",
        rule: "regions of any sign, offset and shape (up to 140000 cells), the beginnings of huge ones, inverted ones and ones at the ends of the number range, against a double loop; one or two iterators advanced in turns by next, nth, take, find, position, with size_hint, then finished by collect, count, last, fold, step_by, skip or for_each, against a list; non-trivial: at least two cells",
        case,
        cases: (4_000_000, 30_000_000),
        stack_mb: 16,
    });
}
