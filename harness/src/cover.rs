//! Edge counters of the code under test (see rustc.sh) and the corpus grown from them.
//! They steer generation only; no verdict depends on them.
use crate::engine::Rng;
use std::rc::Rc;
use std::sync::Mutex;

struct Region(usize, usize);
static REGIONS: Mutex<Vec<Region>> = Mutex::new(Vec::new());

/// Called by each instrumented module before main.
///
/// # Safety
/// `start..stop` is the module's counter array, which lives as long as the process.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start < stop {
        let mut r = REGIONS.lock().unwrap();
        if !r.iter().any(|x| x.0 == start as usize) {
            r.push(Region(start as usize, stop as usize));
        }
    }
}

/// A feature is an edge together with a class of counts; for each one, how often it was
/// seen and the shortest tape that has it.
#[derive(Clone, Default)]
struct Feature {
    hits: u32,
    picks: u32,
    case: Option<Rc<Case>>,
}

/// A tape, and where elements of lists begin in it.
#[derive(Clone, Default)]
struct Case {
    tape: Vec<u64>,
    marks: Vec<u32>,
}

pub struct Corpus {
    features: Vec<Feature>,
    found: Vec<usize>,
}

const MAX_TAPE: usize = 3000;
const MAX_SIZE: usize = 4000;
const CLASSES: usize = 2;

fn class(n: u8) -> usize {
    (n > 1) as usize
}

fn each(mut f: impl FnMut(&mut [u8])) {
    for r in REGIONS.lock().unwrap().iter() {
        // SAFETY: see __sanitizer_cov_8bit_counters_init; the cases are over, nothing counts now.
        f(unsafe { std::slice::from_raw_parts_mut(r.0 as *mut u8, r.1 - r.0) });
    }
}

impl Case {
    /// From the beginning of an element to that of a later one (`n` marks, not none).
    fn span(&self, r: &mut Rng, n: usize) -> (usize, usize) {
        let a = (r.next() % n as u64) as usize;
        let b = a + 1 + (r.next() % (1 << (r.next() % 6))) as usize;
        (self.marks[a] as usize, self.marks.get(b).map_or(self.tape.len(), |x| *x as usize))
    }
}

impl Corpus {
    pub fn new() -> Corpus {
        let mut n = 0;
        each(|c| n += c.len());
        Corpus { features: vec![Feature::default(); n * CLASSES], found: vec![] }
    }
    /// Features seen so far.
    pub fn len(&self) -> usize {
        self.found.len()
    }
    pub fn is_empty(&self) -> bool {
        self.found.is_empty()
    }
    /// Call before a case.
    pub fn start() {
        each(|c| c.fill(0));
    }
    /// Call after it: keeps its tape where it is the first or the shortest.
    pub fn keep(&mut self, size: usize, tape: &[u64], marks: &[u32]) {
        if tape.is_empty() || tape.len() > MAX_TAPE || size > MAX_SIZE {
            return;
        }
        let mut base = 0;
        let mut kept: Option<Rc<Case>> = None;
        let (features, found) = (&mut self.features, &mut self.found);
        each(|c| {
            for (i, words) in c.chunks(8).enumerate() {
                if words.iter().all(|x| *x == 0) {
                    continue;
                }
                for (j, n) in words.iter().enumerate().filter(|x| *x.1 != 0) {
                    let at = (base + 8 * i + j) * CLASSES + class(*n);
                    let f = &mut features[at];
                    f.hits = f.hits.saturating_add(1);
                    if f.case.as_ref().is_none_or(|c| tape.len() < c.tape.len()) {
                        if f.case.is_none() {
                            found.push(at);
                        }
                        f.case = Some(kept.get_or_insert_with(|| Rc::new(Case { tape: tape.to_vec(), marks: marks.to_vec() })).clone());
                    }
                }
            }
            base += c.len();
        });
    }
    /// A kept case: rather one with a feature that is rare, and was not often tried before.
    fn choose(&mut self, r: &mut Rng) -> Rc<Case> {
        let n = self.found.len() as u64;
        let best = (0..6)
            .map(|_| self.found[(r.next() % n) as usize])
            .min_by_key(|f| self.features[*f].hits as u64 + 8 * self.features[*f].picks as u64)
            .unwrap();
        self.features[best].picks += 1;
        self.features[best].case.clone().unwrap()
    }
    /// A tape close to one that was kept.
    pub fn mutant(&mut self, r: &mut Rng) -> Vec<u64> {
        let c = self.choose(r);
        let mut t = c.tape.clone();
        let whole = r.next() % 2 == 0;
        if whole && !c.marks.is_empty() {
            // whole elements of lists: leave out, repeat, or take from another case
            let from = if r.next() % 2 == 0 { c.clone() } else { self.choose(r) };
            let here = c.span(r, c.marks.len());
            match (r.next() % 3, from.marks.is_empty()) {
                (0, _) | (_, true) => {
                    t.drain(here.0..here.1);
                }
                (k, _) => {
                    let there = from.span(r, from.marks.len());
                    let to = if k == 1 { here.0 } else { here.1 };
                    t.splice(here.0..to, from.tape[there.0..there.1].iter().copied());
                }
            }
        }
        let times = r.next() % 4 + !whole as u64;
        for _ in 0..times {
            if t.is_empty() {
                return t;
            }
            let n = t.len() as u64;
            let i = (r.next() % n) as usize;
            let span = 1 + (r.next() % 12.min(n)) as usize;
            let end = (i + span).min(t.len());
            match r.next() % 12 {
                0 | 1 => t[i] = r.next(),
                2 => t[i] = t[i].wrapping_add(1),
                3 => t[i] = t[i].wrapping_sub(1),
                4 => t[i] = 0,
                // the same choice as elsewhere
                5 | 6 => t[i] = t[(r.next() % n) as usize],
                7 => {
                    t.drain(i..end);
                }
                8 => {
                    let part = t[i..end].to_vec();
                    let at = (r.next() % n) as usize;
                    t.splice(at..at, part);
                }
                9 => {
                    let part: Vec<u64> = (0..span).map(|_| r.next()).collect();
                    t.splice(i..i, part);
                }
                // from here on like another kept case, or anew
                10 => {
                    let o = self.choose(r);
                    let o = &o.tape;
                    let at = (r.next() % o.len() as u64) as usize;
                    t.truncate(i);
                    t.extend_from_slice(&o[at..]);
                }
                _ => t.truncate(i),
            }
        }
        t.truncate(MAX_TAPE);
        t
    }
}

impl Default for Corpus {
    fn default() -> Self {
        Corpus::new()
    }
}
