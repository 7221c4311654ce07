//! Generated-input engine: choice sequences, parallel search, shrinking, replay files, evidence.
//!
//! A test case is a pure function of a sequence of bounded choices. The sequence comes from a
//! PRNG seeded by (VERIF_SEED, property, index) or from a recorded list, so every case can be
//! replayed and shrunk independently of the generator code that consumes it.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// source of choices
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// when set, every choice is also written here at once (to survive a crash)
    pub sink: Option<std::fs::File>,
    /// numbers, texts and points made earlier in this case, to meet again
    pub nums: Vec<f64>,
    pub texts: Vec<String>,
    pub points: Vec<(f64, f64)>,
    pub ints: Vec<i64>,
    pub coords: Vec<i64>,
    /// where in the numbers or coordinates a repeated run stands, and how much of it is left
    pub run: (usize, u32),
    pub crun: (usize, u32),
    /// inside a list of a set length
    pub depth: u32,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { state: seed, replay: None, pos: 0, rec: vec![], sink: None, nums: vec![], texts: vec![], points: vec![], ints: vec![], coords: vec![], run: (0, 0), crun: (0, 0), depth: 0 }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { replay: Some(v), ..Src::seeded(0) }
    }
    /// a choice in 0..n, 0 being the simplest
    pub fn choice(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.replay {
            None => splitmix(&mut self.state) % n,
            Some(ref r) => {
                let v = r.get(self.pos).cloned().unwrap_or(0);
                if v >= n { n - 1 } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.sink {
            let _ = f.write_all(format!("{} ", v).as_bytes());
        }
        v
    }
    /// true with probability about num/den, false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // the highest values mean true, so that zeroing means false
        self.choice(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.choice(2) == 1
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choice((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.choice(v.len() as u64) as usize;
        &v[i]
    }
    /// list with a geometric number of elements, every element preceded by a continue flag
    pub fn list<T, F: FnMut(&mut Src) -> T>(&mut self, max: usize, cont: u64, f: F) -> Vec<T> {
        self.list_min(0, max, cont, f)
    }
    pub fn list_min<T, F: FnMut(&mut Src) -> T>(&mut self, min: usize, max: usize, cont: u64, mut f: F) -> Vec<T> {
        // now and then a long one
        let (max, cont) = if max >= 4 && self.chance(1, 100) { (max.max(20) * 4, cont.max(5) * 6) } else { (max, cont) };
        let mut v = vec![];
        // or one of a length near a number of the dictionary
        if max >= 4 && self.depth == 0 {
            if let Some(n) = crate::gen::dict_len(self) {
                self.depth += 1;
                while v.len() < n.max(min) {
                    v.push(f(self))
                }
                self.depth -= 1;
                return v;
            }
        }
        while v.len() < max {
            if v.len() >= min && self.choice(cont + 1) == 0 {
                break;
            }
            v.push(f(self));
        }
        v
    }
    pub fn opt<T, F: FnMut(&mut Src) -> T>(&mut self, num: u64, den: u64, mut f: F) -> Option<T> {
        if self.chance(num, den) { Some(f(self)) } else { None }
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        // identity when all choices are 0
        let n = v.len();
        for i in 0..n {
            let j = i + self.choice((n - i) as u64) as usize;
            v.swap(i, j);
        }
    }
}

/// why a case fails
#[derive(Clone, Debug)]
pub struct Fail {
    /// stable signature, used for known findings
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

/// per-case recorder
#[derive(Default)]
pub struct Cx {
    pub key: u64,
    pub keyed: bool,
    pub nontrivial: bool,
    pub text: String,
    pub want_text: bool,
    pub evals: u64,
    pub tags: Vec<&'static str>,
    pub scratch: PathBuf,
    pub worker: usize,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf2_9ce4_8422_2325 } else { h };
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Cx {
    /// declare (part of) the concrete input of the case
    pub fn case(&mut self, text: &str) {
        self.key = fnv(self.key, text.as_bytes());
        self.keyed = true;
        if self.want_text {
            if !self.text.is_empty() {
                self.text.push_str("\n---\n");
            }
            self.text.push_str(text);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t);
    }
}

pub type CheckFn = fn(&mut Src, &mut Cx) -> Result<(), Fail>;

pub struct Check {
    pub id: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static str,
    /// crashes and hangs are violations here
    pub total: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// run a closure, panic becomes an error
pub fn no_panic<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("{}: {}", what, m))
        }
    }
}

pub fn run_case(f: CheckFn, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| f(src, cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", m)
        }
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut s = fnv(0, id.as_bytes()) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let a = splitmix(&mut s);
    let mut s2 = a ^ idx.wrapping_mul(0xA076_1D64_78BD_642F);
    splitmix(&mut s2)
}

/// shrink a failing choice sequence
pub fn shrink(f: CheckFn, start: Vec<u64>, scratch: &Path, worker: usize, known: &dyn Fn(&str) -> bool) -> (Vec<u64>, Fail) {
    let deadline = Instant::now() + Duration::from_secs(30);
    let try_it = |v: &[u64]| -> Option<(Vec<u64>, Fail)> {
        let mut src = Src::replay(v.to_vec());
        let mut cx = Cx { scratch: scratch.into(), worker, ..Default::default() };
        match run_case(f, &mut src, &mut cx) {
            Ok(()) => None,
            Err(e) => {
                if known(&e.sig) {
                    return None;
                }
                let mut r = src.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some((r, e))
            }
        }
    };
    shrink_with(start, deadline, &try_it)
}

fn better(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a.iter().map(|x| *x as u128).sum::<u128>()) < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>())
}

pub fn shrink_with(start: Vec<u64>, deadline: Instant, try_it: &dyn Fn(&[u64]) -> Option<(Vec<u64>, Fail)>) -> (Vec<u64>, Fail) {
    let (mut best, mut why) = match try_it(&start) {
        Some((r, e)) => (r, e),
        None => return (start, Fail { sig: "flaky".into(), msg: "failure did not reproduce".into() }),
    };
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let end = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                let mut done = false;
                if let Some((r, e)) = try_it(&c) {
                    if better(&r, &best) {
                        best = r;
                        why = e;
                        improved = true;
                        done = true;
                    }
                }
                if !done {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, minimise values
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    if let Some((r, e)) = try_it(&c) {
                        if better(&r, &best) {
                            best = r;
                            why = e;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            let mut lo = 0;
            let mut hi = best[i];
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_it(&c) {
                    Some((r, e)) if better(&r, &best) => {
                        best = r;
                        why = e;
                        improved = true;
                        if i >= best.len() {
                            break;
                        }
                        hi = best[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
    }
    (best, why)
}

pub fn render_case(f: CheckFn, v: &[u64], scratch: &Path) -> (Cx, Result<(), Fail>) {
    let mut src = Src::replay(v.to_vec());
    let mut cx = Cx { want_text: true, scratch: scratch.into(), ..Default::default() };
    let r = run_case(f, &mut src, &mut cx);
    (cx, r)
}

/// what the child reports
#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct_nontrivial: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub tags: BTreeMap<String, u64>,
    pub failure: Option<(Vec<u64>, Fail)>,
    pub known_hits: BTreeMap<String, u64>,
}

pub struct RunArgs {
    pub seed: u64,
    pub cases: u64,
    pub scratch: PathBuf,
    pub workers: usize,
    pub known: Vec<String>,
    pub case_limit: Duration,
}

/// run the whole search in this process (called in the child)
pub fn search(c: &Check, a: &RunArgs) -> Report {
    let stop = Arc::new(AtomicBool::new(false));
    let min_fail = Arc::new(AtomicU64::new(u64::MAX));
    let out: Arc<Mutex<Vec<(u64, Vec<u64>, Fail)>>> = Arc::new(Mutex::new(vec![]));
    let merged: Arc<Mutex<Report>> = Arc::new(Mutex::new(Report::default()));
    let sets: Arc<Mutex<(HashSet<u64>, HashSet<u64>)>> = Arc::new(Mutex::new(Default::default()));
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..a.workers).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let t0 = Instant::now();
    let slot_file = a.scratch.join("slots");
    let sf = std::fs::OpenOptions::new().create(true).write(true).open(&slot_file).unwrap();
    let sf = Arc::new(sf);
    let alive = Arc::new(AtomicBool::new(true));
    // watchdog
    let wd = {
        let slots = slots.clone();
        let alive = alive.clone();
        let limit = a.case_limit.as_millis() as u64;
        let scratch = a.scratch.clone();
        std::thread::spawn(move || {
            while alive.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for s in slots.iter() {
                    let idx = s.0.load(Ordering::SeqCst);
                    let st = s.1.load(Ordering::SeqCst);
                    if idx != u64::MAX && now > st && now - st > limit && s.0.load(Ordering::SeqCst) == idx {
                        let _ = std::fs::write(scratch.join("hang"), format!("{}", idx));
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        })
    };
    let mut hs = vec![];
    for w in 0..a.workers {
        let (f, id) = (c.f, c.id);
        let stop = stop.clone();
        let min_fail = min_fail.clone();
        let out = out.clone();
        let merged = merged.clone();
        let sets = sets.clone();
        let slots = slots.clone();
        let sf = sf.clone();
        let known = a.known.clone();
        let (seed, cases, workers) = (a.seed, a.cases, a.workers);
        let scratch = a.scratch.join(format!("w{}", w));
        std::fs::create_dir_all(&scratch).unwrap();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let mut evals = 0;
                    let mut tags: BTreeMap<String, u64> = BTreeMap::new();
                    let mut nt: HashSet<u64> = HashSet::new();
                    let mut all: HashSet<u64> = HashSet::new();
                    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
                    let mut i = w as u64;
                    while i < cases {
                        // keep going below the first failing index so that the result is deterministic
                        if stop.load(Ordering::Relaxed) && i > min_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        slots[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slots[w].0.store(i, Ordering::SeqCst);
                        let _ = sf.write_at(&i.to_le_bytes(), 8 * w as u64);
                        let mut src = Src::seeded(case_seed(seed, id, i));
                        let mut cx = Cx { scratch: scratch.clone(), worker: w, ..Default::default() };
                        let r = run_case(f, &mut src, &mut cx);
                        slots[w].0.store(u64::MAX, Ordering::SeqCst);
                        evals += 1 + cx.evals;
                        let key = if cx.keyed { cx.key } else { src.rec.iter().fold(0, |h, x| fnv(h, &x.to_le_bytes())) };
                        all.insert(key);
                        if cx.nontrivial {
                            nt.insert(key);
                        }
                        for t in cx.tags {
                            *tags.entry(t.to_string()).or_insert(0) += 1;
                        }
                        if let Err(e) = r {
                            if known.contains(&e.sig) {
                                *known_hits.entry(e.sig).or_insert(0) += 1;
                            } else {
                                out.lock().unwrap().push((i, src.rec, e));
                                min_fail.fetch_min(i, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        i += workers as u64;
                    }
                    let _ = sf.write_at(&u64::MAX.to_le_bytes(), 8 * w as u64);
                    let mut m = merged.lock().unwrap();
                    m.evals += evals;
                    for (k, v) in tags {
                        *m.tags.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in known_hits {
                        *m.known_hits.entry(k).or_insert(0) += v;
                    }
                    let mut s = sets.lock().unwrap();
                    s.0.extend(nt);
                    s.1.extend(all);
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    alive.store(false, Ordering::SeqCst);
    let _ = wd.join();
    let mut rep = std::mem::take(&mut *merged.lock().unwrap());
    {
        let s = sets.lock().unwrap();
        rep.distinct_nontrivial = s.0.len() as u64;
        rep.distinct = s.1.len() as u64;
    }
    let mut fails = std::mem::take(&mut *out.lock().unwrap());
    fails.sort_by_key(|x| x.0);
    let (f, scratch) = (c.f, a.scratch.join("w0"));
    if let Some((_, rec, _)) = fails.into_iter().next() {
        let known = a.known.clone();
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let k = move |s: &str| known.iter().any(|x| x == s);
            shrink(f, rec, &scratch, 0, &k)
        });
        rep.failure = Some(h.unwrap().join().unwrap());
    } else {
        // samples: a few non-trivial cases, evenly spread
        let (seed, cases, id) = (a.seed, a.cases, c.id);
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let mut v = vec![];
            let mut i = 0;
            while v.len() < 3 && i < cases.min(200) {
                let mut src = Src::seeded(case_seed(seed, id, i));
                let mut cx = Cx { want_text: true, scratch: scratch.clone(), ..Default::default() };
                let _ = run_case(f, &mut src, &mut cx);
                if cx.nontrivial && cx.text.len() > 40 {
                    let mut t: String = cx.text.chars().take(700).collect();
                    if t.len() < cx.text.len() {
                        t.push_str(" …");
                    }
                    v.push(format!("case {}: {}", i, t));
                }
                i += 1;
            }
            v
        });
        rep.samples = h.unwrap().join().unwrap();
    }
    rep
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// child -> parent report, line based
pub fn write_report(p: &Path, r: &Report) {
    let mut s = String::new();
    let esc = |x: &str| x.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
    s.push_str(&format!("evals {}\nnt {}\ndistinct {}\n", r.evals, r.distinct_nontrivial, r.distinct));
    for (k, v) in &r.tags {
        s.push_str(&format!("tag {} {}\n", v, k));
    }
    for (k, v) in &r.known_hits {
        s.push_str(&format!("known {} {}\n", v, esc(k)));
    }
    for x in &r.samples {
        s.push_str(&format!("sample {}\n", esc(x)));
    }
    if let Some((ref v, ref f)) = r.failure {
        s.push_str(&format!("failsig {}\nfailmsg {}\n", esc(&f.sig), esc(&f.msg)));
        s.push_str(&format!("failrec {}\n", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    }
    s.push_str("end\n");
    let mut f = std::fs::File::create(p).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}

fn unesc(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn read_report(p: &Path) -> Option<Report> {
    let s = std::fs::read_to_string(p).ok()?;
    if !s.ends_with("end\n") {
        return None;
    }
    let mut r = Report::default();
    let mut fl = Fail { sig: String::new(), msg: String::new() };
    for l in s.split('\n') {
        let (k, v) = match l.find(' ') {
            Some(i) => (&l[..i], &l[i + 1..]),
            None => (l, ""),
        };
        match k {
            "evals" => r.evals = v.parse().ok()?,
            "nt" => r.distinct_nontrivial = v.parse().ok()?,
            "distinct" => r.distinct = v.parse().ok()?,
            "tag" => {
                let i = v.find(' ')?;
                r.tags.insert(v[i + 1..].into(), v[..i].parse().ok()?);
            }
            "known" => {
                let i = v.find(' ')?;
                r.known_hits.insert(unesc(&v[i + 1..]), v[..i].parse().ok()?);
            }
            "sample" => r.samples.push(unesc(v)),
            "failsig" => fl.sig = unesc(v),
            "failmsg" => fl.msg = unesc(v),
            "failrec" => {
                let rec = if v.is_empty() { vec![] } else { v.split(' ').map(|x| x.parse().unwrap()).collect() };
                r.failure = Some((rec, fl.clone()));
            }
            _ => (),
        }
    }
    Some(r)
}
