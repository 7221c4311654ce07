//! Fuzzing dictionary: the literals of the code under test.
//!
//! Generators mix these words and numbers into their inputs, so that a comparison with a
//! particular word or number can be met. Literals that are not in the list kept beside the
//! harness are picked more often: they are what changed. The dictionary only moves the search,
//! no check compares it with anything.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub words: Vec<String>,
    pub nums: Vec<f64>,
    pub new_words: Vec<String>,
    pub new_nums: Vec<f64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
pub const MARK: &str = "--- dictionary ---\n";
const KNOWN: &str = include_str!("../literals.txt");

#[derive(Default)]
struct Lits {
    words: BTreeMap<String, u32>,
    nums: BTreeMap<String, u32>,
}

impl Lits {
    fn word(&mut self, t: String) {
        *self.words.entry(t).or_insert(0) += 1
    }
}

fn ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// string, character and number literals of a Rust source text
fn scan(text: &str, out: &mut Lits) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).cloned().unwrap_or('\0');
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1
            }
            i += 2;
        } else if x == '"' {
            let (t, e) = string(&c, i + 1, '"');
            out.word(t);
            i = e;
        } else if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !ident(c[i - 1])) {
            let mut j = i + 1;
            let mut h = 0;
            while at(j) == '#' {
                h += 1;
                j += 1
            }
            if at(j) != '"' {
                i += 1;
                continue;
            }
            j += 1;
            let s = j;
            while j < c.len() && !(c[j] == '"' && (0..h).all(|k| at(j + 1 + k) == '#')) {
                j += 1
            }
            out.word(c[s..j.min(c.len())].iter().collect());
            i = j + 1 + h;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                let (t, e) = string(&c, i + 1, '\'');
                out.word(t);
                i = e;
            } else if at(i + 2) == '\'' {
                out.word(at(i + 1).to_string());
                i += 3;
            } else {
                i += 1
            }
        } else if x.is_ascii_digit() && (i == 0 || !ident(c[i - 1])) {
            let s = i;
            let hex = x == '0' && at(i + 1) == 'x';
            while i < c.len() {
                let ok = ident(c[i])
                    || (c[i] == '.' && at(i + 1).is_ascii_digit() && !c[s..i].contains(&'.'))
                    || (!hex && (c[i] == '-' || c[i] == '+') && (c[i - 1] == 'e' || c[i - 1] == 'E') && at(i + 1).is_ascii_digit());
                if !ok {
                    break;
                }
                i += 1
            }
            let mut t: String = c[s..i].iter().filter(|x| **x != '_').collect();
            for suf in &["f64", "f32", "i64", "u64", "i32", "u32", "usize", "isize", "u8", "i8", "u16", "i16"] {
                if !hex || !suf.starts_with('f') {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x.into();
                        break;
                    }
                }
            }
            let v = if hex { i64::from_str_radix(&t[2..], 16).ok().map(|x| x as f64) } else { t.parse::<f64>().ok() };
            if let Some(v) = v {
                *out.nums.entry(format!("{}", v)).or_insert(0) += 1;
            }
        } else {
            i += 1
        }
    }
}

fn string(c: &[char], mut i: usize, q: char) -> (String, usize) {
    let mut t = String::new();
    while i < c.len() && c[i] != q {
        if c[i] == '\\' {
            i += 1;
            match c.get(i) {
                Some('n') => t.push('\n'),
                Some('r') => t.push('\r'),
                Some('t') => t.push('\t'),
                Some('u') => {
                    let e = c[i..].iter().position(|x| *x == '}').unwrap_or(0);
                    let h: String = c[i..i + e].iter().filter(|x| x.is_ascii_hexdigit()).collect();
                    if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32) {
                        t.push(x)
                    }
                    i += e;
                }
                Some('\n') => {
                    while i + 1 < c.len() && c[i + 1].is_whitespace() {
                        i += 1
                    }
                }
                Some(x) => t.push(*x),
                None => (),
            }
        } else {
            t.push(c[i])
        }
        i += 1
    }
    (t, i + 1)
}

fn walk(p: &Path, out: &mut Lits) {
    let mut v: Vec<_> = match std::fs::read_dir(p) {
        Ok(d) => d.filter_map(|x| x.ok()).map(|x| x.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out)
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            if let Ok(t) = std::fs::read_to_string(&p) {
                scan(&t, out)
            }
        }
    }
}

/// literals become usable words: no line breaks or bare quotes, parts between format holes
fn usable(lits: &BTreeMap<String, u32>) -> BTreeMap<String, u32> {
    let mut o = BTreeMap::new();
    for (l, n) in lits {
        let mut parts = vec![l.clone()];
        for part in l.split(|c: char| c == '\n' || c == '\r') {
            parts.push(part.into());
            for t in part.split(|c: char| c == '{' || c == '}') {
                parts.push(t.into());
                parts.extend(t.split(' ').map(|x| x.to_string()));
            }
        }
        parts.sort();
        parts.dedup();
        for x in parts {
            let t = x.replace('"', "\\\"");
            let len = t.chars().count();
            if len > 0 && len <= 40 && !t.ends_with('\\') && !t.contains(|c: char| c == '\n' || c == '\r' || c == '\0') {
                *o.entry(t).or_insert(0) += n;
            }
        }
    }
    o
}

/// the list kept beside the harness: kind, number of occurrences, literal
pub fn listing() -> String {
    let mut l = Lits::default();
    walk(Path::new("/repo/src"), &mut l);
    let mut s = String::new();
    for (w, n) in usable(&l.words) {
        s.push_str(&format!("w {} {}\n", n, w));
    }
    for (v, n) in &l.nums {
        s.push_str(&format!("n {} {}\n", n, v));
    }
    s
}

fn lines(t: &str) -> Vec<(char, u32, &str)> {
    t.lines()
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let k = it.next()?.chars().next()?;
            Some((k, it.next()?.parse().ok()?, it.next()?))
        })
        .collect()
}

fn from_listing(now: &str, before: &str) -> Dict {
    let old: BTreeMap<(char, &str), u32> = lines(before).into_iter().map(|(k, n, x)| ((k, x), n)).collect();
    let mut d = Dict::default();
    for (k, n, x) in lines(now) {
        let new = n > old.get(&(k, x)).cloned().unwrap_or(0);
        if k == 'w' {
            if new {
                d.new_words.push(x.into())
            }
            d.words.push(x.into())
        } else if let Ok(v) = x.parse::<f64>() {
            if new {
                d.new_nums.push(v)
            }
            d.nums.push(v)
        }
    }
    if d.words.is_empty() {
        d.words.push("A".into())
    }
    if d.nums.is_empty() {
        d.nums.push(1.0)
    }
    d
}

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut now = listing();
        // more literals, to try out what unusual ones do to the generators
        if let Some(t) = std::env::var("VERIF_LITERALS").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
            now.push_str(&t)
        }
        from_listing(&now, KNOWN)
    })
}

/// the dictionary, as a replay file carries it
pub fn for_replay() -> String {
    let d = get();
    let mut s = String::new();
    for w in &d.words {
        s.push_str(&format!("dict: w {} {}\n", if d.new_words.contains(w) { 2 } else { 1 }, w));
    }
    for n in &d.nums {
        s.push_str(&format!("dict: n {} {}\n", if d.new_nums.contains(n) { 2 } else { 1 }, n));
    }
    s
}

/// use the dictionary a replay file carries
pub fn set_from_replay(text: &str) {
    let (mut now, mut old) = (String::new(), String::new());
    let at = text.rfind(MARK).map(|i| i + MARK.len()).unwrap_or(text.len());
    for l in text[at..].split('\n') {
        if let Some(x) = l.strip_prefix("dict: ") {
            now.push_str(&format!("{}\n", x));
            old.push_str(&format!("{} 1{}\n", &x[..1], &x[3..]));
        }
    }
    if !now.is_empty() {
        let _ = DICT.set(from_listing(&now, &old));
    }
}
