//! Primitive generators shared by all formats.
use crate::dict;
use crate::engine::Src;

/// how a model is turned into a tree
pub enum Mode<'a> {
    /// the form the library writes
    Canon,
    /// any form the format allows
    Doc(&'a mut Src),
}

impl<'a> Mode<'a> {
    /// is an optional part put in?
    pub fn keep(&mut self, is_default: bool, always_written: bool) -> bool {
        match *self {
            Mode::Canon => always_written || !is_default,
            Mode::Doc(ref mut s) => !is_default || s.bool(),
        }
    }
    /// any order in documents
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        if let Mode::Doc(ref mut s) = *self {
            if s.bool() {
                s.shuffle(v)
            }
        }
    }
    pub fn pick(&mut self, n: u64) -> u64 {
        match *self {
            Mode::Canon => 0,
            Mode::Doc(ref mut s) => s.choice(n),
        }
    }
}

fn dec(int: i64, frac: i64, digits: usize, neg: bool) -> f64 {
    let t = format!("{}{}.{:0w$}", if neg { "-" } else { "" }, int, frac, w = digits);
    let v: f64 = t.parse().unwrap();
    if v == 0.0 { 0.0 } else { v }
}

fn near(s: &mut Src) -> Option<f64> {
    let d = dict::get();
    let hot = !d.new_nums.is_empty();
    if !s.chance(if hot { 6 } else { 1 }, 48) {
        return None;
    }
    Some(if hot && s.chance(3, 4) { *s.pick(&d.new_nums) } else { *s.pick(&d.nums) })
}

/// a number of the dictionary or one beside it, now and then; >= 0
pub fn dict_num(s: &mut Src) -> Option<f64> {
    let v = near(s)?;
    let v = match s.choice(12) {
        0..=4 => v,
        5 => v + 1.0,
        6 => v - 1.0,
        7 => v * 2.0,
        8 => v + 0.000001,
        9 => v - 0.000001,
        _ => v / 2.0,
    };
    // as a decimal string would give it
    let v = v.abs();
    if v >= 1e-12 && v < 1e-5 {
        return Some(format!("{:.13}", v).parse().unwrap());
    }
    let v: f64 = format!("{:.6}", v).parse().unwrap();
    if v <= 50_000_000.0 { Some(v) } else { None }
}

/// the same for integers
pub fn dict_int(s: &mut Src) -> Option<i64> {
    let v = near(s)?;
    if v.abs() > 9e15 {
        return None;
    }
    Some((v as i64 + *s.pick(&[0, 0, 0, 1, -1])).abs())
}

/// a list length of the dictionary, now and then
pub fn dict_len(s: &mut Src) -> Option<usize> {
    let d = dict::get();
    let hot = d.new_nums.iter().any(|x| *x >= 2.0 && *x <= 1100.0);
    if !s.chance(if hot { 8 } else { 1 }, 400) {
        return None;
    }
    let v = if hot && s.chance(7, 8) { *s.pick(&d.new_nums) } else { *s.pick(&d.nums) };
    // long ones are costly
    if v.abs() > 1100.0 || v.abs() > 300.0 && !s.chance(1, 6) {
        return None;
    }
    let n = v.abs() as i64 + *s.pick(&[0, 1, -1, 2]);
    if n >= 0 { Some(n as usize) } else { None }
}

/// a word of the dictionary, or one like it
pub fn dict_word(s: &mut Src) -> String {
    let d = dict::get();
    let w = if !d.new_words.is_empty() && s.chance(3, 4) { s.pick(&d.new_words).clone() } else { s.pick(&d.words).clone() };
    match s.choice(12) {
        0..=5 => w,
        6 => format!("{}{}", w, word(s)),
        7 => format!("{}{}", word(s), w),
        8 => format!("{}{}{}", word(s), w, word(s)),
        9 => w.to_uppercase(),
        10 => w.to_lowercase(),
        _ => format!("{}{}", w, w),
    }
}

pub fn some_dict_word(s: &mut Src) -> Option<String> {
    let hot = !dict::get().new_words.is_empty();
    if s.chance(if hot { 4 } else { 1 }, 24) { Some(dict_word(s)) } else { None }
}

fn remember(s: &mut Src, v: f64) -> f64 {
    if s.nums.len() < 64 {
        s.nums.push(v)
    }
    v
}

/// a number met before in this case
fn again(s: &mut Src) -> Option<f64> {
    if s.nums.is_empty() || !s.chance(1, 16) {
        return None;
    }
    let i = s.choice(s.nums.len() as u64) as usize;
    Some(s.nums[s.nums.len() - 1 - i].abs())
}

/// now and then several numbers met before, in their order
fn running(s: &mut Src) -> Option<f64> {
    if s.run.1 == 0 {
        if s.nums.is_empty() || !s.chance(1, 60) {
            return None;
        }
        let i = s.choice(s.nums.len() as u64) as usize;
        s.run = (s.nums.len() - 1 - i, s.choice(6) as u32 + 1);
    }
    let v = s.nums.get(s.run.0).cloned();
    s.run = (s.run.0 + 1, s.run.1 - 1);
    v
}

/// decimal number, either sign
pub fn num(s: &mut Src) -> f64 {
    if let Some(v) = running(s) {
        return v;
    }
    let v = raw_num(s);
    let v = if v != 0.0 && s.chance(1, 3) { -v } else { v };
    remember(s, v)
}

/// decimal number >= 0
pub fn unum(s: &mut Src) -> f64 {
    if let Some(v) = running(s) {
        return v.abs();
    }
    let v = raw_num(s);
    remember(s, v)
}

fn raw_num(s: &mut Src) -> f64 {
    match s.choice(12) {
        0 => 0.0,
        1 | 2 => match dict_num(s).or_else(|| again(s)) {
            Some(v) => v,
            None => s.range(0, 20) as f64,
        },
        3 => *s.pick(&[0.5, 1.0, 0.25, 0.15, 0.05, 90.0, 100.0, 180.0, 360.0, 0.1, 0.2, 0.3]),
        4 => dec(0, s.range(1, 99), 6, false),
        5 => dec(s.range(0, 9), s.range(0, 999_999), 6, false),
        6 => dec(s.range(0, 300), s.range(0, 9), 1, false),
        7 => dec(s.range(0, 300), s.range(0, 99), 2, false),
        8 => dec(s.range(0, 300), s.range(0, 999), 3, false),
        9 => match dict_num(s).or_else(|| again(s)) {
            Some(v) => v,
            None => dec(s.range(0, 300), s.range(0, 9999), 4, false),
        },
        10 => {
            let hi = if s.chance(1, 8) { 50_000_000 } else { 2_000_000 };
            s.range(1000, hi) as f64
        }
        _ => match dict_num(s).or_else(|| again(s)) {
            Some(v) => v,
            // all the digits a number can have
            None if s.chance(1, 4) => match s.choice(4) {
                0 => dec(s.range(0, 999), s.range(0, 999_999_999_999), 12, false),
                1 => dec(0, s.range(1, 999_999_999), 15, false),
                2 => dec(s.range(0, 99), s.range(0, 9_999_999), 7, false),
                _ => dec(s.range(0, 9), s.range(0, 999_999_999_999_999), 15, false),
            },
            None => dec(s.range(1000, 999_999), s.range(0, 999_999), 6, false),
        },
    }
}

/// a distance, now and then that between two numbers met before, or to zero
pub fn shift(s: &mut Src) -> f64 {
    if s.nums.is_empty() || !s.chance(1, 4) {
        return num(s);
    }
    let n = s.nums.len() as u64;
    let (i, j) = (s.choice(n) as usize, s.choice(n) as usize);
    let a = s.nums[i];
    let b = if s.chance(1, 3) { 0.0 } else { s.nums[j] };
    // as a decimal string would give it, and never a negative zero
    let v: f64 = format!("{:.6}", b - a).parse().unwrap();
    v + 0.0
}

/// a point, now and then one met before
pub fn point(s: &mut Src) -> (f64, f64) {
    if !s.points.is_empty() && s.chance(1, 10) {
        let i = s.choice(s.points.len() as u64) as usize;
        let p = s.points[s.points.len() - 1 - i];
        return match s.choice(6) {
            0..=2 => p,
            3 => (p.0, num(s)),
            4 => (num(s), p.1),
            _ => (p.1, p.0),
        };
    }
    let p = (num(s), num(s));
    if s.points.len() < 32 {
        s.points.push(p)
    }
    p
}

/// > 0
pub fn pnum(s: &mut Src) -> f64 {
    let v = unum(s);
    if v == 0.0 { 1.0 } else { v }
}

/// rotation as found in files
pub fn rot(s: &mut Src) -> f64 {
    match dict_num(s) {
        Some(v) if v <= 360.0 => return if v != 0.0 && s.chance(1, 3) { -v } else { v },
        _ => (),
    }
    match s.choice(8) {
        0 | 1 | 2 => 0.0,
        3 => *s.pick(&[90.0, 180.0, 270.0, 45.0]),
        4 => *s.pick(&[-90.0, -180.0, -270.0, 359.9, 0.1, 315.0, 360.0]),
        5 => s.range(0, 359) as f64,
        6 => dec(s.range(0, 359), s.range(0, 9), 1, false),
        _ if s.chance(1, 8) => dec(0, s.range(1, 9_999_999), 12, s.bool()),
        _ => dec(s.range(0, 359), s.range(1, 99), 2, true),
    }
}

pub fn int(s: &mut Src) -> i64 {
    if let Some(v) = dict_int(s) {
        return if s.chance(1, 3) { -v } else { v };
    }
    if !s.ints.is_empty() && s.chance(1, 20) {
        let i = s.choice(s.ints.len() as u64) as usize;
        return s.ints[s.ints.len() - 1 - i];
    }
    let v = raw_int(s);
    if s.ints.len() < 32 {
        s.ints.push(v)
    }
    v
}

fn raw_int(s: &mut Src) -> i64 {
    match s.choice(8) {
        0 => 0,
        1 | 2 | 3 => s.range(0, 30),
        4 => s.range(-20, -1),
        5 => s.range(0, 10_000),
        6 => s.range(-100_000, 100_000),
        _ => match s.choice(4) {
            3 if s.chance(1, 4) => *s.pick(&[i64::max_value(), i64::min_value(), i64::max_value() - 1, -i64::max_value(), 1 << 53, 1 << 62]),
            3 => s.range(-9_000_000_000_000_000, 9_000_000_000_000_000),
            2 => s.range(-4_000_000_000, 0),
            _ => s.range(0, 4_000_000_000),
        },
    }
}

pub fn uint(s: &mut Src) -> i64 {
    if let Some(v) = dict_int(s) {
        return v;
    }
    match s.choice(6) {
        0 => 0,
        1 | 2 | 3 => s.range(0, 30),
        4 => s.range(0, 10_000),
        _ => s.range(0, 4_000_000_000),
    }
}

pub fn stamp(s: &mut Src) -> i64 {
    if let Some(v) = dict_int(s) {
        return v;
    }
    match s.choice(4) {
        0 => s.range(0, 15),
        1 => 0x5A00_0000 + s.range(0, 0xFF_FFFF),
        2 => s.range(0, 0xFFFF_FFFF),
        _ => s.range(0, 0x7FFF_FFFF_FFFF),
    }
}

const WORDS: &[&str] = &[
    "A", "B", "R1", "C10", "U3", "GND", "VCC", "REF**", "Net-(R1-Pad1)", "/A/B/x", "smd", "0603", "value",
    "reference", "user", "hide", "net", "locked", "italic", "oval", "mirror", "left", "at", "module", "layer",
    "yes", "None", "Default", "F.Cu", "%R", "allowed", "1.5", "-3", "0", "~", "5A0B", "1e3", "nan", "inf",
    "kicad_pcb", "start", "end", "width", "true", "#", "$EndComp", "BGA-64", "KiCad", "Legacy", "Github", "Eagle", "GEDA-PCB",
    "virtual", "through_hole", "edge", "full", "none", "chamfer", "fillet", "thru_hole_only", "no", "User", "A4", "A3",
    "#PWR01", "#FLG02", "title_block", "host", "version", "20171130", "signal", "power", "mixed", "jumper", "hidden",
    "right", "top", "bottom", "center", "bold", "normal", "false", "tenting", "solid", "thermal", "circle", "rect",
    "${KISYS3DMOD}/a.wrl", "${KIPRJMOD}", "L", "D", "J", "P", "IC1", "PWR_FLAG", "+3V3", "-12V", "~RESET", "~{CS}",
    "disallowed", "Cu", "Edge.Cuts", "In3.Cu", "*.Cu", "\u{feff}", "-", "+", ".", "00", "007", "0x1F", "1.0", "+5",
];

const PIECES: &[&str] = &[
    "a", "b", "x", "Z", "0", "1", "7", "_", "-", ".", "/", ",", ":", "+", "*", "=", "&", "<", ">", "'", ";", "!",
    "?", "@", "^", "|", "#", "$", "~", "[", "]", "µ", "Ω", "漢", "é", "\u{1F600}", "\\n", "\\x", " ", "  ", "(",
    ")", "{", "}", "%", "\t", "\\\"", "\u{a0}", "٣", "²", "½", "ß", "İ", "\u{3000}", "\u{200b}", "\u{2028}", "\u{c}",
    "\u{b}", "\u{85}", "\u{0}", "\u{7f}", "\u{301}", "A", "F", "`",
];

/// any string the formats can carry: no line breaks, quotes only escaped
pub fn text(s: &mut Src) -> String {
    if let Some(w) = some_dict_word(s) {
        return w;
    }
    if !s.texts.is_empty() && s.chance(1, 20) {
        let i = s.choice(s.texts.len() as u64) as usize;
        return s.texts[s.texts.len() - 1 - i].clone();
    }
    let t = fresh(s);
    if s.texts.len() < 16 {
        s.texts.push(t.clone())
    }
    t
}

fn fresh(s: &mut Src) -> String {
    match s.choice(6) {
        0 | 1 => s.pick(WORDS).to_string(),
        2 => String::new(),
        3 => word(s),
        _ if s.chance(1, 300) => {
            // long, and parentheses that open nothing
            let n = s.range(64, 700) as usize;
            s.pick(&["(", ")", "a", "ab ", "\\\"", "漢"]).repeat(n).trim_end().to_string()
        }
        _ => {
            if let Some(t) = sized(s) {
                return t;
            }
            let max = if s.chance(1, 20) { 60 } else { 8 };
            let v = s.list_min(1, max, 6, |s| *s.pick(PIECES));
            v.concat()
        }
    }
}

/// non-empty string
pub fn text1(s: &mut Src) -> String {
    let t = text(s);
    if t.is_empty() { "A".into() } else { t }
}

/// a word of the dictionary without white space and quotes, now and then
pub fn some_dict_token(s: &mut Src) -> Option<String> {
    let t: String = some_dict_word(s)?.chars().filter(|c| !c.is_whitespace() && *c != '"').collect();
    if t.is_empty() { None } else { Some(t) }
}

/// as long as a number of the dictionary says
fn sized(s: &mut Src) -> Option<String> {
    let n = dict_len(s)?;
    let p = *s.pick(&["a", "1", "é", "a b "]);
    let mut t: String = p.chars().cycle().take(n).collect();
    if t.ends_with(' ') {
        t.pop();
        t.push('x')
    }
    Some(t)
}

/// plain word: letters, digits and harmless punctuation
pub fn word(s: &mut Src) -> String {
    let n = s.list_min(1, 12, 4, |s| *s.pick(&["a", "B", "c", "D", "1", "2", "0", "_", "-", "+", "é", "x"]));
    n.concat()
}

/// name from a small pool, so that names meet again
pub fn pool(s: &mut Src) -> String {
    if !dict::get().new_words.is_empty() && s.chance(1, 8) {
        return dict_word(s);
    }
    s.pick(&["GND", "VCC", "/A/B/x", "Net-(R1-Pad1)", "Net-(C2-Pad2)", "", "GND1", "gnd", "/A/A/y", "VCC ", "a b"]).to_string()
}

pub fn netname(s: &mut Src) -> String {
    if s.chance(2, 3) { pool(s) } else { text(s) }
}

pub fn big(s: &mut Src) -> (usize, u64) {
    // usual size, now and then a large one
    match s.choice(20) {
        19 => (120, 60),
        17 | 18 => (30, 20),
        0..=3 => (3, 1),
        _ => (10, 5),
    }
}
