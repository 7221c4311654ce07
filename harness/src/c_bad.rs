//! C34, C35: documents with one thing wrong are rejected.
use crate::c_sexp::MTable;
use crate::engine::*;
use crate::fp::{MModule, MNet};
use crate::gen::{self, Mode};
use crate::ly::{MLayout, LE};
use crate::sch::{MComp, MField, MSch, MSheet, SE};
use crate::sx::{self, N};
use crate::sym::{MDraw, MSym, MSymLib};
use kicad_parse_gen as k;

const NOT_INT: &[&str] = &["x", "1.5", "1,5", "--1", "0x10", "99999999999999999999", "-", "1e3", "12a", "a12", "1_000", "~"];
const NOT_NUM: &[&str] = &["x", "1,5", "--1", "0x10", "-", "1e", "12a", "1.2.3", "1mm", "~"];
const ALIGN: &[&str] = &["L", "R", "C", "T", "B"];
const DIR: &[&str] = &["V", "H"];
const LETTER: &[&str] = &["Z", "q", "1", "?", "z"];

/// words people write in place of fixed ones
const LIKE: &[&str] = &[
    "disallowed", "notallowed", "not-allowed", "Allowed", "forbidden", "yes", "no", "true", "false", "on", "off", "none", "0", "1", "default", "roundrect", "custom", "connect",
    "through_hole", "pth", "npth", "SMD", "rectangle", "square", "round", "trapezoidal", "Y", "N", "H", "V", "L", "R", "C", "T", "B", "A", "I", "O", "U", "D", "P", "W", "F", "S", "X", "left",
    "right", "center", "~", "NC", "kicad_sch", "footprint", "module", "kicad_pcb", "fp_lib_table", "text", "Global", "landscape",
];

/// a word that is not one of the set
fn wrong_word(src: &mut Src, old: &str, set: &[&str]) -> String {
    for _ in 0..4 {
        let c: Vec<char> = old.chars().collect();
        let mut t = match src.choice(12) {
            0 => format!("{}x", old),
            1 => c[1.min(c.len())..].iter().collect(),
            2 => c[..c.len().max(1) - 1].iter().collect(),
            3 => old.to_uppercase(),
            4 => old.to_lowercase(),
            5 => c.iter().enumerate().map(|(i, c)| if i == 0 { c.to_uppercase().to_string() } else { c.to_string() }).collect(),
            6 => format!("{}{}", old, old),
            7 => old.replace('_', if src.bool() { "-" } else { "" }),
            8 => gen::dict_word(src),
            9 => {
                let mut c = c.clone();
                let i = src.choice(c.len() as u64) as usize;
                c[i] = *src.pick(&['x', '_', '0', 'a', 'T', '.']);
                c.into_iter().collect()
            }
            _ => src.pick(LIKE).to_string(),
        };
        t.retain(|c| !c.is_whitespace() && c != '"' && c != '(' && c != ')' && c != '\\');
        if !t.is_empty() && !set.contains(&t.as_str()) {
            return t;
        }
    }
    "zzz".into()
}

const SIDES: &[&str] = &["F", "B", "Dwgs", "Cmts", "Eco1", "Eco2", "Edge", "In1", "In2", "*"];

/// no number at all
fn wrong_number(src: &mut Src, old: &str, int: bool, hex: bool) -> String {
    let plain: &[&str] = if hex {
        &["x", "--1", "0x10", "G1", "1.5", "-", "~"]
    } else if int {
        NOT_INT
    } else {
        NOT_NUM
    };
    match src.choice(4) {
        0 | 1 => src.pick(plain).to_string(),
        2 => {
            // something in between
            let mut c: Vec<char> = old.chars().collect();
            let i = src.choice(c.len() as u64 + 1) as usize;
            c.insert(i, *src.pick(&['x', 'G', ',', '_', ':', 'm', '%', '~', 'z', '/', 'é', '*']));
            c.into_iter().collect()
        }
        _ => {
            let t: String = gen::dict_word(src).chars().filter(|c| !c.is_whitespace() && !"\"()\\".contains(*c)).collect();
            let ok = if hex { i64::from_str_radix(&t, 16).is_ok() } else if int { t.parse::<i64>().is_ok() } else { t.parse::<f64>().is_ok() };
            if ok || t.is_empty() { "x".into() } else { t }
        }
    }
}

/// a part of a line
enum P {
    /// keyword; is it checked?
    K(String, bool),
    I(i64),
    F(f64),
    /// one of a set of words, words that are not in the set, and the whole set where it is small
    E(String, &'static [&'static str], &'static [&'static str]),
    Q(String),
    T(String),
}

impl P {
    fn show(&self) -> String {
        match *self {
            P::K(ref s, _) | P::E(ref s, _, _) | P::T(ref s) => s.clone(),
            P::I(i) => i.to_string(),
            P::F(f) => f.to_string(),
            P::Q(ref s) => format!("\"{}\"", s),
        }
    }
}

struct Ln {
    lead: &'static str,
    parts: Vec<P>,
    /// parts that cannot be left out
    need: Vec<usize>,
    /// is a further part an error?
    exact: bool,
    /// is the line needed?
    must: bool,
    /// does the text end too early here?
    open: bool,
    /// the part with alignment, italic and bold in one word
    style: Option<usize>,
}

fn ln(parts: Vec<P>) -> Ln {
    let need = (1..parts.len()).collect();
    Ln { lead: "", parts, need, exact: false, must: false, open: true, style: None }
}

fn key(s: &str, checked: bool) -> Ln {
    Ln { need: vec![], must: checked, ..ln(vec![P::K(s.into(), checked)]) }
}

fn kw(s: &str) -> P {
    P::K(s.into(), false)
}

fn style(f: &MField) -> P {
    let t = format!("{}{}{}", f.v, if f.italic { 'I' } else { 'N' }, if f.bold { 'B' } else { 'N' });
    P::E(t, &["", "C", "CN", "ZNN", "CZN", "CNZ", "CBN", "CNI", "cNN", "NNN"], &[])
}

fn field(f: &MField) -> Ln {
    let mut p = vec![
        kw("F"),
        P::I(f.i),
        P::Q(f.value.clone()),
        P::E(if f.vertical { "V" } else { "H" }.into(), LETTER, DIR),
        P::F(f.x),
        P::F(f.y),
        P::I(f.size),
        P::E(if f.visible { "0000" } else { "0001" }.into(), &["0", "1", "0002", "x", "V"], &["0000", "0001"]),
        P::E(f.h.to_string(), LETTER, ALIGN),
        style(f),
    ];
    if f.i > 3 {
        p.push(P::Q(f.name.clone()));
        // without the name, or another part that shifts the name to a place where it is checked
        return Ln { need: vec![1, 2, 3, 4, 5, 6, 7, 10], style: Some(9), ..ln(p) };
    }
    Ln { style: Some(9), ..ln(p) }
}

fn sym_field(f: &MField) -> Ln {
    let mut p = vec![
        P::E(format!("F{}", f.i), &["Fx", "F", "F1.5", "F-", "F 0"], &[]),
        P::Q(f.value.clone()),
        P::F(f.x),
        P::F(f.y),
        P::I(f.size),
        P::E(if f.vertical { "V" } else { "H" }.into(), LETTER, DIR),
        P::E(if f.visible { "V" } else { "I" }.into(), &["N", "Y", "0000", "v", "VV"], &["V", "I"]),
        P::E(f.h.to_string(), LETTER, ALIGN),
        style(f),
    ];
    if f.i > 3 {
        p.push(P::Q(f.name.clone()));
        return Ln { need: vec![2, 3, 4, 5, 6, 9], exact: true, style: Some(8), ..ln(p) };
    }
    Ln { style: Some(8), ..ln(p) }
}

fn comp(c: &MComp, o: &mut Vec<Ln>) {
    o.push(key("$Comp", false));
    o.push(ln(vec![kw("L"), P::T(c.name.clone()), P::T(c.reference.clone())]));
    o.push(Ln { need: vec![], ..ln(vec![P::T(c.u.clone())]) });
    o.push(ln(vec![kw("P"), P::I(c.x), P::I(c.y)]));
    for f in &c.fields {
        o.push(field(f))
    }
    o.push(Ln { lead: "\t", need: vec![], ..ln(vec![P::T("1".into()), P::T(c.x.to_string()), P::T(c.y.to_string())]) });
    let r = &c.rot;
    o.push(Ln { lead: "\t", need: vec![0, 1, 2, 3], exact: true, ..ln(vec![P::I(r[0]), P::I(r[1]), P::I(r[2]), P::I(r[3])]) });
    o.push(Ln { open: false, ..key("$EndComp", false) });
}

fn sheet(s: &MSheet, o: &mut Vec<Ln>) {
    o.push(key("$Sheet", false));
    o.push(ln(vec![kw("S"), P::I(s.x), P::I(s.y), P::I(s.dx), P::I(s.dy)]));
    o.push(ln(vec![kw("U"), P::T(s.unique.clone())]));
    let bad: &[&str] = &["Fx", "F", "F1.5", "F-"];
    o.push(ln(vec![P::E("F0".into(), bad, &[]), P::Q(s.name.clone()), P::I(s.name_size)]));
    o.push(ln(vec![P::E("F1".into(), bad, &[]), P::Q(s.file.clone()), P::I(s.file_size)]));
    for (i, l) in s.labels.iter().enumerate() {
        o.push(ln(vec![
            P::E(format!("F{}", i + 2), bad, &[]),
            P::Q(l.name.clone()),
            P::E(l.form.to_string(), &["Z", "q", "1", "i", "IO", ""], &["I", "O", "B", "T", "U"]),
            P::E(l.side.to_string(), &["Z", "q", "1", "l", "LR", ""], &["L", "R", "T", "B"]),
            P::I(l.x),
            P::I(l.y),
            P::I(l.size),
        ]))
    }
    o.push(Ln { open: false, ..key("$EndSheet", false) });
}

fn sch(m: &MSch) -> Vec<Ln> {
    let mut o = vec![key("EESchema Schematic File Version 2", true)];
    for l in &m.libs {
        o.push(Ln { need: vec![], ..ln(vec![P::T(format!("LIBS:{}", l))]) })
    }
    o.push(Ln { need: vec![], must: true, ..ln(vec![P::K("EELAYER".into(), true), P::T("25".into()), P::T("0".into())]) });
    o.push(Ln { open: false, ..key("EELAYER END", true) });
    let mut d = vec![kw("$Descr"), P::T(m.psize.clone()), P::I(m.dx), P::I(m.dy)];
    if m.portrait {
        d.push(P::E("portrait".into(), &["landscape", "Portrait", "portraitx", "0"], &["portrait"]));
    }
    o.push(Ln { need: vec![1, 2, 3], ..ln(d) });
    o.push(Ln { need: vec![], ..ln(vec![P::T("encoding utf-8".into())]) });
    o.push(Ln { must: true, ..ln(vec![P::K("Sheet".into(), true), P::I(m.sheet), P::I(m.sheets_n)]) });
    for (i, n) in ["Title", "Date", "Rev", "Comp", "Comment1", "Comment2", "Comment3", "Comment4"].iter().enumerate() {
        o.push(Ln { must: true, ..ln(vec![P::K(n.to_string(), true), P::Q(m.txt[i].clone())]) })
    }
    o.push(Ln { open: false, ..key("$EndDescr", true) });
    for e in &m.els {
        match *e {
            SE::Comp(ref c) => comp(c, &mut o),
            SE::Wire(t, c) => {
                o.push(Ln { exact: true, ..ln(vec![kw("Wire"), P::T(t.into()), P::T("Line".into())]) });
                let v = c.iter().map(|x| P::I(*x)).collect();
                o.push(Ln { lead: "\t", need: vec![0, 1, 2, 3], exact: true, open: false, ..ln(v) })
            }
            SE::Conn(x, y) => o.push(Ln { exact: true, open: false, ..ln(vec![kw("Connection"), P::T("~".into()), P::I(x), P::I(y)]) }),
            SE::NoConn(x, y) => o.push(Ln { exact: true, open: false, ..ln(vec![kw("NoConn"), P::T("~".into()), P::I(x), P::I(y)]) }),
            SE::Text(ref t) => {
                let mut v = vec![
                    kw("Text"),
                    P::E(t.t.into(), &["Lable", "notes", "Glabel", "x", "GLabels", "0"], &["Notes", "Label", "GLabel", "HLabel"]),
                    P::I(t.x),
                    P::I(t.y),
                    P::I(t.orient),
                    P::I(t.size),
                ];
                if let Some(ref s) = t.shape {
                    v.push(P::T(s.clone()))
                }
                v.push(P::T(if t.italic { "Italic" } else { "~" }.into()));
                v.push(P::I(t.thickness));
                o.push(ln(v));
                o.push(Ln { open: false, need: vec![], ..ln(vec![P::T(t.text.clone())]) })
            }
            SE::Other(ref t) => o.push(Ln { open: false, need: vec![], ..ln(vec![P::T(t.clone())]) }),
        }
    }
    for s in &m.sheets {
        sheet(s, &mut o)
    }
    o.push(Ln { open: false, ..key("$EndSCHEMATC", false) });
    o
}

const YES: &[&str] = &["y", "n", "X", "1", "YN", ""];

fn sym(s: &MSym, o: &mut Vec<Ln>) {
    let yn = |b: bool| P::E(if b { "Y" } else { "N" }.into(), YES, &["Y", "N"]);
    o.push(Ln { need: vec![], ..ln(vec![P::T(format!("# {}", s.name))]) });
    o.push(key("#", true));
    o.push(Ln {
        exact: true,
        must: true,
        ..ln(vec![
            P::K("DEF".into(), true),
            P::T(s.name.clone()),
            P::T(s.reference.clone()),
            P::T("0".into()),
            P::F(s.offset),
            yn(s.numbers),
            yn(s.names),
            P::I(s.units),
            P::E(if s.locked { "L" } else { "F" }.into(), &["l", "N", "Y", "0"], &["L", "F"]),
            P::E(if s.power { "P" } else { "N" }.into(), &["p", "Y", "F", "0"], &["P", "N"]),
        ])
    });
    for f in &s.fields {
        o.push(sym_field(f))
    }
    if !s.aliases.is_empty() {
        o.push(Ln { need: vec![], ..ln(std::iter::once(kw("ALIAS")).chain(s.aliases.iter().map(|a| P::T(a.clone()))).collect()) })
    }
    if !s.filters.is_empty() {
        o.push(key("$FPLIST", false));
        for f in &s.filters {
            o.push(Ln { lead: " ", need: vec![], ..ln(vec![P::T(f.clone())]) })
        }
        o.push(key("$ENDFPLIST", false));
    }
    o.push(key("DRAW", true));
    for d in &s.draw {
        match *d {
            MDraw::Pin(ref p) => {
                let sh = format!("{}{}", if p.visible { "" } else { "N" }, p.shape);
                let mut v = vec![
                    kw("X"),
                    P::T(p.name.clone()),
                    P::T(p.number.clone()),
                    P::I(p.x),
                    P::I(p.y),
                    P::I(p.len),
                    P::E(p.orient.to_string(), &["u", "X", "1", "UD", "~"], &["U", "D", "L", "R"]),
                    P::I(p.num_size),
                    P::I(p.name_size),
                    P::I(p.unit),
                    P::I(p.convert),
                    P::E(p.t.to_string(), &["i", "X", "WW", "1", "~"], &["I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"]),
                ];
                let full = !sh.is_empty();
                if full {
                    v.push(P::E(sh, &["c", "XX", "IC", "LC", "NZ", "NN", "1", "VV", "i"], &[]))
                }
                let l = ln(v);
                // without its type the pin has its shape for one
                let need = if full { (1..11).collect() } else { (1..12).collect() };
                o.push(Ln { exact: full, need, ..l })
            }
            MDraw::Rect(ref r) => o.push(Ln {
                exact: true,
                ..ln(vec![
                    kw("S"),
                    P::I(r.c[0]),
                    P::I(r.c[1]),
                    P::I(r.c[2]),
                    P::I(r.c[3]),
                    P::I(r.unit),
                    P::I(r.convert),
                    P::I(r.thickness),
                    P::E(r.fill.to_string(), &["n", "Z", "1", "ff", "~"], &["F", "f", "N"]),
                ])
            }),
            MDraw::Other(_) => o.push(Ln { need: vec![], ..ln(vec![P::T("P 2 0 1 0 0 100 0 50 N".into())]) }),
        }
    }
    o.push(key("ENDDRAW", false));
    o.push(key("ENDDEF", true));
    o.push(Ln { open: false, ..key("#", true) });
}

fn symlib(m: &MSymLib) -> Vec<Ln> {
    let mut o = vec![key("EESchema-LIBRARY Version 2.3", true), key("#encoding utf-8", true), Ln { open: false, ..key("#", true) }];
    for s in &m.syms {
        sym(s, &mut o)
    }
    o.push(Ln { open: false, ..key("#End Library", false) });
    o
}

/// a schematic or symbol library with one thing wrong
pub struct LineFault {
    pub is_sch: bool,
    pub good: String,
    pub bad: String,
    pub what: String,
    pub kind: usize,
    line: usize,
    /// the number that is none
    pub number: Option<String>,
    /// the word that is not known
    pub word: Option<String>,
    /// the letter of it that is wrong, where single letters count
    pub letter: Option<char>,
    /// the keyword as it should be, as it is
    pub keyword: (String, String),
}

impl LineFault {
    pub fn read(&self, t: &str) -> Result<Result<(), k::KicadError>, Fail> {
        if self.is_sch {
            no_panic("parse", || k::schematic::parse_str(t).map(|_| ()))
        } else {
            no_panic("parse", || k::symbol_lib::parse_str(t).map(|_| ()))
        }
    }
}

pub fn c34(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = line_fault(src);
    if f.read(&f.good)?.is_err() {
        // not the subject here
        return Ok(());
    }
    cx.case(&f.bad);
    cx.nontrivial(f.line > 3);
    cx.tag(["keyword", "value", "missing part", "part too many", "missing line", "cut", "order"][f.kind]);
    ensure!(f.read(&f.bad)?.is_err(), "accepted", "{}: accepted", f.what);
    Ok(())
}

pub fn line_fault(src: &mut Src) -> LineFault {
    let is_sch = src.bool();
    let (mut number, mut word, mut letter, mut keyword) = (None, None, None, Default::default());
    let v = if is_sch {
        let mut m = MSch::gen_sized(src, 3, 1);
        m.libs.truncate(2);
        // what stands on its own must not be taken for the next part
        m.els.retain(|e| !matches!(*e, SE::Other(_)));
        m.sheets.truncate(2);
        sch(&m)
    } else {
        let mut m = MSymLib::gen(src);
        m.syms.truncate(3);
        for s in &mut m.syms {
            s.draw.truncate(12);
            s.filters.retain(|f| !f.contains("ALIAS") && !f.contains("DRAW"));
        }
        symlib(&m)
    };
    let mut words: Vec<Vec<String>> = v.iter().map(|l| l.parts.iter().map(|p| p.show()).collect()).collect();
    let render = |w: &[Vec<String>]| {
        let mut t = String::new();
        for (i, x) in w.iter().enumerate() {
            if !x.is_empty() {
                t.push_str(v[i].lead);
                t.push_str(&x.join(" "));
                t.push('\n');
            }
        }
        t
    };
    let good = render(&words);
    // one thing wrong, of those that can be done wrong here
    let mut at = vec![];
    for (i, l) in v.iter().enumerate() {
        for (j, p) in l.parts.iter().enumerate() {
            match *p {
                P::K(_, true) => at.push((0, i, j)),
                P::I(_) | P::F(_) | P::E(..) => at.push((1, i, j)),
                _ => (),
            }
        }
        for j in &l.need {
            at.push((2, i, *j))
        }
        if l.exact {
            at.push((3, i, 0))
        }
        if l.must {
            at.push((4, i, 0))
        }
        if l.open {
            at.push((5, i, 0))
        }
        if i > 0 && l.must && v[i - 1].must && words[i] != words[i - 1] {
            at.push((6, i, 0))
        }
    }
    let (kind, i, j) = *src.pick(&at);
    let what;
    match kind {
        0 => {
            let w = words[i][j].clone();
            words[i][j] = match src.choice(5) {
                0 => format!("{}x", w),
                1 => w[1..].to_string(),
                2 => format!("x{}", w),
                3 => {
                    let u = if w.to_lowercase() == w { w.to_uppercase() } else { w.to_lowercase() };
                    if u == w { format!("{}{}", w, w) } else { u }
                }
                _ => format!("{}{}", &w[..w.len() - 1], "~"),
            };
            keyword = (w.clone(), words[i][j].clone());
            what = format!("keyword {} changed to {}", w, words[i][j])
        }
        1 => {
            let w = words[i][j].clone();
            let bad = match v[i].parts[j] {
                P::I(_) => wrong_number(src, &w, true, false),
                P::F(_) => wrong_number(src, &w, false, false),
                P::E(_, b, set) if set.is_empty() || src.bool() => src.pick(b).to_string(),
                P::E(_, _, set) => {
                    let t = wrong_word(src, &w, set);
                    // of directions only the first letter counts
                    if (set == ALIGN || set == DIR) && set.iter().any(|x| t.starts_with(x)) { "zzz".into() } else { t }
                }
                _ => unreachable!(),
            };
            words[i][j] = bad.clone();
            match v[i].parts[j] {
                P::E(_, _, set) => {
                    word = Some(bad.clone());
                    let c: Vec<char> = bad.chars().collect();
                    letter = if set == ALIGN || set == DIR {
                        c.first().cloned()
                    } else if v[i].style == Some(j) && c.len() > 2 {
                        // of alignment, italic and bold the wrong one
                        Some(if !"LRCTB".contains(c[0]) { c[0] } else if !"IN".contains(c[1]) { c[1] } else { c[2] })
                    } else if v[i].parts.len() == 13 && j == 12 && c.len() == 2 && c[0] == 'N' {
                        // the shape of a pin comes after its visibility
                        Some(c[1])
                    } else {
                        None
                    }
                }
                _ => number = Some(bad.clone()),
            }
            what = format!("part {} of line {}: {} changed to {:?}", j, i + 1, w, bad)
        }
        2 => {
            let w = words[i].remove(j);
            what = format!("part {} of line {} left out: {}", j, i + 1, w)
        }
        3 => {
            words[i].push(wrong_word(src, "1", &[]));
            what = format!("a part too many in line {}", i + 1)
        }
        4 => {
            what = format!("line {} left out: {}", i + 1, words[i].join(" "));
            words[i].clear()
        }
        5 => {
            what = format!("text ends after line {}", i + 1);
            words.truncate(i + 1)
        }
        _ => {
            what = format!("lines {} and {} the other way round", i, i + 1);
            words.swap(i - 1, i)
        }
    }
    let bad = render(&words);
    LineFault { is_sch, good, bad, what, kind, line: i, number, word, letter, keyword }
}

// ---- symbolic expressions ----

fn paths(n: &N, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let N::L(ref v) = *n {
        for (i, x) in v.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            paths(x, at, out);
            at.pop();
        }
    }
}

fn list<'a>(n: &'a mut N, p: &[usize]) -> &'a mut Vec<N> {
    match *n {
        N::L(ref mut v) => match p.split_first() {
            None => v,
            Some((i, rest)) => list(&mut v[*i], rest),
        },
        _ => unreachable!(),
    }
}

fn head(n: &N) -> &str {
    match *n {
        N::L(ref v) => match v.first() {
            Some(N::S(ref s)) => s,
            _ => "",
        },
        _ => "",
    }
}

/// lists that cannot be left out: of what, which
const NEEDED: &[(&str, &[&str])] = &[
    ("lib", &["name", "type", "uri", "options", "descr"]),
    ("general", &["links", "no_connects", "area", "thickness", "drawings", "tracks", "zones", "modules", "nets"]),
    ("segment", &["start", "end", "width", "layer", "net"]),
    ("via", &["at", "size", "layers"]),
    ("gr_line", &["start", "end", "layer"]),
    ("gr_arc", &["start", "end", "angle", "layer"]),
    ("gr_circle", &["center", "end", "layer"]),
    ("gr_text", &["at", "layer", "effects"]),
    ("effects", &["font"]),
    ("zone", &["net", "net_name", "layer", "tstamp", "hatch", "connect_pads", "min_thickness", "fill"]),
    ("connect_pads", &["clearance"]),
    ("fill", &["arc_segments", "thermal_gap", "thermal_bridge_width"]),
    ("keepout", &["tracks", "vias", "copperpour"]),
    ("model", &["at", "scale", "rotate"]),
    ("at", &["xyz"]),
    ("scale", &["xyz"]),
    ("rotate", &["xyz"]),
    ("dimension", &["layer", "gr_text", "feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"]),
    ("feature1", &["pts"]),
    ("feature2", &["pts"]),
    ("crossbar", &["pts"]),
    ("arrow1a", &["pts"]),
    ("arrow1b", &["pts"]),
    ("arrow2a", &["pts"]),
    ("arrow2b", &["pts"]),
];

/// a footprint, board or table with one thing wrong
pub struct ListFault {
    kind: u64,
    pub good: String,
    pub bad: String,
    pub what: String,
    tag: &'static str,
    deep: bool,
    /// the text ends too early
    pub cut: bool,
    /// the word that is not known
    pub word: Option<String>,
}

impl ListFault {
    pub fn read(&self, t: &str) -> Result<Result<(), k::KicadError>, Fail> {
        match self.kind {
            0..=2 => no_panic("parse", || k::footprint::parse(t).map(|_| ())),
            3..=6 => no_panic("parse", || k::layout::parse(t).map(|_| ())),
            _ => no_panic("parse", || k::fp_lib_table::parse(t).map(|_| ()).map_err(From::from)),
        }
    }
}

pub fn c35(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = match list_fault(src) {
        Some(f) => f,
        None => return Ok(()),
    };
    cx.tag(f.tag);
    cx.nontrivial(f.deep);
    if f.read(&f.good)?.is_err() {
        return Ok(());
    }
    cx.case(&f.bad);
    ensure!(f.read(&f.bad)?.is_err(), "accepted", "{}: accepted", f.what);
    Ok(())
}

pub fn list_fault(src: &mut Src) -> Option<ListFault> {
    let kind = src.choice(8);
    let canon = src.bool();
    let mut t = match kind {
        0..=2 => {
            let m = MModule::gen_sized(src, 3, 2);
            if canon { m.canon() } else { m.tree(&mut Mode::Doc(src)) }
        }
        3..=6 => {
            let m = MLayout::gen_with(src, 3, 2, |s| match LE::gen(s) {
                // content that is kept as it is has no rules
                LE::Other(_) => LE::Net(MNet { num: 1, name: "a".into() }),
                LE::Zone(mut z) => {
                    z.other.clear();
                    LE::Zone(z)
                }
                e => e,
            });
            if canon { m.canon() } else { m.tree(&mut Mode::Doc(src)) }
        }
        _ => {
            let mut m = MTable::gen(src);
            m.libs.truncate(3);
            m.tree()
        }
    };
    let good = sx::render_flat(&t);
    if src.chance(1, 6) {
        let text = if src.bool() { sx::render_var(&t, src) } else { good.clone() };
        let c: Vec<char> = text.trim_end().chars().collect();
        let n = src.choice(c.len() as u64) as usize;
        let bad = c[..n].iter().collect::<String>();
        let what = format!("text ends after {} of {} characters", n, c.len());
        Some(ListFault { kind, good, bad, what, tag: "cut", deep: n > 10, cut: true, word: None })
    } else {
        // places where something can be wrong
        let mut all = vec![];
        paths(&t, &mut vec![], &mut all);
        let mut at = vec![];
        for p in all {
            let (last, up) = p.split_last().unwrap();
            let mut heads = vec![];
            let mut n = &t;
            for i in up {
                heads.push(head(n).to_string());
                if let N::L(ref v) = *n {
                    n = &v[*i]
                }
            }
            heads.push(head(n).to_string());
            let (len, x) = match *n {
                N::L(ref v) => (v.len(), &v[*last]),
                _ => unreachable!(),
            };
            if heads.iter().any(|h| h == "setup") {
                continue;
            }
            // the layers of a board: number, name, kind
            if heads.get(1).map(|h| h == "layers") == Some(true) {
                if heads.len() == 3 && *last < 3 {
                    at.push((2, p.clone()));
                    match *last {
                        0 => at.push((0, p.clone())),
                        1 => at.push((5, p.clone())),
                        _ => at.push((4, p.clone())),
                    }
                }
                continue;
            }
            // malformed outlines of zones are kept as they are
            if heads.iter().any(|h| h == "zone") && heads.iter().any(|h| h == "pts" || h == "polygon" || h == "filled_polygon" || h == "fill_segments") {
                continue;
            }
            let h = heads.last().unwrap().as_str();
            match *x {
                N::F(_) | N::I(_) | N::H(_) => {
                    at.push((0, p.clone()));
                    if let N::I(_) = *x {
                        at.push((1, p.clone()))
                    }
                    // a third number of a place is its rotation; sizes of drills may be left out
                    if h != "drill" && !(h == "at" && len > 3) {
                        at.push((2, p.clone()))
                    }
                }
                N::L(_) => {
                    let c = head(x);
                    // outside of models places have no parts
                    if NEEDED.iter().any(|(a, b)| *a == h && b.contains(&c)) && !(h == "fill" && heads.iter().any(|x| x == "keepout")) {
                        at.push((3, p.clone()))
                    }
                }
                N::S(_) => {
                    let i = *last;
                    let need = match h {
                        "pad" => i >= 1 && i <= 3,
                        "fp_text" => i == 1 || i == 2,
                        "net" | "add_net" | "layer" | "descr" | "tags" | "path" | "attr" | "name" | "type" | "uri" | "options" | "net_name" | "page" => i == 1 && len == 2 || h == "net" && i == 2,
                        "host" => i == 1 || i == 2,
                        "hatch" => i == 1,
                        _ => false,
                    };
                    if need {
                        at.push((2, p.clone()))
                    }
                    if h == "pad" && (i == 2 || i == 3) || (h == "tracks" || h == "vias" || h == "copperpour") && i == 1 {
                        at.push((4, p.clone()))
                    }
                    if i == 0 && heads.len() == 1 || i == 1 && (h == "justify" || h == "mode" && heads.iter().any(|x| x == "zone")) {
                        at.push((4, p.clone()))
                    }
                    if i >= 1 && (h == "layer" || h == "layers") && heads.len() > 1 {
                        at.push((5, p.clone()))
                    }
                }
            }
        }
        if at.is_empty() {
            return None;
        }
        let (k, p) = src.pick(&at).clone();
        let (last, up) = p.split_last().unwrap();
        let v = list(&mut t, up);
        let old = sx::render_flat(&v[*last]);
        let mut word = None;
        let (tag, what) = match k {
            0 => {
                let w = wrong_number(src, &old, matches!(v[*last], N::I(_)), matches!(v[*last], N::H(_)));
                // the shape of a drill comes first
                let w = if w == "oval" { "x".into() } else { w };
                v[*last] = sx::s(&w);
                ("number", format!("number {} changed to {}", old, w))
            }
            1 => {
                let w = *src.pick(&["1.5", "0.25", "99999999999999999999", "1e3", "12a"]);
                v[*last] = sx::s(w);
                ("integer", format!("integer {} changed to {}", old, w))
            }
            2 => {
                v.remove(*last);
                ("missing atom", format!("{} left out", old))
            }
            3 => {
                v.remove(*last);
                ("missing list", format!("{} left out", old))
            }
            5 => {
                // a side there is not
                let w = wrong_word(src, "Cu", SIDES).replace('.', "");
                let w = format!("{}.{}", if w.is_empty() || SIDES.contains(&w.as_str()) { "zzz" } else { &w }, src.pick(&["Cu", "SilkS", "Fab", "User", "x"]));
                v[*last] = sx::s(&w);
                ("layer", format!("{} changed to {}", old, w))
            }
            _ => {
                let set: &[&str] = match (up.is_empty(), *last) {
                    _ if matches!(v[0], N::I(_)) => &["signal", "power", "mixed", "jumper", "user"],
                    _ if matches!(v[0], N::S(ref s) if s == "justify") => &["left", "right", "mirror"],
                    _ if matches!(v[0], N::S(ref s) if s == "mode") => &["segment", "polygon"],
                    (true, _) => &["module", "kicad_pcb", "fp_lib_table"],
                    (_, 1) => &["allowed", "not_allowed"],
                    (_, 2) => &["smd", "thru_hole", "np_thru_hole"],
                    _ => &["rect", "circle", "oval", "trapezoid"],
                };
                let w = wrong_word(src, &old, set);
                v[*last] = sx::s(&w);
                word = Some(w.clone());
                ("word", format!("{} changed to {}", old, w))
            }
        };
        let of = sx::render_flat(&N::L(v.clone()));
        let bad = if src.chance(1, 4) { sx::render_var(&t, src) } else { sx::render_flat(&t) };
        let what = format!("{}, leaving {}", what, of.chars().take(200).collect::<String>());
        Some(ListFault { kind, good, bad, what, tag, deep: p.len() > 1, cut: false, word })
    }
}

// ---- C37: what is accepted survives rewriting ----

/// some parts of a tree missing, doubled or in another place
fn disturb(t: &mut N, src: &mut Src) {
    for _ in 0..=src.choice(4) {
        let mut all = vec![];
        paths(t, &mut vec![], &mut all);
        if all.is_empty() {
            return;
        }
        // lists more often than single words
        let lists: Vec<_> = all
            .iter()
            .filter(|p| {
                let (last, up) = p.split_last().unwrap();
                matches!(list(t, up)[*last], N::L(_))
            })
            .cloned()
            .collect();
        let p = if !lists.is_empty() && src.chance(3, 4) { src.pick(&lists).clone() } else { src.pick(&all).clone() };
        let (last, up) = p.split_last().unwrap();
        let v = list(t, up);
        match src.choice(6) {
            0..=3 => {
                v.remove(*last);
            }
            4 => {
                let x = v[*last].clone();
                let j = src.choice(v.len() as u64 + 1) as usize;
                v.insert(j, x)
            }
            _ => {
                let j = src.choice(v.len() as u64) as usize;
                v.swap(*last, j)
            }
        }
    }
}

fn disturb_lines(t: &str, src: &mut Src) -> String {
    let mut v: Vec<&str> = t.lines().collect();
    for _ in 0..=src.choice(4) {
        if v.is_empty() {
            break;
        }
        let i = src.choice(v.len() as u64) as usize;
        match src.choice(6) {
            0..=2 => {
                v.remove(i);
            }
            3 => {
                // a run of lines
                let j = (i + 1 + src.choice(16) as usize).min(v.len());
                v.drain(i..j);
            }
            4 => {
                let x = v[i];
                let j = src.choice(v.len() as u64 + 1) as usize;
                v.insert(j, x)
            }
            _ => {
                let j = src.choice(v.len() as u64) as usize;
                v.swap(i, j)
            }
        }
    }
    let mut o = v.join("\n");
    o.push('\n');
    o
}

pub fn c37(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    use crate::fp::debug_diff;
    // read, write, read, write
    fn cycle<T, M: PartialEq + std::fmt::Debug>(
        cx: &mut Cx,
        text: &str,
        read: &dyn Fn(&str) -> Option<T>,
        write: &dyn Fn(&T) -> Result<String, Fail>,
        model: &dyn Fn(&T) -> M,
    ) -> Result<(), Fail> {
        let a = match no_panic("parse", || read(text))? {
            Some(a) => a,
            None => {
                cx.tag("rejected");
                cx.nontrivial(false);
                return Ok(());
            }
        };
        cx.tag("accepted");
        cx.nontrivial(true);
        let w = write(&a)?;
        let b = match no_panic("parse", || read(&w))? {
            Some(b) => b,
            None => return fail("unreadable", format!("accepted, but the rewritten text is not: {}", w)),
        };
        let (ma, mb) = (model(&a), model(&b));
        ensure!(ma == mb, "changed", "rewritten and read again: {}", debug_diff(&ma, &mb));
        let w2 = write(&b)?;
        ensure!(w == w2, "unstable", "written again: {}", debug_diff(&w, &w2));
        Ok(())
    }
    match src.choice(8) {
        0 | 1 => {
            let m = MModule::gen_sized(src, 4, 2);
            let mut t = m.tree(&mut Mode::Doc(src));
            disturb(&mut t, src);
            let text = sx::render_flat(&t);
            cx.case(&text);
            cycle(cx, &text, &|t| k::footprint::parse(t).ok(), &|v| crate::c_sexp::write_module(v, 0), &MModule::from_lib)
        }
        2 | 3 => {
            let m = MLayout::gen_with(src, 4, 2, LE::gen);
            let mut t = m.tree(&mut Mode::Doc(src));
            disturb(&mut t, src);
            let text = sx::render_flat(&t);
            cx.case(&text);
            cycle(cx, &text, &|t| k::layout::parse(t).ok(), &|v| crate::c_sexp::write_layout(v, 0), &MLayout::from_lib)
        }
        4 => {
            let mut m = MTable::gen(src);
            m.libs.truncate(4);
            let mut t = m.tree();
            disturb(&mut t, src);
            let text = sx::render_flat(&t);
            cx.case(&text);
            cycle(cx, &text, &|t| k::fp_lib_table::parse(t).ok(), &|v| crate::c_sexp::write_table(v, 0), &MTable::from_lib)
        }
        5 | 6 => {
            let m = MSch::gen_sized(src, 4, 2);
            let text = disturb_lines(&m.doc(src), src);
            cx.case(&text);
            cycle(cx, &text, &|t| k::schematic::parse_str(t).ok(), &|v| no_panic("write", || v.to_string()), &MSch::from_lib)
        }
        _ => {
            let m = MSymLib::gen(src);
            let text = disturb_lines(&m.doc(src), src);
            cx.case(&text);
            cycle(cx, &text, &|t| k::symbol_lib::parse_str(t).ok(), &|v| no_panic("write", || v.to_string()), &MSymLib::from_lib)
        }
    }
}
