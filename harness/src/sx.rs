//! Own symbolic-expression tree: rendering with spelling variation, an independent reader for
//! the library's output, and a reference printer for KiCad's line layout.
use crate::engine::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    /// string atom
    S(String),
    /// number
    F(f64),
    /// integer
    I(i64),
    /// hexadecimal stamp
    H(i64),
    L(Vec<N>),
}

pub fn s(x: &str) -> N {
    N::S(x.to_string())
}

/// list with a name
pub fn l(name: &str, mut v: Vec<N>) -> N {
    let mut r = vec![s(name)];
    r.append(&mut v);
    N::L(r)
}

pub fn lf(name: &str, v: &[f64]) -> N {
    l(name, v.iter().map(|x| N::F(*x)).collect())
}

pub fn ls(name: &str, v: &str) -> N {
    l(name, vec![s(v)])
}

pub fn li(name: &str, v: i64) -> N {
    l(name, vec![N::I(v)])
}

/// plain shortest decimal
pub fn fnum(x: f64) -> String {
    format!("{}", x)
}

fn needs_quote(s: &str) -> bool {
    // characters for which KiCad (and this library) quote a string
    s.is_empty() || s.chars().any(|c| "\t (){}%".contains(c))
}

fn must_quote(s: &str) -> bool {
    s.is_empty() || s.chars().any(|c| "\t ()".contains(c))
}

pub fn atom_canon(n: &N) -> String {
    match *n {
        N::S(ref s) => {
            if needs_quote(s) {
                format!("\"{}\"", s)
            } else {
                s.clone()
            }
        }
        N::F(f) => fnum(f),
        N::I(i) => format!("{}", i),
        N::H(i) => format!("{:X}", i),
        N::L(_) => unreachable!(),
    }
}

fn atom_var(n: &N, src: &mut Src) -> String {
    match *n {
        N::S(ref s) => {
            if must_quote(s) || src.chance(1, 3) {
                format!("\"{}\"", s)
            } else {
                s.clone()
            }
        }
        N::F(f) => {
            let b = fnum(f);
            match src.choice(12) {
                9 => {
                    // trailing zeros
                    if b.contains('.') { format!("{}00", b) } else { format!("{}.0", b) }
                }
                10 => {
                    // exponent form
                    let e = format!("{:e}", f);
                    if e.parse::<f64>().ok() == Some(f) { e } else { b }
                }
                11 => format!("\"{}\"", b),
                _ => b,
            }
        }
        N::I(i) => {
            let b = format!("{}", i);
            if src.choice(12) == 11 { format!("\"{}\"", b) } else { b }
        }
        N::H(i) => match src.choice(4) {
            3 => format!("{:x}", i),
            2 => format!("{:08X}", i),
            _ => format!("{:X}", i),
        },
        N::L(_) => unreachable!(),
    }
}

fn gap(src: &mut Src, after_atom: bool, before_open: bool, at_least_one: bool) -> String {
    // whitespace accepted between items; a tab does not end a bare word
    match src.choice(10) {
        0..=4 => if at_least_one { " ".into() } else { String::new() },
        5 => " ".into(),
        6 => "\n".into(),
        7 => "\r\n  ".into(),
        8 => if after_atom { " \t".into() } else { "\t".into() },
        _ => if before_open { "\n\n    ".into() } else { "   ".into() },
    }
}

/// text with random whitespace, quoting and number spelling
pub fn render_var(n: &N, src: &mut Src) -> String {
    let mut o = String::new();
    var(n, src, &mut o);
    o.push_str(["", "\n", "\n\n", " ", "\r\n"][src.choice(5) as usize]);
    o
}

fn var(n: &N, src: &mut Src, o: &mut String) {
    match *n {
        N::L(ref v) => {
            o.push('(');
            let mut prev: Option<bool> = None;
            for x in v {
                let is_list = matches!(*x, N::L(_));
                if let Some(p_list) = prev {
                    // two atoms need a separator, lists do not
                    let g = gap(src, !p_list, is_list, !p_list && !is_list);
                    o.push_str(&g);
                }
                var(x, src, o);
                prev = Some(is_list);
            }
            if src.chance(1, 12) {
                o.push_str([" ", "\n", "\r\n"][src.choice(3) as usize]);
            }
            o.push(')');
        }
        ref a => {
            let t = atom_var(a, src);
            o.push_str(&t);
        }
    }
}

/// one-line canonical text
pub fn render_flat(n: &N) -> String {
    match *n {
        N::L(ref v) => format!("({})", v.iter().map(render_flat).collect::<Vec<_>>().join(" ")),
        ref a => atom_canon(a),
    }
}

/// generic tree read from text; every atom is S
pub fn read(text: &str) -> Result<N, String> {
    let c: Vec<char> = text.chars().collect();
    let mut p = 0;
    let n = read_at(&c, &mut p)?;
    while p < c.len() && c[p].is_whitespace() {
        p += 1;
    }
    if p != c.len() {
        return Err(format!("text after the end at {}", p));
    }
    Ok(n)
}

fn ws(c: char) -> bool {
    c == ' ' || c == '\n' || c == '\r' || c == '\t'
}

fn read_at(c: &[char], p: &mut usize) -> Result<N, String> {
    while *p < c.len() && ws(c[*p]) {
        *p += 1;
    }
    if *p >= c.len() {
        return Err("unexpected end".into());
    }
    match c[*p] {
        '(' => {
            *p += 1;
            let mut v = vec![];
            loop {
                while *p < c.len() && ws(c[*p]) {
                    *p += 1;
                }
                if *p >= c.len() {
                    return Err("unclosed list".into());
                }
                if c[*p] == ')' {
                    *p += 1;
                    return Ok(N::L(v));
                }
                v.push(read_at(c, p)?);
            }
        }
        ')' => Err(format!("unexpected ) at {}", p)),
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                if *p >= c.len() {
                    return Err("unclosed string".into());
                }
                let ch = c[*p];
                if ch == '\\' && *p + 1 < c.len() && c[*p + 1] == '"' {
                    s.push('\\');
                    s.push('"');
                    *p += 2;
                    continue;
                }
                *p += 1;
                if ch == '"' {
                    break;
                }
                s.push(ch);
            }
            if *p < c.len() && !ws(c[*p]) && c[*p] != ')' && c[*p] != '(' {
                return Err(format!("text glued to string at {}", p));
            }
            Ok(N::S(s))
        }
        _ => {
            let mut s = String::new();
            while *p < c.len() && !ws(c[*p]) && c[*p] != '(' && c[*p] != ')' {
                s.push(c[*p]);
                *p += 1;
            }
            Ok(N::S(s))
        }
    }
}

/// does the untyped tree say what the typed tree says? Returns the first difference.
pub fn diff(want: &N, got: &N) -> Option<String> {
    fn go(want: &N, got: &N, path: &str) -> Option<String> {
        match (want, got) {
            (&N::L(ref a), &N::L(ref b)) => {
                let name = match a.first() {
                    Some(&N::S(ref s)) => s.clone(),
                    _ => "".into(),
                };
                for i in 0..a.len().max(b.len()) {
                    let pp = format!("{}/{}[{}]", path, name, i);
                    match (a.get(i), b.get(i)) {
                        (Some(x), Some(y)) => {
                            if let Some(d) = go(x, y, &pp) {
                                return Some(d);
                            }
                        }
                        (Some(x), None) => return Some(format!("{}: missing {}", pp, render_flat(x))),
                        (None, Some(y)) => return Some(format!("{}: surplus {}", pp, render_flat(y))),
                        (None, None) => (),
                    }
                }
                None
            }
            (&N::S(ref a), &N::S(ref b)) if a == b => None,
            (&N::F(a), &N::S(ref b)) if b.parse::<f64>().ok() == Some(a) && !b.contains('e') => None,
            (&N::I(a), &N::S(ref b)) if b.parse::<i64>().ok() == Some(a) => None,
            (&N::H(a), &N::S(ref b)) if format!("{:X}", a) == *b => None,
            (a, b) => Some(format!("{}: want {} got {}", path, render_flat(a), render_flat(b))),
        }
    }
    go(want, got, "")
}

/// reference printer: KiCad's line layout
pub fn print_kicad(n: &N, level: i64) -> String {
    let mut p = Printer {
        o: String::new(),
        depth: level,
        stack: vec![],
        xy: 0,
        after_module: false,
        segment: false,
    };
    p.item(n);
    p.o
}

#[derive(Clone, Copy, PartialEq)]
struct Brk {
    newlines: usize,
    close: bool,
    after: bool,
}

struct Printer {
    o: String,
    depth: i64,
    stack: Vec<String>,
    xy: usize,
    after_module: bool,
    segment: bool,
}

impl Printer {
    fn nl(&mut self, n: usize) {
        for _ in 0..n {
            self.o.push('\n');
        }
        for _ in 0..self.depth {
            self.o.push_str("  ");
        }
    }

    fn brk(&self, name: &str) -> Option<Brk> {
        let parent = self.stack.last().map(|x| x.as_str()).unwrap_or("");
        let within = |x: &str| self.stack.iter().any(|y| y == x);
        let one = Some(Brk { newlines: 1, close: false, after: false });
        let block = Some(Brk { newlines: 1, close: true, after: false });
        let block2 = Some(Brk { newlines: 2, close: true, after: false });
        // footprints and texts, wherever they are
        match (parent, name) {
            ("module", "at") | ("module", "descr") | ("module", "fp_line") | ("module", "fp_poly")
            | ("module", "pad") | ("module", "path") | ("module", "fp_circle") | ("module", "attr") => return one,
            ("module", "model") | ("module", "fp_text") | ("module", "gr_text") => return block,
            ("dimension", "gr_text") => return block,
            ("fp_text", "effects") | ("gr_text", "effects") => return one,
            ("model", "at") | ("model", "scale") | ("model", "rotate") => return one,
            ("pad", "net") => return one,
            ("pts", "xy") => {
                // four points a line in footprint polygons, five elsewhere;
                // zone outlines start on a fresh line
                let per_line = if within("fp_poly") { 4 } else { 5 };
                if self.xy == 0 {
                    if within("polygon") || within("filled_polygon") {
                        return one;
                    }
                } else if self.xy % per_line == 0 {
                    return one;
                }
            }
            _ => (),
        }
        if within("kicad_pcb") {
            match (parent, name) {
                ("kicad_pcb", "page") => return Some(Brk { newlines: 2, close: false, after: false }),
                ("kicad_pcb", "net") | ("kicad_pcb", "gr_circle") | ("kicad_pcb", "gr_line")
                | ("kicad_pcb", "gr_arc") | ("kicad_pcb", "segment") | ("kicad_pcb", "via") => return one,
                ("kicad_pcb", "layers") | ("kicad_pcb", "gr_text") | ("kicad_pcb", "dimension")
                | ("kicad_pcb", "zone") => return block,
                ("kicad_pcb", "setup") => return Some(Brk { newlines: 2, close: true, after: true }),
                ("kicad_pcb", "general") | ("kicad_pcb", "net_class") | ("kicad_pcb", "module") => return block2,
                ("general", _) | ("layers", _) | ("setup", _) | ("pcbplotparams", _) | ("net_class", _) => return one,
                ("dimension", "feature1") | ("dimension", "feature2") | ("dimension", "crossbar")
                | ("dimension", "arrow1a") | ("dimension", "arrow1b") | ("dimension", "arrow2a")
                | ("dimension", "arrow2b") => return one,
                ("zone", "connect_pads") | ("zone", "min_thickness") | ("zone", "fill") | ("zone", "keepout")
                | ("zone", "priority") => return one,
                ("zone", "polygon") | ("zone", "filled_polygon") => return block,
                ("polygon", _) | ("filled_polygon", _) => return block,
                _ => (),
            }
        }
        if within("fp_lib_table") {
            let n = if parent == "fp_lib_table" { 1 } else { 0 };
            return Some(Brk { newlines: n, close: false, after: false });
        }
        None
    }

    fn item(&mut self, n: &N) {
        let v = match *n {
            N::L(ref v) => v,
            ref a => {
                let t = atom_canon(a);
                self.o.push_str(&t);
                return;
            }
        };
        let name = match v.first() {
            Some(a @ &N::S(_)) | Some(a @ &N::I(_)) | Some(a @ &N::F(_)) | Some(a @ &N::H(_)) => match *a {
                N::S(ref s) => s.clone(),
                ref o => atom_canon(o),
            },
            _ => String::new(),
        };
        let on_board = self.stack.last().map(|x| x == "kicad_pcb").unwrap_or(false);
        if name == "module" {
            self.after_module = true;
        } else if on_board && self.after_module {
            // blank line between the last footprint and what follows
            self.after_module = false;
            self.nl(1);
        }
        if name == "segment" && !self.segment {
            // blank line before the first track
            self.segment = true;
            self.nl(1);
        }
        let b = self.brk(&name);
        if let Some(b) = b {
            self.depth += 1;
            if b.newlines > 0 {
                self.nl(b.newlines);
            }
        }
        if name == "pts" {
            self.xy = 0;
        }
        if name == "xy" && self.stack.last().map(|x| x == "pts").unwrap_or(false) {
            self.xy += 1;
        }
        self.stack.push(name.clone());
        self.o.push('(');
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                let breaks = match *x {
                    N::L(ref w) => {
                        let nm = match w.first() {
                            Some(&N::L(_)) | None => None,
                            Some(&N::S(ref s)) => Some(s.clone()),
                            Some(a) => Some(atom_canon(a)),
                        };
                        match nm {
                            Some(nm) => self.brk(&nm).is_some(),
                            None => false,
                        }
                    }
                    _ => false,
                };
                if !breaks {
                    self.o.push(' ');
                }
            }
            self.item(x);
        }
        self.stack.pop();
        match b {
            Some(b) => {
                if b.close {
                    self.nl(1);
                }
                self.depth -= 1;
                self.o.push(')');
                if b.after {
                    self.o.push('\n');
                }
            }
            None => {
                if self.stack.is_empty() && (name == "module" || name == "kicad_pcb" || name == "fp_lib_table") {
                    self.o.push('\n');
                }
                self.o.push(')');
            }
        }
    }
}
