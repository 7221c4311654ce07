//! Model of schematics: what the text says, independent of the library.
use crate::engine::Src;
use crate::gen;
use kicad_parse_gen::schematic as k;
use std::path::PathBuf;

/// how lines are laid out
pub enum Lay<'a> {
    /// KiCad's own form
    Canon,
    /// any form the format allows
    Doc(&'a mut Src),
}

impl<'a> Lay<'a> {
    /// space between two parts of a line
    pub fn sp(&mut self) -> &'static str {
        match *self {
            Lay::Canon => " ",
            Lay::Doc(ref mut s) => *s.pick(&[" ", " ", " ", "  ", "     "]),
        }
    }
    pub fn ws(&mut self) -> &'static str {
        match *self {
            Lay::Canon => " ",
            Lay::Doc(ref mut s) => *s.pick(&[" ", " ", " ", "  ", "\t", " \t"]),
        }
    }
    pub fn number(&mut self, lo: i64, hi: i64) -> i64 {
        match *self {
            Lay::Canon => lo,
            Lay::Doc(ref mut s) => s.range(lo, hi),
        }
    }
    pub fn yes(&mut self, n: u64) -> bool {
        match *self {
            Lay::Canon => false,
            Lay::Doc(ref mut s) => s.chance(1, n),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        if let Lay::Doc(ref mut s) = *self {
            s.shuffle(v)
        }
    }
    pub fn canon(&self) -> bool {
        matches!(*self, Lay::Canon)
    }
    /// parts of a line with spaces in between
    pub fn join(&mut self, v: &[String]) -> String {
        let mut t = String::new();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                t.push_str(self.sp())
            }
            t.push_str(x)
        }
        t
    }
}

pub fn pad(t: String, n: usize) -> String {
    let mut t = t;
    while t.chars().count() < n {
        t.push(' ')
    }
    t
}

pub fn quoted(t: &str) -> String {
    format!("\"{}\"", t)
}

/// join the lines of a document
pub fn lines(lay: &mut Lay, v: &[String]) -> String {
    let nl = if lay.yes(12) { "\r\n" } else { "\n" };
    let mut t = v.join(nl);
    if !lay.yes(12) {
        t.push_str(nl)
    }
    t
}

/// string without white space and quotes
pub fn token(s: &mut Src) -> String {
    const P: &[&str] = &[
        "A", "b", "R", "U", "C", "1", "2", "0", "_", "-", "+", "*", "?", "/", ".", ":", ",", "#", "~", "$", "%", "{", "}", "(",
        ")", "\\", "é", "µ", "漢", "=", "F", "X", "'", "<",
    ];
    if let Some(t) = gen::some_dict_token(s) {
        return t;
    }
    match s.choice(4) {
        0 => s
            .pick(&[
                "R1", "U2", "C10", "R", "C", "L", "D", "LM358", "conn:CONN_01X02", "#PWR01", "~", "~GND", "74HC00", "+3.3V", "L1",
                "F", "S", "P", "1", "-5", "$EndComp", "DRAW", "ENDDRAW", "portrait", "IC?", "Fx", "0", "AR",
            ])
            .to_string(),
        1 => gen::word(s),
        _ => s.list_min(1, 10, 3, |s| *s.pick(P)).concat(),
    }
}

/// free text of a line that is kept as it is
pub fn raw(s: &mut Src) -> String {
    match s.choice(3) {
        0 => s
            .pick(&[
                "", "IAMANOTE", "Wire Wire Line", "$EndSCHEMATC", "$Comp", "Text Notes 1 2 3", "a\\nb", " lead", "trail ", "\"q\"",
                "$EndComp", "Connection ~ 1 2", "say \"x", "LIBS:a", "EELAYER END", "$Sheet", "#", "ENDDEF",
            ])
            .to_string(),
        1 => gen::text(s),
        _ => {
            let t = gen::text(s);
            format!("{}{}", t, s.pick(&["\"", " ", "\\", "x", "{}", "\t"]))
        }
    }
}

pub fn coord(s: &mut Src) -> i64 {
    // now and then some coordinates met before, in their order
    if s.crun.1 == 0 && !s.coords.is_empty() && s.chance(1, 40) {
        let i = s.choice(s.coords.len() as u64) as usize;
        s.crun = (s.coords.len() - 1 - i, s.choice(4) as u32 + 1);
    }
    if s.crun.1 > 0 {
        s.crun = (s.crun.0 + 1, s.crun.1 - 1);
        if let Some(v) = s.coords.get(s.crun.0 - 1) {
            return *v;
        }
    }
    let v = raw_coord(s);
    if s.coords.len() < 64 {
        s.coords.push(v)
    }
    v
}

fn raw_coord(s: &mut Src) -> i64 {
    if let Some(v) = gen::dict_int(s) {
        return if s.chance(1, 3) { -v } else { v };
    }
    match s.choice(8) {
        0 => 0,
        1 | 2 => s.range(1, 300) * 50,
        3 => s.range(0, 20_000),
        4 => s.range(-20_000, -1),
        5 => s.range(0, 999),
        6 => s.range(-9, 9),
        _ => s.range(-4_000_000_000, 4_000_000_000),
    }
}

pub fn size(s: &mut Src) -> i64 {
    if let Some(v) = gen::dict_int(s) {
        return v;
    }
    *s.pick(&[60, 50, 40, 70, 30, 0, 5, 100, 1000, 12345, -50, 61])
}

fn fcoord(s: &mut Src) -> f64 {
    if s.chance(1, 5) { gen::num(s) } else { coord(s) as f64 }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MField {
    pub i: i64,
    pub value: String,
    pub vertical: bool,
    pub x: f64,
    pub y: f64,
    pub size: i64,
    pub visible: bool,
    pub h: char,
    pub v: char,
    pub italic: bool,
    pub bold: bool,
    pub name: String,
}

pub const STD: [&str; 4] = ["Reference", "Value", "Footprint", "UserDocLink"];
const JUST: [char; 5] = ['C', 'L', 'R', 'B', 'T'];

pub fn just_from(j: &k::Justify) -> char {
    match *j {
        k::Justify::Left => 'L',
        k::Justify::Right => 'R',
        k::Justify::Center => 'C',
        k::Justify::Bottom => 'B',
        k::Justify::Top => 'T',
    }
}

pub fn just_to(c: char) -> k::Justify {
    match c {
        'L' => k::Justify::Left,
        'R' => k::Justify::Right,
        'B' => k::Justify::Bottom,
        'T' => k::Justify::Top,
        _ => k::Justify::Center,
    }
}

pub fn orient_to(v: bool) -> k::Orientation {
    if v { k::Orientation::Vertical } else { k::Orientation::Horizontal }
}

pub fn vertical(o: &k::Orientation) -> bool {
    match *o {
        k::Orientation::Vertical => true,
        k::Orientation::Horizontal => false,
    }
}

impl MField {
    pub fn gen(s: &mut Src, i: i64) -> MField {
        MField {
            i,
            value: gen::text(s),
            vertical: s.bool(),
            x: fcoord(s),
            y: fcoord(s),
            size: size(s),
            visible: s.bool(),
            h: *s.pick(&JUST),
            v: *s.pick(&JUST),
            italic: s.chance(1, 3),
            bold: s.chance(1, 3),
            name: if i < 4 {
                STD[i as usize].to_string()
            } else if s.chance(1, 3) {
                s.pick(&["MFG", "MPN", "Value", "Reference", "Footprint", "", "a b"]).to_string()
            } else {
                gen::text(s)
            },
        }
    }
    /// numbers of the fields of a component
    pub fn list(s: &mut Src) -> Vec<MField> {
        let mut v = vec![];
        match s.choice(4) {
            0 => {
                let n = s.choice(5) as i64;
                for i in 0..n {
                    v.push(MField::gen(s, i))
                }
            }
            1 | 2 => {
                let n = 4 + s.choice(4) as i64;
                for i in 0..n {
                    v.push(MField::gen(s, i))
                }
            }
            _ => {
                let l = s.list(8, 4, |s| {
                    if s.chance(1, 12) {
                        match gen::dict_int(s) {
                            Some(i) if i >= 0 && i < 1 << 40 => i,
                            _ => *s.pick(&[10, 11, 20, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 65536]),
                        }
                    } else {
                        *s.pick(&[0, 1, 2, 3, 4, 5, 6, 9, 12])
                    }
                });
                for i in l {
                    v.push(MField::gen(s, i))
                }
            }
        }
        v
    }
    fn tail(&self) -> String {
        format!("{}{}{}", self.v, if self.italic { 'I' } else { 'N' }, if self.bold { 'B' } else { 'N' })
    }
    /// field line of a schematic component
    pub fn line(&self, lay: &mut Lay) -> String {
        let w = if lay.canon() { 3 } else { 0 };
        let mut v = vec![
            "F".to_string(),
            self.i.to_string(),
            quoted(&self.value),
            if self.vertical { "V" } else { "H" }.to_string(),
            pad(self.x.to_string(), w),
            pad(self.y.to_string(), w),
            pad(self.size.to_string(), w),
            if self.visible { "0000" } else { "0001" }.to_string(),
            self.h.to_string(),
            self.tail(),
        ];
        if self.i > 3 {
            v.push(quoted(&self.name))
        }
        lay.join(&v)
    }
    /// field line of a symbol
    pub fn sym_line(&self, lay: &mut Lay) -> String {
        let mut v = vec![
            format!("F{}", self.i),
            quoted(&self.value),
            self.x.to_string(),
            self.y.to_string(),
            self.size.to_string(),
            if self.vertical { "V" } else { "H" }.to_string(),
            if self.visible { "V" } else { "I" }.to_string(),
            self.h.to_string(),
            self.tail(),
        ];
        if self.i > 3 {
            v.push(quoted(&self.name))
        }
        lay.join(&v)
    }
    pub fn from_lib(f: &k::ComponentField) -> MField {
        MField {
            i: f.i,
            value: f.value.clone(),
            vertical: vertical(&f.orientation),
            x: f.x,
            y: f.y,
            size: f.size,
            visible: f.visible,
            h: just_from(&f.hjustify),
            v: just_from(&f.vjustify),
            italic: f.italic,
            bold: f.bold,
            name: f.name.clone(),
        }
    }
    pub fn to_lib(&self) -> k::ComponentField {
        k::ComponentField {
            i: self.i,
            value: self.value.clone(),
            orientation: orient_to(self.vertical),
            x: self.x,
            y: self.y,
            size: self.size,
            visible: self.visible,
            hjustify: just_to(self.h),
            vjustify: just_to(self.v),
            italic: self.italic,
            bold: self.bold,
            name: self.name.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MComp {
    pub name: String,
    pub reference: String,
    pub u: String,
    pub x: i64,
    pub y: i64,
    pub ar: Vec<String>,
    pub fields: Vec<MField>,
    pub rot: [i64; 4],
}

/// references that meet again
pub fn refname(s: &mut Src) -> String {
    if s.chance(3, 4) {
        s.pick(&["R1", "R2", "U1", "U10", "C1", "R10", "r1", "R", "#PWR01"]).to_string()
    } else {
        token(s)
    }
}

/// the matrix of a component, which only its text shows
pub fn rotation_of(c: &k::Component) -> [i64; 4] {
    let ints = |t: &str| -> Vec<i64> {
        t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter_map(|x| x.parse().ok()).collect()
    };
    let v = ints(&format!("{:?}", c.rotation));
    if v.len() == 4 {
        return [v[0], v[1], v[2], v[3]];
    }
    let t = format!("{}", c);
    let l: Vec<&str> = t.lines().collect();
    let v = ints(l[l.len() - 2]);
    [v[0], v[1], v[2], v[3]]
}

fn rotation_to(r: &[i64; 4]) -> k::ComponentRotation {
    let t = format!(
        "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Comp\nL A A\nU 1 1 0\nP 0 0\n\t1    0    0   \n\t{} {} {} {}\n$EndComp\n$EndSCHEMATC\n",
        r[0], r[1], r[2], r[3]
    );
    k::parse_str(&t).unwrap().components().remove(0).rotation
}

impl MComp {
    pub fn gen(s: &mut Src) -> MComp {
        MComp {
            name: token(s),
            reference: refname(s),
            u: match s.choice(6) {
                0 => format!("U {} 1 {:08X}", s.pick(&[2, 3, 10, 26, 104, 127, 128, 255, 256, 1000, 70000]), gen::stamp(s)),
                1 => format!("U {}  2 {:X}", s.pick(&[1, 2]), gen::stamp(s)),
                _ => format!("U 1 1 {:08X}", gen::stamp(s)),
            },
            x: coord(s),
            y: coord(s),
            ar: s.list(4, 1, |s| format!("AR Path=\"/{:X}\" Ref=\"{}\"  Part=\"1\" ", gen::stamp(s), token(s))),
            fields: MField::list(s),
            rot: match s.choice(4) {
                0 => [1, 0, 0, -1],
                1 => *s.pick(&[[0, -1, -1, 0], [-1, 0, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [0, 1, -1, 0]]),
                2 => [s.range(-1, 1), s.range(-1, 1), s.range(-1, 1), s.range(-1, 1)],
                _ => [s.range(-9, 99), s.range(-9, 9999), s.range(-9, 99999), s.range(-999, 9)],
            },
        }
    }
    pub fn unit(&self) -> String {
        self.u.split_whitespace().nth(1).unwrap_or("1").to_string()
    }
    pub fn out(&self, lay: &mut Lay, o: &mut Vec<String>) {
        o.push("$Comp".into());
        let mut parts: Vec<Vec<String>> = vec![];
        parts.push(vec![lay.join(&["L".into(), self.name.clone(), self.reference.clone()])]);
        parts.push(vec![self.u.clone()]);
        parts.push(vec![lay.join(&["P".into(), self.x.to_string(), self.y.to_string()])]);
        parts.push(self.ar.clone());
        let f: Vec<String> = self.fields.iter().map(|f| f.line(lay)).collect();
        parts.push(f);
        let w = if lay.canon() { 4 } else { 0 };
        let r = &self.rot;
        let num = |i: i64| pad(i.to_string(), w);
        let a = format!("\t{}{}{}{}{}", pad(self.unit(), w), lay.ws(), num(self.x), lay.ws(), num(self.y));
        let b = format!("\t{}{}{}{}{}{}{}", num(r[0]), lay.ws(), num(r[1]), lay.ws(), num(r[2]), lay.ws(), num(r[3]));
        parts.push(vec![a, b]);
        if lay.yes(8) {
            lay.shuffle(&mut parts)
        }
        for p in parts {
            o.extend(p)
        }
        o.push("$EndComp".into());
    }
    pub fn from_lib(c: &k::Component) -> MComp {
        MComp {
            name: c.name.clone(),
            reference: c.reference.clone(),
            u: c.u.clone(),
            x: c.x,
            y: c.y,
            ar: c.ar_path.clone(),
            fields: c.fields.iter().map(MField::from_lib).collect(),
            rot: rotation_of(c),
        }
    }
    pub fn to_lib(&self) -> k::Component {
        k::Component {
            name: self.name.clone(),
            reference: self.reference.clone(),
            u: self.u.clone(),
            x: self.x,
            y: self.y,
            ar_path: self.ar.clone(),
            fields: self.fields.iter().map(|f| f.to_lib()).collect(),
            rotation: rotation_to(&self.rot),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum SE {
    Comp(MComp),
    /// Wire, Bus or Notes
    Wire(&'static str, [i64; 4]),
    Conn(i64, i64),
    NoConn(i64, i64),
    Text(MTxt),
    Other(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MTxt {
    pub t: &'static str,
    pub x: i64,
    pub y: i64,
    pub orient: i64,
    pub size: i64,
    pub shape: Option<String>,
    pub italic: bool,
    pub thickness: i64,
    pub text: String,
}

pub const KNOWN: &[&str] =
    &["$Descr", "$Comp", "$Sheet", "$EndSCHEMATC", "Wire", "Connection", "NoConn", "Text"];

pub fn other_line(s: &mut Src) -> String {
    match s.choice(4) {
        0 => s
            .pick(&[
                "Entry Wire Line", "\t1000 2000 1100 2100", "", "Kmarq B 1 2 \"x\" F=1", "$Bitmap", "$EndBitmap", "Entry Bus Bus",
                "$EndDescr", "$EndComp", "$EndSheet", "  ", "LIBS:late", "EELAYER END", "EELAYER 25 0", "wire x", "WireX", "Textual",
                "F 0 \"x\"", "$EndSCHEMATCX", "Data", "scale 0.5",
            ])
            .to_string(),
        _ => {
            let t = raw(s);
            match t.split_whitespace().next() {
                Some(w) if KNOWN.contains(&w) => format!("x{}", t),
                _ => t,
            }
        }
    }
}

impl SE {
    pub fn gen(s: &mut Src) -> SE {
        match s.choice(8) {
            0 | 1 | 2 => SE::Comp(MComp::gen(s)),
            3 => SE::Wire(*s.pick(&["Wire", "Bus", "Notes"]), [coord(s), coord(s), coord(s), coord(s)]),
            4 => SE::Conn(coord(s), coord(s)),
            5 => SE::NoConn(coord(s), coord(s)),
            6 => {
                let t = *s.pick(&["Notes", "Label", "GLabel", "HLabel"]);
                SE::Text(MTxt {
                    t,
                    x: coord(s),
                    y: coord(s),
                    orient: s.range(0, 3),
                    size: size(s),
                    shape: if t == "GLabel" || t == "HLabel" {
                        Some(if s.bool() {
                            s.pick(&["UnSpc", "3State", "Output", "Input", "BiDi"]).to_string()
                        } else {
                            s.pick(&["Italic", "~", "0", "12", "X"]).to_string()
                        })
                    } else {
                        None
                    },
                    italic: s.bool(),
                    thickness: *s.pick(&[0, 12, 5, 1000, -1]),
                    text: raw(s),
                })
            }
            _ => SE::Other(other_line(s)),
        }
    }
    pub fn out(&self, lay: &mut Lay, o: &mut Vec<String>) {
        match *self {
            SE::Comp(ref c) => c.out(lay, o),
            SE::Wire(t, c) => {
                o.push(format!("Wire{}{}{}Line", lay.ws(), t, lay.ws()));
                let lead = if lay.yes(6) { "  " } else { "\t" };
                o.push(format!("{}{}{}{}{}{}{}{}", lead, c[0], lay.ws(), c[1], lay.ws(), c[2], lay.ws(), c[3]));
            }
            SE::Conn(x, y) => o.push(format!("Connection{}~{}{}{}{}", lay.ws(), lay.ws(), x, lay.ws(), y)),
            SE::NoConn(x, y) => o.push(format!("NoConn{}~{}{}{}{}", lay.ws(), lay.ws(), x, lay.ws(), y)),
            SE::Text(ref t) => {
                let w = if lay.canon() { 4 } else { 0 };
                let mut v = vec![
                    "Text".to_string(),
                    t.t.to_string(),
                    pad(t.x.to_string(), w),
                    pad(t.y.to_string(), w),
                    pad(t.orient.to_string(), w),
                    pad(t.size.to_string(), w),
                ];
                if let Some(ref s) = t.shape {
                    v.push(s.clone())
                }
                v.push(if t.italic { "Italic" } else { "~" }.into());
                v.push(t.thickness.to_string());
                o.push(lay.join(&v));
                o.push(t.text.clone());
            }
            SE::Other(ref t) => o.push(t.clone()),
        }
    }
    pub fn from_lib(e: &k::Element) -> SE {
        match *e {
            k::Element::Component(ref c) => SE::Comp(MComp::from_lib(c)),
            k::Element::Wire(ref w) => SE::Wire(
                match w.type_ {
                    k::WireType::Wire => "Wire",
                    k::WireType::Notes => "Notes",
                    k::WireType::Bus => "Bus",
                },
                [w.x1, w.y1, w.x2, w.y2],
            ),
            k::Element::Connection(ref c) => SE::Conn(c.x, c.y),
            k::Element::NoConnect(ref c) => SE::NoConn(c.x, c.y),
            k::Element::Text(ref t) => SE::Text(MTxt {
                t: match t.t {
                    k::TextType::Note => "Notes",
                    k::TextType::Global => "GLabel",
                    k::TextType::Hierarchical => "HLabel",
                    k::TextType::Label => "Label",
                },
                x: t.x,
                y: t.y,
                orient: t.orientation,
                size: t.size,
                shape: t.shape.clone(),
                italic: t.italic,
                thickness: t.thickness,
                text: t.text.clone(),
            }),
            k::Element::Other(ref t) => SE::Other(t.clone()),
        }
    }
    pub fn to_lib(&self) -> k::Element {
        match *self {
            SE::Comp(ref c) => k::Element::Component(c.to_lib()),
            SE::Wire(t, c) => k::Element::Wire(k::Wire {
                type_: match t {
                    "Wire" => k::WireType::Wire,
                    "Bus" => k::WireType::Bus,
                    _ => k::WireType::Notes,
                },
                x1: c[0],
                y1: c[1],
                x2: c[2],
                y2: c[3],
            }),
            SE::Conn(x, y) => k::Element::Connection(k::Connection { x, y }),
            SE::NoConn(x, y) => k::Element::NoConnect(k::NoConnect { x, y }),
            SE::Text(ref t) => k::Element::Text(k::Text {
                t: match t.t {
                    "Notes" => k::TextType::Note,
                    "GLabel" => k::TextType::Global,
                    "HLabel" => k::TextType::Hierarchical,
                    _ => k::TextType::Label,
                },
                x: t.x,
                y: t.y,
                orientation: t.orient,
                size: t.size,
                shape: t.shape.clone(),
                italic: t.italic,
                thickness: t.thickness,
                text: t.text.clone(),
            }),
            SE::Other(ref t) => k::Element::Other(t.clone()),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MLabel {
    pub name: String,
    pub form: char,
    pub side: char,
    pub x: i64,
    pub y: i64,
    pub size: i64,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSheet {
    pub x: i64,
    pub y: i64,
    pub dx: i64,
    pub dy: i64,
    pub unique: String,
    pub name: String,
    pub name_size: i64,
    pub file: String,
    pub file_size: i64,
    pub labels: Vec<MLabel>,
}

impl MSheet {
    pub fn gen(s: &mut Src) -> MSheet {
        MSheet {
            x: coord(s),
            y: coord(s),
            dx: coord(s),
            dy: coord(s),
            unique: match s.choice(12) {
                0 => s.pick(&["0", "1", "00000000", "FFFFFFFF", "~", "5655a9f3"]).to_string(),
                1 => token(s),
                _ => format!("{:08X}", gen::stamp(s)),
            },
            name: gen::text(s),
            name_size: size(s),
            file: gen::text(s),
            file_size: size(s),
            labels: s.list(20, 3, |s| MLabel {
                name: gen::text(s),
                form: *s.pick(&['I', 'O', 'B', 'T', 'U']),
                side: *s.pick(&['L', 'R', 'T', 'B']),
                x: coord(s),
                y: coord(s),
                size: size(s),
            }),
        }
    }
    pub fn out(&self, lay: &mut Lay, o: &mut Vec<String>) {
        o.push("$Sheet".into());
        let st = |i: i64| i.to_string();
        let mut v = vec![
            lay.join(&["S".into(), st(self.x), st(self.y), st(self.dx), st(self.dy)]),
            lay.join(&["U".into(), self.unique.clone()]),
            lay.join(&["F0".into(), quoted(&self.name), st(self.name_size)]),
            lay.join(&["F1".into(), quoted(&self.file), st(self.file_size)]),
        ];
        if lay.yes(8) {
            lay.shuffle(&mut v)
        }
        o.extend(v);
        // labels are told apart by their place, not their number
        let odd = lay.yes(16);
        for (i, l) in self.labels.iter().enumerate() {
            let p = [
                format!("F{}", if odd { lay.number(2, 12) } else { i as i64 + 2 }),
                quoted(&l.name),
                l.form.to_string(),
                l.side.to_string(),
                st(l.x),
                st(l.y),
                st(l.size),
            ];
            o.push(lay.join(&p))
        }
        o.push("$EndSheet".into());
    }
    pub fn from_lib(s: &k::Sheet) -> MSheet {
        MSheet {
            x: s.x,
            y: s.y,
            dx: s.dimx,
            dy: s.dimy,
            unique: s.unique.clone(),
            name: s.name.clone(),
            name_size: s.name_size,
            file: s.filename.clone(),
            file_size: s.filename_size,
            labels: s
                .labels
                .iter()
                .map(|l| MLabel {
                    name: l.name.clone(),
                    form: match l.form {
                        k::LabelForm::Input => 'I',
                        k::LabelForm::Output => 'O',
                        k::LabelForm::BiDi => 'B',
                        k::LabelForm::TriState => 'T',
                        k::LabelForm::Unspecified => 'U',
                    },
                    side: match l.side {
                        k::LabelSide::Left => 'L',
                        k::LabelSide::Right => 'R',
                        k::LabelSide::Top => 'T',
                        k::LabelSide::Bottom => 'B',
                    },
                    x: l.x,
                    y: l.y,
                    size: l.size,
                })
                .collect(),
        }
    }
    pub fn to_lib(&self) -> k::Sheet {
        k::Sheet {
            x: self.x,
            y: self.y,
            dimx: self.dx,
            dimy: self.dy,
            unique: self.unique.clone(),
            name: self.name.clone(),
            name_size: self.name_size,
            filename: self.file.clone(),
            filename_size: self.file_size,
            labels: self
                .labels
                .iter()
                .map(|l| k::SheetLabel {
                    name: l.name.clone(),
                    form: match l.form {
                        'I' => k::LabelForm::Input,
                        'O' => k::LabelForm::Output,
                        'B' => k::LabelForm::BiDi,
                        'T' => k::LabelForm::TriState,
                        _ => k::LabelForm::Unspecified,
                    },
                    side: match l.side {
                        'L' => k::LabelSide::Left,
                        'R' => k::LabelSide::Right,
                        'T' => k::LabelSide::Top,
                        _ => k::LabelSide::Bottom,
                    },
                    x: l.x,
                    y: l.y,
                    size: l.size,
                })
                .collect(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSch {
    pub libs: Vec<String>,
    pub eelayer: String,
    pub psize: String,
    pub dx: i64,
    pub dy: i64,
    pub portrait: bool,
    /// title, date, rev, comp, comment1 to comment4
    pub txt: [String; 8],
    pub sheet: i64,
    pub sheets_n: i64,
    pub els: Vec<SE>,
    pub sheets: Vec<MSheet>,
}

const DESC: [&str; 8] = ["Title", "Date", "Rev", "Comp", "Comment1", "Comment2", "Comment3", "Comment4"];

impl MSch {
    pub fn gen(s: &mut Src) -> MSch {
        let (max, cont) = gen::big(s);
        MSch::gen_sized(s, max, cont)
    }
    pub fn gen_sized(s: &mut Src, max: usize, cont: u64) -> MSch {
        MSch {
            libs: s.list(30, 2, |s| if s.chance(1, 4) { raw(s) } else { token(s) }),
            eelayer: format!("EELAYER {}", s.pick(&["25 0", "26 0", "24 0 ", "x", ""])),
            psize: token(s),
            dx: coord(s),
            dy: coord(s),
            portrait: s.chance(1, 3),
            txt: [gen::text(s), gen::text(s), gen::text(s), gen::text(s), gen::text(s), gen::text(s), gen::text(s), gen::text(s)],
            sheet: gen::int(s),
            // it can be counted up
            sheets_n: gen::int(s).min(1 << 60),
            els: s.list(max, cont, SE::gen),
            sheets: s.list(6, 1, MSheet::gen),
        }
    }
    fn out(&self, lay: &mut Lay) -> String {
        let mut o: Vec<String> = vec!["EESchema Schematic File Version 2".into()];
        for l in &self.libs {
            o.push(format!("LIBS:{}", l))
        }
        o.push(self.eelayer.clone());
        o.push("EELAYER END".into());
        let mut d = vec!["$Descr".to_string(), self.psize.clone(), self.dx.to_string(), self.dy.to_string()];
        if self.portrait {
            d.push("portrait".into())
        }
        o.push(lay.join(&d));
        o.push("encoding utf-8".into());
        o.push(lay.join(&["Sheet".into(), self.sheet.to_string(), self.sheets_n.to_string()]));
        for i in 0..8 {
            o.push(lay.join(&[DESC[i].to_string(), quoted(&self.txt[i])]))
        }
        o.push("$EndDescr".into());
        let mut body: Vec<Vec<String>> = vec![];
        for e in &self.els {
            let mut v = vec![];
            e.out(lay, &mut v);
            body.push(v)
        }
        let mut at = body.len();
        for s in self.sheets.iter().rev() {
            let mut v = vec![];
            s.out(lay, &mut v);
            // sheets may stand anywhere between the other elements
            if let Lay::Doc(ref mut src) = *lay {
                if src.bool() {
                    at -= src.choice(at as u64 + 1) as usize
                }
            }
            body.insert(at, v)
        }
        for b in body {
            o.extend(b)
        }
        o.push("$EndSCHEMATC".into());
        lines(lay, &o)
    }
    pub fn canon(&self) -> String {
        self.out(&mut Lay::Canon)
    }
    pub fn doc(&self, src: &mut Src) -> String {
        self.out(&mut Lay::Doc(src))
    }
    pub fn from_lib(s: &k::Schematic) -> MSch {
        let d = &s.description;
        MSch {
            libs: s.libraries.clone(),
            eelayer: s.eelayer.clone(),
            psize: d.size.clone(),
            dx: d.dimx,
            dy: d.dimy,
            portrait: d.portrait,
            txt: [
                d.title.clone(),
                d.date.clone(),
                d.rev.clone(),
                d.comp.clone(),
                d.comment1.clone(),
                d.comment2.clone(),
                d.comment3.clone(),
                d.comment4.clone(),
            ],
            sheet: d.sheet,
            sheets_n: d.sheet_count,
            els: s.elements.iter().map(SE::from_lib).collect(),
            sheets: s.sheets.iter().map(MSheet::from_lib).collect(),
        }
    }
    pub fn to_lib(&self) -> k::Schematic {
        let t = |i: usize| self.txt[i].clone();
        k::Schematic {
            filename: None::<PathBuf>,
            libraries: self.libs.clone(),
            description: k::Description {
                size: self.psize.clone(),
                dimx: self.dx,
                dimy: self.dy,
                portrait: self.portrait,
                title: t(0),
                date: t(1),
                rev: t(2),
                comp: t(3),
                comment1: t(4),
                comment2: t(5),
                comment3: t(6),
                comment4: t(7),
                sheet: self.sheet,
                sheet_count: self.sheets_n,
            },
            elements: self.els.iter().map(|e| e.to_lib()).collect(),
            sheets: self.sheets.iter().map(|e| e.to_lib()).collect(),
            eelayer: self.eelayer.clone(),
        }
    }
    pub fn comps(&self) -> Vec<&MComp> {
        self.els.iter().filter_map(|e| if let SE::Comp(ref c) = *e { Some(c) } else { None }).collect()
    }
    pub fn kinds(&self) -> usize {
        let mut k = [0; 7];
        for e in &self.els {
            k[match *e {
                SE::Comp(_) => 0,
                SE::Wire(..) => 1,
                SE::Conn(..) => 2,
                SE::NoConn(..) => 3,
                SE::Text(_) => 4,
                SE::Other(_) => 5,
            }] = 1
        }
        if !self.sheets.is_empty() {
            k[6] = 1
        }
        k.iter().sum()
    }
}
