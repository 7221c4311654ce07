//! Model of symbol libraries.
use crate::engine::Src;
use crate::gen;
use crate::sch::{coord, just_from, just_to, lines, orient_to, raw, size, token, vertical, Lay, MField};
use kicad_parse_gen::symbol_lib as k;

#[derive(Clone, PartialEq, Debug)]
pub struct MPin {
    pub name: String,
    pub number: String,
    pub x: i64,
    pub y: i64,
    pub len: i64,
    pub orient: char,
    pub num_size: i64,
    pub name_size: i64,
    pub unit: i64,
    pub convert: i64,
    pub t: char,
    pub visible: bool,
    pub shape: &'static str,
}

pub const SHAPES: [&str; 9] = ["", "I", "C", "CI", "L", "CL", "V", "F", "X"];
pub const PTYPES: [char; 11] = ['I', 'O', 'B', 'T', 'P', 'U', 'W', 'w', 'C', 'E', 'N'];

impl MPin {
    pub fn gen(s: &mut Src) -> MPin {
        let grid = s.chance(2, 3);
        let c = |s: &mut Src| if grid { s.range(-20, 20) * 50 } else { coord(s) };
        MPin {
            name: if s.chance(1, 4) { s.pick(&["NC", "~", "nc1", "SYNC", "N_C", "Nc"]).to_string() } else { token(s) },
            number: token(s),
            x: c(s),
            y: c(s),
            len: match s.choice(4) {
                0 => s.range(-1, 8) * 50,
                1 => *s.pick(&[100, 300, 99, 301, 50, 350, 101, 299, 150, 125, -50]),
                _ => s.range(2, 6) * 50,
            },
            orient: *s.pick(&['U', 'D', 'L', 'R']),
            num_size: if s.bool() { 50 } else { size(s) },
            name_size: if s.bool() { 50 } else { size(s) },
            unit: s.range(0, 12),
            convert: s.range(0, 2),
            t: *s.pick(&PTYPES),
            visible: !s.chance(1, 3),
            shape: *s.pick(&SHAPES),
        }
    }
    pub fn line(&self, lay: &mut Lay) -> String {
        let n = |i: i64| i.to_string();
        let mut v = vec![
            "X".to_string(),
            self.name.clone(),
            self.number.clone(),
            n(self.x),
            n(self.y),
            n(self.len),
            self.orient.to_string(),
            n(self.num_size),
            n(self.name_size),
            n(self.unit),
            n(self.convert),
            self.t.to_string(),
        ];
        let sh = format!("{}{}", if self.visible { "" } else { "N" }, self.shape);
        if !sh.is_empty() {
            v.push(sh)
        }
        // the line is recognised by its first two characters
        let t = lay.join(&v[1..]);
        format!("X{}{}", lay.sp(), t)
    }
    pub fn from_lib(p: &k::Pin) -> MPin {
        MPin {
            name: p.name.clone(),
            number: p.number.clone(),
            x: p.x,
            y: p.y,
            len: p.len,
            orient: match p.orientation {
                k::PinOrientation::Up => 'U',
                k::PinOrientation::Down => 'D',
                k::PinOrientation::Left => 'L',
                k::PinOrientation::Right => 'R',
            },
            num_size: p.num_size,
            name_size: p.name_size,
            unit: p.unit,
            convert: p.convert,
            t: match p.pin_type {
                k::PinType::Input => 'I',
                k::PinType::Output => 'O',
                k::PinType::Bidi => 'B',
                k::PinType::Tristate => 'T',
                k::PinType::Passive => 'P',
                k::PinType::Unspecified => 'U',
                k::PinType::PowerInput => 'W',
                k::PinType::PowerOutput => 'w',
                k::PinType::OpenCollector => 'C',
                k::PinType::OpenEmitter => 'E',
                k::PinType::NotConnected => 'N',
            },
            visible: p.pin_visible,
            shape: match p.pin_shape {
                k::PinShape::Line => "",
                k::PinShape::Inverted => "I",
                k::PinShape::Clock => "C",
                k::PinShape::InvertedClock => "CI",
                k::PinShape::InputLow => "L",
                k::PinShape::ClockLow => "CL",
                k::PinShape::OutputLow => "V",
                k::PinShape::FallingEdgeClock => "F",
                k::PinShape::NonLogic => "X",
            },
        }
    }
    pub fn to_lib(&self) -> k::Pin {
        k::Pin {
            name: self.name.clone(),
            number: self.number.clone(),
            x: self.x,
            y: self.y,
            len: self.len,
            orientation: match self.orient {
                'U' => k::PinOrientation::Up,
                'D' => k::PinOrientation::Down,
                'L' => k::PinOrientation::Left,
                _ => k::PinOrientation::Right,
            },
            num_size: self.num_size,
            name_size: self.name_size,
            unit: self.unit,
            convert: self.convert,
            pin_type: match self.t {
                'I' => k::PinType::Input,
                'O' => k::PinType::Output,
                'B' => k::PinType::Bidi,
                'T' => k::PinType::Tristate,
                'P' => k::PinType::Passive,
                'U' => k::PinType::Unspecified,
                'W' => k::PinType::PowerInput,
                'w' => k::PinType::PowerOutput,
                'C' => k::PinType::OpenCollector,
                'E' => k::PinType::OpenEmitter,
                _ => k::PinType::NotConnected,
            },
            pin_visible: self.visible,
            pin_shape: match self.shape {
                "I" => k::PinShape::Inverted,
                "C" => k::PinShape::Clock,
                "CI" => k::PinShape::InvertedClock,
                "L" => k::PinShape::InputLow,
                "CL" => k::PinShape::ClockLow,
                "V" => k::PinShape::OutputLow,
                "F" => k::PinShape::FallingEdgeClock,
                "X" => k::PinShape::NonLogic,
                _ => k::PinShape::Line,
            },
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MRect {
    pub c: [i64; 4],
    pub unit: i64,
    pub convert: i64,
    pub thickness: i64,
    pub fill: char,
}

impl MRect {
    pub fn gen(s: &mut Src) -> MRect {
        MRect {
            c: [coord(s), coord(s), coord(s), coord(s)],
            unit: s.range(0, 12),
            convert: s.range(0, 2),
            thickness: if s.bool() { 10 } else { *s.pick(&[0, 6, 9, 11, 100, -10]) },
            fill: *s.pick(&['f', 'F', 'N']),
        }
    }
    pub fn line(&self, lay: &mut Lay) -> String {
        let n = |i: i64| i.to_string();
        let v = [
            n(self.c[0]),
            n(self.c[1]),
            n(self.c[2]),
            n(self.c[3]),
            n(self.unit),
            n(self.convert),
            n(self.thickness),
            self.fill.to_string(),
        ];
        let t = lay.join(&v);
        format!("S{}{}", lay.sp(), t)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum MDraw {
    Pin(MPin),
    Rect(MRect),
    Other(String),
}

impl MDraw {
    pub fn gen(s: &mut Src) -> MDraw {
        match s.choice(6) {
            0 | 1 | 2 => MDraw::Pin(MPin::gen(s)),
            3 | 4 => MDraw::Rect(MRect::gen(s)),
            _ => MDraw::Other(match s.choice(3) {
                0 => s
                    .pick(&[
                        "P 2 0 1 0 0 100 0 50 N", "A 0 0 51 1 889 0 1 0 N 1 50 50 0", "C 0 0 100 0 1 0 N",
                        "T 0 0 0 50 0 0 0 text Normal 0 C C", "", "X", "S", "XY 1", "ENDDRAWX", "ENDDEF", "DRAW", " X a", "#", "\tS 1 2",
                        "F0 \"a\" 1 2", "ALIAS a",
                    ])
                    .to_string(),
                _ => {
                    let t = raw(s);
                    if t.starts_with("X ") || t.starts_with("S ") || t == "ENDDRAW" { format!("B{}", t) } else { t }
                }
            }),
        }
    }
    fn line(&self, lay: &mut Lay) -> String {
        match *self {
            MDraw::Pin(ref p) => p.line(lay),
            MDraw::Rect(ref r) => r.line(lay),
            MDraw::Other(ref t) => t.clone(),
        }
    }
    pub fn from_lib(d: &k::Draw) -> MDraw {
        match *d {
            k::Draw::Pin(ref p) => MDraw::Pin(MPin::from_lib(p)),
            k::Draw::Rectangle(ref r) => MDraw::Rect(MRect {
                c: [r.x1, r.y1, r.x2, r.y2],
                unit: r.unit,
                convert: r.convert,
                thickness: r.thickness,
                fill: match r.fill {
                    k::Fill::FilledForeground => 'F',
                    k::Fill::FilledBackground => 'f',
                    k::Fill::Transparent => 'N',
                },
            }),
            k::Draw::Other(ref t) => MDraw::Other(t.clone()),
        }
    }
    pub fn to_lib(&self) -> k::Draw {
        match *self {
            MDraw::Pin(ref p) => k::Draw::Pin(p.to_lib()),
            MDraw::Rect(ref r) => k::Draw::Rectangle(k::Rectangle {
                x1: r.c[0],
                y1: r.c[1],
                x2: r.c[2],
                y2: r.c[3],
                unit: r.unit,
                convert: r.convert,
                thickness: r.thickness,
                fill: match r.fill {
                    'F' => k::Fill::FilledForeground,
                    'f' => k::Fill::FilledBackground,
                    _ => k::Fill::Transparent,
                },
            }),
            MDraw::Other(ref t) => k::Draw::Other(t.clone()),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSym {
    pub name: String,
    pub reference: String,
    pub offset: f64,
    pub numbers: bool,
    pub names: bool,
    pub units: i64,
    pub locked: bool,
    pub power: bool,
    pub fields: Vec<MField>,
    pub aliases: Vec<String>,
    pub filters: Vec<String>,
    pub draw: Vec<MDraw>,
}

pub fn sym_field_from(f: &k::Field) -> MField {
    MField {
        i: f.i,
        value: f.value.clone(),
        vertical: vertical(&f.orientation),
        x: f.x,
        y: f.y,
        size: f.dimension,
        visible: f.visible,
        h: just_from(&f.hjustify),
        v: just_from(&f.vjustify),
        italic: f.italic,
        bold: f.bold,
        name: f.name.clone(),
    }
}

pub fn sym_field_to(f: &MField) -> k::Field {
    k::Field {
        i: f.i,
        value: f.value.clone(),
        x: f.x,
        y: f.y,
        dimension: f.size,
        orientation: orient_to(f.vertical),
        visible: f.visible,
        hjustify: just_to(f.h),
        vjustify: just_to(f.v),
        italic: f.italic,
        bold: f.bold,
        name: f.name.clone(),
    }
}

impl MSym {
    pub fn gen(s: &mut Src) -> MSym {
        let (max, cont) = match s.choice(10) {
            9 => (60, 30),
            0 | 1 => (1, 1),
            _ => (8, 3),
        };
        MSym {
            name: if s.chance(1, 4) { s.pick(&["L", "R", "C", "D", "~R", "~", "RR", "~~x"]).to_string() } else { token(s) },
            reference: if s.chance(1, 2) { s.pick(&["#PWR", "#FLG", "#", "U", "R", "#PWR01", "PWR", "#LOGO"]).to_string() } else { token(s) },
            offset: if s.chance(1, 4) { gen::num(s) } else { coord(s) as f64 },
            numbers: s.bool(),
            names: s.bool(),
            units: s.range(0, 12),
            locked: s.bool(),
            power: s.bool(),
            fields: MField::list(s),
            aliases: s.list(12, 1, token),
            filters: s.list(12, 1, |s| {
                let t = if s.chance(1, 3) {
                    s.pick(&["R_*", "SOIC*", "DIP*W7.62mm*", "a b", "#", "DRAW", "ALIAS x", "$FPLIST"]).to_string()
                } else {
                    token(s)
                };
                // the line that ends the list
                if t == "$ENDFPLIST" { "x".into() } else { t }
            }),
            draw: s.list(max, cont, MDraw::gen),
        }
    }
    fn out(&self, lay: &mut Lay, o: &mut Vec<String>) {
        let title = match self.fields.get(1) {
            Some(f) => f.value.clone(),
            None => self.name.clone(),
        };
        if lay.yes(10) {
            o.push("# something else".into())
        } else {
            o.push(format!("# {}", title))
        }
        o.push("#".into());
        let yn = |b: bool| if b { "Y" } else { "N" }.to_string();
        let d = [
            "DEF".to_string(),
            self.name.clone(),
            self.reference.clone(),
            "0".into(),
            self.offset.to_string(),
            yn(self.numbers),
            yn(self.names),
            self.units.to_string(),
            if self.locked { "L" } else { "F" }.into(),
            if self.power { "P" } else { "N" }.into(),
        ];
        o.push(lay.join(&d));
        for f in &self.fields {
            o.push(f.sym_line(lay))
        }
        let mut a = vec![];
        if !self.aliases.is_empty() {
            let mut v = vec!["ALIAS".to_string()];
            v.extend(self.aliases.clone());
            a.push(lay.join(&v))
        }
        let mut f = vec![];
        if !self.filters.is_empty() || lay.yes(12) {
            f.push("$FPLIST".to_string());
            for x in &self.filters {
                let lead = if lay.yes(4) { "" } else { " " };
                f.push(format!("{}{}", lead, x))
            }
            f.push("$ENDFPLIST".to_string());
        }
        // the library also takes the aliases after the filters
        if lay.yes(8) {
            std::mem::swap(&mut a, &mut f)
        }
        o.extend(a);
        o.extend(f);
        o.push("DRAW".into());
        for d in &self.draw {
            o.push(d.line(lay))
        }
        o.push("ENDDRAW".into());
        o.push("ENDDEF".into());
        o.push("#".into());
    }
    pub fn from_lib(s: &k::Symbol) -> MSym {
        MSym {
            name: s.name.clone(),
            reference: s.reference.clone(),
            offset: s.text_offset,
            numbers: s.draw_pinnumber,
            names: s.draw_pinname,
            units: s.unit_count,
            locked: s.unit_locked,
            power: s.is_power,
            fields: s.fields.iter().map(sym_field_from).collect(),
            aliases: s.aliases.clone(),
            filters: s.footprint_filters.clone(),
            draw: s.draw.iter().map(MDraw::from_lib).collect(),
        }
    }
    pub fn to_lib(&self) -> k::Symbol {
        k::Symbol {
            name: self.name.clone(),
            reference: self.reference.clone(),
            text_offset: self.offset,
            draw_pinnumber: self.numbers,
            draw_pinname: self.names,
            unit_count: self.units,
            unit_locked: self.locked,
            is_power: self.power,
            fields: self.fields.iter().map(sym_field_to).collect(),
            aliases: self.aliases.clone(),
            footprint_filters: self.filters.clone(),
            draw: self.draw.iter().map(|d| d.to_lib()).collect(),
        }
    }
    pub fn pins(&self) -> Vec<&MPin> {
        self.draw.iter().filter_map(|d| if let MDraw::Pin(ref p) = *d { Some(p) } else { None }).collect()
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSymLib {
    pub syms: Vec<MSym>,
}

impl MSymLib {
    pub fn gen(s: &mut Src) -> MSymLib {
        let (max, cont) = match s.choice(20) {
            19 => (25, 12),
            0..=3 => (1, 3),
            _ => (5, 2),
        };
        MSymLib { syms: s.list(max, cont, MSym::gen) }
    }
    fn out(&self, lay: &mut Lay) -> String {
        let mut o: Vec<String> = vec!["EESchema-LIBRARY Version 2.3".into(), "#encoding utf-8".into(), "#".into()];
        for s in &self.syms {
            s.out(lay, &mut o)
        }
        o.push("#End Library".into());
        lines(lay, &o)
    }
    pub fn canon(&self) -> String {
        self.out(&mut Lay::Canon)
    }
    pub fn doc(&self, src: &mut Src) -> String {
        self.out(&mut Lay::Doc(src))
    }
    pub fn from_lib(l: &k::SymbolLib) -> MSymLib {
        MSymLib { syms: l.symbols.iter().map(MSym::from_lib).collect() }
    }
    pub fn to_lib(&self) -> k::SymbolLib {
        k::SymbolLib { symbols: self.syms.iter().map(|s| s.to_lib()).collect() }
    }
}
