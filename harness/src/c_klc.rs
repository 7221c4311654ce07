//! C25 - C27: the library convention.
use crate::c_geo::{slack, mod_at, mod_box, part, regular};
use crate::c_line::parse_symlib;
use crate::c_sexp::{parse_module, write_module};
use crate::engine::*;
use crate::fp::*;
use crate::gen;
use crate::sch::Lay;
use crate::sym::{MDraw, MPin, MSym, MSymLib};
use kicad_parse_gen::checkfix::{allowed_1_7_items, is_allowed_1_7, CheckFix, CheckFixData, Config, KLCSection, ModConfig, SymConfig};

/// section, rule, item, message, informational
pub type Found = (i64, i64, String, String, bool);

fn flat(l: &[CheckFixData], out: &mut Vec<Found>) {
    for d in l {
        match *d {
            CheckFixData::Item(ref i) => out.push((i.section, i.rule, i.item.clone(), i.message.clone(), i.info)),
            CheckFixData::More(ref v) => flat(v, out),
        }
    }
}

/// the same findings, each as often, in any order
fn same_report(sig: &str, want: &[Found], got: &[CheckFixData]) -> Result<(), Fail> {
    let mut g = vec![];
    flat(got, &mut g);
    let mut w = want.to_vec();
    w.sort();
    g.sort();
    if w == g {
        return Ok(());
    }
    let mut missing = w.clone();
    let mut extra = vec![];
    for x in g {
        match missing.iter().position(|y| *y == x) {
            Some(i) => {
                missing.remove(i);
            }
            None => extra.push(x),
        }
    }
    fail(sig, format!("not reported: {:?}, reported without reason: {:?}", missing, extra))
}

pub fn config(size: f64, thickness: f64) -> Config {
    Config { name: "test".into(), s: SymConfig {}, m: ModConfig { font_size: size, font_thickness: thickness } }
}

fn differ(a: f64, b: f64) -> bool {
    (a - b).abs() > 1e-9
}

fn on(l: &MLayer, t: &str) -> bool {
    l.t == t && !l.other
}

fn first<'a>(m: &'a MModule, n: &str) -> Option<&'a MText> {
    m.els.iter().filter_map(|e| if let E::Text(ref t) = *e { Some(t) } else { None }).find(|t| t.name == n)
}

/// pads in holes, pads on the surface
fn pad_kinds(m: &MModule) -> (usize, usize) {
    let n = |t: &str| m.els.iter().filter(|e| matches!(**e, E::Pad(ref p) if p.t == t)).count();
    (n("thru_hole"), n("smd"))
}

fn courtyard(m: &MModule) -> usize {
    m.els.iter().filter(|e| matches!(**e, E::Line { ref layer, .. } if on(layer, "CrtYd"))).count()
}

fn smd(m: &MModule) -> bool {
    m.els.iter().any(|e| matches!(*e, E::Attr(ref a) if a == "smd"))
}

/// the rules a footprint breaks
pub fn module_report(m: &MModule, size: f64, thick: f64) -> Vec<Found> {
    let mut v: Vec<Found> = vec![];
    {
        let mut add = |s, r, t: &str, info| v.push((s, r, m.name.clone(), t.to_string(), info));
        for &(what, role, content, layer, missing) in &[
            ("reference", "reference", "REF**", "SilkS", (7, 3)),
            ("value", "value", m.name.as_str(), "Fab", (7, 4)),
            ("reference 2", "user", "%R", "Fab", (7, 4)),
        ] {
            let t = match first(m, role) {
                Some(t) => t,
                None => {
                    add(missing.0, missing.1, &format!("{} missing", what), false);
                    continue;
                }
            };
            let (a, b) = missing;
            if t.value != content {
                if role == "value" {
                    add(a, b, "value text has to match footprint name", false)
                } else {
                    add(a, b, &format!("{} should be {}", what, content), false)
                }
            }
            if !on(&t.layer, layer) {
                if role == "value" {
                    add(a, b, "value text has to be on Fab layer", false)
                } else {
                    add(a, b, &format!("{} should be on {} layertype", what, layer), false)
                }
            }
            if t.hide && role == "reference" {
                add(a, b, "reference should not be hidden", false)
            }
            if t.hide && role == "value" {
                add(a, b, "value text should not be hidden", false)
            }
            if role != "value" && differ(t.effects.sx, t.effects.sy) {
                add(a, b, &format!("{} label font aspect ratio should be 1:1", what), false)
            }
            if differ(t.effects.sy, size) {
                add(7, 3, &format!("{} label should have height {}", what, size), true)
            }
            if differ(t.effects.sx, size) {
                add(7, 3, &format!("{} label should have width {}", what, size), true)
            }
            if differ(t.effects.thickness, thick) {
                add(7, 3, &format!("{} label thickness should be {}", what, thick), true)
            }
        }
        if courtyard(m) < 4 {
            add(7, 5, "missing courtyard on CrtYd layer", false)
        }
        let (holes, surface) = pad_kinds(m);
        let text = "SMD components need to have placement Smd (Normal+Insert in Properties)";
        if holes == 0 && surface > 0 && !smd(m) {
            add(8, 1, text, false)
        }
        if holes > 0 && surface == 0 && smd(m) {
            add(9, 1, text, false)
        }
    }
    v
}

fn label(src: &mut Src, role: &str, value: &str, layer: &str, size: f64, thick: f64) -> MText {
    let mut t = MText::gen(src);
    t.name = role.into();
    t.value = value.into();
    t.layer = MLayer::new(*src.pick(&["F", "B"]), layer);
    t.hide = false;
    t.effects.sx = size;
    t.effects.sy = size;
    t.effects.thickness = thick;
    t
}

/// a footprint that keeps the convention
fn good_module(src: &mut Src, size: f64, thick: f64) -> MModule {
    let mut m = MModule::gen_sized(src, 6, 2);
    if src.chance(1, 4) {
        m.name = src.pick(&["BGA-64", "SOIC-8", "BGA", "xBGA", "bga"]).to_string()
    }
    let name = m.name.clone();
    let kind = src.choice(4);
    for e in &mut m.els {
        match *e {
            E::Pad(ref mut p) => {
                if kind == 0 && p.t == "smd" {
                    p.t = "thru_hole"
                } else if kind == 1 && p.t == "thru_hole" {
                    p.t = "smd"
                }
            }
            E::Attr(ref mut a) => *a = if kind == 0 { "virtual".into() } else { "smd".into() },
            _ => (),
        }
    }
    let (h, s) = pad_kinds(&m);
    if h == 0 && s > 0 && !smd(&m) {
        m.els.push(E::Attr("smd".into()))
    }
    if h > 0 && s == 0 {
        for e in &mut m.els {
            if let E::Attr(ref mut a) = *e {
                *a = "virtual".into()
            }
        }
    }
    m.els.retain(|e| !matches!(*e, E::Text(ref t) if ["reference", "value", "user"].contains(&t.name.as_str())));
    let mut add = vec![
        E::Text(label(src, "reference", "REF**", "SilkS", size, thick)),
        E::Text(label(src, "value", &name, "Fab", size, thick)),
        E::Text(label(src, "user", "%R", "Fab", size, thick)),
    ];
    for _ in 0..4 + src.choice(2) {
        add.push(E::Line { start: MXy::gen(src, "start"), end: MXy::gen(src, "end"), layer: MLayer::new("F", "CrtYd"), width: 0.05 })
    }
    for e in add {
        let i = src.choice(m.els.len() as u64 + 1) as usize;
        m.els.insert(i, e);
    }
    m
}

fn worsen(src: &mut Src, m: &mut MModule) {
    if m.els.is_empty() {
        return;
    }
    let i = src.choice(m.els.len() as u64) as usize;
    match src.choice(5) {
        0 => {
            m.els.remove(i);
        }
        1 => {
            let e = E::gen(src);
            m.els.insert(i, e)
        }
        _ => {
            let l: Vec<usize> = (0..m.els.len()).filter(|i| matches!(m.els[*i], E::Text(_) | E::Line { .. } | E::Pad(_) | E::Attr(_))).collect();
            if l.is_empty() {
                return;
            }
            let i = l[src.choice(l.len() as u64) as usize];
            match m.els[i] {
                E::Text(ref mut t) => match src.choice(8) {
                    0 => t.value = src.pick(&["R1", "%R", "REF**", "", "REF*", "%r"]).to_string(),
                    1 => t.layer = MLayer::gen(src),
                    2 => t.hide = true,
                    3 => t.effects.sx = near(src, t.effects.sx),
                    4 => t.effects.sy = near(src, t.effects.sy),
                    5 => t.effects.thickness = near(src, t.effects.thickness),
                    6 => t.layer = MLayer::new("F", *src.pick(&["SilkS", "Fab"])),
                    _ => t.name = src.pick(&["reference", "value", "user"]).to_string(),
                },
                E::Line { ref mut layer, .. } => *layer = MLayer::gen(src),
                E::Pad(ref mut p) => p.t = *src.pick(&["smd", "thru_hole", "np_thru_hole"]),
                E::Attr(ref mut a) => *a = src.pick(&["smd", "virtual", "SMD", ""]).to_string(),
                _ => (),
            }
        }
    }
}

fn near(src: &mut Src, x: f64) -> f64 {
    let d = *src.pick(&[0.05, 0.000001, -0.000001, 0.5, -0.1]);
    let y = ((x + d) * 1e6).round() / 1e6;
    if y < 0.0 { 0.0 } else { y }
}

fn settings(src: &mut Src) -> (f64, f64) {
    if src.bool() { (1.0, 0.15) } else { (*src.pick(&[1.0, 0.8, 0.5, 1.27, 0.000001]), *src.pick(&[0.15, 0.12, 0.2, 1.0])) }
}

fn any_module(src: &mut Src, size: f64, thick: f64) -> MModule {
    let mut m = match src.choice(5) {
        0 => MModule::gen(src),
        _ => {
            let mut m = good_module(src, size, thick);
            for _ in 0..src.choice(5) {
                worsen(src, &mut m)
            }
            m
        }
    };
    // names near a block prefix matter for the courtyard
    if src.chance(1, 8) {
        m.name = src.pick(&["BGA-64", "SOIC-8", "BGA", "xBGA", "bga"]).to_string()
    }
    m
}

pub fn c25(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (size, thick) = settings(src);
    let m = any_module(src, size, thick);
    let v = part(src, cx, &m)?;
    cx.case(&format!("size {} thickness {}", size, thick));
    let want = module_report(&m, size, thick);
    cx.nontrivial(want.len() < 6 && first(&m, "reference").is_some());
    cx.tag(if want.is_empty() { "conforming" } else { "breaking" });
    let got = no_panic("check", || v.check(&config(size, thick)))?;
    same_report("report", &want, &got)?;
    ensure!(MModule::from_lib(&v) == m, "report:changed", "checking changed the footprint");
    if (size, thick) == (1.0, 0.15) {
        same_report("report:klc", &want, &no_panic("check", || v.check(&Config::klc()))?)?;
    }
    flatter(&want, got)?;
    let (i, t) = *src.pick(SECTIONS);
    let n: i64 = section(i).into();
    ensure!(n == i && section(i).to_string() == t, "report:section", "section {} is {} {}", i, n, section(i));
    Ok(())
}

const SECTIONS: &[(i64, &str)] = &[
    (1, "General Rules"),
    (2, "Symbol Library Names"),
    (3, "Symbol Names"),
    (4, "General Rules for Symbols"),
    (5, "Footprint Library Names"),
    (6, "Footprint Names"),
    (7, "General Rules for Footprints"),
    (8, "Rules for SMD Footprints"),
    (9, "Rules for Through-hole Footprints"),
    (10, "Footprint Properties"),
];

fn section(i: i64) -> KLCSection {
    match i {
        1 => KLCSection::General,
        2 => KLCSection::SymbolLibraryNames,
        3 => KLCSection::SymbolNames,
        4 => KLCSection::SymbolRules,
        5 => KLCSection::FootprintLibraryNames,
        6 => KLCSection::FootprintNames,
        7 => KLCSection::FootprintRules,
        8 => KLCSection::SMDRules,
        9 => KLCSection::THTRules,
        _ => KLCSection::FootprintProperties,
    }
}

/// a report of several findings in one, which is itself a finding if there is one only
fn flatter(want: &[Found], got: Vec<CheckFixData>) -> Result<(), Fail> {
    let n = got.len();
    let f = no_panic("flatter", || CheckFixData::More(got).flatter())?;
    ensure!(n != 1 || want.len() != 1 || matches!(f, CheckFixData::Item(_)), "report:flatter", "one finding stays a list");
    let f = no_panic("flatter", || f.flatter())?;
    same_report("report:flatter", want, &[f])
}

fn rect_sides(r: [f64; 4]) -> Vec<[f64; 4]> {
    vec![[r[0], r[1], r[2], r[1]], [r[2], r[1], r[2], r[3]], [r[2], r[3], r[0], r[3]], [r[0], r[3], r[0], r[1]]]
}

pub fn c27(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let (size, thick) = settings(src);
    let mut m = any_module(src, size, thick);
    m.els.iter_mut().for_each(regular);
    if src.bool() {
        // small parts
        for e in &mut m.els {
            if let E::Pad(ref mut p) = *e {
                p.at.x = src.range(-20, 20) as f64 / 10.0;
                p.at.y = src.range(-20, 20) as f64 / 10.0;
                p.size.x = src.range(0, 20) as f64 / 10.0;
                p.size.y = src.range(0, 20) as f64 / 10.0;
            }
        }
    }
    if src.bool() {
        m.els.retain(|e| !matches!(*e, E::Line { ref layer, .. } if on(layer, "CrtYd")))
    }
    let mut v = part(src, cx, &m)?;
    cx.case(&format!("size {} thickness {}", size, thick));
    let before = module_report(&m, size, thick);
    cx.nontrivial(!before.is_empty() && m.structured() >= 2);
    let c = config(size, thick);
    no_panic("fix", || v.fix(&c))?;
    let got = MModule::from_lib(&v);
    ensure!(got.name == m.name, "fix:name", "{:?} became {:?}", m.name, got.name);
    let n = m.els.len();
    ensure!(got.els.len() >= n, "fix:lost", "{} elements became {}", n, got.els.len());
    // what was there stays there, but for the three texts
    let place = |role: &str| m.els.iter().position(|e| matches!(*e, E::Text(ref t) if t.name == role));
    for i in 0..n {
        let mut want = m.els[i].clone();
        if let E::Text(ref mut t) = want {
            let k = ["reference", "value", "user"].iter().position(|r| place(r) == Some(i));
            if let Some(k) = k {
                t.value = [String::from("REF**"), m.name.clone(), String::from("%R")][k].clone();
                let l = ["SilkS", "Fab", "Fab"][k];
                t.layer.t = l.into();
                t.layer.other = false;
                t.hide = false;
                t.effects.sx = size;
                t.effects.sy = size;
                t.effects.thickness = thick;
            }
        }
        ensure!(want == got.els[i], "fix:element", "{}", debug_diff(&want, &got.els[i]));
    }
    // additions: the second reference, the attribute, the courtyard
    let (mut texts, mut attrs, mut lines) = (0, 0, vec![]);
    for e in &got.els[n..] {
        match *e {
            E::Text(ref t) if t.name == "user" => {
                texts += 1;
                let want = MText {
                    name: "user".into(),
                    value: "%R".into(),
                    at: MAt { x: 0.0, y: 0.0, rot: 0.0 },
                    layer: MLayer::new("F", "Fab"),
                    hide: false,
                    effects: MEffects { sx: size, sy: size, thickness: thick, italic: false, side: "", mirror: false },
                };
                ensure!(*t == want, "fix:second", "{}", debug_diff(&want, t));
            }
            E::Attr(ref a) if a == "smd" => attrs += 1,
            E::Line { ref start, ref end, ref layer, width } if on(layer, "CrtYd") => {
                ensure!(layer.side == "F" && width == 0.05, "fix:line", "courtyard line on {:?}, {} wide", layer, width);
                lines.push([start.x, start.y, end.x, end.y])
            }
            _ => return fail("fix:added", format!("added {:?}", e)),
        }
    }
    let (h, s) = pad_kinds(&m);
    let want = (place("user").is_none() as usize, (h == 0 && s > 0 && !smd(&m)) as usize, if courtyard(&m) < 4 { 4 } else { 0 });
    ensure!((texts, attrs, lines.len()) == want, "fix:added", "added {:?} texts, attributes, lines; expected {:?}", (texts, attrs, lines.len()), want);
    if !lines.is_empty() {
        let (x, y) = mod_at(&m);
        let b = mod_box(&m).unwrap();
        let (w, ht) = (b[2] - b[0], b[3] - b[1]);
        let big = if m.name.starts_with("BGA") { 0.1 } else { 0.25 };
        let mut distances = vec![];
        if w < 2.0 + 1e-6 && ht < 2.0 + 1e-6 {
            distances.push(0.15)
        }
        if w > 2.0 - 1e-6 || ht > 2.0 - 1e-6 {
            distances.push(big)
        }
        let close = |p: f64, q: f64| (p - q).abs() <= 4.0 * slack(&b);
        let ok = distances.iter().any(|d| {
            let mut sides = rect_sides([b[0] - x - d, b[1] - y - d, b[2] - x + d, b[3] - y + d]);
            for l in &lines {
                let r = [l[2], l[3], l[0], l[1]];
                let k = sides.iter().position(|s| (0..4).all(|i| close(s[i], l[i])) || (0..4).all(|i| close(s[i], r[i])));
                match k {
                    Some(k) => {
                        sides.remove(k);
                    }
                    None => return false,
                }
            }
            true
        });
        ensure!(ok, "fix:courtyard", "courtyard {:?} around {:?} at {:?}", lines, b, (x, y));
    }
    // what is left
    let allowed = |f: &Found| f.3 == "reference missing" || f.3 == "value missing" || (f.0, f.1) == (9, 1);
    let left: Vec<Found> = before.into_iter().filter(|f| allowed(f)).collect();
    same_report("fix:left", &left, &no_panic("check", || v.check(&c))?)?;
    let w = module_report(&got, size, thick);
    ensure!(w == left, "fix:left", "still breaks {:?}", w);
    // again
    no_panic("fix", || v.fix(&c))?;
    let again = MModule::from_lib(&v);
    ensure!(again == got, "fix:again", "{}", debug_diff(&got, &again));
    let back = MModule::from_lib(&parse_module(&write_module(&v, 0)?)?);
    ensure!(back == got, "fix:reread", "{}", debug_diff(&got, &back));
    Ok(())
}

fn name_report(name: &str) -> Vec<Found> {
    let mut v: Vec<Found> = vec![];
    for (i, c) in name.chars().enumerate() {
        let ok = c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.';
        if !ok {
            v.push((1, 7, name.into(), format!("Invalid char '{}' at {} in '{}'", c, i, name), false))
        }
    }
    v
}

/// the rules a symbol breaks
pub fn symbol_report(m: &MSym) -> Vec<Found> {
    let mut v = name_report(m.name.strip_prefix('~').unwrap_or(&m.name));
    let pins = m.pins().len();
    let power = m.reference == "#PWR" && pins == 1;
    let graphics = m.reference.starts_with('#') && pins == 0;
    for f in &m.fields {
        if f.size != 50 {
            v.push((4, 8, f.sym_line(&mut Lay::Canon), "field text is not 50mil".into(), false))
        }
        let text = match (f.i, f.visible) {
            (0, true) if graphics => "reference field should be invisible for graphics",
            (0, false) if !graphics && !power => "reference field should be visible for normal symbols",
            (1, true) if graphics => "value field should be invisible for graphics",
            (1, true) if power => "value field should be invisible for power",
            (1, false) if !graphics && !power => "value field should be visible for normal symbols",
            (2, true) => "Footprint field should be invisible",
            (3, true) => "Datasheet field should be invisible",
            _ => continue,
        };
        v.push((4, 9, m.name.clone(), text.into(), false))
    }
    if power || graphics {
        return v;
    }
    for d in &m.draw {
        match *d {
            MDraw::Pin(ref p) => {
                let item = format!("{}:{}", p.name, p.number);
                let mut add = |r, t: &str, info| v.push((4, r, item.clone(), t.to_string(), info));
                if p.x.rem_euclid(100) != 0 {
                    add(1, "pin x not on 100mil grid", false)
                }
                if p.y.rem_euclid(100) != 0 {
                    add(1, "pin y not on 100mil grid", false)
                }
                if p.len.rem_euclid(50) != 0 {
                    add(1, "pin length not on 50mil grid", false)
                }
                if p.len < 100 {
                    add(1, "pin length < 100mil", true)
                }
                if p.len > 300 {
                    add(1, "pin length > 300mil", true)
                }
                let nc = p.t == 'N';
                if p.name.to_lowercase().contains("nc") && !nc {
                    add(7, "Pin should be of type Not Connected", false)
                }
                if nc && p.visible {
                    add(7, "Pin should be invisible", false)
                }
                if !nc && !p.visible {
                    add(7, "Pin should be visible", false)
                }
                if p.num_size != 50 {
                    add(8, "Pin Number should be 50mil", false)
                }
                if p.name_size != 50 {
                    add(8, "Pin Name should be 50mil", false)
                }
            }
            MDraw::Rect(ref r) => {
                let item = r.line(&mut Lay::Canon);
                if r.fill != 'f' {
                    v.push((4, 2, item.clone(), "Rectangle is not filled".into(), false))
                }
                if r.thickness != 10 {
                    v.push((4, 2, item, "Rectangle is not using a 10mil line".into(), false))
                }
            }
            MDraw::Other(_) => (),
        }
    }
    v
}

/// mostly conforming
fn tidy(src: &mut Src, m: &mut MSym) {
    m.name = src.pick(&["R", "LM358", "~GND", "74HC00", "a_b-c.d", "LM358A", "~x"]).to_string();
    if src.chance(1, 6) {
        m.name.push(*src.pick(&[' ', '/', '~', 'é', '+', '*', 'Z', '\u{ff21}', '[', '@', '`', '{', ':']))
    }
    match src.choice(4) {
        0 => {
            // power
            m.reference = src.pick(&["#PWR", "#PWR", "#PWR0", "PWR", "#FLG"]).to_string();
            m.draw.retain(|d| !matches!(*d, MDraw::Pin(_)));
            let n = *src.pick(&[1, 1, 1, 2, 0]);
            for _ in 0..n {
                m.draw.push(MDraw::Pin(MPin::gen(src)))
            }
        }
        1 => {
            m.reference = src.pick(&["#LOGO", "#", "#PWR", "LOGO", "G#"]).to_string();
            if !src.chance(1, 4) {
                m.draw.retain(|d| !matches!(*d, MDraw::Pin(_)))
            }
        }
        _ => m.reference = src.pick(&["U", "R", "PWR"]).to_string(),
    }
    let pins = m.pins().len();
    let graphics = m.reference.starts_with('#') && pins == 0;
    let power = m.reference == "#PWR" && pins == 1;
    for f in &mut m.fields {
        if src.chance(7, 8) {
            f.size = 50
        }
        if src.chance(7, 8) {
            f.visible = f.i < 2 && !graphics && !(power)
        }
    }
    for d in &mut m.draw {
        match *d {
            MDraw::Pin(ref mut p) => {
                tidy_pin(src, p);
            }
            MDraw::Rect(ref mut r) => {
                if src.chance(3, 4) {
                    r.fill = 'f'
                }
                if src.chance(3, 4) {
                    r.thickness = 10
                }
            }
            _ => (),
        }
    }
}

fn tidy_pin(src: &mut Src, p: &mut MPin) {
    let mut keep = |p: &mut MPin, f: &dyn Fn(&mut MPin)| {
        if src.chance(9, 10) {
            f(p)
        }
    };
    keep(p, &|p| p.x = p.x / 100 * 100);
    keep(p, &|p| p.y = p.y / 100 * 100);
    keep(p, &|p| p.len = (p.len / 50 * 50).max(100).min(300));
    keep(p, &|p| p.num_size = 50);
    keep(p, &|p| p.name_size = 50);
    keep(p, &|p| {
        if p.name.to_lowercase().contains("nc") {
            p.t = 'N'
        }
    });
    keep(p, &|p| p.visible = p.t != 'N');
}

pub fn c26(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MSym::gen(src);
    if src.chance(4, 5) {
        tidy(src, &mut m)
    }
    let lib = MSymLib { syms: vec![m.clone()] };
    let v = if m.name.contains(char::is_whitespace) || src.chance(1, 3) { lib.to_lib() } else { parse_symlib(&lib.doc(src))? };
    cx.case(&lib.canon());
    let want = symbol_report(&m);
    cx.nontrivial(want.len() < 6);
    cx.tag(if want.is_empty() { "conforming" } else { "breaking" });
    let got = no_panic("check", || v.symbols[0].check(&Config::klc()))?;
    same_report("report", &want, &got)?;
    ensure!(MSymLib::from_lib(&v) == lib, "report:changed", "checking changed the symbol");
    // parts on their own
    let t = gen::text(src);
    let ok = t.chars().all(|c| c.is_ascii_alphanumeric() || "_-.".contains(c));
    ensure!(is_allowed_1_7(&t) == ok, "report:name", "{:?} allowed: {}", t, !ok);
    same_report("report:name", &name_report(&t), &no_panic("allowed_1_7_items", || allowed_1_7_items(&t))?)?;
    flatter(&want, got)?;
    Ok(())
}

