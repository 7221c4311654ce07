//! C11, C12: hostile and foreign input.
use crate::c_sexp::MTable;
use crate::engine::*;
use crate::fp::*;
use crate::gen::{self, Mode};
use crate::ly::{MLayout, LE};
use crate::sch::MSch;
use crate::sx::{self, N};
use crate::sym::MSymLib;
use kicad_parse_gen as k;
use kicad_parse_gen::checkfix::{CheckFix, Config};
use kicad_parse_gen::BoundingBox;
use std::fs;

const MARK: &str = "zq7x";
const NUMBER: i64 = 9876543;

/// the lists of a tree, as paths
fn lists(n: &N, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let N::L(ref v) = *n {
        out.push(at.clone());
        for (i, x) in v.iter().enumerate() {
            at.push(i);
            lists(x, at, out);
            at.pop();
        }
    }
}

fn at<'a>(n: &'a mut N, p: &[usize]) -> &'a mut Vec<N> {
    match *n {
        N::L(ref mut v) => match p.split_first() {
            None => v,
            Some((i, rest)) => at(&mut v[*i], rest),
        },
        _ => unreachable!(),
    }
}

const HEADS: &[&str] = &[
    "at", "layer", "layers", "effects", "font", "size", "drill", "net", "width", "start", "end", "pts", "xy", "hide", "locked", "uri", "name", "thickness", "justify", "offset",
    "filled_polygon", "keepout", "descr", "tags", "x", "zq7x",
];

/// names other versions of the formats know
const LATER: &[&str] = &[
    "title_block", "roundrect_rratio", "chamfer", "thermal_width", "solder_paste_ratio", "solder_paste_margin_ratio", "autoplace_cost90", "autoplace_cost180", "zone_connect", "zone_45_only",
    "target", "options", "primitives", "uuid", "property", "generator", "paper", "stackup", "gr_poly", "gr_curve", "gr_rect", "fp_rect", "arc", "group", "teardrops", "island", "hatch_thickness",
    "filled_areas_thickness", "status", "locked", "comment", "company", "rev", "date", "title", "disabled", "hidden", "curved_edges", "via_min_size", "footprint", "attr", "model", "path",
];

/// an item with a part that occurs nowhere else
fn marked(src: &mut Src) -> (N, String) {
    let num = NUMBER.to_string();
    match src.choice(11) {
        8 => {
            let w = if src.bool() { gen::dict_word(src) } else { src.pick(LATER).to_string() };
            (sx::l(&w, vec![sx::s(MARK)]), MARK.into())
        }
        9 => {
            let w = if src.bool() { gen::dict_word(src) } else { src.pick(LATER).to_string() };
            match src.choice(3) {
                0 => (sx::l(&w, vec![N::I(NUMBER)]), num),
                1 => (sx::l(&w, vec![sx::l("x", vec![sx::s(MARK)])]), MARK.into()),
                _ => (sx::l(&w, vec![sx::s("a"), sx::s(MARK)]), MARK.into()),
            }
        }
        10 => {
            let t = format!("{}{}", gen::dict_word(src), MARK);
            (sx::s(&t), MARK.into())
        }
        0 | 1 => (sx::s(MARK), MARK.into()),
        2 => (N::I(NUMBER), num),
        3 => (sx::l(MARK, vec![]), MARK.into()),
        4 => (sx::l(MARK, vec![N::I(1), N::F(2.5), sx::s("a b")]), MARK.into()),
        5 => (N::L(vec![N::L(vec![sx::s(MARK)])]), MARK.into()),
        6 => (sx::l(*src.pick(HEADS), vec![sx::s(MARK)]), MARK.into()),
        _ => (sx::l(*src.pick(HEADS), vec![N::I(1), N::I(2), N::I(NUMBER)]), num),
    }
}

/// words that mean something somewhere in the formats
const FLAGS: &[&str] = &[
    "locked", "placed", "hide", "italic", "bold", "mirror", "left", "right", "top", "bottom", "blind", "micro", "oval", "smd", "virtual", "yes", "no", "allowed", "not_allowed", "edge", "full",
    "thermal", "none", "user", "signal", "power", "hidden", "reversed", "unlocked", "knockout", "free", "through",
];

fn count(t: &N, w: &str) -> usize {
    match *t {
        N::S(ref x) => (x == w) as usize,
        N::L(ref v) => v.iter().map(|x| count(x, w)).sum(),
        _ => 0,
    }
}

/// the text as it is written again, if it is accepted
fn rewritten(kind: u64, text: &str) -> Result<Option<String>, Fail> {
    let out = match kind {
        0..=2 => no_panic("parse", || k::footprint::parse(text).ok())?.map(|v| crate::c_sexp::write_module(&v, 0)),
        3..=6 => no_panic("parse", || k::layout::parse(text).ok())?.map(|v| crate::c_sexp::write_layout(&v, 0)),
        _ => no_panic("parse", || k::fp_lib_table::parse(text).ok())?.map(|v| crate::c_sexp::write_table(&v, 0)),
    };
    match out {
        Some(t) => t.map(Some),
        None => Ok(None),
    }
}

/// a bare word put in among items that do not have it: accepted, there is one more of it
fn c12_word(src: &mut Src, cx: &mut Cx, kind: u64, t: &mut N) -> Result<(), Fail> {
    let mut ps = vec![];
    lists(t, &mut vec![], &mut ps);
    let p = ps[src.choice(ps.len() as u64) as usize].clone();
    let w = if src.chance(1, 4) { gen::dict_word(src) } else { src.pick(FLAGS).to_string() };
    // what is written without it: defaults can be left out
    let plain = match rewritten(kind, &sx::render_flat(t))?.map(|o| sx::read(&o)) {
        Some(Ok(b)) => b,
        _ => return Ok(()),
    };
    let want = count(&plain, &w) + 1;
    {
        let v = at(t, &p);
        if w.is_empty() || v.contains(&sx::s(&w)) {
            return Ok(());
        }
        // a number or a stamp could be written otherwise
        if w.parse::<f64>().is_ok() || i64::from_str_radix(&w, 16).is_ok() {
            return Ok(());
        }
        // at the head it would make another list of it
        if v.is_empty() {
            return Ok(());
        }
        let i = 1 + src.choice(v.len() as u64) as usize;
        v.insert(i, sx::s(&w));
    }
    let text = sx::render_flat(t);
    cx.case(&text);
    cx.tag("word");
    cx.nontrivial(p.len() >= 1);
    let out = rewritten(kind, &text)?;
    cx.tag(if out.is_some() { "kept" } else { "rejected" });
    if let Some(out) = out {
        let back = match sx::read(&out) {
            Ok(b) => b,
            Err(e) => return fail("rewritten", e),
        };
        ensure!(count(&back, &w) >= want, "dropped", "{:?} inserted, accepted, and lost: {} of it instead of {}", w, count(&back, &w), want);
    }
    Ok(())
}

pub fn c12(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let kind = src.choice(8);
    let mut t = {
        let canon = src.bool();
        // few elements, so that every kind of place is met
        match kind {
            0..=2 => {
                let m = MModule::gen_sized(src, 3, 1);
                if canon { m.canon() } else { m.tree(&mut Mode::Doc(src)) }
            }
            3..=6 => {
                let m = MLayout::gen_with(src, 3, 1, LE::gen);
                if canon { m.canon() } else { m.tree(&mut Mode::Doc(src)) }
            }
            _ => {
                let mut m = MTable::gen(src);
                m.libs.truncate(3);
                m.tree()
            }
        }
    };
    if src.chance(1, 5) {
        return c12_word(src, cx, kind, &mut t);
    }
    let before = sx::render_flat(&t);
    if before.contains(MARK) || before.contains(&NUMBER.to_string()) {
        return Ok(());
    }
    let mut ps = vec![];
    lists(&t, &mut vec![], &mut ps);
    let p = ps[src.choice(ps.len() as u64) as usize].clone();
    let (item, mark) = marked(src);
    let what = {
        let v = at(&mut t, &p);
        // a second item of a kind that is there is not foreign
        if let N::L(ref w) = item {
            let same = v.iter().any(|x| matches!(*x, N::L(ref y) if y.first() == w.first()));
            if same && !HEADS.iter().any(|h| w.first() == Some(&sx::s(h))) {
                return Ok(());
            }
        }
        match src.choice(3) {
            0 | 1 => {
                let i = src.choice(v.len() as u64 + 1) as usize;
                v.insert(i, item.clone());
                "inserted"
            }
            _ => {
                if v.is_empty() {
                    return Ok(());
                }
                let i = src.choice(v.len() as u64) as usize;
                v[i] = item.clone();
                "put in place of another"
            }
        }
    };
    let text = if src.chance(1, 4) { sx::render_var(&t, src) } else { sx::render_flat(&t) };
    cx.case(&text);
    cx.nontrivial(p.len() >= 1);
    let out = rewritten(kind, &text)?;
    cx.tag(if out.is_some() { "kept" } else { "rejected" });
    if let Some(out) = out {
        ensure!(out.contains(&mark), "dropped", "{} {}, accepted, and not in the rewritten text", sx::render_flat(&item), what);
    }
    Ok(())
}

const WORDS: &[&str] = &[
    "(", ")", "\"", "\\", "\n", " ", "\t", "\r\n", "(module", "(kicad_pcb", "(fp_lib_table", "(version 4)", "(host pcbnew x)", "(general", "(layers", "(setup", "(net 0 \"\")",
    "(net_class", "(segment", "(via", "(zone", "(gr_text", "(gr_line", "(dimension", "(pad 1 smd rect", "(at 0 0)", "(at", "(size 1 1)", "(layers *.Cu)", "(fp_text reference", "(fp_line",
    "(start 0 0)", "(end 1 1)", "(xy 0 0)", "(pts", "(layer F.Cu)", "(width 0.1)", "(tedit 0)", "(tstamp ZZ)", "()", "(())", "(1)", "EESchema Schematic File Version 2", "LIBS:x",
    "EELAYER 25 0", "EELAYER END", "$Descr A4 1 2", "encoding utf-8", "Sheet 1 1", "Title \"\"", "$EndDescr", "$Comp", "$EndComp", "$Sheet", "$EndSheet", "$EndSCHEMATC", "L R R1", "U 1 1 0",
    "P 0 0", "F 0 \"R1\" H 0 0 50 0000 C CNN", "F 0", "F0 \"x\" 50", "F1 \"y\" 50", "F2 \"l\" I L 0 0 50", "\t1 0 0", "\t1 0 0 -1", "Wire Wire Line", "\t0 0 1 1", "Connection ~ 0 0", "NoConn ~ 0 0",
    "Text Label 0 0 0 60 ~ 0", "EESchema-LIBRARY Version 2.3", "#encoding utf-8", "DEF R R 0 0 N Y 1 F N", "ENDDEF", "DRAW", "ENDDRAW", "ALIAS a", "$FPLIST", "$ENDFPLIST", "#End Library",
    "X 1 1 0 0 100 R 50 50 1 1 P", "S 0 0 1 1 0 1 10 f", "X", "S", "F", "F0", "U", "P", "L", "#", "# R", "update=", "é", "\u{0}", "\u{feff}", "1", "-1", "0", "9999999999999999999999", "1e999", "NaN",
    "inf", "-inf", "1e-999", ".", "-", "0x10", "9223372036854775807", "-9223372036854775808", "FFFFFFFF", "FFFFFFFFFFFFFFFF", "~", "*", "H", "V", "C", "CNN",
];

fn hostile_word(src: &mut Src) -> String {
    match gen::some_dict_word(src) {
        Some(t) => t,
        None => src.pick(WORDS).to_string(),
    }
}

/// numbers and words of a text replaced by odd ones, so that it mostly stays readable
fn odd_values(src: &mut Src, t: &str) -> String {
    let sep = |c: char| c.is_whitespace() || c == '(' || c == ')' || c == '"';
    // places of the words
    let mut w: Vec<(usize, usize)> = vec![];
    let mut start = None;
    for (i, c) in t.char_indices().chain(std::iter::once((t.len(), ' '))) {
        match (sep(c), start) {
            (true, Some(s)) => {
                w.push((s, i));
                start = None
            }
            (false, None) => start = Some(i),
            _ => (),
        }
    }
    let numbers: Vec<(usize, usize)> = w.iter().cloned().filter(|&(a, b)| t[a..b].parse::<f64>().is_ok()).collect();
    let mut at = vec![];
    for _ in 0..=src.choice(4) {
        let l = if src.chance(3, 4) { &numbers } else { &w };
        if !l.is_empty() {
            at.push(l[src.choice(l.len() as u64) as usize])
        }
    }
    at.sort();
    at.dedup();
    let mut out = String::new();
    let mut last = 0;
    for (a, b) in at {
        out.push_str(&t[last..a]);
        let old = &t[a..b];
        if old.parse::<f64>().is_ok() {
            match gen::some_dict_word(src) {
                Some(ref w) if w.parse::<f64>().is_ok() => out.push_str(w),
                _ => out.push_str(*src.pick(&[
                    "-9223372036854775808", "-9223372036854775807", "9223372036854775807", "9223372036854775806", "-1", "0", "-0", "1", "2", "2147483647", "2147483648", "-2147483648",
                    "-2147483649", "4294967295", "4294967296", "255", "256", "65535", "65536", "00", "+1", "1000000", "-1000000", "100", "50", "1e308", "-1e308", "1e-320", "NaN", "inf", "-inf", "0.1",
                ])),
            }
        } else {
            match src.choice(4) {
                0 => out.push_str(*src.pick(&["~", "~~", "é", "éé", "\u{1f600}", "N", "F", "X", "#", "$", "${", "$é", "%", "Net-(", "Net-()", "Net-(-)", "/", "//", "..", ".", "*.", ".Cu", "é.Cu", "-", "\u{feff}", "ß", "İ"])),
                1 => {
                    // only the start or the end of it
                    let c: Vec<char> = old.chars().collect();
                    let i = src.choice(c.len() as u64 + 1) as usize;
                    out.extend(if src.bool() { &c[..i] } else { &c[i..] })
                }
                2 => out.push_str(&gen::text(src)),
                _ => {
                    let n = 1 + src.choice(8) as usize;
                    out.push_str(&src.pick(&["a", "é", "~", "0", "\u{1f600}"]).repeat(n * n * n))
                }
            }
        }
        last = b;
    }
    out.push_str(&t[last..]);
    out
}

/// a text close to a file of some kind
fn hostile(src: &mut Src, cx: &mut Cx) -> String {
    let mut t = match src.choice(8) {
        0 | 1 => {
            let m = MModule::gen_sized(src, 6, 2);
            m.doc(src)
        }
        2 | 3 => {
            let m = MLayout::gen_with(src, 6, 2, LE::gen);
            m.doc(src)
        }
        4 => {
            let m = MTable::gen(src);
            m.doc(src)
        }
        5 | 6 => MSch::gen_sized(src, 6, 2).doc(src),
        _ => MSymLib::gen(src).doc(src),
    };
    match src.choice(12) {
        10 | 11 => {
            cx.tag("values");
            t = odd_values(src, &t)
        }
        0 => {
            cx.tag("words");
            let n = 60;
            let sep = *src.pick(&["", " ", "\n", "\n"]);
            let head = *src.pick(&["", "", "EESchema Schematic File Version 2\n", "EESchema-LIBRARY Version 2.3\n", "(module x ", "(kicad_pcb (version 4) "]);
            t = format!("{}{}", head, src.list(n, 20, hostile_word).join(sep));
        }
        1 => {
            cx.tag("numbers");
            // numbers replaced by extreme ones
            let mut out = String::new();
            let mut in_num = false;
            for c in t.chars() {
                if c.is_ascii_digit() || in_num && c == '.' {
                    if !in_num {
                        in_num = true;
                        if src.chance(1, 6) {
                            out.push_str(*src.pick(&[
                                "9223372036854775807", "9223372036854775808", "99999999999999999999999", "1e400", "0", "1", "1.5", "4611686018427387904", "3000000000", "1e18", "",
                                "2147483648", "0.0000000001", "123456789012345678901234567890.5",
                            ]));
                            // what follows of the number is kept or not
                            if src.bool() {
                                out.push(' ')
                            }
                        } else {
                            out.push(c)
                        }
                    } else {
                        out.push(c)
                    }
                } else {
                    in_num = false;
                    out.push(c)
                }
            }
            t = out
        }
        2 => {
            cx.tag("lines");
            // lines in another order, doubled or missing
            let mut v: Vec<String> = t.lines().map(|x| x.to_string()).collect();
            for _ in 0..=src.choice(4) {
                if v.is_empty() {
                    break;
                }
                let i = src.choice(v.len() as u64) as usize;
                let j = src.choice(v.len() as u64) as usize;
                match src.choice(5) {
                    0 => v.swap(i, j),
                    1 => {
                        v.remove(i);
                    }
                    2 => {
                        let x = v[i].clone();
                        v.insert(j, x)
                    }
                    3 => {
                        // a line cut short
                        let mut c: Vec<char> = v[i].chars().collect();
                        c.truncate(src.choice(c.len() as u64 + 1) as usize);
                        v[i] = c.into_iter().collect()
                    }
                    _ => {
                        // words of the line missing or doubled
                        let mut w: Vec<&str> = v[i].split(' ').collect();
                        let k = src.choice(w.len() as u64) as usize;
                        if src.bool() {
                            w.remove(k);
                        } else {
                            let x = w[k];
                            w.insert(k, x)
                        }
                        let x = w.join(" ");
                        v[i] = x
                    }
                }
            }
            t = v.join("\n")
        }
        3 => {
            cx.tag("as it is");
        }
        4 => {
            cx.tag("any text");
            t = src.list(40, 10, |s| if s.bool() { gen::text(s) } else { s.pick(WORDS).to_string() }).concat()
        }
        _ => {
            cx.tag("changed");
            let mut c: Vec<char> = t.chars().collect();
            for _ in 0..=src.choice(5) {
                let n = c.len() as u64;
                let i = src.choice(n + 1) as usize;
                let j = (i + src.choice(12) as usize).min(c.len());
                match src.choice(6) {
                    0 => {
                        c.drain(i..j);
                    }
                    1 => {
                        let x: Vec<char> = hostile_word(src).chars().collect();
                        c.splice(i..i, x);
                    }
                    2 => {
                        let x: Vec<char> = hostile_word(src).chars().collect();
                        c.splice(i..j, x);
                    }
                    3 => c.truncate(i),
                    4 => {
                        let x: Vec<char> = c[i..j].to_vec();
                        let to = src.choice(n + 1) as usize;
                        c.splice(to..to, x);
                    }
                    _ => {
                        if i < c.len() {
                            c[i] = *src.pick(&['(', ')', '"', '\\', ' ', '\n', '0', '-', '.', 'x', '\t', 'é', '\u{0}', '~', '$'])
                        }
                    }
                }
            }
            t = c.into_iter().collect()
        }
    }
    t
}

/// everything that is done with accepted data
fn use_all(t: &str) -> Result<usize, Fail> {
    let mut n = 0;
    let c = Config::klc();
    if let Ok(mut m) = no_panic("footprint::parse", || k::footprint::parse(t))? {
        n += 1;
        no_panic("footprint write", || k::footprint::module_to_string(&m, 0).is_ok())?;
        no_panic("footprint bounding_box", || m.bounding_box())?;
        no_panic("footprint check", || m.check(&c))?;
        no_panic("footprint fix", || m.fix(&c))?;
    }
    if let Ok(m) = no_panic("layout::parse", || k::layout::parse(t))? {
        n += 1;
        no_panic("layout write", || k::layout::layout_to_string(&m, 0).is_ok())?;
        no_panic("layout bounding_box", || m.bounding_box())?;
        for f in m.get_modules() {
            no_panic("footprint check", || f.check(&c))?;
        }
    }
    if let Ok(m) = no_panic("fp_lib_table::parse", || k::fp_lib_table::parse(t))? {
        n += 1;
        no_panic("table write", || k::fp_lib_table::to_string(&m, 0).is_ok())?;
        for l in &m.libs {
            no_panic("get_expanded_uri", || l.get_expanded_uri().is_ok())?;
        }
    }
    if let Ok(m) = no_panic("schematic::parse_str", || k::schematic::parse_str(t))? {
        n += 1;
        no_panic("schematic write", || m.to_string())?;
        no_panic("schematic bounding_box", || m.bounding_box())?;
        no_panic("components", || m.components())?;
        no_panic("all_components", || m.all_components().is_ok())?;
        for x in m.components() {
            no_panic("component", || (x.fields_hash(), x.to_string(), x.bounding_box()))?;
        }
    }
    if let Ok(m) = no_panic("symbol_lib::parse_str", || k::symbol_lib::parse_str(t))? {
        n += 1;
        no_panic("library write", || m.to_string())?;
        for s in &m.symbols {
            no_panic("symbol check", || (s.check(&c), s.is_basic(), s.is_power(), s.is_graphics(), s.pins().len()))?;
        }
    }
    if let Ok(m) = no_panic("project::parse_str", || k::project::parse_str(t))? {
        n += 1;
        ensure!(m.data == t, "project", "project text changed");
    }
    Ok(n)
}

pub fn c11(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    if src.chance(1, 2000) {
        // very deep, on a stack as small as that of any thread
        cx.tag("deep");
        let n = 1u64 << src.range(6, 18);
        let head = *src.pick(&["", "(module x ", "(kicad_pcb (version 4) ", "(fp_lib_table ", "(kicad_pcb (zone "]);
        // text that has to be skipped the right way to see how deep it is
        let before = src.list(4, 2, |s| *s.pick(&["a\" ", "\"((\" ", "\"\\\"(\" ", "a\\\" ", "\t\"a\" ", "a\t\" ", "(a\") ", "\"a\\\\\" ", ") ", "\r\n", "\"\" "])).concat();
        let open = *src.pick(&["(", "(x ", "(x \"(\" ", "( \n\t", "(a) (", "(\"\\\"\" "]);
        let close = if src.bool() { ")".repeat(n as usize + 2) } else { String::new() };
        let t = format!("{}{}{}{}", head, before, open.repeat(n as usize), close);
        cx.case(&format!("{}{} {:?} x {} {}", head, before, open, n, close.len()));
        cx.nontrivial(true);
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || use_all(&t));
        return match h.expect("thread").join() {
            Ok(r) => r.map(|_| ()),
            Err(_) => fail("panic", "reading panics".into()),
        };
    }
    let t = hostile(src, cx);
    cx.case(&t);
    let n = use_all(&t)?;
    cx.nontrivial(t.len() > 40);
    cx.tag(if n > 0 { "accepted" } else { "rejected" });
    if src.chance(1, 50) {
        // by way of a file
        let p = cx.scratch.join("f");
        fs::write(&p, t.as_bytes()).expect("scratch");
        let r = no_panic("read_kicad_file", || k::read_kicad_file(&p, k::Expected::Any).map(|f| f.to_string()).is_ok());
        let _ = fs::remove_file(&p);
        ensure!(r?, "identify", "a text file gives an error instead of a kind");
    }
    Ok(())
}
