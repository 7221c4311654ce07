//! C01 - C05, C10: s-expression formats, reading and writing.
use crate::engine::*;
use crate::fp::*;
use crate::gen::{self, Mode};
use crate::ly::*;
use crate::sx::{self, l, ls, N};
use kicad_parse_gen::{footprint, fp_lib_table, layout};

fn er<E: std::fmt::Display>(e: E) -> String {
    format!("{}", e)
}

pub fn parse_module(t: &str) -> Result<footprint::Module, Fail> {
    match no_panic("footprint::parse", || footprint::parse(t).map_err(er))? {
        Ok(m) => Ok(m),
        Err(e) => fail("footprint:rejected", format!("a valid footprint is rejected: {}", e)),
    }
}

pub fn write_module(m: &footprint::Module, ind: i64) -> Result<String, Fail> {
    match no_panic("module_to_string", || footprint::module_to_string(m, ind).map_err(er))? {
        Ok(t) => Ok(t),
        Err(e) => fail("footprint:write-error", format!("writing fails: {}", e)),
    }
}

pub fn parse_layout(t: &str) -> Result<layout::Layout, Fail> {
    match no_panic("layout::parse", || layout::parse(t).map_err(er))? {
        Ok(m) => Ok(m),
        Err(e) => fail("layout:rejected", format!("a valid layout is rejected: {}", e)),
    }
}

pub fn write_layout(m: &layout::Layout, ind: i64) -> Result<String, Fail> {
    match no_panic("layout_to_string", || layout::layout_to_string(m, ind).map_err(er))? {
        Ok(t) => Ok(t),
        Err(e) => fail("layout:write-error", format!("writing fails: {}", e)),
    }
}

pub fn c01(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MModule::gen(src);
    let t = m.doc(src);
    cx.case(&t);
    cx.nontrivial(m.structured() >= 2);
    let got = MModule::from_lib(&parse_module(&t)?);
    ensure!(got.name == m.name, "footprint:name", "name {:?} read as {:?}", m.name, got.name);
    ensure!(
        got.els.len() == m.els.len(),
        "footprint:count",
        "{} elements read as {}: {}",
        m.els.len(),
        got.els.len(),
        debug_diff(&m.els, &got.els)
    );
    for (a, b) in m.els.iter().zip(&got.els) {
        ensure!(a == b, "footprint:element", "{}", debug_diff(a, b));
    }
    Ok(())
}

/// the text says exactly what the value says, and reading it back gives the value
fn written_module(m: &MModule, v: &footprint::Module, t: &str) -> Result<(), Fail> {
    let tree = match sx::read(t) {
        Ok(t) => t,
        Err(e) => return fail("footprint:text", format!("output is no s-expression: {}\n{}", e, t)),
    };
    if let Some(d) = sx::diff(&m.canon(), &tree) {
        return fail("footprint:text", format!("output differs at {}\n{}", d, t));
    }
    let again = parse_module(t)?;
    let got = MModule::from_lib(&again);
    ensure!(got == *m, "footprint:reread", "{}", debug_diff(m, &got));
    let t2 = write_module(&again, 0)?;
    let t1 = write_module(v, 0)?;
    ensure!(t1 == t2, "footprint:stable", "writing again differs:\n{}\n{}", t1, t2);
    Ok(())
}

pub fn c02(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MModule::gen(src);
    let how = src.choice(3);
    let ind = if src.chance(1, 4) { src.range(1, 3) } else { 0 };
    let (m, v) = match how {
        0 => {
            // straight from a document
            let t = m.doc(src);
            cx.case(&t);
            cx.tag("read-write");
            let v = parse_module(&t)?;
            (m, v)
        }
        1 => {
            // built by hand
            cx.case(&format!("{:?}", m));
            cx.tag("built");
            let v = m.to_lib();
            (m, v)
        }
        _ => {
            // read, then edited: elements added, replaced and removed
            let t = m.doc(src);
            let mut v = parse_module(&t)?;
            let mut m = m;
            for _ in 0..=src.choice(4) {
                match src.choice(4) {
                    0 => {
                        let e = E::gen(src);
                        v.append(e.to_lib());
                        m.els.push(e);
                    }
                    1 if !m.els.is_empty() => {
                        let i = src.choice(m.els.len() as u64) as usize;
                        m.els.remove(i);
                        v.elements.remove(i);
                    }
                    2 if !m.els.is_empty() => {
                        let i = src.choice(m.els.len() as u64) as usize;
                        let e = E::gen(src);
                        v.elements[i] = e.to_lib();
                        m.els[i] = e;
                    }
                    _ => {
                        let n = gen::text(src);
                        v.name = n.clone();
                        m.name = n;
                    }
                }
            }
            cx.case(&format!("{} then edited to {:?}", t, m));
            cx.tag("edited");
            (m, v)
        }
    };
    cx.nontrivial(m.structured() >= 2);
    let t = write_module(&v, ind)?;
    written_module(&m, &v, &t)
}

pub fn c03(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MLayout::gen(src);
    let t = m.doc(src);
    cx.case(&t);
    cx.nontrivial(m.kinds() >= 2);
    let got = MLayout::from_lib(&parse_layout(&t)?);
    layout_same(&m, &got)
}

pub fn layout_same(m: &MLayout, got: &MLayout) -> Result<(), Fail> {
    for (i, (a, b)) in m.els.iter().zip(&got.els).enumerate() {
        ensure!(a == b, "layout:element", "element {}: {}", i, debug_diff(a, b));
    }
    ensure!(m.els.len() == got.els.len(), "layout:count", "{} elements read as {}", m.els.len(), got.els.len());
    ensure!(m == got, "layout:section", "{}", debug_diff(m, got));
    Ok(())
}

fn written_layout(m: &MLayout, v: &layout::Layout, t: &str) -> Result<(), Fail> {
    let tree = match sx::read(t) {
        Ok(t) => t,
        Err(e) => return fail("layout:text", format!("output is no s-expression: {}\n{}", e, t)),
    };
    if let Some(d) = sx::diff(&m.canon(), &tree) {
        return fail("layout:text", format!("output differs at {}\n{}", d, t));
    }
    let again = parse_layout(t)?;
    layout_same(m, &MLayout::from_lib(&again))?;
    let t2 = write_layout(&again, 0)?;
    let t1 = write_layout(v, 0)?;
    ensure!(t1 == t2, "layout:stable", "writing again differs:\n{}\n{}", t1, t2);
    Ok(())
}

pub fn c04(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MLayout::gen(src);
    let how = src.choice(3);
    let ind = if src.chance(1, 4) { src.range(1, 3) } else { 0 };
    let (m, v) = match how {
        0 => {
            let t = m.doc(src);
            cx.case(&t);
            cx.tag("read-write");
            let v = parse_layout(&t)?;
            (m, v)
        }
        1 => {
            cx.case(&format!("{:?}", m));
            cx.tag("built");
            let v = m.to_lib();
            (m, v)
        }
        _ => {
            let t = m.doc(src);
            let mut v = parse_layout(&t)?;
            let mut m = m;
            for _ in 0..=src.choice(4) {
                match src.choice(3) {
                    0 => {
                        let e = LE::gen(src);
                        let i = src.choice(m.els.len() as u64 + 1) as usize;
                        v.elements.insert(i, e.to_lib());
                        m.els.insert(i, e);
                    }
                    1 if !m.els.is_empty() => {
                        let i = src.choice(m.els.len() as u64) as usize;
                        m.els.remove(i);
                        v.elements.remove(i);
                    }
                    _ => {
                        let n = gen::text(src);
                        v.page = n.clone();
                        m.page = n;
                    }
                }
            }
            cx.case(&format!("{} then edited to {:?}", t, m));
            cx.tag("edited");
            (m, v)
        }
    };
    cx.nontrivial(m.kinds() >= 2);
    let t = write_layout(&v, ind)?;
    written_layout(&m, &v, &t)
}

#[derive(Clone, PartialEq, Debug)]
pub struct MLib {
    pub name: String,
    pub t: String,
    pub uri: String,
    pub options: String,
    pub descr: String,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MTable {
    pub libs: Vec<MLib>,
}

impl MTable {
    pub fn gen(src: &mut Src) -> MTable {
        let (max, cont) = gen::big(src);
        MTable {
            libs: src.list(max, cont, |s| MLib {
                name: gen::text(s),
                t: if s.bool() { s.pick(&["KiCad", "Github", "Eagle"]).to_string() } else { gen::text(s) },
                uri: if s.bool() {
                    s.pick(&["${KISYSMOD}/A.pretty", "${KIGITHUB}/x.pretty", "~/lib/a b.pretty", "/x/$Y"]).to_string()
                } else {
                    gen::text(s)
                },
                options: gen::text(s),
                descr: gen::text(s),
            }),
        }
    }
    pub fn tree(&self) -> N {
        l(
            "fp_lib_table",
            self.libs
                .iter()
                .map(|x| {
                    l(
                        "lib",
                        vec![
                            ls("name", &x.name),
                            ls("type", &x.t),
                            ls("uri", &x.uri),
                            ls("options", &x.options),
                            ls("descr", &x.descr),
                        ],
                    )
                })
                .collect(),
        )
    }
    pub fn doc(&self, src: &mut Src) -> String {
        sx::render_var(&self.tree(), src)
    }
    pub fn from_lib(x: &fp_lib_table::FpLibTable) -> MTable {
        MTable {
            libs: x
                .libs
                .iter()
                .map(|x| MLib {
                    name: x.name.clone(),
                    t: x.type_.clone(),
                    uri: x.uri.clone(),
                    options: x.options.clone(),
                    descr: x.descr.clone(),
                })
                .collect(),
        }
    }
    pub fn to_lib(&self) -> fp_lib_table::FpLibTable {
        let mut t = fp_lib_table::parse("(fp_lib_table (lib (name a)(type b)(uri c)(options d)(descr e)))").ok().unwrap();
        let one = t.libs[0].clone();
        t.libs = self
            .libs
            .iter()
            .map(|x| {
                let mut l = one.clone();
                l.name = x.name.clone();
                l.type_ = x.t.clone();
                l.uri = x.uri.clone();
                l.options = x.options.clone();
                l.descr = x.descr.clone();
                l
            })
            .collect();
        t
    }
}

pub fn parse_table(t: &str) -> Result<fp_lib_table::FpLibTable, Fail> {
    match no_panic("fp_lib_table::parse", || fp_lib_table::parse(t).map_err(er))? {
        Ok(m) => Ok(m),
        Err(e) => fail("table:rejected", format!("a valid table is rejected: {}", e)),
    }
}

pub fn write_table(m: &fp_lib_table::FpLibTable, ind: i64) -> Result<String, Fail> {
    match no_panic("fp_lib_table::to_string", || fp_lib_table::to_string(m, ind).map_err(er))? {
        Ok(t) => Ok(t),
        Err(e) => fail("table:write-error", format!("writing fails: {}", e)),
    }
}

pub fn c05(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MTable::gen(src);
    let v = if src.bool() {
        let t = sx::render_var(&m.tree(), src);
        cx.case(&t);
        let v = parse_table(&t)?;
        let got = MTable::from_lib(&v);
        ensure!(got == m, "table:read", "{}", debug_diff(&m, &got));
        v
    } else {
        cx.case(&format!("{:?}", m));
        m.to_lib()
    };
    cx.nontrivial(m.libs.len() >= 2);
    let ind = if src.chance(1, 4) { src.range(1, 3) } else { 0 };
    let t = write_table(&v, ind)?;
    let tree = match sx::read(&t) {
        Ok(t) => t,
        Err(e) => return fail("table:text", format!("output is no s-expression: {}\n{}", e, t)),
    };
    if let Some(d) = sx::diff(&m.tree(), &tree) {
        return fail("table:text", format!("output differs at {}\n{}", d, t));
    }
    let again = parse_table(&t)?;
    let got = MTable::from_lib(&again);
    ensure!(got == m, "table:reread", "{}", debug_diff(&m, &got));
    let t2 = write_table(&again, ind)?;
    ensure!(t == t2, "table:stable", "writing again differs:\n{}\n{}", t, t2);
    Ok(())
}

fn same_text(what: &'static str, want: &str, got: &str) -> Result<(), Fail> {
    if want == got {
        return Ok(());
    }
    let a: Vec<&str> = want.split('\n').collect();
    let b: Vec<&str> = got.split('\n').collect();
    let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
    fail(
        what,
        format!("line {}: want {:?} got {:?}\n{}", i + 1, a.get(i), b.get(i), got),
    )
}

/// deeper levels only add leading white space
fn deeper(what: &'static str, flat: &str, deep: &str, ind: i64) -> Result<(), Fail> {
    let a: Vec<&str> = flat.split('\n').collect();
    let b: Vec<&str> = deep.split('\n').collect();
    ensure!(a.len() == b.len(), what, "{} lines at level 0, {} at level {}", a.len(), b.len(), ind);
    for (x, y) in a.iter().zip(&b) {
        ensure!(x.trim_start_matches(' ') == y.trim_start_matches(' '), what, "level {} changes {:?} to {:?}", ind, x, y);
    }
    Ok(())
}

pub fn c10(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let ind = match src.choice(24) {
        0..=4 => src.range(1, 4),
        5 => match gen::dict_int(src) {
            Some(i) if i <= 300 => i,
            _ => src.range(5, 70),
        },
        _ => 0,
    };
    match src.choice(5) {
        0 | 1 => {
            let m = MModule::gen(src);
            cx.case(&format!("level {} {:?}", ind, m));
            cx.tag("footprint");
            cx.nontrivial(m.structured() >= 2);
            let v = m.to_lib();
            let flat = write_module(&v, 0)?;
            same_text("footprint:layout", &sx::print_kicad(&m.tree(&mut Mode::Canon), 0), &flat)?;
            let deep = write_module(&v, ind)?;
            same_text("footprint:layout", &sx::print_kicad(&m.canon(), ind), &deep)?;
            deeper("footprint:level", &flat, &deep, ind)
        }
        2 | 3 => {
            let m = MLayout::gen(src);
            cx.case(&format!("level {} {:?}", ind, m));
            cx.tag("layout");
            cx.nontrivial(m.kinds() >= 2);
            let v = m.to_lib();
            let flat = write_layout(&v, 0)?;
            same_text("layout:layout", &format!("{}\n", sx::print_kicad(&m.canon(), 0)), &flat)?;
            let deep = write_layout(&v, ind)?;
            same_text("layout:layout", &format!("{}\n", sx::print_kicad(&m.canon(), ind)), &deep)?;
            deeper("layout:level", &flat, &deep, ind)
        }
        _ => {
            let m = MTable::gen(src);
            cx.case(&format!("level {} {:?}", ind, m));
            cx.tag("table");
            cx.nontrivial(m.libs.len() >= 2);
            let v = m.to_lib();
            let flat = write_table(&v, 0)?;
            same_text("table:layout", &sx::print_kicad(&m.tree(), 0), &flat)?;
            let deep = write_table(&v, ind)?;
            same_text("table:layout", &sx::print_kicad(&m.tree(), ind), &deep)?;
            deeper("table:level", &flat, &deep, ind)
        }
    }
}
