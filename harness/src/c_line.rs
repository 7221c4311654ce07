//! C06 - C09: schematics and symbol libraries, reading and writing.
use crate::engine::*;
use crate::fp::debug_diff;
use crate::gen;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::{schematic, symbol_lib};

pub fn parse_sch(t: &str) -> Result<schematic::Schematic, Fail> {
    match no_panic("schematic::parse_str", || schematic::parse_str(t).map_err(|e| format!("{}", e)))? {
        Ok(s) => Ok(s),
        Err(e) => fail("schematic:rejected", format!("a valid schematic is rejected: {}", e)),
    }
}

pub fn parse_symlib(t: &str) -> Result<symbol_lib::SymbolLib, Fail> {
    match no_panic("symbol_lib::parse_str", || symbol_lib::parse_str(t).map_err(|e| format!("{}", e)))? {
        Ok(s) => Ok(s),
        Err(e) => fail("symbol:rejected", format!("a valid symbol library is rejected: {}", e)),
    }
}

/// first line that differs
pub fn line_diff(want: &str, got: &str) -> String {
    let a: Vec<&str> = want.split('\n').collect();
    let b: Vec<&str> = got.split('\n').collect();
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("line {}: expected {:?}, got {:?}", i + 1, a.get(i), b.get(i));
        }
    }
    "same".into()
}

pub fn sch_same(m: &MSch, got: &MSch) -> Result<(), Fail> {
    for (i, (a, b)) in m.els.iter().zip(&got.els).enumerate() {
        ensure!(a == b, "schematic:element", "element {}: {}", i, debug_diff(a, b));
    }
    ensure!(m.els.len() == got.els.len(), "schematic:count", "{} elements read as {}", m.els.len(), got.els.len());
    ensure!(m.sheets == got.sheets, "schematic:sheets", "{}", debug_diff(&m.sheets, &got.sheets));
    ensure!(m == got, "schematic:section", "{}", debug_diff(m, got));
    Ok(())
}

pub fn c06(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MSch::gen(src);
    let t = m.doc(src);
    cx.case(&t);
    cx.nontrivial(m.kinds() >= 2);
    let v = parse_sch(&t)?;
    ensure!(v.filename.is_none(), "schematic:filename", "a text has no file name but got {:?}", v.filename);
    sch_same(&m, &MSch::from_lib(&v))
}

/// written text is the KiCad form of the data and reads back
pub fn written_sch(m: &MSch, v: &schematic::Schematic) -> Result<(), Fail> {
    let t = no_panic("write schematic", || v.to_string())?;
    let want = m.canon();
    ensure!(t == want, "schematic:text", "{}", line_diff(&want, &t));
    let again = parse_sch(&t)?;
    sch_same(m, &MSch::from_lib(&again))?;
    let t2 = no_panic("write schematic", || again.to_string())?;
    ensure!(t == t2, "schematic:stable", "writing again differs: {}", line_diff(&t, &t2));
    Ok(())
}

fn edit_sch(src: &mut Src, m: &mut MSch, v: &mut schematic::Schematic) {
    match src.choice(10) {
        0 => {
            let e = SE::gen(src);
            let i = src.choice(m.els.len() as u64 + 1) as usize;
            v.elements.insert(i, e.to_lib());
            m.els.insert(i, e);
        }
        1 if !m.els.is_empty() => {
            let i = src.choice(m.els.len() as u64) as usize;
            m.els.remove(i);
            v.elements.remove(i);
        }
        2 => {
            let s = MSheet::gen(src);
            v.sheets.push(s.to_lib());
            m.sheets.push(s);
        }
        3 if !m.sheets.is_empty() => {
            let i = src.choice(m.sheets.len() as u64) as usize;
            m.sheets.remove(i);
            v.sheets.remove(i);
        }
        4 => {
            let t = gen::text(src);
            v.description.title = t.clone();
            m.txt[0] = t;
        }
        5 => {
            v.increment_sheet_count();
            m.sheets_n += 1;
        }
        6 => {
            let t = token(src);
            v.libraries.push(t.clone());
            m.libs.push(t);
        }
        7 => {
            v.description.portrait = !v.description.portrait;
            m.portrait = !m.portrait;
        }
        8 => {
            let t = gen::text(src);
            v.description.comment3 = t.clone();
            m.txt[6] = t;
            let c = coord(src);
            v.description.dimy = c;
            m.dy = c;
        }
        _ => {
            // change a component in place
            let n = src.choice(4);
            for (e, me) in v.elements.iter_mut().zip(m.els.iter_mut()) {
                if let (schematic::Element::Component(c), SE::Comp(mc)) = (e, me) {
                    match n {
                        0 => {
                            let x = coord(src);
                            c.x = x;
                            mc.x = x;
                        }
                        1 => {
                            let f = MField::gen(src, 4 + mc.fields.len() as i64);
                            c.fields.push(f.to_lib());
                            mc.fields.push(f);
                        }
                        2 => {
                            let t = "U 3 1 5A0B".to_string();
                            c.u = t.clone();
                            mc.u = t;
                        }
                        _ => {
                            if let (Some(f), Some(mf)) = (c.fields.last_mut(), mc.fields.last_mut()) {
                                let t = gen::text(src);
                                f.value = t.clone();
                                mf.value = t;
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn c07(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MSch::gen(src);
    let v = match src.choice(4) {
        0 | 1 => {
            cx.tag("byte-for-byte");
            let t = m.canon();
            cx.case(&t);
            parse_sch(&t)?
        }
        2 => {
            cx.tag("built");
            if src.chance(1, 6) {
                if let Some(SE::Comp(c)) = m.els.first_mut() {
                    c.u = String::new()
                }
            }
            cx.case(&format!("{:?}", m));
            m.to_lib()
        }
        _ => {
            cx.tag("edited");
            let t = m.doc(src);
            let mut v = parse_sch(&t)?;
            for _ in 0..=src.choice(4) {
                edit_sch(src, &mut m, &mut v)
            }
            cx.case(&format!("{} edited to {:?}", t, m));
            v
        }
    };
    cx.nontrivial(m.kinds() >= 2);
    written_sch(&m, &v)
}

pub fn symlib_same(m: &MSymLib, got: &MSymLib) -> Result<(), Fail> {
    for (i, (a, b)) in m.syms.iter().zip(&got.syms).enumerate() {
        ensure!(a == b, "symbol:content", "symbol {}: {}", i, debug_diff(a, b));
    }
    ensure!(m.syms.len() == got.syms.len(), "symbol:count", "{} symbols read as {}", m.syms.len(), got.syms.len());
    Ok(())
}

fn big_symbol(m: &MSymLib) -> bool {
    m.syms.iter().any(|s| s.fields.len() + s.draw.len() >= 3)
}

pub fn c08(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MSymLib::gen(src);
    let t = m.doc(src);
    cx.case(&t);
    cx.nontrivial(big_symbol(&m));
    symlib_same(&m, &MSymLib::from_lib(&parse_symlib(&t)?))
}

pub fn written_symlib(m: &MSymLib, v: &symbol_lib::SymbolLib) -> Result<(), Fail> {
    let t = no_panic("write symbol library", || v.to_string())?;
    let want = m.canon();
    ensure!(t == want, "symbol:text", "{}", line_diff(&want, &t));
    let again = parse_symlib(&t)?;
    symlib_same(m, &MSymLib::from_lib(&again))?;
    let t2 = no_panic("write symbol library", || again.to_string())?;
    ensure!(t == t2, "symbol:stable", "writing again differs: {}", line_diff(&t, &t2));
    Ok(())
}

pub fn c09(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MSymLib::gen(src);
    let v = match src.choice(4) {
        0 | 1 => {
            cx.tag("byte-for-byte");
            let t = m.canon();
            cx.case(&t);
            parse_symlib(&t)?
        }
        2 => {
            cx.tag("built");
            cx.case(&format!("{:?}", m));
            m.to_lib()
        }
        _ => {
            cx.tag("edited");
            let t = m.doc(src);
            let mut v = parse_symlib(&t)?;
            for _ in 0..=src.choice(4) {
                if m.syms.is_empty() || src.chance(1, 4) {
                    let s = MSym::gen(src);
                    let i = src.choice(m.syms.len() as u64 + 1) as usize;
                    v.symbols.insert(i, s.to_lib());
                    m.syms.insert(i, s);
                    continue;
                }
                let i = src.choice(m.syms.len() as u64) as usize;
                let (s, ms) = (&mut v.symbols[i], &mut m.syms[i]);
                match src.choice(7) {
                    0 => {
                        let d = MDraw::gen(src);
                        s.draw.push(d.to_lib());
                        ms.draw.push(d);
                    }
                    1 => {
                        s.draw.pop();
                        ms.draw.pop();
                    }
                    2 => {
                        let a = token(src);
                        s.aliases.insert(0, a.clone());
                        ms.aliases.insert(0, a);
                    }
                    3 => {
                        s.footprint_filters.clear();
                        ms.filters.clear();
                    }
                    4 => {
                        let f = MField::gen(src, 4);
                        s.fields.push(sym_field_to(&f));
                        ms.fields.push(f);
                    }
                    5 => {
                        s.is_power = !s.is_power;
                        ms.power = !ms.power;
                        s.unit_count += 1;
                        ms.units += 1;
                    }
                    _ => {
                        v.symbols.remove(i);
                        m.syms.remove(i);
                    }
                }
            }
            cx.case(&format!("{} edited to {:?}", t, m));
            v
        }
    };
    cx.nontrivial(big_symbol(&m));
    written_symlib(&m, &v)
}
