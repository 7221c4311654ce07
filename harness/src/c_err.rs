//! C38: an error says what went wrong.
use crate::c_bad::{line_fault, list_fault};
use crate::c_file::{expected, file_name, put, Doc, Out, KINDS};
use crate::engine::*;
use crate::gen;
use crate::ly::MLayout;
use crate::sch::{MSch, MSheet};
use kicad_parse_gen as k;
use kicad_parse_gen::{KicadError, SexpError};
use std::cell::Cell;
use std::fs;
use std::io;
use std::path::{Path, PathBuf};

/// the message has the word in it, as it is or the way strings are shown when debugging
fn names(m: &str, w: &str) -> bool {
    let d = format!("{:?}", w);
    m.contains(w) || m.contains(&d[1..d.len() - 1])
}

/// the message has the letter as a word of its own
fn letter(m: &str, c: char) -> bool {
    if !c.is_alphanumeric() {
        return names(m, &c.to_string());
    }
    m.split(|c: char| !c.is_alphanumeric()).any(|w| w.chars().eq(Some(c)))
}

fn io_kind(what: &str, want: io::ErrorKind, e: Option<KicadError>) -> Result<(), Fail> {
    match e {
        Some(KicadError::Io(ref e)) if e.kind() == want => Ok(()),
        Some(ref e) => fail("error:io", format!("{}: {:?} instead of {:?}", what, e, want)),
        None => fail("error:none", format!("{}: no error", what)),
    }
}

pub fn c38(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match src.choice(16) {
        0..=5 => lines(src, cx),
        6 | 7 => lists(src, cx),
        8 | 9 => lookups(src, cx),
        10 => variables(src, cx),
        11 => values(src, cx),
        _ => {
            let dir = cx.scratch.join("e");
            let _ = fs::remove_dir_all(&dir);
            fs::create_dir_all(&dir).expect("scratch");
            let r = match src.choice(4) {
                0 => reading(src, cx, &dir),
                1 => writing(src, cx, &dir),
                2 => kinds(src, cx, &dir),
                _ => sheets(src, cx, &dir),
            };
            let _ = fs::remove_dir_all(&dir);
            r
        }
    }
}

/// a number that is none or a word that is not known, in a schematic or symbol library
fn lines(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = line_fault(src);
    if f.read(&f.good)?.is_err() {
        return Ok(());
    }
    cx.case(&f.bad);
    let e = match f.read(&f.bad)? {
        Err(e) => e,
        // see C34
        Ok(()) => return Ok(()),
    };
    let m = format!("{}", e);
    if let Some(ref n) = f.number {
        cx.tag("number");
        cx.nontrivial(true);
        ensure!(names(&m, n), "error:number", "{}: {:?}", f.what, m);
    }
    if let Some(ref w) = f.word {
        cx.tag("word");
        cx.nontrivial(true);
        ensure!(names(&m, w) || f.letter.map_or(false, |c| letter(&m, c)), "error:word", "{}: {:?}", f.what, m);
    }
    if f.kind == 0 {
        cx.tag("keyword");
        cx.nontrivial(true);
        ensure!(names(&m, &f.keyword.0) || names(&m, &f.keyword.1), "error:keyword", "{}: {:?}", f.what, m);
    }
    Ok(())
}

/// a word that is not known, in a footprint, board or table
fn lists(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let f = match list_fault(src) {
        Some(f) => f,
        None => return Ok(()),
    };
    if f.read(&f.good)?.is_err() {
        return Ok(());
    }
    cx.case(&f.bad);
    cx.tag("list");
    let e = match f.read(&f.bad)? {
        Err(e) => e,
        // see C35
        Ok(()) => return Ok(()),
    };
    ensure!(matches!(e, KicadError::SymbolicExpression(_)), "error:list", "{}: {:?}", f.what, e);
    if let Some(ref w) = f.word {
        cx.nontrivial(true);
        let m = format!("{}", e);
        ensure!(names(&m, w), "error:word", "{}: {:?}", f.what, m);
    }
    Ok(())
}

/// things looked for that are not there
fn lookups(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let r = match src.choice(3) {
        0 => gen::dict_word(src),
        1 => gen::text(src),
        _ => src.pick(&["R1", "U2", "X99", "?", "#PWR01", "é1"]).to_string(),
    };
    cx.case(&r);
    cx.nontrivial(r.len() > 1);
    match src.choice(3) {
        0 => {
            cx.tag("footprint of a board");
            let mut v = MLayout::gen(src).to_lib();
            if v.get_module(&r).is_some() {
                return Ok(());
            }
            match no_panic("modify_module", || v.modify_module(&r, |_| ()))? {
                Ok(()) => fail("error:none", format!("{:?} modified", r)),
                Err(e) => {
                    let m = format!("{}", e);
                    ensure!(names(&m, &r), "error:reference", "{:?}: {:?}", r, m);
                    Ok(())
                }
            }
        }
        1 => {
            cx.tag("component");
            let mut m = MSch::gen_sized(src, 6, 2);
            m.sheets.clear();
            if m.comps().iter().any(|c| c.reference == r) {
                return Ok(());
            }
            let v = m.to_lib();
            match no_panic("component_by_reference", || v.component_by_reference(&r))? {
                Ok(_) => fail("error:none", format!("{:?} found", r)),
                Err(e) => {
                    let m = format!("{}", e);
                    ensure!(names(&m, &r), "error:reference", "{:?}: {:?}", r, m);
                    Ok(())
                }
            }
        }
        _ => {
            cx.tag("net");
            let mut n = k::layout::NetName::from(r.clone());
            if n.is_unnamed_net().is_some() {
                return Ok(());
            }
            match no_panic("set_unnamed_net", || n.set_unnamed_net("U1"))? {
                Ok(()) => fail("error:none", format!("{:?} renamed", r)),
                Err(e) => {
                    let m = format!("{}", e);
                    ensure!(names(&m, &r), "error:net", "{:?}: {:?}", r, m);
                    Ok(())
                }
            }
        }
    }
}

/// environment variables that are not set
fn variables(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    cx.tag("variable");
    // never set by anyone
    let name = format!("KPE{}_{}", cx.worker, src.pick(&["A", "KISYSMOD", "a1", "É", "x_y"]));
    std::env::remove_var(&name);
    let uri = match src.choice(3) {
        0 => format!("${{{}}}/a.pretty", name),
        1 => format!("/x/${}", name),
        _ => format!("~/${{{}}}", name),
    };
    cx.case(&uri);
    cx.nontrivial(true);
    let mut l = k::fp_lib_table::parse("(fp_lib_table (lib (name a)(type KiCad)(uri b)(options \"\")(descr \"\")))").map_err(|e| Fail { sig: "error:table".into(), msg: format!("{}", e) })?.libs.remove(0);
    l.uri = uri.clone();
    match no_panic("get_expanded_uri", || l.get_expanded_uri())? {
        Ok(t) => fail("error:none", format!("{:?} became {:?}", uri, t)),
        Err(e) => {
            let m = format!("{}", e);
            ensure!(names(&m, &name), "error:variable", "{:?}: {:?}", uri, m);
            Ok(())
        }
    }
}

/// an error shows what it was made from, and errors of the caller come back as they are
fn values(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    cx.tag("value");
    let t = gen::text(src);
    cx.case(&t);
    cx.nontrivial(t.len() > 1);
    let l: Vec<(&str, KicadError)> = vec![
        ("parse", KicadError::Parse(t.clone())),
        ("other", KicadError::Other(t.clone())),
        ("io", KicadError::Io(io::Error::new(io::ErrorKind::Other, t.clone()))),
        ("text", KicadError::from(t.clone())),
        ("from io", KicadError::from(io::Error::new(io::ErrorKind::InvalidInput, t.clone()))),
        ("list", KicadError::from(SexpError::Other(t.clone()))),
    ];
    for (what, e) in &l {
        let m = format!("{}", e);
        ensure!(names(&m, &t), "error:shown", "{} error from {:?}: {:?}", what, t, m);
    }
    ensure!(matches!(l[3].1, KicadError::Other(ref x) if *x == t), "error:from", "{:?} became {:?}", t, l[3].1);
    ensure!(matches!(l[4].1, KicadError::Io(ref x) if x.kind() == io::ErrorKind::InvalidInput), "error:from", "{:?} became {:?}", t, l[4].1);
    ensure!(matches!(l[5].1, KicadError::SymbolicExpression(SexpError::Other(ref x)) if *x == t), "error:from", "{:?} became {:?}", t, l[5].1);
    // an error of the function that renames nets, at any of the names
    let m = MLayout::gen(src);
    let n = Cell::new(0);
    let r = no_panic("update_net_names", || {
        m.to_lib().update_net_names(|_| {
            n.set(n.get() + 1);
            Ok(())
        })
    })?;
    ensure!(r.is_ok(), "error:caller", "error without a reason: {:?}", r);
    let total = n.get();
    if total > 0 {
        let at = src.choice(total) + 1;
        n.set(0);
        let mut v = m.to_lib();
        let r = no_panic("update_net_names", || {
            v.update_net_names(|_| {
                n.set(n.get() + 1);
                if n.get() == at { Err(KicadError::Parse(t.clone())) } else { Ok(()) }
            })
        })?;
        match r {
            Err(KicadError::Parse(ref x)) if *x == t => (),
            r => return fail("error:caller", format!("{:?} for name {} of {} came back as {:?}", t, at, total, r)),
        }
    }
    Ok(())
}

/// files that cannot be read
fn reading(src: &mut Src, cx: &mut Cx, dir: &Path) -> Result<(), Fail> {
    cx.tag("reading");
    let p = dir.join(file_name(src));
    let q: PathBuf = match src.choice(5) {
        0 => p,
        1 => {
            fs::create_dir(&p).expect("scratch");
            p
        }
        2 => {
            put(&p, b"x");
            p.join("y")
        }
        3 => p.join("y"),
        _ => {
            let kind = src.choice(6) as usize;
            let (_, t) = Doc::gen(src, kind);
            put(&p, &[t.as_bytes(), b"\xff"].concat());
            p
        }
    };
    cx.case(&format!("read {}", q.display()));
    cx.nontrivial(true);
    let want = match fs::read_to_string(&q) {
        Ok(_) => return Ok(()),
        Err(e) => e.kind(),
    };
    match no_panic("read_file", || k::read_file(&q))? {
        Err(ref e) if e.kind() == want => (),
        r => return fail("error:io", format!("read_file: {:?} instead of {:?}", r.map(|t| t.len()), want)),
    }
    for kind in 0..7 {
        io_kind("read_kicad_file", want, no_panic("read_kicad_file", || k::read_kicad_file(&q, expected(kind)).err())?)?;
    }
    io_kind("read_module", want, no_panic("read", || k::read_module(&q).err())?)?;
    io_kind("read_schematic", want, no_panic("read", || k::read_schematic(&q).err())?)?;
    io_kind("read_layout", want, no_panic("read", || k::read_layout(&q).err())?)?;
    io_kind("read_symbol_lib", want, no_panic("read", || k::read_symbol_lib(&q).err())?)?;
    io_kind("read_project", want, no_panic("read", || k::read_project(&q).err())?)?;
    io_kind("read_fp_lib_table", want, no_panic("read", || k::read_fp_lib_table(&q).err())?)?;
    io_kind("schematic::parse_file", want, no_panic("read", || k::schematic::parse_file(&q).err())?)?;
    io_kind("symbol_lib::parse_file", want, no_panic("read", || k::symbol_lib::parse_file(&q).err())?)
}

/// files that cannot be written
fn writing(src: &mut Src, cx: &mut Cx, dir: &Path) -> Result<(), Fail> {
    cx.tag("writing");
    let p = dir.join(file_name(src));
    let q: PathBuf = match src.choice(4) {
        0 => p.join("x"),
        1 => {
            fs::create_dir(&p).expect("scratch");
            p
        }
        2 => {
            put(&p, b"x");
            p.join("y")
        }
        _ => {
            // a device that is always full, by way of a link in the scratch directory
            let full = Path::new("/dev/full");
            use std::os::unix::fs::FileTypeExt;
            if !fs::metadata(full).map_or(false, |m| m.file_type().is_char_device()) {
                return Ok(());
            }
            std::os::unix::fs::symlink(full, &p).expect("scratch");
            p
        }
    };
    let o = Out::gen(src);
    if o.text()?.is_empty() {
        return Ok(());
    }
    cx.case(&format!("{} to {}", o.kind(), q.display()));
    cx.nontrivial(true);
    match o.try_write(&q)? {
        Ok(()) => fail("error:none", format!("{} written to {}", o.kind(), q.display())),
        Err(e) => {
            let m = format!("{}", e);
            ensure!(names(&m, &q.display().to_string()), "error:path", "{}: {:?}", q.display(), m);
            Ok(())
        }
    }
}

/// a file that holds something else, found before what is asked for
fn kinds(src: &mut Src, cx: &mut Cx, dir: &Path) -> Result<(), Fail> {
    cx.tag("kind");
    let p = dir.join(file_name(src));
    let has = src.choice(5) as usize;
    let wanted = has + 1 + src.choice(5 - has as u64) as usize;
    let (_, t) = Doc::gen(src, has);
    put(&p, t.as_bytes());
    cx.case(&format!("{} as {}\n{}", p.display(), KINDS[wanted], t));
    cx.nontrivial(true);
    let e = no_panic("read", || match wanted {
        1 => k::read_schematic(&p).err(),
        2 => k::read_layout(&p).err(),
        3 => k::read_symbol_lib(&p).err(),
        4 => k::read_project(&p).err(),
        _ => k::read_fp_lib_table(&p).err(),
    })?;
    match e {
        None => fail("error:none", format!("{} read as {}", KINDS[has], KINDS[wanted])),
        Some(e) => {
            let m = format!("{}", e);
            ensure!(names(&m, &p.display().to_string()), "error:path", "{}: {:?}", p.display(), m);
            ensure!(names(&m, KINDS[has]), "error:kind", "{}: {:?}", KINDS[has], m);
            Ok(())
        }
    }
}

/// a component that is on none of the sheets
fn missing(src: &mut Src, cx: &mut Cx, top: &Path, all: &[MSch]) -> Result<(), Fail> {
    cx.tag("component of a sheet");
    let r = match src.choice(3) {
        0 => gen::dict_word(src),
        1 => gen::text(src),
        _ => src.pick(&["R1", "U2", "X99", "?", "#PWR01", "é1"]).to_string(),
    };
    if all.iter().any(|m| m.comps().iter().any(|c| c.reference == r)) {
        return Ok(());
    }
    let v = match no_panic("parse_file", || k::schematic::parse_file(top))? {
        Ok(v) => v,
        // see C06
        Err(_) => return Ok(()),
    };
    // see C24
    if no_panic("all_components", || v.all_components().is_err())? {
        return Ok(());
    }
    cx.case(&format!("{:?} {:?}", r, all));
    cx.nontrivial(r.len() > 1);
    match no_panic("component_by_reference", || v.component_by_reference(&r))? {
        Ok(_) => fail("error:none", format!("{:?} found", r)),
        Err(e) => {
            let m = format!("{}", e);
            ensure!(names(&m, &r), "error:reference", "{:?}: {:?}", r, m);
            Ok(())
        }
    }
}

/// a sheet that cannot be read
fn sheets(src: &mut Src, cx: &mut Cx, dir: &Path) -> Result<(), Fail> {
    cx.tag("sheet");
    let (top, sub) = (dir.join("top.sch"), dir.join("sub.sch"));
    // sheets between the top and the one that cannot be read
    let between = src.choice(3) as usize;
    let mut names = vec!["top.sch".to_string()];
    names.extend((0..between).map(|i| format!("mid{}.sch", i)));
    names.push("sub.sch".into());
    let mut all = vec![];
    for i in 0..=between {
        let mut m = MSch::gen_sized(src, 3, 1);
        m.sheets.clear();
        let mut s = MSheet::gen(src);
        s.labels.clear();
        s.file = names[i + 1].clone();
        m.sheets.push(s);
        put(&dir.join(&names[i]), m.doc(src).as_bytes());
        all.push(m);
    }
    let m = &all[0];
    let fault = src.choice(4);
    match fault {
        0 => (),
        1 => fs::create_dir(&sub).expect("scratch"),
        2 => put(&sub, b"EESchema Schematic File Version 2\n\xff"),
        _ => {
            let mut s = MSch::gen_sized(src, 3, 1);
            s.sheets.clear();
            put(&sub, s.doc(src).as_bytes());
            all.push(s);
            return missing(src, cx, &top, &all);
        }
    }
    let want = fs::read_to_string(&sub).err().map(|e| e.kind()).expect("unreadable");
    let v = match no_panic("parse_file", || k::schematic::parse_file(&top))? {
        Ok(v) => v,
        // see C06
        Err(_) => return Ok(()),
    };
    cx.case(&format!("{:?} {:?}", m, want));
    cx.nontrivial(true);
    io_kind("all_components", want, no_panic("all_components", || v.all_components().err())?)?;
    if between == 0 {
        io_kind("parse_file_for_sheet", want, no_panic("parse_file_for_sheet", || k::schematic::parse_file_for_sheet(&v, &v.sheets[0]).err())?)?;
    }
    let r = "X99";
    if all.iter().all(|m| m.comps().iter().all(|c| c.reference != r)) {
        io_kind("component_by_reference", want, no_panic("component_by_reference", || v.component_by_reference(r).err())?)?;
    }
    Ok(())
}
