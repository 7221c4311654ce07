//! C13, C14, C24, C32: files, sheets in files, and the command line tools.
use crate::c_klc::{module_report, symbol_report, Found};
use crate::c_sexp::MTable;
use crate::engine::*;
use crate::fp::*;
use crate::gen;
use crate::ly::MLayout;
use crate::sch::{MComp, MSch, MSheet, SE};
use crate::sym::MSymLib;
use kicad_parse_gen as k;
use kicad_parse_gen::{Adjust, Expected, KicadFile};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// content of a file, by type
#[derive(Clone, PartialEq, Debug)]
pub enum Doc {
    Module(MModule),
    Schematic(MSch),
    Layout(MLayout),
    Lib(MSymLib),
    Project(String),
    Table(MTable),
}

pub const KINDS: [&str; 6] = ["module", "schematic", "layout", "symbollib", "project", "fp-lib-table"];

fn kind_of(f: &KicadFile) -> &'static str {
    match *f {
        KicadFile::Unknown(_) => "unknown",
        KicadFile::Module(_) => "module",
        KicadFile::Schematic(_) => "schematic",
        KicadFile::Layout(_) => "layout",
        KicadFile::SymbolLib(_) => "symbollib",
        KicadFile::Project(_) => "project",
        KicadFile::FpLibTable(_) => "fp-lib-table",
    }
}

impl Doc {
    pub fn gen(src: &mut Src, kind: usize) -> (Doc, String) {
        let (max, cont) = (12, 4);
        match kind {
            0 => {
                let m = MModule::gen_sized(src, max, cont);
                let t = m.doc(src);
                (Doc::Module(m), t)
            }
            1 => {
                let m = MSch::gen_sized(src, max, cont);
                let t = m.doc(src);
                (Doc::Schematic(m), t)
            }
            2 => {
                let m = MLayout::gen(src);
                let t = m.doc(src);
                (Doc::Layout(m), t)
            }
            3 => {
                let m = MSymLib::gen(src);
                let t = m.doc(src);
                (Doc::Lib(m), t)
            }
            4 => {
                let mut t = String::from("update=");
                for _ in 0..src.choice(6) {
                    t.push_str(&gen::text(src));
                    t.push_str(*src.pick(&["\n", "=", "\r\n", "[general]\n", "(module x)", "EESchema Schematic File Version 2\n"]));
                }
                if src.chance(1, 60) {
                    // a long one
                    let n = *src.pick(&[4096, 8192, 65536, 131072]) + src.range(-1, 1);
                    let fill: String = src.pick(&["a", "b\n", "[x]\n", "é"]).chars().cycle().take(n as usize).collect();
                    t.push_str(&fill);
                }
                (Doc::Project(t.clone()), t)
            }
            _ => {
                let m = MTable::gen(src);
                let t = m.doc(src);
                (Doc::Table(m), t)
            }
        }
    }
    fn kind(&self) -> usize {
        match *self {
            Doc::Module(_) => 0,
            Doc::Schematic(_) => 1,
            Doc::Layout(_) => 2,
            Doc::Lib(_) => 3,
            Doc::Project(_) => 4,
            Doc::Table(_) => 5,
        }
    }
}

fn content(f: KicadFile) -> Option<Doc> {
    Some(match f {
        KicadFile::Unknown(_) => return None,
        KicadFile::Module(x) => Doc::Module(MModule::from_lib(&x)),
        KicadFile::Schematic(x) => Doc::Schematic(MSch::from_lib(&x)),
        KicadFile::Layout(x) => Doc::Layout(MLayout::from_lib(&x)),
        KicadFile::SymbolLib(x) => Doc::Lib(MSymLib::from_lib(&x)),
        KicadFile::Project(x) => Doc::Project(x.data),
        KicadFile::FpLibTable(x) => Doc::Table(MTable::from_lib(&x)),
    })
}

fn read_as(p: &Path, kind: usize) -> Result<Doc, String> {
    fn s(e: k::KicadError) -> String {
        format!("{}", e)
    }
    Ok(match kind {
        0 => Doc::Module(MModule::from_lib(&k::read_module(p).map_err(s)?)),
        1 => Doc::Schematic(MSch::from_lib(&k::read_schematic(p).map_err(s)?)),
        2 => Doc::Layout(MLayout::from_lib(&k::read_layout(p).map_err(s)?)),
        3 => Doc::Lib(MSymLib::from_lib(&k::read_symbol_lib(p).map_err(s)?)),
        4 => Doc::Project(k::read_project(p).map_err(s)?.data),
        _ => Doc::Table(MTable::from_lib(&k::read_fp_lib_table(p).map_err(s)?)),
    })
}

pub fn expected(kind: usize) -> Expected {
    match kind {
        0 => Expected::Module,
        1 => Expected::Schematic,
        2 => Expected::Layout,
        3 => Expected::SymbolLib,
        4 => Expected::Project,
        5 => Expected::FpLibTable,
        _ => Expected::Any,
    }
}

/// a file name, also with unusual characters and misleading extensions
pub fn file_name(src: &mut Src) -> OsString {
    let base: &[&[u8]] = &[
        b"a.kicad_mod", b"b.sch", b"c.kicad_pcb", b"d.lib", b"e.pro", b"fp-lib-table", b"with space", b"\xc3\xa9.sch", b"\xff\xfe", b"x'\"y", b"-v", b".hidden",
    ];
    if let Some(t) = gen::some_dict_token(src) {
        let t: String = t.chars().filter(|c| *c != '/').take(40).collect();
        if !t.is_empty() && t != "." && t != ".." {
            return t.into();
        }
    }
    let mut n = src.pick(base).to_vec();
    if src.chance(1, 4) {
        match gen::some_dict_token(src) {
            Some(t) => n.extend(t.chars().filter(|c| *c != '/').take(40).collect::<String>().bytes()),
            None => n.extend_from_slice(src.pick(&[".bak", ".txt", "-bak", "~", ".orig", ".KICAD_MOD", ".sch", ".lib", ".pro", ".kicad_pcb", ".kicad_mod", ".dcm", ".", " ", ".gz"]).as_bytes()),
        }
    }
    OsString::from_vec(n)
}

pub fn put(p: &Path, t: &[u8]) {
    fs::write(p, t).expect("scratch file")
}

/// no KiCad file at all
fn nothing(src: &mut Src) -> String {
    match src.choice(6) {
        0 => String::new(),
        1 => {
            let t = gen::text(src).replace('(', "<");
            if t.starts_with("update=") { format!("x{}", t) } else { t }
        }
        2 => {
            // a list that is not closed
            let (_, t) = {
                let k = *src.pick(&[0, 2, 5]);
                Doc::gen(src, k)
            };
            let end = t.rfind(')').unwrap();
            let c: Vec<char> = t[..end].chars().collect();
            let n = src.choice(c.len() as u64 + 1) as usize;
            c[..n].iter().collect()
        }
        3 => {
            // an unknown kind of list
            let h = *src.pick(&["modules", "kicad_pc", "fp_lib_tables", "Module", "x", "", "module_", "sym_lib_table"]);
            format!("({} {})", h, gen::word(src))
        }
        4 => {
            let h = *src.pick(&["EESchema Schematic File Version", "EESchema", "EESchema-LIBRARY", "Update=", " update=", "\nupdate=", "eeschema-LIBRARY Version 2.3", "PCBNEW"]);
            // close to a heading, but not one
            h.to_string()
        }
        _ => src.list(12, 5, |s| *s.pick(&["(", ")", " ", "\n", "modul", "\"", "update", "x", "EESchema"])).concat(),
    }
}

pub fn c13(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let p = cx.scratch.join(file_name(src));
    let (doc, t) = if src.chance(1, 4) {
        cx.tag("unknown");
        let t = nothing(src);
        (None, t)
    } else {
        let kind = src.choice(6) as usize;
        cx.tag(KINDS[kind]);
        let (d, t) = Doc::gen(src, kind);
        (Some(d), t)
    };
    cx.case(&format!("{}\n{}", p.display(), t));
    cx.nontrivial(t.len() > 20);
    put(&p, t.as_bytes());
    let r = c13_on(src, &p, doc);
    let _ = fs::remove_file(&p);
    r
}

fn c13_on(src: &mut Src, p: &Path, doc: Option<Doc>) -> Result<(), Fail> {
    let f = match no_panic("read_kicad_file", || k::read_kicad_file(p, Expected::Any))? {
        Ok(f) => f,
        Err(e) => return fail("identify:error", format!("error {}", e)),
    };
    let name = kind_of(&f);
    let want = doc.as_ref().map_or("unknown", |d| KINDS[d.kind()]);
    ensure!(name == want, "identify:kind", "{} identified as {}", want, name);
    let shown = format!("{}", f);
    let text = if doc.is_some() { want.to_string() } else { format!("unknown: {}", p.display()) };
    ensure!(shown == text, "identify:shown", "{:?} instead of {:?}", shown, text);
    match f {
        KicadFile::Unknown(ref q) => ensure!(q == p, "identify:path", "{:?} became {:?}", p, q),
        KicadFile::Schematic(ref s) => {
            ensure!(s.filename.as_ref().map(|x| x.as_path()) == Some(p), "identify:path", "{:?} became {:?}", p, s.filename)
        }
        _ => (),
    }
    let got = content(f);
    ensure!(got == doc, "identify:content", "{}", debug_diff(&doc, &got));
    // asking for one type
    for kind in 0..6 {
        let r = no_panic("read", || read_as(p, kind))?;
        match doc {
            Some(ref d) if d.kind() == kind => match r {
                Ok(ref g) => ensure!(g == d, "read:content", "{}", debug_diff(d, g)),
                Err(e) => return fail("read:error", format!("{} as {}: {}", want, KINDS[kind], e)),
            },
            _ => ensure!(r.is_err(), "read:other", "{} accepted as {}", want, KINDS[kind]),
        }
    }
    // an expectation never gives data of a type the file does not have
    let kind = src.choice(6) as usize;
    if let Ok(f) = no_panic("read_kicad_file", || k::read_kicad_file(p, expected(kind)))? {
        let n = kind_of(&f);
        ensure!(n == want, "expected:kind", "{} expected as {} gives {}", want, KINDS[kind], n);
        let got = content(f);
        ensure!(got == doc, "expected:content", "{}", debug_diff(&doc, &got));
    }
    Ok(())
}

/// something to write: plain text, a footprint or a layout
pub enum Out {
    Text(String),
    Module(MModule),
    Layout(MLayout),
}

impl Out {
    pub fn gen(src: &mut Src) -> Out {
        match src.choice(3) {
            0 if src.chance(1, 30) => {
                // a set number of bytes, around those buffers have
                let n = match gen::dict_int(src) {
                    Some(n) if n <= 300_000 => n,
                    _ => *src.pick(&[1, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144]) + src.range(-1, 1),
                };
                Out::Text(src.pick(&["a", "b\n", "\n", "(x)"]).chars().cycle().take(n as usize).collect())
            }
            0 => {
                let n = if src.chance(1, 20) { 4000 } else { 20 };
                Out::Text(src.list(n, n as u64 / 3, |s| if s.bool() { gen::text(s) } else { s.pick(&["\n", "\r\n", "{}", "{0}", "\0", "\u{feff}", "%s", "\t"]).to_string() }).concat())
            }
            1 => Out::Module(MModule::gen(src)),
            _ => Out::Layout(MLayout::gen(src)),
        }
    }
    pub fn text(&self) -> Result<String, Fail> {
        match *self {
            Out::Text(ref t) => Ok(t.clone()),
            Out::Module(ref m) => crate::c_sexp::write_module(&m.to_lib(), 0),
            Out::Layout(ref m) => crate::c_sexp::write_layout(&m.to_lib(), 0),
        }
    }
    fn write(&self, p: &Path) -> Result<bool, Fail> {
        Ok(self.try_write(p)?.is_ok())
    }
    pub fn try_write(&self, p: &Path) -> Result<Result<(), k::KicadError>, Fail> {
        no_panic("write", || match *self {
            Out::Text(ref t) => k::write_file(p, t),
            Out::Module(ref m) => k::write_module(&m.to_lib(), p),
            Out::Layout(ref m) => k::write_layout(&m.to_lib(), p),
        })
    }
    pub fn kind(&self) -> &'static str {
        match *self {
            Out::Text(_) => "text",
            Out::Module(_) => "module",
            Out::Layout(_) => "layout",
        }
    }
}

pub fn c14(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let dir = cx.scratch.join("d");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let r = c14_in(src, cx, &dir);
    let _ = fs::remove_dir_all(&dir);
    r
}

/// the current directory of this thread alone
fn go_to(dir: &Path) -> bool {
    thread_local! {
        static OWN: bool = unsafe { libc::unshare(libc::CLONE_FS) == 0 };
    }
    OWN.with(|x| *x) && std::env::set_current_dir(dir).is_ok()
}

/// the same file, seen from some directory
fn named(src: &mut Src, cx: &mut Cx, p: &Path) -> PathBuf {
    let (way, up) = (src.choice(6), src.choice(3));
    let mut dir = p.parent().expect("directory");
    if way < 3 {
        return p.into();
    }
    for _ in 0..up {
        dir = dir.parent().expect("directory")
    }
    if !go_to(dir) {
        return p.into();
    }
    cx.tag("relative path");
    let r = p.strip_prefix(dir).expect("below");
    match way {
        3 => Path::new(".").join(r),
        _ => r.into(),
    }
}

fn c14_in(src: &mut Src, cx: &mut Cx, dir: &Path) -> Result<(), Fail> {
    let p = dir.join(file_name(src));
    let p = named(src, cx, &p);
    match src.choice(64) {
        0 => {
            cx.tag("limited");
            let o = Out::gen(src);
            let t = o.text()?;
            cx.case(&format!("limited {} {}", o.kind(), t));
            cx.nontrivial(!t.is_empty());
            let all = t.len() <= 400;
            let limits: Vec<usize> = if all {
                (0..=t.len() + 1).collect()
            } else {
                let mut v: Vec<usize> = (0..40).map(|_| src.choice(t.len() as u64 + 2) as usize).collect();
                v.extend(vec![0, 1, 4095, 4096, 8191, 8192, 8193, 65536, t.len() - 1, t.len(), t.len() + 1]);
                v
            };
            cx.evals += limits.len() as u64;
            limited(dir, o.kind(), &t, &limits)
        }
        1..=8 => {
            cx.tag("cannot create");
            let o = Out::gen(src);
            let t = o.text()?;
            let q = match src.choice(4) {
                0 => dir.join("missing").join("x"),
                1 => {
                    fs::create_dir(dir.join("sub")).expect("scratch");
                    dir.join("sub")
                }
                2 => {
                    put(&dir.join("file"), b"x");
                    dir.join("file").join("y")
                }
                _ => {
                    // a device that is always full, by way of a link in the scratch directory
                    let full = Path::new("/dev/full");
                    use std::os::unix::fs::FileTypeExt;
                    if t.is_empty() || !fs::metadata(full).map_or(false, |m| m.file_type().is_char_device()) {
                        return Ok(());
                    }
                    cx.tag("full");
                    let l = dir.join("link");
                    std::os::unix::fs::symlink(full, &l).expect("scratch");
                    l
                }
            };
            cx.case(&format!("{} to {}", o.kind(), q.display()));
            cx.nontrivial(true);
            ensure!(!o.write(&q)?, "write:failure", "writing {} to {} reported as done", o.kind(), q.display());
            ensure!(!dir.join("missing").exists(), "write:failure", "directory made");
            Ok(())
        }
        9..=16 => {
            cx.tag("cannot read");
            let kind = src.choice(6) as usize;
            let (_, t) = Doc::gen(src, kind);
            let q = match src.choice(3) {
                0 => p.clone(),
                1 => {
                    fs::create_dir(&p).expect("scratch");
                    p.clone()
                }
                _ => {
                    // not text
                    let mut b = t.into_bytes();
                    let at = src.choice(b.len() as u64 + 1) as usize;
                    let bad: &[&[u8]] = &[b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80"];
                    let x = src.pick(bad).to_vec();
                    b.splice(at..at, x);
                    if std::str::from_utf8(&b).is_ok() {
                        return Ok(());
                    }
                    put(&p, &b);
                    p.clone()
                }
            };
            cx.case(&format!("read {} as {}", q.display(), KINDS[kind]));
            cx.nontrivial(true);
            ensure!(no_panic("read_file", || k::read_file(&q).is_err())?, "read:failure", "text read from {}", q.display());
            for kind in 0..6 {
                ensure!(no_panic("read", || read_as(&q, kind).is_err())?, "read:failure", "{} read from {}", KINDS[kind], q.display());
            }
            ensure!(no_panic("read", || k::read_kicad_file(&q, Expected::Any).is_err())?, "read:failure", "identified {}", q.display());
            ensure!(no_panic("read", || k::schematic::parse_file(&q).is_err())?, "read:failure", "schematic from {}", q.display());
            ensure!(no_panic("read", || k::symbol_lib::parse_file(&q).is_err())?, "read:failure", "library from {}", q.display());
            Ok(())
        }
        _ => {
            cx.tag("written");
            let n = 1 + src.choice(3);
            for _ in 0..n {
                let o = Out::gen(src);
                let t = o.text()?;
                let before = match src.choice(8) {
                    5 | 6 => {
                        // nearly the same
                        let mut b = t.clone().into_bytes();
                        let i = src.choice(b.len() as u64 + 1) as usize;
                        match src.choice(4) {
                            0 if i < b.len() => b[i] ^= 1,
                            1 => b.truncate(i),
                            2 => b.insert(i, b' '),
                            _ => b.extend_from_slice(b"\n(x)"),
                        }
                        Some(b)
                    }
                    0 => Some(vec![b'x'; t.len() + 1 + src.choice(5000) as usize]),
                    1 => Some(vec![b'x'; (t.len() / 2).min(10)]),
                    2 => Some(vec![b')'; t.len()]),
                    3 => {
                        let _ = fs::remove_file(&p);
                        None
                    }
                    // what the last write left
                    _ => None,
                };
                if let Some(b) = before {
                    put(&p, &b)
                }
                cx.case(&format!("{} {}", o.kind(), t));
                cx.nontrivial(t.len() > 20);
                ensure!(o.write(&p)?, "write:error", "writing {} failed", o.kind());
                let got = fs::read(&p).unwrap_or_default();
                ensure!(got == t.as_bytes(), "write:content", "{} bytes instead of {}: {:?}", got.len(), t.len(), String::from_utf8_lossy(&got));
                let back = no_panic("read_file", || k::read_file(&p).ok())?;
                ensure!(back.as_ref() == Some(&t), "read:content", "read back {:?}", back);
                match o {
                    Out::Module(ref m) => {
                        let g = no_panic("read", || read_as(&p, 0))?;
                        let w = Ok(Doc::Module(m.clone()));
                        ensure!(g == w, "read:back", "{}", debug_diff(&w, &g))
                    }
                    Out::Layout(ref m) => {
                        let g = no_panic("read", || read_as(&p, 2))?;
                        let w = Ok(Doc::Layout(m.clone()));
                        ensure!(g == w, "read:back", "{}", debug_diff(&w, &g))
                    }
                    _ => (),
                }
            }
            let l = fs::read_dir(dir).map(|d| d.count()).unwrap_or(0);
            ensure!(l == 1, "write:files", "{} files in the directory instead of 1", l);
            Ok(())
        }
    }
}

/// every write in a process that may only write so many bytes to a file
fn limited(dir: &Path, kind: &str, t: &str, limits: &[usize]) -> Result<(), Fail> {
    let src = dir.join("in");
    put(&src, t.as_bytes());
    let out = Command::new(std::env::current_exe().expect("exe"))
        .arg("limited")
        .arg(dir)
        .arg(kind)
        .arg(limits.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("limit ")).collect();
    ensure!(out.status.success() && lines.len() == limits.len(), "write:crash", "writing with a limited file size ends with {:?}: {}", out.status, text);
    for (l, n) in lines.iter().zip(limits) {
        // limit <n> <ok|err> <same|other>
        let w: Vec<&str> = l.split(' ').collect();
        let fits = *n >= t.len();
        ensure!((w[2] == "ok") == fits, "write:partial", "{} bytes, {} can be written, result {}", t.len(), n, w[2]);
        if fits {
            ensure!(w[3] == "same", "write:content", "written with limit {}, content differs", n)
        }
    }
    Ok(())
}

/// limited <dir> <kind> <limits>
pub fn limited_main(args: &[String]) {
    let dir = PathBuf::from(&args[0]);
    let t = fs::read_to_string(dir.join("in")).expect("in");
    let m = if args[1] == "module" { k::footprint::parse(&t).ok() } else { None };
    let l = if args[1] == "layout" { k::layout::parse(&t).ok() } else { None };
    let set = |n: u64| unsafe {
        let r = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let p = dir.join("out");
    let mut rep = String::new();
    for n in args[2].split(',') {
        let n: u64 = n.parse().expect("limit");
        if n % 2 == 0 {
            put(&p, b"older content");
        } else {
            let _ = fs::remove_file(&p);
        }
        set(n);
        let r = match (&m, &l) {
            (&Some(ref m), _) => k::write_module(m, &p).is_ok(),
            (_, &Some(ref l)) => k::write_layout(l, &p).is_ok(),
            _ => k::write_file(&p, &t).is_ok(),
        };
        set(libc::RLIM_INFINITY);
        let same = fs::read(&p).map_or(false, |b| b == t.as_bytes());
        rep.push_str(&format!("limit {} {} {}\n", n, if r { "ok" } else { "err" }, if same { "same" } else { "other" }));
    }
    print!("{}", rep);
}

struct Node {
    dir: &'static str,
    file: String,
    sch: MSch,
    kids: Vec<usize>,
    /// missing, or not a schematic
    bad: bool,
}

const DIRS: [&str; 5] = ["", "a", "a/b", "c d", "é"];

/// path from one directory to another
fn relative(from: &str, to: &str, file: &str) -> String {
    let mut t = String::new();
    if !from.is_empty() && from != to && !to.starts_with(&format!("{}/", from)) {
        for _ in from.split('/') {
            t.push_str("../")
        }
        if !to.is_empty() {
            t.push_str(to);
            t.push('/')
        }
    } else {
        let rest = to[from.len()..].trim_start_matches('/');
        if !rest.is_empty() {
            t.push_str(rest);
            t.push('/')
        }
    }
    t + file
}

/// all components, or nothing if some sheet cannot be read
fn walk<'a>(l: &'a [Node], i: usize, out: &mut Vec<&'a MComp>) -> bool {
    if l[i].bad {
        return false;
    }
    out.extend(l[i].sch.comps());
    l[i].kids.iter().all(|k| walk(l, *k, out))
}

/// the first component found, nothing, or an unreadable sheet on the way
fn seek<'a>(l: &'a [Node], i: usize, r: &str) -> Result<Option<&'a MComp>, ()> {
    if l[i].bad {
        return Err(());
    }
    if let Some(c) = l[i].sch.comps().into_iter().find(|c| c.reference == r) {
        return Ok(Some(c));
    }
    for k in &l[i].kids {
        if let Some(c) = seek(l, *k, r)? {
            return Ok(Some(c));
        }
    }
    Ok(None)
}

pub fn c24(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let root = cx.scratch.join("h");
    let _ = fs::remove_dir_all(&root);
    for d in &DIRS {
        fs::create_dir_all(root.join(d)).expect("scratch");
    }
    let n = if src.chance(1, 8) { 2 + src.choice(14) as usize } else { 1 + src.choice(6) as usize };
    // many on one sheet, one below the other, or any tree
    let form = src.choice(6);
    let mut l: Vec<Node> = vec![];
    let faults = src.chance(1, 3);
    for i in 0..n {
        let mut sch = MSch::gen_sized(src, 3, 1);
        for _ in 0..src.choice(3) {
            let mut c = MComp::gen(src);
            c.reference = src.pick(&["R1", "R2", "U1", "U10", "C1", "C2"]).to_string();
            sch.els.push(SE::Comp(c));
        }
        sch.sheets.clear();
        // sheets that come later, at most once each or twice
        let mut kids = vec![];
        if i + 1 < n && form == 4 {
            kids.push(i + 1);
        } else if i == 0 && form == 5 {
            kids.extend(1..n);
        } else if i + 1 < n {
            for _ in 0..src.choice(3) {
                kids.push(i + 1 + src.choice((n - i - 1) as u64) as usize)
            }
        }
        let dir = *src.pick(&DIRS);
        let file = format!("{}{}.sch", src.pick(&["s", "sub sheet", "ü", "x.y", "a\\b", "S", "-s", "~", "%20", "#", "..s", "$HOME", "a:b", " s", "s  "]), i);
        let file = if src.chance(1, 16) { format!("{} ", file) } else { file };
        let bad = i > 0 && faults && src.chance(1, 4);
        l.push(Node { dir, file, sch, kids, bad });
    }
    for i in 0..n {
        let kids = l[i].kids.clone();
        for k in kids {
            let mut s = MSheet::gen(src);
            s.labels.truncate(2);
            let r = relative(l[i].dir, l[k].dir, &l[k].file);
            s.file = match src.choice(20) {
                19 | 18 => root.join(l[k].dir).join(&l[k].file).to_str().unwrap().into(),
                17 => format!("{}{}", src.pick(&["./", ".//", "././", "././/"]), r),
                // no file at all
                14 | 15 if l[k].bad => String::new(),
                16 if l[i].dir != "" => format!("../{}/{}", l[i].dir.rsplit('/').next().unwrap(), r),
                _ => r,
            };
            l[i].sch.sheets.push(s)
        }
    }
    let mut shown = String::new();
    for (i, x) in l.iter().enumerate() {
        let p = root.join(x.dir).join(&x.file);
        let t = x.sch.doc(src);
        shown.push_str(&format!("--- {} {} -> {:?}{}\n{}", i, p.display(), x.kids, if x.bad { " bad" } else { "" }, if x.bad { "" } else { &t }));
        if !x.bad {
            put(&p, t.as_bytes())
        } else {
            match src.choice(8) {
                0 | 1 => put(&p, b"not a schematic\n"),
                2 => put(&p, b""),
                3 => put(&p, b"EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n#End Library\n"),
                4 => put(&p, &[t.as_bytes(), b"\xff"].concat()),
                5 => fs::create_dir(&p).expect("scratch"),
                _ => (),
            }
        }
    }
    cx.case(&shown);
    let r = c24_on(src, cx, &root, &l);
    let _ = fs::remove_dir_all(&root);
    r
}

fn c24_on(src: &mut Src, cx: &mut Cx, root: &Path, l: &[Node]) -> Result<(), Fail> {
    let p = root.join(l[0].dir).join(&l[0].file);
    let p = named(src, cx, &p);
    let top = match src.choice(2) {
        0 => no_panic("parse_file", || k::schematic::parse_file(&p))?,
        _ => no_panic("read_schematic", || k::read_schematic(&p))?,
    };
    let top = match top {
        Ok(t) => t,
        Err(e) => return fail("sheets:top", format!("top sheet rejected: {}", e)),
    };
    // where the sheets are
    for (s, k) in top.sheets.iter().zip(&l[0].kids) {
        let f = match no_panic("filename_for_sheet", || k::schematic::filename_for_sheet(&top, s))? {
            Ok(f) => f,
            Err(e) => return fail("sheets:name", format!("{}", e)),
        };
        let want = root.join(l[*k].dir).join(&l[*k].file);
        if !l[*k].bad {
            ensure!(fs::canonicalize(&f).ok() == fs::canonicalize(&want).ok(), "sheets:name", "{:?} is looked for at {:?}", want, f);
        }
        let r = no_panic("parse_file_for_sheet", || k::schematic::parse_file_for_sheet(&top, s))?;
        ensure!(r.is_ok() == !l[*k].bad, "sheets:read", "{:?}: readable {}", want, r.is_ok());
        if let Ok(r) = r {
            let g = MSch::from_lib(&r);
            ensure!(g == l[*k].sch, "sheets:content", "{}", debug_diff(&l[*k].sch, &g));
        }
    }
    let mut want = vec![];
    let whole = walk(l, 0, &mut want);
    cx.tag(if whole { "complete" } else { "missing sheet" });
    cx.nontrivial(l[0].kids.len() >= 1 && want.len() >= 2);
    match no_panic("all_components", || top.all_components())? {
        Ok(got) => {
            ensure!(whole, "sheets:partial", "a sheet cannot be read, but {} components are returned", got.len());
            let a: Vec<String> = want.iter().map(|c| c.reference.clone()).collect();
            let b: Vec<String> = got.iter().map(|c| c.reference.clone()).collect();
            ensure!(a == b, "sheets:all", "{:?} became {:?}", a, b);
            for (a, b) in want.iter().zip(&got) {
                let b = MComp::from_lib(b);
                ensure!(**a == b, "sheets:component", "{}", debug_diff(*a, &b));
            }
        }
        Err(e) => ensure!(!whole, "sheets:error", "all sheets can be read, but {}", e),
    }
    let some: Vec<String> = want.iter().map(|c| c.reference.clone()).collect();
    for i in 0..4 {
        let r = if i > 1 && !some.is_empty() { some[src.choice(some.len() as u64) as usize].clone() } else { src.pick(&["R1", "R2", "U1", "U10", "C1", "C2", "X9"]).to_string() };
        cx.case(&r);
        let got = no_panic("component_by_reference", || top.component_by_reference(&r))?.ok().map(|c| MComp::from_lib(&c));
        let want = seek(l, 0, &r).ok().and_then(|x| x).cloned();
        ensure!(got == want, "sheets:find", "{:?}: {}", r, debug_diff(&want, &got));
    }
    // without a file there is nowhere to look
    let text = top.to_string();
    if let Ok(s) = k::schematic::parse_str(&text) {
        let r = no_panic("all_components", || s.all_components().is_ok())?;
        ensure!(r == l[0].kids.is_empty(), "sheets:nowhere", "schematic without file, {} sheets: ok {}", l[0].kids.len(), r);
    }
    Ok(())
}

const TOOLS: [&str; 6] = ["adjust_layout", "dump_footprint", "dump_layout", "identify", "klc_kicad_mod", "klc_symbol_lib"];

fn tool_path(t: &str) -> PathBuf {
    let mut p = std::env::current_exe().expect("exe");
    p.set_file_name(t);
    p
}

/// level and text of the log lines that are not for debugging
fn log_lines(s: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in s.lines() {
        let level = if l.starts_with("WARN:") {
            "WARN"
        } else if l.starts_with("INFO:") {
            "INFO"
        } else {
            continue;
        };
        if let Some(i) = l.find(": ") {
            v.push((level.to_string(), l[i + 2..].to_string()))
        }
    }
    v
}

fn finding(f: &Found) -> (String, String) {
    (if f.4 { "INFO" } else { "WARN" }.to_string(), format!("{}.{} {}:{}", f.0, f.1, f.2, f.3))
}

/// the findings are logged in groups, one for each part that has any
fn same_log(got: &[(String, String)], want: &[(String, Vec<Found>)]) -> Result<(), Fail> {
    let mut at = 0;
    for (head, l) in want {
        if l.is_empty() {
            continue;
        }
        match got.get(at) {
            Some(g) if g.1 == *head => at += 1,
            g => return fail("tool:log", format!("{:?} expected, {:?} found", head, g)),
        }
        let mut w: Vec<_> = l.iter().map(finding).collect();
        let mut g: Vec<_> = got[at..].iter().take(w.len()).map(|x| (x.0.clone(), x.1.trim_start().to_string())).collect();
        w.sort();
        g.sort();
        ensure!(w == g, "tool:log", "findings of {}: {}", head, debug_diff(&w, &g));
        at += w.len();
    }
    ensure!(at == got.len(), "tool:log", "surplus lines {:?}", &got[at..]);
    Ok(())
}

pub fn c32(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let tool = *src.pick(&TOOLS);
    cx.tag(tool);
    let own = match tool {
        "adjust_layout" | "dump_layout" => 2,
        "dump_footprint" | "klc_kicad_mod" => 0,
        "klc_symbol_lib" => 3,
        _ => src.choice(6) as usize,
    };
    let p = cx.scratch.join(src.pick(&["a", "b.kicad_mod", "c d", "é.sch"]));
    let _ = fs::remove_file(&p);
    let (doc, t) = match src.choice(8) {
        0 => (None, Some(nothing(src))),
        1 => (None, None),
        2 => {
            let kind = src.choice(6) as usize;
            let (d, t) = Doc::gen(src, kind);
            (Some(d), Some(t))
        }
        _ => {
            let (d, t) = Doc::gen(src, own);
            (Some(d), Some(t))
        }
    };
    if let Some(ref t) = t {
        put(&p, t.as_bytes())
    }
    cx.case(&format!("{} {:?}", tool, t));
    let run = Command::new(tool_path(tool)).env("RUST_BACKTRACE", "0").arg(&p).stdin(Stdio::null()).output();
    let run = match run {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot run {}: {}", tool, e);
            std::process::exit(2)
        }
    };
    let _ = fs::remove_file(&p);
    let out = String::from_utf8_lossy(&run.stdout).to_string();
    let err = String::from_utf8_lossy(&run.stderr).to_string();
    let ok = match tool {
        "identify" => t.is_some(),
        _ => doc.as_ref().map_or(false, |d| d.kind() == own),
    };
    cx.nontrivial(ok);
    cx.tag(if ok { "suitable file" } else { "unsuitable file" });
    ensure!(run.status.success() == ok, "tool:status", "{} ends with {:?}, the file is suitable: {}", tool, run.status, ok);
    if !ok {
        return Ok(());
    }
    let want = match (tool, doc) {
        ("identify", d) => {
            let n = match d {
                Some(d) => KINDS[d.kind()].to_string(),
                None => format!("unknown: {}", p.display()),
            };
            format!("found: {}\n", n)
        }
        ("dump_layout", Some(Doc::Layout(m))) => format!("{}\n", crate::c_sexp::write_layout(&m.to_lib(), 0)?),
        ("adjust_layout", Some(Doc::Layout(m))) => {
            let mut v = m.to_lib();
            v.adjust(100.0, 0.0);
            format!("{}\n", crate::c_sexp::write_layout(&v, 0)?)
        }
        ("dump_footprint", Some(Doc::Module(m))) => format!("{}\n{}\n", m.name, crate::c_sexp::write_module(&m.to_lib(), 0)?),
        ("klc_kicad_mod", Some(Doc::Module(m))) => {
            let r = module_report(&m, 1.0, 0.15);
            same_log(&log_lines(&err), &[(format!("Module {}", m.name), r)])?;
            return Ok(());
        }
        ("klc_symbol_lib", Some(Doc::Lib(m))) => {
            let r: Vec<_> = m.syms.iter().map(|s| (format!("Symbol {}", s.name), symbol_report(s))).collect();
            same_log(&log_lines(&err), &r)?;
            return Ok(());
        }
        _ => return Ok(()),
    };
    ensure!(out == want, "tool:output", "{}: {}", tool, debug_diff(&want, &out));
    Ok(())
}
