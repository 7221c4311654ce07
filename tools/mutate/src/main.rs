//! mutate <src dir> <out dir> <exclude file> <list file>
//! Writes a copy of every source file in which each place that can be changed has a switch
//! `::__mu(n)`; one build then holds all changes, and the environment variable MUT selects one.
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use std::fs;
use std::path::Path;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    skip: BTreeSet<u32>,
    file: String,
    list: Vec<String>,
    func: String,
}

fn short<T: ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    let s: String = s.chars().take(110).collect();
    s.replace('\n', " ")
}

impl M {
    /// number of a new change, unless it is among those left out
    fn new(&mut self, sp: Span, what: String) -> Option<u32> {
        let n = self.next;
        self.next += 1;
        if self.skip.contains(&n) {
            return None;
        }
        self.list.push(format!("{}\t{}:{}\t{}\t{}", n, self.file, sp.start().line, self.func, what));
        Some(n)
    }

    /// wraps an expression with its alternatives
    fn wrap(&mut self, now: Expr, sp: Span, alts: Vec<(Expr, String)>) -> Expr {
        let mut e = quote! { { #now } };
        let mut any = false;
        for (a, what) in alts {
            if let Some(n) = self.new(sp, what) {
                e = quote! { { if ::__mu(#n) { #a } else #e } };
                any = true;
            }
        }
        if !any {
            return now;
        }
        parse_quote! { (#e) }
    }
}

fn swap_field(n: &str) -> Option<&'static str> {
    Some(match n {
        "x" => "y",
        "y" => "x",
        "x1" => "x2",
        "x2" => "x1",
        "y1" => "y2",
        "y2" => "y1",
        "dimx" => "dimy",
        "dimy" => "dimx",
        "start" => "end",
        "end" => "start",
        "center" => "end",
        "width" => "height",
        "height" => "width",
        "hjustify" => "vjustify",
        "italic" => "bold",
        "bold" => "italic",
        "sheet" => "sheets",
        "num_size" => "name_size",
        "name_size" => "num_size",
        "name_size_" => "x",
        "via_dia" => "via_drill",
        "via_drill" => "via_dia",
        "uvia_dia" => "uvia_drill",
        "uvia_drill" => "uvia_dia",
        "dx" => "dy",
        "dy" => "dx",
        "hidden" => "mirror",
        "draw_pinnumber" => "draw_pinname",
        "draw_pinname" => "draw_pinnumber",
        _ => return None,
    })
}

impl VisitMut for M {
    fn visit_item_mod_mut(&mut self, i: &mut ItemMod) {
        if i.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        visit_mut::visit_item_mod_mut(self, i)
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let t = short(&i.self_ty);
        let tr = i.trait_.as_ref().map(|x| short(&x.1)).unwrap_or_default();
        if tr == "Default" {
            self.func = format!("{} as {}", t, tr);
        }
        let old = std::mem::replace(&mut self.func, format!("{}/{}", t, tr));
        visit_mut::visit_item_impl_mut(self, i);
        self.func = old;
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        let n = i.sig.ident.to_string();
        let new = format!("{}.{}", self.func, n);
        let old = std::mem::replace(&mut self.func, new);
        visit_mut::visit_impl_item_fn_mut(self, i);
        self.func = old;
    }
    fn visit_item_fn_mut(&mut self, i: &mut ItemFn) {
        let n = i.sig.ident.to_string();
        let old = std::mem::replace(&mut self.func, n);
        visit_mut::visit_item_fn_mut(self, i);
        self.func = old;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let orig = b.clone();
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 < n {
                if let Stmt::Expr(Expr::Paren(_), ref mut semi @ None) = *s {
                    *semi = Some(Default::default());
                }
            }
        }
        for (s, o) in b.stmts.iter_mut().zip(&orig.stmts) {
            let sp = o.span();
            match *s {
                Stmt::Expr(ref e, Some(_)) => {
                    let ok = matches!(*e, Expr::MethodCall(_) | Expr::Assign(_) | Expr::Try(_) | Expr::Call(_) | Expr::Return(_) | Expr::Binary(_) | Expr::Continue(_) | Expr::Break(_));
                    let ok = ok || matches!(*e, Expr::Paren(_));
                    if ok {
                        if let Some(n) = self.new(sp, format!("delete: {}", short(o))) {
                            let t = s.clone();
                            *s = Stmt::Expr(parse_quote! { if !::__mu(#n) { #t } }, None);
                        }
                    }
                }
                Stmt::Expr(ref e, None) => {
                    let ok = matches!(*e, Expr::If(_) | Expr::ForLoop(_) | Expr::While(_));
                    let els = if let Expr::If(ref i) = *e { i.else_branch.is_some() } else { false };
                    if ok && !els {
                        if let Some(n) = self.new(sp, format!("delete: {}", short(o))) {
                            let t = s.clone();
                            *s = Stmt::Expr(parse_quote! { if !::__mu(#n) { #t } }, None);
                        }
                    }
                }
                Stmt::Macro(ref m) if m.semi_token.is_some() => {
                    if let Some(n) = self.new(sp, format!("delete: {}", short(o))) {
                        let t = s.clone();
                        *s = Stmt::Expr(parse_quote! { if !::__mu(#n) { #t } }, None);
                    }
                }
                _ => (),
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // macros in statement position as expressions
        if let Stmt::Macro(ref m) = *s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let semi = m.semi_token;
            let mut e2 = e.clone();
            self.visit_expr_mut(&mut e2);
            if e2 != e {
                *s = Stmt::Expr(e2, semi);
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s)
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let orig = m.clone();
        visit_mut::visit_expr_match_mut(self, m);
        let wild = orig.arms.last().map_or(false, |a| matches!(a.pat, Pat::Wild(_)) || matches!(a.pat, Pat::Ident(ref i) if i.ident.to_string().starts_with(char::is_lowercase)));
        let n = m.arms.len();
        for i in 0..n {
            let sp = orig.arms[i].pat.span();
            if wild && i + 1 < n && orig.arms[i].guard.is_none() {
                if let Some(k) = self.new(sp, format!("arm never: {}", short(&orig.arms[i].pat))) {
                    m.arms[i].guard = Some((Default::default(), parse_quote! { !::__mu(#k) }));
                }
            }
            if !wild && i + 1 < n {
                let unit = |p: &Pat| matches!(*p, Pat::Path(_) | Pat::Lit(_) | Pat::Wild(_)) || matches!(*p, Pat::Reference(ref r) if matches!(*r.pat, Pat::Path(_)));
                if unit(&orig.arms[i].pat) && unit(&orig.arms[i + 1].pat) {
                    let now = (*m.arms[i].body).clone();
                    let b = (*orig.arms[i + 1].body).clone();
                    let e = self.wrap(now, sp, vec![(b, format!("arm {} gives {}", short(&orig.arms[i].pat), short(&orig.arms[i + 1].body)))]);
                    m.arms[i].body = Box::new(e);
                    m.arms[i].comma = Some(Default::default());
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let orig = e.clone();
        let sp = orig.span();
        match *e {
            Expr::Let(ref mut l) => {
                self.visit_expr_mut(&mut l.expr);
                return;
            }
            Expr::Reference(ref r) if r.mutability.is_some() => return,
            Expr::Assign(ref mut a) => {
                self.visit_expr_mut(&mut a.right);
                return;
            }
            Expr::Binary(ref mut b)
                if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) =>
            {
                self.visit_expr_mut(&mut b.right);
                let now = e.clone();
                if let Expr::Binary(ref b) = orig {
                    let mut c = b.clone();
                    c.op = match b.op {
                        BinOp::AddAssign(_) => BinOp::SubAssign(Default::default()),
                        BinOp::SubAssign(_) => BinOp::AddAssign(Default::default()),
                        BinOp::MulAssign(_) => BinOp::DivAssign(Default::default()),
                        _ => BinOp::MulAssign(Default::default()),
                    };
                    let c = Expr::Binary(c);
                    let w = format!("{} -> {}", short(&orig), short(&c));
                    *e = self.wrap(now, sp, vec![(c, w)]);
                }
                return;
            }
            Expr::MethodCall(ref mut m) => {
                if !matches!(*m.receiver, Expr::Field(_) | Expr::Path(_)) {
                    self.visit_expr_mut(&mut m.receiver);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a)
                }
            }
            Expr::Index(ref mut i) => {
                self.visit_expr_mut(&mut i.index);
            }
            Expr::Field(_) => (),
            Expr::Repeat(_) => return,
            Expr::Macro(_) => (),
            Expr::Group(_) => return,
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let mut alts: Vec<(Expr, String)> = vec![];
        let mut alt = |x: Expr| {
            let w = format!("{} -> {}", short(&orig), short(&x));
            alts.push((x, w));
        };
        match orig {
            Expr::Binary(ref b) => {
                let with = |op: BinOp| {
                    let mut c = b.clone();
                    c.op = op;
                    Expr::Binary(c)
                };
                match b.op {
                    BinOp::Eq(_) => alt(with(BinOp::Ne(Default::default()))),
                    BinOp::Ne(_) => alt(with(BinOp::Eq(Default::default()))),
                    BinOp::Lt(_) => {
                        alt(with(BinOp::Le(Default::default())));
                        alt(with(BinOp::Ge(Default::default())));
                    }
                    BinOp::Le(_) => {
                        alt(with(BinOp::Lt(Default::default())));
                        alt(with(BinOp::Gt(Default::default())));
                    }
                    BinOp::Gt(_) => {
                        alt(with(BinOp::Ge(Default::default())));
                        alt(with(BinOp::Le(Default::default())));
                    }
                    BinOp::Ge(_) => {
                        alt(with(BinOp::Gt(Default::default())));
                        alt(with(BinOp::Lt(Default::default())));
                    }
                    BinOp::Add(_) => alt(with(BinOp::Sub(Default::default()))),
                    BinOp::Sub(_) => alt(with(BinOp::Add(Default::default()))),
                    BinOp::Mul(_) => alt(with(BinOp::Div(Default::default()))),
                    BinOp::Div(_) => alt(with(BinOp::Mul(Default::default()))),
                    BinOp::Rem(_) => alt((*b.left).clone()),
                    BinOp::And(_) => {
                        alt(with(BinOp::Or(Default::default())));
                        alt((*b.left).clone());
                        alt((*b.right).clone());
                    }
                    BinOp::Or(_) => {
                        alt(with(BinOp::And(Default::default())));
                        alt((*b.left).clone());
                        alt((*b.right).clone());
                    }
                    _ => (),
                }
            }
            Expr::Unary(ref u) if !matches!(u.op, UnOp::Deref(_)) => alt((*u.expr).clone()),
            Expr::Lit(ref l) => match l.lit {
                Lit::Bool(ref b) => {
                    let v = !b.value;
                    alt(parse_quote! { #v })
                }
                Lit::Int(ref i) => {
                    if let Ok(v) = i.base10_parse::<u64>() {
                        let a = LitInt::new(&(v + 1).to_string(), i.span());
                        alt(parse_quote! { #a });
                        if v > 0 {
                            let a = LitInt::new(&(v - 1).to_string(), i.span());
                            alt(parse_quote! { #a });
                        }
                    }
                }
                Lit::Float(ref f) => {
                    if let Ok(v) = f.base10_parse::<f64>() {
                        let a = v + 0.01;
                        alt(parse_quote! { #a });
                        let a = if v == 0.0 { 1.0 } else { -v };
                        alt(parse_quote! { #a });
                    }
                }
                Lit::Str(ref s) => {
                    let v = s.value();
                    let a = if v.is_empty() { "zz".to_string() } else { format!("{}z", v) };
                    alt(parse_quote! { #a });
                }
                Lit::Char(ref c) => {
                    let a = if c.value() == 'q' { 'r' } else { 'q' };
                    alt(parse_quote! { #a });
                }
                _ => (),
            },
            Expr::Call(ref c) => {
                if short(&c.func) == "Some" {
                    alt(parse_quote! { None })
                }
                // two neighbouring arguments exchanged
                if c.args.len() >= 2 && short(&c.func) != "Some" {
                    for k in 0..c.args.len() - 1 {
                        let mut d = c.clone();
                        let a = d.args[k].clone();
                        let b = d.args[k + 1].clone();
                        d.args[k] = b;
                        d.args[k + 1] = a;
                        alt(Expr::Call(d));
                    }
                }
            }
            Expr::MethodCall(ref m) => {
                let name = m.method.to_string();
                let other: &[&str] = match name.as_str() {
                    "starts_with" => &["ends_with", "contains"],
                    "contains" => &["starts_with"],
                    "ends_with" => &["starts_with"],
                    "min" => &["max"],
                    "max" => &["min"],
                    "any" => &["all"],
                    "all" => &["any"],
                    "is_some" => &["is_none"],
                    "is_none" => &["is_some"],
                    "is_ok" => &["is_err"],
                    "sin" => &["cos"],
                    "cos" => &["sin"],
                    "splitn" => &["rsplitn"],
                    "trim" => &["trim_start", "trim_end"],
                    "to_lowercase" => &["to_uppercase"],
                    "to_uppercase" => &["to_lowercase"],
                    "swap_y" => &["swap_x"],
                    _ => &[],
                };
                for o in other {
                    let mut c = m.clone();
                    c.method = Ident::new(o, m.method.span());
                    alt(Expr::MethodCall(c));
                }
                if name == "is_empty" {
                    let o = orig.clone();
                    alt(parse_quote! { !#o });
                }
                if m.args.len() >= 2 {
                    let mut d = m.clone();
                    let a = d.args[0].clone();
                    let b = d.args[1].clone();
                    d.args[0] = b;
                    d.args[1] = a;
                    alt(Expr::MethodCall(d));
                }
                if name == "skip" || name == "trim" || name == "rev" || name == "filter" || name == "abs" || name == "replace" || name == "floor" || name == "round" {
                    alt((*m.receiver).clone());
                }
            }
            Expr::Field(ref f) => {
                if let Member::Named(ref n) = f.member {
                    if let Some(o) = swap_field(&n.to_string()) {
                        let mut g = f.clone();
                        g.member = Member::Named(Ident::new(o, n.span()));
                        alt(Expr::Field(g));
                    }
                }
            }
            Expr::Path(ref p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(o) = swap_field(&i.to_string()) {
                        let o = Ident::new(o, i.span());
                        alt(parse_quote! { #o });
                    }
                }
            }
            Expr::If(ref i) if !matches!(*i.cond, Expr::Let(_)) && !matches!(*i.cond, Expr::Binary(_)) => {
                let mut c = i.clone();
                let cond = &i.cond;
                c.cond = Box::new(parse_quote! { !(#cond) });
                alt(Expr::If(c));
            }
            Expr::Macro(ref m) => {
                let name = short(&m.mac.path);
                if ["write", "writeln", "format", "println"].contains(&name.as_str()) {
                    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
                    if let Ok(args) = p.parse2(m.mac.tokens.clone()) {
                        let first = if name == "format" || name == "println" { 0 } else { 1 };
                        let rebuild = |a: &Vec<Expr>, name: &str| -> Expr {
                            let id = Ident::new(name, m.mac.path.span());
                            parse_quote! { #id!(#(#a),*) }
                        };
                        let v: Vec<Expr> = args.iter().cloned().collect();
                        for k in first + 1..v.len().max(1) - 1 {
                            let mut w = v.clone();
                            w.swap(k, k + 1);
                            alt(rebuild(&w, &name));
                        }
                        if name == "writeln" {
                            alt(rebuild(&v, "write"));
                        }
                        if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = v.get(first) {
                            let s = s.value();
                            let mut w = v.clone();
                            let t = if s.ends_with(|c: char| c != '}') { s[..s.len() - s.chars().last().unwrap().len_utf8()].to_string() } else { format!("{} ", s) };
                            w[first] = parse_quote! { #t };
                            alt(rebuild(&w, &name));
                        }
                    }
                }
            }
            _ => (),
        }
        if !alts.is_empty() {
            let now = e.clone();
            *e = self.wrap(now, sp, alts);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip = fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut m = M { next: 1, skip, file: String::new(), list: vec![], func: String::new() };
    let files = [
        "lib.rs", "checkfix.rs", "error.rs", "formatter.rs", "fp_lib_table.rs", "project.rs", "schematic.rs", "symbol_lib.rs", "util.rs", "footprint/data.rs", "footprint/de.rs", "footprint/mod.rs",
        "footprint/ser.rs", "layout/data.rs", "layout/de.rs", "layout/mod.rs", "layout/ser.rs",
    ];
    for f in &files {
        let p = Path::new(&a[1]).join(f);
        let t = fs::read_to_string(&p).expect("source");
        let mut file = parse_file(&t).expect("parse");
        m.file = f.to_string();
        m.visit_file_mut(&mut file);
        let mut out = file.to_token_stream().to_string();
        if *f == "lib.rs" {
            out.push_str(
                " #[doc(hidden)] #[allow(missing_docs)] pub fn __mu(n: u32) -> bool { use std::sync::atomic::{AtomicU32, Ordering}; static A: AtomicU32 = AtomicU32::new(0xffff_ffff);
                let v = A.load(Ordering::Relaxed); if v != 0xffff_ffff { return v == n; }
                let v = ::std::env::var(\"MUT\").ok().and_then(|x| x.parse().ok()).unwrap_or(0); A.store(v, Ordering::Relaxed); v == n }",
            );
        }
        fs::write(Path::new(&a[2]).join(f), out).expect("write");
    }
    fs::write(&a[4], m.list.join("\n") + "\n").expect("list");
    println!("{} changes", m.list.len());
}
