//! C19 - C23, C28 - C31, C33: queries and edits on boards, footprints, schematics and symbols.
use crate::c_geo::{board, mod_at, part};
use crate::c_line::{parse_sch, parse_symlib, sch_same, symlib_same, written_sch, written_symlib};
use crate::c_sexp::{layout_same, parse_layout, parse_module, write_layout, write_module};
use crate::engine::*;
use crate::fp::*;
use crate::gen;
use crate::ly::*;
use crate::sch::{coord, refname, token, MComp, MField, MSch, SE};
use crate::sym::{MDraw, MPin, MSym, MSymLib};
use kicad_parse_gen::layout::NetName;
use kicad_parse_gen::{footprint, fp_lib_table, layout, reference_ord, schematic, symbol_lib};

const REFS: &[&str] = &["R1", "R2", "U1", "U10", "R10", "REF**", "r1", "R1 ", ""];

fn a_ref(src: &mut Src) -> String {
    if src.chance(7, 8) { src.pick(REFS).to_string() } else { gen::text(src) }
}

/// references and roles that meet again
fn common_texts(src: &mut Src, m: &mut MModule) {
    for e in &mut m.els {
        if let E::Text(ref mut t) = *e {
            if t.name == "reference" && src.chance(3, 4) {
                t.value = a_ref(src)
            }
        }
    }
}

fn common_board(src: &mut Src) -> MLayout {
    let mut m = MLayout::gen(src);
    for e in &mut m.els {
        if let LE::Module(ref mut f) = *e {
            if src.chance(1, 2) {
                let mut t = MText::gen(src);
                t.name = "reference".into();
                f.els.push(E::Text(t));
            }
            common_texts(src, f)
        }
    }
    m
}

/// every place that names a net
fn names<F: FnMut(&mut String)>(m: &mut MLayout, mut f: F) {
    for e in &mut m.els {
        match *e {
            LE::Net(ref mut n) => f(&mut n.name),
            LE::NetClass(ref mut n) => n.nets.iter_mut().for_each(&mut f),
            LE::Module(ref mut m) => {
                for e in &mut m.els {
                    if let E::Pad(MPad { net: Some(ref mut n), .. }) = *e {
                        f(&mut n.name)
                    }
                }
            }
            LE::Zone(ref mut z) => f(&mut z.net_name),
            _ => (),
        }
    }
}

fn reread_board(m: &MLayout, v: &layout::Layout) -> Result<(), Fail> {
    let t = write_layout(v, 0)?;
    layout_same(m, &MLayout::from_lib(&parse_layout(&t)?))
}

pub fn c19(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = common_board(src);
    let mut v = board(src, cx, &m)?;
    let mut touched = 0;
    for _ in 0..=src.choice(3) {
        // an existing name most of the time
        let mut all = vec![];
        names(&mut m, |n| all.push(n.clone()));
        let one = |src: &mut Src| {
            if !all.is_empty() && src.chance(3, 4) { all[src.choice(all.len() as u64) as usize].clone() } else { gen::netname(src) }
        };
        let old = one(src);
        match src.choice(6) {
            0 | 1 | 2 => {
                let new = one(src);
                cx.tag("rename");
                cx.case(&format!("rename {:?} {:?}", old, new));
                no_panic("change_net_name", || v.change_net_name(&old, &new))?;
                names(&mut m, |n| {
                    if *n == old {
                        *n = new.clone();
                        touched += 1;
                    }
                });
            }
            3 => {
                cx.tag("update");
                let pre = gen::text1(src);
                cx.case(&format!("prefix {:?}", pre));
                let r = no_panic("update_net_names", || {
                    v.update_net_names(|n: &mut NetName| {
                        n.0.insert_str(0, &pre);
                        Ok(())
                    })
                })?;
                ensure!(r.is_ok(), "nets:error", "update that does not fail reported as failed");
                names(&mut m, |n| {
                    n.insert_str(0, &pre);
                    touched += 1;
                });
            }
            4 => {
                cx.tag("update-block");
                let to = gen::pool(src);
                cx.case(&format!("block A {:?}", to));
                let r = no_panic("update_net_names", || {
                    v.update_net_names(|n: &mut NetName| {
                        n.replace_block("A", &to);
                        Ok(())
                    })
                })?;
                ensure!(r.is_ok(), "nets:error", "update that does not fail reported as failed");
                names(&mut m, |n| {
                    let b = block(n, "A", &to);
                    touched += (b != *n) as usize;
                    *n = b;
                });
            }
            _ => {
                cx.tag("failing");
                cx.case(&format!("fail on {:?}", old));
                let r = no_panic("update_net_names", || {
                    v.update_net_names(|n: &mut NetName| {
                        if n.0 == old {
                            return Err(format!("no {}", n).into());
                        }
                        n.0.push_str("!");
                        Ok(())
                    })
                })?;
                let there = all.contains(&old);
                ensure!(r.is_err() == there, "nets:error", "name {:?} present: {}, result {:?}", old, there, r.is_ok());
                if let Err(e) = r {
                    let t = format!("{}", e);
                    ensure!(t.contains(&format!("no {}", old)), "nets:error", "the error of the update is replaced by {:?}", t);
                    // how far it went is not told, but no name has another value
                    let mut g = MLayout::from_lib(&v);
                    let mut got = vec![];
                    names(&mut g, |n| got.push(n.clone()));
                    ensure!(got.len() == all.len(), "nets:partial", "names lost");
                    for (a, b) in all.iter().zip(&got) {
                        ensure!(a == b || format!("{}!", a) == *b, "nets:partial", "{:?} became {:?}", a, b);
                    }
                    let mut i = 0;
                    names(&mut m, |n| {
                        *n = got[i].clone();
                        i += 1
                    });
                } else {
                    names(&mut m, |n| n.push('!'));
                }
            }
        }
        layout_same(&m, &MLayout::from_lib(&v))?;
    }
    cx.nontrivial(touched >= 2);
    reread_board(&m, &v)
}

fn m_ref(m: &MModule, r: &str) -> bool {
    m.els.iter().any(|e| matches!(*e, E::Text(ref t) if t.name == "reference" && t.value == r))
}

fn modules(m: &MLayout) -> Vec<&MModule> {
    m.els.iter().filter_map(|e| if let LE::Module(ref m) = *e { Some(m) } else { None }).collect()
}

fn m_net(n: &layout::Net) -> MNet {
    MNet { num: n.num, name: n.name.0.clone() }
}

const NETS: &[&str] = &["GND", "VCC", "/A/B/x", "Net-(R1-Pad1)", "", "GND1", "gnd", "new net", "a\\\"b"];
const KEYS: &[&str] = &["last_trace_width", "trace_clearance", "zone_clearance", "pad_size", "via_size", "x", "aux_axis_origin", "VISIBLE", ""];

fn board_queries(src: &mut Src, m: &MLayout, v: &layout::Layout) -> Result<(), Fail> {
    let want: Vec<MNet> = m.els.iter().filter_map(|e| if let LE::Net(ref n) = *e { Some(n.clone()) } else { None }).collect();
    let got: Vec<MNet> = no_panic("nets", || v.nets().into_iter().map(m_net).collect())?;
    ensure!(want == got, "board:nets", "{}", debug_diff(&want, &got));
    let want: Vec<MNetClass> = m.els.iter().filter_map(|e| if let LE::NetClass(ref n) = *e { Some(n.clone()) } else { None }).collect();
    let got: Vec<MNetClass> = no_panic("netclasses", || v.netclasses().into_iter().map(MNetClass::from_lib).collect())?;
    ensure!(want == got, "board:netclasses", "{}", debug_diff(&want, &got));
    let got: Vec<MModule> = no_panic("get_modules", || v.get_modules().into_iter().map(MModule::from_lib).collect())?;
    let want: Vec<MModule> = modules(m).into_iter().cloned().collect();
    ensure!(want == got, "board:modules", "{}", debug_diff(&want, &got));
    let r = a_ref(src);
    let want = modules(m).into_iter().find(|m| m_ref(m, &r)).cloned();
    let got = no_panic("get_module", || v.get_module(&r).map(MModule::from_lib))?;
    ensure!(want == got, "board:module", "{:?}: {}", r, debug_diff(&want, &got));
    let k = if src.bool() && !m.setup.is_empty() { m.setup[src.choice(m.setup.len() as u64) as usize].name.clone() } else { src.pick(KEYS).to_string() };
    let want = m.setup.iter().find(|s| s.name == k).map(|s| s.v1.clone());
    let got = no_panic("get", || v.setup.get(&k).cloned())?;
    ensure!(want == got, "board:setup", "{:?}: {:?} became {:?}", k, want, got);
    // net classes, pairwise
    let l = v.netclasses();
    if l.len() >= 2 {
        let (a, b) = (src.choice(l.len() as u64) as usize, src.choice(l.len() as u64) as usize);
        let (ma, mb) = (MNetClass::from_lib(l[a]), MNetClass::from_lib(l[b]));
        let bare = |x: &MNetClass| MNetClass { nets: vec![], ..x.clone() };
        let got = no_panic("equal_no_net", || l[a].equal_no_net(l[b]))?;
        ensure!(got == (bare(&ma) == bare(&mb)), "board:equal", "{:?} and {:?}: {}", ma, mb, got);
    }
    for c in l {
        let n = *src.pick(NETS);
        let want = c.nets.iter().any(|x| x.0 == n);
        ensure!(no_panic("has_net", || c.has_net(n))? == want, "board:has-net", "{:?} in {:?} should be {}", n, c.nets, want);
    }
    Ok(())
}

/// a net class compared with a slightly different one
fn class_pair(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let at = src.rec.len();
    let a = MNetClass::gen(src);
    let mut rec: Vec<u64> = src.rec[at..].to_vec();
    if src.chance(3, 4) {
        let i = src.choice(rec.len() as u64) as usize;
        rec[i] = src.choice(12);
    }
    let b = MNetClass::gen(&mut Src::replay(rec));
    cx.case(&format!("{:?} {:?}", a, b));
    let bare = |x: &MNetClass| MNetClass { nets: vec![], ..x.clone() };
    let got = no_panic("equal_no_net", || a.to_lib().equal_no_net(&b.to_lib()))?;
    ensure!(got == (bare(&a) == bare(&b)), "board:equal", "{:?} and {:?}: {}", a, b, got);
    Ok(())
}

pub fn c20(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = common_board(src);
    if src.chance(1, 3) {
        for s in &mut m.setup {
            s.name = src.pick(KEYS).to_string()
        }
    }
    let mut v = board(src, cx, &m)?;
    let steps = 1 + src.choice(6);
    let mut hits = 0;
    for _ in 0..steps {
        match src.choice(6) {
            0 | 1 => {
                let r = a_ref(src);
                let new = a_ref(src);
                let kind = src.choice(3);
                cx.case(&format!("modify {:?} {} {:?}", r, kind, new));
                let (x, y) = (gen::num(src), gen::num(src));
                let got = no_panic("modify_module", || {
                    v.modify_module(&r, |f| match kind {
                        0 => f.set_reference(&r, &new),
                        1 => f.adjust_at(x, y),
                        _ => f.append(footprint::Element::Descr(new.clone())),
                    })
                })?;
                let hit = m.els.iter_mut().filter_map(|e| if let LE::Module(ref mut m) = *e { Some(m) } else { None }).find(|m| m_ref(m, &r));
                ensure!(got.is_ok() == hit.is_some(), "board:modify", "reference {:?} there: {}, result ok: {}", r, hit.is_some(), got.is_ok());
                if let Some(f) = hit {
                    hits += 1;
                    match kind {
                        0 => m_set_reference(f, &r, &new),
                        1 => f.els.iter_mut().for_each(|e| if let E::At(ref mut a) = *e { a.mv(x, y) }),
                        _ => f.els.push(E::Descr(new)),
                    }
                }
            }
            2 => {
                let k = *src.pick(KEYS);
                let val = gen::text(src);
                cx.case(&format!("setup {:?} {:?}", k, val));
                no_panic("update_element", || v.setup.update_element(k, val.clone()))?;
                hits += 1;
                match m.setup.iter_mut().find(|s| s.name == k) {
                    Some(s) => s.v1 = val,
                    None => m.setup.push(MSetup { name: k.into(), v1: val, v2: None }),
                }
            }
            3 => {
                let (num, n) = (gen::int(src), *src.pick(NETS));
                cx.case(&format!("add net {} {:?}", num, n));
                no_panic("add_net", || v.add_net(num, n))?;
                hits += 1;
                m.els.push(LE::Net(MNet { num, name: n.into() }));
            }
            4 => {
                let mut c = MNetClass::gen(src);
                let (name, desc) = (*src.pick(NETS), *src.pick(NETS));
                c.name = name.into();
                c.desc = desc.into();
                cx.case(&format!("add {:?}", c));
                let w = c.v;
                no_panic("add_netclass", || {
                    v.add_netclass(name, desc, w[0], w[1], w[2], w[3], w[4], w[5], c.gap, c.width, c.nets.clone())
                })?;
                hits += 1;
                m.els.push(LE::NetClass(c));
            }
            _ => class_pair(src, cx)?,
        }
        layout_same(&m, &MLayout::from_lib(&v))?;
        board_queries(src, &m, &v)?;
    }
    cx.nontrivial(hits >= 2);
    reread_board(&m, &v)
}

fn m_set_reference(m: &mut MModule, old: &str, new: &str) {
    for e in &mut m.els {
        if let E::Text(ref mut t) = *e {
            if t.name == "reference" && t.value == old {
                t.value = new.into()
            }
        }
    }
}

fn m_text<'a>(m: &'a MModule, n: &str) -> Option<&'a MText> {
    m.els.iter().filter_map(|e| if let E::Text(ref t) = *e { Some(t) } else { None }).find(|t| t.name == n)
}

fn m_text_mut<'a>(m: &'a mut MModule, n: &str) -> Option<&'a mut MText> {
    m.els.iter_mut().filter_map(|e| if let E::Text(ref mut t) = *e { Some(t) } else { None }).find(|t| t.name == n)
}

const ROLES: &[&str] = &["reference", "value", "user", "", "Reference", "x"];

fn part_queries(src: &mut Src, m: &MModule, v: &footprint::Module) -> Result<(), Fail> {
    let r = a_ref(src);
    let got = no_panic("is_reference_with_name", || v.is_reference_with_name(&r))?;
    ensure!(got == m_ref(m, &r), "part:is-reference", "{:?}: {}", r, got);
    let want = m_text(m, "reference").map(|t| t.value.clone());
    ensure!(want.as_ref() == v.get_reference(), "part:reference", "{:?} became {:?}", want, v.get_reference());
    for n in ROLES {
        let want = m_text(m, n).cloned();
        let got = no_panic("get_text", || v.get_text(n).map(MText::from_lib))?;
        ensure!(want == got, "part:text", "{:?}: {}", n, debug_diff(&want, &got));
    }
    let want = [m_text(m, "reference").cloned(), m_text(m, "user").cloned(), m_text(m, "value").cloned()];
    let got = [v.get_reference_text(), v.get_reference2_text(), v.get_value_text()];
    for (a, b) in want.iter().zip(&got) {
        let b = b.map(MText::from_lib);
        ensure!(*a == b, "part:text", "{}", debug_diff(a, &b));
    }
    let want = m.els.iter().any(|e| matches!(*e, E::Attr(ref a) if a == "smd"));
    ensure!(v.has_smd_attr() == want, "part:smd", "expected {}", want);
    let want = m.els.iter().filter_map(|e| if let E::TStamp(x) = *e { Some(x) } else { None }).next();
    ensure!(v.get_tstamp() == want, "part:tstamp", "{:?} became {:?}", want, v.get_tstamp());
    let want = m.els.iter().filter_map(|e| if let E::TEdit(x) = *e { Some(x) } else { None }).next();
    ensure!(v.get_tedit() == want, "part:tedit", "{:?} became {:?}", want, v.get_tedit());
    ensure!(v.at() == mod_at(m), "part:at", "{:?} became {:?}", mod_at(m), v.at());
    let want = m.els.iter().filter_map(|e| if let E::At(ref a) = *e { Some(a.rot) } else { None }).next().unwrap_or(0.0);
    ensure!(v.get_rotation() == want, "part:rotation", "{:?} became {:?}", want, v.get_rotation());
    let want = m.els.iter().filter_map(|e| if let E::Layer(ref a) = *e { Some(a.side == "F") } else { None }).next().unwrap_or(true);
    ensure!(v.is_front() == want, "part:front", "expected {}", want);
    let want: Vec<&MPad> = m.els.iter().filter_map(|e| if let E::Pad(ref p) = *e { Some(p) } else { None }).collect();
    let got: Vec<MPad> = v.pads().into_iter().map(MPad::from_lib).collect();
    ensure!(want == got.iter().collect::<Vec<_>>(), "part:pads", "{}", debug_diff(&want, &got.iter().collect()));
    let want: Vec<E> = m.els.iter().filter(|e| matches!(**e, E::Line { .. })).cloned().collect();
    let got: Vec<E> = v.lines().into_iter().map(|l| E::from_lib(&footprint::Element::FpLine(l.clone()))).collect();
    ensure!(want == got, "part:lines", "{}", debug_diff(&want, &got));
    Ok(())
}

pub fn c21(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MModule::gen(src);
    common_texts(src, &mut m);
    let mut v = if src.chance(1, 8) {
        // built up from nothing
        let mut v = footprint::Module::new(m.name.clone());
        for e in &m.els {
            v.append(e.to_lib())
        }
        v
    } else {
        part(src, cx, &m)?
    };
    part_queries(src, &m, &v)?;
    let mut hits = 0;
    for _ in 0..=src.choice(6) {
        match src.choice(8) {
            0 | 1 => {
                let (a, b) = (a_ref(src), a_ref(src));
                cx.case(&format!("set_reference {:?} {:?}", a, b));
                hits += m_ref(&m, &a) as usize;
                no_panic("set_reference", || v.set_reference(&a, &b))?;
                m_set_reference(&mut m, &a, &b);
            }
            2 => {
                let (x, y) = (gen::num(src), gen::num(src));
                cx.case(&format!("adjust_at {} {}", x, y));
                no_panic("adjust_at", || v.adjust_at(x, y))?;
                for e in &mut m.els {
                    if let E::At(ref mut a) = *e {
                        a.mv(x, y);
                        hits += 1;
                    }
                }
            }
            3 => {
                let (a, b) = (gen::netname(src), gen::netname(src));
                cx.case(&format!("rename_net {:?} {:?}", a, b));
                no_panic("rename_net", || v.rename_net(&a, &b))?;
                for e in &mut m.els {
                    if let E::Pad(MPad { net: Some(ref mut n), .. }) = *e {
                        if n.name == a {
                            n.name = b.clone();
                            hits += 1;
                        }
                    }
                }
            }
            4 | 5 => {
                // one pad
                let l: Vec<usize> = (0..m.els.len()).filter(|i| matches!(m.els[*i], E::Pad(_))).collect();
                if l.is_empty() {
                    continue;
                }
                let i = l[src.choice(l.len() as u64) as usize];
                let (mp, vp) = match (&mut m.els[i], &mut v.elements[i]) {
                    (&mut E::Pad(ref mut a), &mut footprint::Element::Pad(ref mut b)) => (a, b),
                    _ => return fail("part:kind", "pad is no pad".into()),
                };
                hits += 1;
                match src.choice(3) {
                    0 => {
                        let (num, name) = (gen::int(src), gen::netname(src));
                        cx.case(&format!("set_net {} {} {:?}", i, num, name));
                        vp.set_net(footprint::Net { num, name: name.as_str().into() });
                        mp.net = Some(MNet { num, name });
                    }
                    1 => {
                        let old = match mp.net {
                            Some(ref n) if src.bool() => n.name.clone(),
                            _ => gen::netname(src),
                        };
                        let new = gen::netname(src);
                        cx.case(&format!("pad rename {} {:?} {:?}", i, old, new));
                        no_panic("rename_net", || vp.rename_net(&old, &new))?;
                        if let Some(ref mut n) = mp.net {
                            if n.name == old {
                                n.name = new
                            }
                        }
                    }
                    _ => {
                        let d = MDrill::gen(src);
                        cx.case(&format!("drill {} {:?}", i, d));
                        vp.set_drill(d.to_lib());
                        mp.drill = Some(d);
                    }
                }
            }
            6 => {
                let n = *src.pick(ROLES);
                let how = src.choice(4);
                let (fx, layer, val) = (MEffects::gen(src), MLayer::gen(src), gen::text(src));
                cx.case(&format!("text {:?} {} {:?} {:?} {:?}", n, how, fx, layer, val));
                let a = m_text_mut(&mut m, n);
                let b = no_panic("get_text_mut", || match n {
                    "reference" => v.get_reference_text_mut(),
                    "value" => v.get_value_text_mut(),
                    "user" if how == 0 => v.get_reference2_text_mut(),
                    _ => v.get_text_mut(n),
                })?;
                ensure!(a.is_some() == b.is_some(), "part:text-mut", "text {:?} there: {}, found: {}", n, a.is_some(), b.is_some());
                if let (Some(a), Some(b)) = (a, b) {
                    hits += 1;
                    match how {
                        0 => {
                            a.value = val.clone();
                            b.value = val;
                        }
                        1 => {
                            b.set_effects(&fx.to_lib());
                            a.effects = fx;
                        }
                        _ => {
                            b.set_layer(&layer.to_lib());
                            a.layer = layer;
                        }
                    }
                }
            }
            _ => {
                let e = E::gen(src);
                cx.case(&format!("append {:?}", e));
                v.append(e.to_lib());
                m.els.push(e);
            }
        }
        let got = MModule::from_lib(&v);
        ensure!(m == got, "part:edit", "{}", debug_diff(&m, &got));
        part_queries(src, &m, &v)?;
    }
    cx.nontrivial(hits >= 1 && m.structured() >= 2);
    let t = write_module(&v, 0)?;
    let got = MModule::from_lib(&parse_module(&t)?);
    ensure!(m == got, "part:reread", "{}", debug_diff(&m, &got));
    Ok(())
}

fn same_comp(sig: &str, want: &MComp, got: &MComp) -> Result<(), Fail> {
    ensure!(want == got, sig, "{}", debug_diff(want, got));
    Ok(())
}

fn same_comps(sig: &str, want: &[&MComp], got: &[schematic::Component]) -> Result<(), Fail> {
    ensure!(want.len() == got.len(), sig, "{} components became {}", want.len(), got.len());
    for (a, b) in want.iter().zip(got) {
        same_comp(sig, a, &MComp::from_lib(b))?
    }
    Ok(())
}

fn sheet(src: &mut Src, cx: &mut Cx, m: &MSch) -> Result<schematic::Schematic, Fail> {
    if src.chance(1, 3) {
        cx.case(&format!("{:?}", m));
        Ok(m.to_lib())
    } else {
        let t = m.doc(src);
        cx.case(&t);
        parse_sch(&t)
    }
}

pub fn c22(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MSch::gen(src);
    // components of one reference occur more than once
    for _ in 0..src.choice(4) {
        let mut c = MComp::gen(src);
        c.reference = src.pick(&["R1", "R2", "U1", "U10"]).to_string();
        let i = src.choice(m.els.len() as u64 + 1) as usize;
        m.els.insert(i, SE::Comp(c));
    }
    // no sub-sheets here, they are files
    let sheets = std::mem::replace(&mut m.sheets, vec![]);
    if src.bool() {
        m.sheets = sheets
    }
    let mut v = sheet(src, cx, &m)?;
    let mut hits = 0;
    for _ in 0..=src.choice(4) {
        let r = if src.bool() && !m.comps().is_empty() { m.comps()[src.choice(m.comps().len() as u64) as usize].reference.clone() } else { refname(src) };
        let found = m.comps().into_iter().find(|c| c.reference == r).cloned();
        cx.case(&format!("reference {:?}", r));
        match src.choice(6) {
            0 => {
                let got = no_panic("components", || v.components())?;
                same_comps("sch:components", &m.comps(), &got)?;
                let mut w = vec![];
                no_panic("collect_components", || v.collect_components(&mut w))?;
                same_comps("sch:collect", &m.comps(), &w)?;
                // what was in the list stays
                no_panic("collect_components", || v.collect_components(&mut w))?;
                let mut twice = m.comps();
                twice.extend(m.comps());
                same_comps("sch:collect", &twice, &w)?;
                if m.sheets.is_empty() {
                    match no_panic("all_components", || v.all_components())? {
                        Ok(l) => same_comps("sch:all", &m.comps(), &l)?,
                        Err(_) => return fail("sch:all", "error without sub-sheets".into()),
                    }
                }
            }
            1 => {
                if m.sheets.is_empty() || found.is_some() {
                    let got = no_panic("component_by_reference", || v.component_by_reference(&r))?.ok();
                    let got = got.map(|c| MComp::from_lib(&c));
                    ensure!(found == got, "sch:find", "{:?}: {}", r, debug_diff(&found, &got));
                    hits += found.is_some() as usize;
                }
            }
            2 | 3 => {
                let (x, val) = (coord(src), shown(src));
                let how = src.choice(3);
                cx.case(&format!("modify {} {} {:?}", how, x, val));
                no_panic("modify_component", || {
                    v.modify_component(&r, |c| match how {
                        0 => c.x = x,
                        1 => c.update_reference(val.clone()),
                        _ => c.update_name(val.clone()),
                    })
                })?;
                for e in &mut m.els {
                    if let SE::Comp(ref mut c) = *e {
                        if c.reference == r {
                            hits += 1;
                            match how {
                                0 => c.x = x,
                                1 => m_set(c, 0, &val),
                                _ => m_set(c, 1, &val),
                            }
                            break;
                        }
                    }
                }
            }
            4 => {
                let n = src.range(-50, 50);
                cx.case(&format!("all by {}", n));
                let seen = std::cell::RefCell::new(vec![]);
                no_panic("modify_components", || {
                    v.modify_components(|c| {
                        seen.borrow_mut().push(c.reference.clone());
                        c.y += n
                    })
                })?;
                let want: Vec<String> = m.comps().into_iter().map(|c| c.reference.clone()).collect();
                let seen = seen.into_inner();
                ensure!(want == seen, "sch:modify-all", "visited {:?}, not {:?}", seen, want);
                for e in &mut m.els {
                    if let SE::Comp(ref mut c) = *e {
                        c.y += n;
                        hits += 1;
                    }
                }
            }
            _ => {
                v.increment_sheet_count();
                m.sheets_n += 1;
            }
        }
        sch_same(&m, &MSch::from_lib(&v))?;
    }
    cx.nontrivial(hits >= 1 && m.comps().len() >= 2);
    written_sch(&m, &v)
}

/// a name that a quoted field can show as well
fn shown(src: &mut Src) -> String {
    let t = token(src).trim_end_matches('\\').to_string();
    if t.is_empty() { "x".into() } else { t }
}

/// reference or name of a component, with the field that shows it
fn m_set(c: &mut MComp, i: i64, val: &str) {
    if i == 0 {
        c.reference = val.into()
    } else {
        c.name = val.into()
    }
    for f in &mut c.fields {
        if f.i == i {
            f.value = val.into()
        }
    }
}

fn next_index(m: &MComp) -> i64 {
    m.fields.iter().map(|f| f.i).fold(3, i64::max) + 1
}

/// standard fields that are there more than once all keep in step
fn c23_twice(src: &mut Src, cx: &mut Cx, mut m: MComp) -> Result<(), Fail> {
    cx.tag("twice");
    for _ in 0..=src.choice(3) {
        let f = m.fields[src.choice(m.fields.len() as u64) as usize].clone();
        let at = src.choice(m.fields.len() as u64 + 1) as usize;
        m.fields.insert(at, f);
    }
    let mut s = MSch::gen_sized(src, 0, 1);
    s.sheets.clear();
    s.els = vec![SE::Comp(m.clone())];
    let mut v = sheet(src, cx, &s)?.components().remove(0);
    for _ in 0..=src.choice(3) {
        let val = shown(src);
        let i = src.choice(2) as i64;
        cx.case(&format!("{:?} standard {} {:?}", m, i, val));
        no_panic("update", || if i == 0 { v.update_reference(val.clone()) } else { v.update_name(val.clone()) })?;
        m_set(&mut m, i, &val);
        same_comp("comp:twice", &m, &MComp::from_lib(&v))?;
    }
    cx.nontrivial(true);
    s.els = vec![SE::Comp(m)];
    let mut out = MSch { els: vec![], ..s.clone() }.to_lib();
    out.elements.push(schematic::Element::Component(v));
    written_sch(&s, &out)
}

pub fn c23(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    const NAMES: &[&str] = &["MFG", "MPN", "Value", "Reference", "Footprint", "", "a b", "mfg", "UserDocLink", "DNP"];
    let mut m = MComp::gen(src);
    if src.chance(1, 16) && !m.fields.is_empty() {
        return c23_twice(src, cx, m);
    }
    // every name once
    let mut seen: Vec<String> = vec![];
    m.fields.retain(|f| {
        let new = !seen.contains(&f.name);
        seen.push(f.name.clone());
        new
    });
    let mut s = MSch::gen_sized(src, 0, 1);
    s.sheets.clear();
    s.els = vec![SE::Comp(m.clone())];
    let mut v = sheet(src, cx, &s)?.components().remove(0);
    same_comp("comp:read", &m, &MComp::from_lib(&v))?;
    let mut edits = 0;
    for _ in 0..=src.choice(12) {
        let name = if !m.fields.is_empty() && src.chance(1, 3) {
            m.fields[src.choice(m.fields.len() as u64) as usize].name.clone()
        } else if src.chance(3, 4) {
            src.pick(NAMES).to_string()
        } else {
            gen::text(src)
        };
        let old = m.fields.iter().position(|f| f.name == name);
        let val = match old {
            Some(i) if src.chance(1, 4) => m.fields[i].value.clone(),
            _ => gen::text(src),
        };
        let t = MField::gen(src, 4);
        let mut updated = false;
        let mut added = false;
        match src.choice(6) {
            0 | 1 | 2 => {
                cx.case(&format!("add or update {:?} {:?}", name, val));
                let r = no_panic("add_or_update_field", || v.add_or_update_field(&t.to_lib(), &name, &val))?;
                let (what, old_value) = match r {
                    schematic::FieldUpdate::New => ("new", String::new()),
                    schematic::FieldUpdate::Update(ref o) => ("update", o.clone()),
                    schematic::FieldUpdate::Same => ("same", String::new()),
                };
                let changed: bool = r.into();
                let want = match old {
                    None => ("new", String::new()),
                    Some(i) if m.fields[i].value == val => ("same", String::new()),
                    Some(i) => ("update", m.fields[i].value.clone()),
                };
                ensure!((what, old_value.clone()) == want, "comp:report", "{:?} reported as {} {:?}", want, what, old_value);
                ensure!(changed == (what != "same"), "comp:report", "{} counts as {}", what, changed);
                match what {
                    "new" => added = true,
                    "update" => updated = true,
                    _ => (),
                }
            }
            3 => {
                cx.case(&format!("update {:?} {:?}", name, val));
                no_panic("update_field", || v.update_field(&name, &val))?;
                updated = true;
            }
            4 => {
                if old.is_none() {
                    cx.case(&format!("add {:?} {:?}", name, val));
                    no_panic("add_new_field", || v.add_new_field(&t.to_lib(), &name, &val))?;
                    added = true;
                }
            }
            _ => {
                let val = shown(src);
                let i = src.choice(2) as i64;
                cx.case(&format!("standard {} {:?}", i, val));
                no_panic("update", || if i == 0 { v.update_reference(val.clone()) } else { v.update_name(val.clone()) })?;
                m_set(&mut m, i, &val);
                edits += 1;
            }
        }
        let got = MComp::from_lib(&v);
        if added {
            edits += 1;
            let f = match got.fields.last() {
                Some(f) if got.fields.len() == m.fields.len() + 1 => f.clone(),
                _ => return fail("comp:add", format!("{} fields became {}", m.fields.len(), got.fields.len())),
            };
            ensure!(f.name == name && f.value == val, "comp:add", "added {:?}, wanted {:?} {:?}", f, name, val);
            ensure!(f.i == next_index(&m), "comp:index", "new field has index {} among {:?}", f.i, m.fields.iter().map(|f| f.i).collect::<Vec<_>>());
            ensure!(!f.visible && f.x == t.x && f.y == t.y, "comp:add", "added {:?} after {:?}", f, t);
            m.fields.push(f);
        } else if updated {
            edits += 1;
            for f in &mut m.fields {
                if f.name == name {
                    f.value = val.clone()
                }
            }
            // an update can also hide fields other than reference and value
            ensure!(m.fields.len() == got.fields.len(), "comp:update", "{} fields became {}", m.fields.len(), got.fields.len());
            for (f, g) in m.fields.iter_mut().zip(&got.fields) {
                if f.i > 1 && f.visible {
                    f.visible = g.visible
                }
            }
        }
        same_comp("comp:edit", &m, &got)?;
        // lookups
        let h = no_panic("fields_hash", || v.fields_hash())?;
        ensure!(h.len() == m.fields.len(), "comp:hash", "{} fields, {} in the map", m.fields.len(), h.len());
        for f in &m.fields {
            ensure!(h.get(&f.name) == Some(&f.value), "comp:hash", "{:?}: {:?} became {:?}", f.name, f.value, h.get(&f.name));
            let got = no_panic("get_field_value", || v.get_field_value(&f.name))?;
            ensure!(got.as_ref() == Some(&f.value), "comp:value", "{:?}: {:?} became {:?}", f.name, f.value, got);
            let got = no_panic("get_field", || v.get_field(&f.name))?.map(|g| MField::from_lib(&g));
            ensure!(got.as_ref() == Some(f), "comp:field", "{:?} became {:?}", f, got);
        }
        let no = format!("{}-", name);
        if m.fields.iter().all(|f| f.name != no) {
            ensure!(v.get_field_value(&no).is_none() && v.get_field(&no).is_none(), "comp:absent", "{:?} found", no);
        }
        let n = no_panic("get_available_field_num", || v.get_available_field_num())?;
        ensure!(n == next_index(&m), "comp:index", "index {} instead of {}", n, next_index(&m));
    }
    cx.nontrivial(edits >= 3);
    s.els = vec![SE::Comp(m)];
    let mut out = MSch { els: vec![], ..s.clone() }.to_lib();
    out.elements.push(schematic::Element::Component(v));
    written_sch(&s, &out)
}

/// without digits and commas
fn undigited(t: String) -> String {
    t.chars().filter(|c| !c.is_ascii_digit() && *c != ',').collect()
}

/// a reference: letters, a number, perhaps a unit letter
fn reference(src: &mut Src) -> (String, char, i64) {
    let pre = match src.choice(4) {
        0 => src.pick(&["U", "R", "C", "#PWR", "TP", "u", "é"]).to_string(),
        1 => String::new(),
        2 => undigited(gen::text(src)),
        _ => src.list_min(1, 4, 1, |s| *s.pick(&["U", "R", "C", "J", "_", "?", "*", "-", "µ", " "])).concat(),
    };
    let n = match src.choice(6) {
        0 => None,
        5 => Some(gen::dict_int(src).unwrap_or(i64::max_value() - src.range(0, 3))),
        1 => Some(src.range(0, 9)),
        2 => Some(src.range(0, 120)),
        3 => Some(src.range(0, 3) * 100 + src.range(0, 2)),
        _ => Some(src.range(0, 999_999_999_999_999_999)),
    };
    let zeros = match src.choice(18) {
        0..=2 => "00",
        3 => "00000000000000000000",
        _ => "",
    };
    let post = match src.choice(10) {
        0 | 1 => src.pick(&["A", "B", "?", "_x", "-", "."]).to_string(),
        2 => undigited(gen::text(src)),
        _ => String::new(),
    };
    let t = match n {
        None => format!("{}{}", pre, post),
        Some(n) => format!("{}{}{}{}", pre, zeros, n, post),
    };
    let t = if t.is_empty() { "R".to_string() } else { t };
    let c = t.chars().next().unwrap();
    (t, c, n.unwrap_or(0))
}

pub fn c28(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let l = src.list(30, 8, |s| {
        let (mut t, c, n) = reference(s);
        // a list of references counts by its first
        if s.chance(1, 4) {
            for _ in 0..=s.choice(3) {
                t.push(',');
                t.push_str(&reference(s).0);
            }
        }
        (t, c, n)
    });
    cx.case(&format!("{:?}", l));
    cx.nontrivial(l.len() >= 3);
    for &(ref t, c, n) in &l {
        let got = no_panic("reference_ord", || reference_ord(t))?;
        ensure!(got == (c, n), "order:key", "{:?} has key {:?}, expected {:?}", t, got, (c, n));
    }
    let mut s: Vec<&(String, char, i64)> = l.iter().collect();
    s.sort_by(|a, b| reference_ord(&a.0).cmp(&reference_ord(&b.0)));
    for w in s.windows(2) {
        ensure!((w[0].1, w[0].2) <= (w[1].1, w[1].2), "order:sort", "{:?} sorted before {:?}", w[0].0, w[1].0);
    }
    // anything else has a key too
    let t = gen::text(src);
    no_panic("reference_ord", || reference_ord(&t))?;
    no_panic("reference_ord", || reference_ord(""))?;
    Ok(())
}

/// path elements: the parts with a / on either side
pub fn block(n: &str, from: &str, to: &str) -> String {
    let p: Vec<&str> = n.split('/').collect();
    let last = p.len() - 1;
    let v: Vec<&str> = p.iter().enumerate().map(|(i, x)| if i > 0 && i < last && *x == from { to } else { *x }).collect();
    v.join("/")
}

fn piece(src: &mut Src) -> String {
    match src.choice(4) {
        0 => src.pick(&["R1", "U2", "Pad1", "Pad10", "A", "B", "Net", "C"]).to_string(),
        1 => src.list_min(1, 6, 3, |s| *s.pick(&["a", "1", " ", "é", "_", "+", "*", "."])).concat(),
        _ => {
            let t: String = gen::text(src).chars().filter(|c| !"-()/".contains(*c)).collect();
            if t.is_empty() { "x".into() } else { t }
        }
    }
}

/// the two parts of an automatic name
fn unnamed(n: &str) -> Option<(String, String)> {
    let t = n.strip_prefix("Net-(")?.strip_suffix(')')?;
    let i = t.find('-')?;
    let (a, b) = (&t[..i], &t[i + 1..]);
    if b.contains('-') || t.contains('(') || t.contains(')') { None } else { Some((a.into(), b.into())) }
}

pub fn c29(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match src.choice(4) {
        0 => {
            cx.tag("unnamed");
            let (c, p, to) = (piece(src), piece(src), piece(src));
            let n = format!("Net-({}-{})", c, p);
            cx.case(&format!("{:?} {:?}", n, to));
            cx.nontrivial(true);
            let mut v = NetName(n.clone());
            let got = no_panic("is_unnamed_net", || v.is_unnamed_net())?;
            ensure!(got == Some((c, p.clone())), "net:unnamed", "{:?} recognised as {:?}", n, got);
            ensure!(v.0 == n, "net:unnamed", "asking changed {:?}", v);
            let r = no_panic("set_unnamed_net", || v.set_unnamed_net(&to))?;
            let want = format!("Net-({}-{})", to, p);
            ensure!(r.is_ok() && v.0 == want, "net:set-unnamed", "{:?} became {:?}, not {:?}", n, v.0, want);
        }
        1 => {
            // close to automatic names, and other names
            cx.tag("other");
            let n = match src.choice(3) {
                0 => src.list(9, 5, |s| *s.pick(&["Net-(", "Net", "-", "(", ")", "R1", "Pad1", "x", "/", "net-(", " "])).concat(),
                1 => {
                    let t = format!("Net-({}-{})", piece(src), piece(src));
                    let mut c: Vec<char> = t.chars().collect();
                    let i = src.choice(c.len() as u64) as usize;
                    match src.choice(3) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c.insert(i, *src.pick(&['-', '(', ')', 'x'])),
                        _ => c[i] = *src.pick(&['-', '(', ')', 'x']),
                    }
                    c.into_iter().collect()
                }
                _ => gen::netname(src),
            };
            cx.case(&n);
            let want = unnamed(&n);
            // names with an empty part are left open
            if want.as_ref().map_or(false, |w| w.0.is_empty() || w.1.is_empty()) {
                return Ok(());
            }
            cx.nontrivial(n.contains("Net-("));
            let mut v = NetName(n.clone());
            let got = no_panic("is_unnamed_net", || v.is_unnamed_net())?;
            ensure!(got == want, "net:unnamed", "{:?} recognised as {:?}, not {:?}", n, got, want);
            let r = no_panic("set_unnamed_net", || v.set_unnamed_net("Q7"))?;
            ensure!(r.is_ok() == want.is_some(), "net:set-unnamed", "{:?} set: {}", n, r.is_ok());
            let after = match want {
                Some((_, p)) => format!("Net-(Q7-{})", p),
                None => n.clone(),
            };
            ensure!(v.0 == after, "net:set-unnamed", "{:?} became {:?}, not {:?}", n, v.0, after);
        }
        2 => {
            cx.tag("block");
            let from = if src.bool() { "A".to_string() } else { piece(src) };
            let to = if src.chance(1, 4) { format!("{}/{}", piece(src), from) } else { piece(src) };
            let n = src
                .list(9, 5, |s| match s.choice(5) {
                    0 | 1 => from.clone(),
                    2 => format!("{}{}", from, s.pick(&["x", "1", " "])),
                    3 => piece(s),
                    _ => String::new(),
                })
                .join("/");
            cx.case(&format!("{:?} {:?} {:?}", n, from, to));
            let want = block(&n, &from, &to);
            cx.nontrivial(want != n);
            let mut v: NetName = n.as_str().into();
            no_panic("replace_block", || v.replace_block(&from, &to))?;
            ensure!(v.0 == want, "net:block", "{:?} with {:?} for {:?} became {:?}, not {:?}", n, to, from, v.0, want);
        }
        _ => {
            cx.tag("rename");
            let n = gen::netname(src);
            let from = match src.choice(4) {
                0 | 1 => n.clone(),
                2 => format!("{}{}", n, src.pick(&["x", " ", "/"])),
                _ => gen::netname(src),
            };
            let to = gen::netname(src);
            cx.case(&format!("{:?} {:?} {:?}", n, from, to));
            cx.nontrivial(n == from && n != to);
            let mut v: NetName = n.clone().into();
            no_panic("rename", || v.rename(&from, &to))?;
            let want = if n == from { &to } else { &n };
            ensure!(v.0 == *want, "net:rename", "{:?} became {:?}, not {:?}", n, v.0, want);
            ensure!(v.to_string() == *want, "net:show", "{:?} shown as {:?}", want, v.to_string());
        }
    }
    Ok(())
}

/// what counts when elements are compared
fn design(e: &E) -> E {
    let mut e = e.clone();
    let bare = |l: &mut MLayer| l.side = "";
    match e {
        E::Layer(ref mut l) => bare(l),
        E::Text(ref mut t) => {
            if t.name == "reference" || t.value.is_empty() && t.name == "reference" || t.name == "value" {
                *t = MText { name: t.name.clone(), value: String::new(), at: MAt::zero(), layer: MLayer::new("", "Cu"), hide: false, effects: MEffects::default() };
            }
            bare(&mut t.layer)
        }
        E::Pad(ref mut p) => {
            p.net = None;
            p.layers.iter_mut().for_each(bare)
        }
        E::Poly { ref mut layer, .. } | E::Line { ref mut layer, .. } | E::Circle { ref mut layer, .. } | E::Arc { ref mut layer, .. } => bare(layer),
        _ => (),
    }
    e
}

pub fn c30(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let at = src.rec.len();
    let a = E::gen(src);
    let rec: Vec<u64> = src.rec[at..].to_vec();
    let b = match src.choice(8) {
        0 => a.clone(),
        1 => E::gen(src),
        2 => {
            // only placement details
            let mut b = a.clone();
            match b {
                E::Pad(ref mut p) => {
                    p.net = src.opt(2, 3, |s| MNet { num: gen::int(s), name: gen::netname(s) });
                    p.layers.iter_mut().for_each(|l| if src.bool() { l.flip() });
                }
                E::Text(ref mut t) => {
                    let n = t.name.clone();
                    if n == "reference" || n == "value" {
                        *t = MText::gen(src);
                        t.name = n;
                    }
                    t.layer.flip()
                }
                E::Layer(ref mut l) => l.side = *src.pick(SIDES),
                E::Poly { ref mut layer, .. } | E::Line { ref mut layer, .. } | E::Circle { ref mut layer, .. } | E::Arc { ref mut layer, .. } => {
                    layer.side = *src.pick(SIDES)
                }
                _ => (),
            }
            b
        }
        _ => {
            // made by almost the same choices
            let mut r = rec.clone();
            for _ in 0..=src.choice(2) {
                let i = src.choice(r.len() as u64) as usize;
                r[i] = match src.choice(3) {
                    0 => src.choice(8),
                    1 => r[i].wrapping_add(1),
                    _ => src.choice(300),
                };
            }
            E::gen(&mut Src::replay(r))
        }
    };
    cx.case(&format!("{:?} {:?}", a, b));
    let want = design(&a) == design(&b);
    cx.tag(if want { "equal" } else { "different" });
    cx.nontrivial(a != b && std::mem::discriminant(&a) == std::mem::discriminant(&b));
    let (x, y) = (a.to_lib(), b.to_lib());
    let (p, q) = no_panic("eq", || (x == y, y == x))?;
    ensure!(p == want, "compare", "{:?} and {:?} compare {}", a, b, p);
    ensure!(p == q, "compare:symmetric", "{:?} and {:?}: {} one way, {} the other", a, b, p, q);
    ensure!((x != y) == !p, "compare:ne", "{:?} and {:?} are equal and unequal", a, b);
    ensure!(x == x, "compare:self", "{:?} is not equal to itself", a);
    Ok(())
}

pub fn c31(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    // variables of this worker, all set anew
    let var = |s: &str| format!("KPV{}_{}", cx.worker, s);
    let vars: Vec<(String, Option<String>)> = ["A", "KIPRJMOD", "b", "É1", "µ"]
        .iter()
        .map(|n| {
            let v = if src.chance(1, 8) {
                None
            } else {
                Some(match src.choice(5) {
                    0 => src.pick(&["/usr/share/kicad", "", "~", "~/x", "$HOME", "${A}", "a b", "漢", "$$"]).to_string(),
                    _ => gen::text(src).replace('\0', ""),
                })
            };
            (if *n == "µ" { format!("µ{}", cx.worker) } else { var(n) }, v)
        })
        .collect();
    for (n, v) in &vars {
        match *v {
            Some(ref v) => std::env::set_var(n, v),
            None => std::env::remove_var(n),
        }
    }
    let home = std::env::var("HOME").unwrap_or_default();
    let mut uri = String::new();
    let mut want = String::new();
    let mut unset = false;
    let mut refs = 0;
    if src.chance(1, 4) {
        match src.choice(3) {
            0 => {
                uri.push_str("~/");
                want.push_str(&home);
                want.push('/');
            }
            1 => {
                // somebody else's home stays
                uri.push_str("~x/");
                want.push_str("~x/");
            }
            _ => {
                uri.push_str("~");
                want.push_str(&home);
                let l = src.chance(1, 2);
                if l {
                    // nothing else
                    return c31_check(cx, &uri, Some(want), refs + 1);
                }
                uri.push('/');
                want.push('/');
            }
        }
        refs += 1;
    }
    let first = uri.is_empty();
    let n = src.choice(7);
    for k in 0..n {
        let (ref name, ref val) = vars[src.choice(vars.len() as u64) as usize];
        match src.choice(5) {
            4 => {
                // a dollar sign itself
                let t = *src.pick(&["$", "/", "µ", "A", ""]);
                uri.push_str(&format!("$${}", if t == "$" { "$$" } else { t }));
                want.push_str(&format!("${}", t));
            }
            0 => {
                refs += 1;
                uri.push_str(&format!("${{{}}}", name));
                match *val {
                    Some(ref v) => want.push_str(v),
                    None => unset = true,
                }
            }
            1 => {
                // the name ends at the next character that cannot be in one
                refs += 1;
                let sep = *src.pick(&["/", ".", " ", "-", ":", "%"]);
                uri.push_str(&format!("${}{}", name, sep));
                match *val {
                    Some(ref v) => want.push_str(v),
                    None => unset = true,
                }
                want.push_str(sep);
            }
            2 => {
                let t = *src.pick(&["/", "lib.pretty", "a b", "é", "~", "}", "{x}", "https://github.com/KiCad/", "\\", "#", "%20", "A"]);
                let t = if first && k == 0 && t == "~" { "x" } else { t };
                uri.push_str(t);
                want.push_str(t);
            }
            _ => {
                let t: String = gen::text(src).chars().filter(|c| *c != '$').collect();
                let t = if first && k == 0 { t.trim_start_matches('~').to_string() } else { t };
                uri.push_str(&t);
                want.push_str(&t);
            }
        }
    }
    // a tilde is special at the start only; the text before it can be empty
    if first && uri.starts_with('~') {
        return Ok(());
    }
    cx.case(&format!("{:?}", vars));
    c31_check(cx, &uri, if unset { None } else { Some(want) }, refs)
}

fn c31_check(cx: &mut Cx, uri: &str, want: Option<String>, refs: usize) -> Result<(), Fail> {
    cx.case(uri);
    cx.nontrivial(refs >= 1);
    cx.tag(if want.is_none() { "unset" } else { "set" });
    let lib = fp_lib_table::Lib { name: "n".into(), type_: "KiCad".into(), uri: uri.into(), options: String::new(), descr: String::new() };
    for _ in 0..2 {
        let got = no_panic("get_expanded_uri", || lib.get_expanded_uri())?.ok();
        ensure!(got == want, "uri", "{:?} expands to {:?}, not {:?}", uri, got, want);
    }
    ensure!(lib.uri == uri, "uri:stored", "{:?} changed to {:?}", uri, lib.uri);
    Ok(())
}

fn basic(n: &str) -> bool {
    n == "L" || n == "R" || n == "C" || n == "D"
}

/// fields with the value second, as in all files
fn value_second(s: &mut MSym) {
    if let Some(f) = s.fields.get_mut(1) {
        f.i = 1;
        f.name = "Value".into();
    }
    let n = s.fields.len();
    let mut k = 0;
    while k < n {
        if k != 1 && s.fields[k].i == 1 {
            s.fields[k].i = 0;
            s.fields[k].name = "Reference".into();
        }
        k += 1;
    }
}

pub fn c33(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MSymLib::gen(src);
    for s in &mut m.syms {
        value_second(s);
        // few pins more often
        if src.chance(1, 3) {
            s.draw.retain(|d| !matches!(*d, MDraw::Pin(_)));
            if src.bool() {
                s.draw.push(MDraw::Pin(MPin::gen(src)))
            }
        }
    }
    let t = m.doc(src);
    cx.case(&t);
    let mut v = if src.bool() { m.to_lib() } else { parse_symlib(&t)? };
    cx.nontrivial(!m.syms.is_empty());
    for (a, b) in m.syms.iter().zip(&v.symbols) {
        let got: Vec<MPin> = no_panic("pins", || b.pins().into_iter().map(MPin::from_lib).collect())?;
        ensure!(a.pins() == got.iter().collect::<Vec<_>>(), "symbol:pins", "{:?} has pins {:?}", a, got);
        let (p, g, s) = no_panic("classify", || (b.is_power(), b.is_graphics(), b.is_basic()))?;
        ensure!(p == (a.reference == "#PWR" && a.pins().len() == 1), "symbol:power", "{:?}: power {}", a, p);
        ensure!(g == (a.reference.starts_with('#') && a.pins().is_empty()), "symbol:graphics", "{:?}: graphics {}", a, g);
        ensure!(s == basic(&a.name), "symbol:basic", "{:?}: basic {}", a.name, s);
    }
    // finding the first of several
    let key = src.choice(4);
    let n = src.pick(&["R", "L", "~R", "#PWR", "U"]).to_string();
    let cond = |s: &MSym| match key {
        0 => s.name == n || s.reference == n,
        1 => s.pins().len() >= 2,
        2 => s.reference.starts_with('#'),
        _ => s.fields.len() < 3,
    };
    let want = m.syms.iter().find(|s| cond(s)).cloned();
    let got = no_panic("find", || v.find(|s: &symbol_lib::Symbol| cond(&MSym::from_lib(s))).map(MSym::from_lib))?;
    ensure!(want == got, "symbol:find", "{}", debug_diff(&want, &got));
    // renaming, more than once
    for _ in 0..src.choice(4) {
        if m.syms.is_empty() {
            break;
        }
        let i = src.choice(m.syms.len() as u64) as usize;
        let n = if src.chance(1, 3) { src.pick(&["R", "GND", "L", "X1"]).to_string() } else { shown(src) };
        // the mark is not part of the name given
        let n = n.trim_start_matches('~').to_string();
        let n = if n.is_empty() { "x".to_string() } else { n };
        cx.case(&format!("rename {} {:?}", i, n));
        no_panic("set_name", || v.symbols[i].set_name(&n))?;
        let s = &mut m.syms[i];
        s.name = if s.name.starts_with('~') { format!("~{}", n) } else { n.clone() };
        if let Some(f) = s.fields.get_mut(1) {
            f.value = n
        }
        symlib_same(&m, &MSymLib::from_lib(&v))?;
    }
    symlib_same(&m, &MSymLib::from_lib(&v))?;
    written_symlib(&m, &v)
}
