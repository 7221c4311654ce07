//! C15 - C18: moving, bounding boxes, flipping, rotating.
use crate::c_line::parse_sch;
use crate::c_sexp::{layout_same, parse_layout, parse_module};
use crate::engine::*;
use crate::fp::*;
use crate::gen;
use crate::ly::*;
use crate::sch::{coord, MSch, SE};
use kicad_parse_gen::footprint::{Flip, Rotate};
use kicad_parse_gen::{footprint, layout, Adjust, Bound, BoundingBox};

/// a footprint moves with its anchors
pub fn mod_mv(m: &mut MModule, x: f64, y: f64) {
    for e in &mut m.els {
        if let E::At(ref mut a) = *e {
            a.mv(x, y)
        }
    }
}

pub fn le_mv(e: &mut LE, x: f64, y: f64) {
    match *e {
        LE::Module(ref mut m) => mod_mv(m, x, y),
        LE::Text(ref mut t) => t.at.mv(x, y),
        LE::Line { ref mut start, ref mut end, .. }
        | LE::Arc { ref mut start, ref mut end, .. }
        | LE::Segment { ref mut start, ref mut end, .. } => {
            start.mv(x, y);
            end.mv(x, y)
        }
        LE::Circle { ref mut center, ref mut end, .. } => {
            center.mv(x, y);
            end.mv(x, y)
        }
        LE::Dim(ref mut d) => {
            d.text.at.mv(x, y);
            for p in &mut d.p {
                pts_mv(p, x, y)
            }
        }
        LE::Via { ref mut at, .. } => at.mv(x, y),
        LE::Zone(ref mut z) => {
            for p in z.polygons.iter_mut().chain(z.filled_polygons.iter_mut()).chain(z.fill_segments.iter_mut()) {
                pts_mv(p, x, y)
            }
        }
        LE::Net(_) | LE::NetClass(_) | LE::Other(_) => (),
    }
}

fn placed(e: &LE) -> bool {
    !matches!(*e, LE::Net(_) | LE::NetClass(_) | LE::Other(_))
}

/// the board as a value of the library, built directly or read from text
pub fn board(src: &mut Src, cx: &mut Cx, m: &MLayout) -> Result<layout::Layout, Fail> {
    if src.bool() {
        cx.case(&format!("{:?}", m));
        Ok(m.to_lib())
    } else {
        let t = m.doc(src);
        cx.case(&t);
        parse_layout(&t)
    }
}

pub fn part(src: &mut Src, cx: &mut Cx, m: &MModule) -> Result<footprint::Module, Fail> {
    if src.bool() {
        cx.case(&format!("{:?}", m));
        Ok(m.to_lib())
    } else {
        let t = m.doc(src);
        cx.case(&t);
        parse_module(&t)
    }
}

pub fn c15(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    if src.chance(1, 3) {
        // a single element
        let mut m = LE::gen(src);
        let (x, y) = (gen::shift(src), gen::shift(src));
        if let LE::Dim(ref mut d) = m {
            // a part that is where another one gets
            if src.chance(1, 3) {
                let (i, j) = (src.choice(7) as usize, src.choice(7) as usize);
                d.p[j] = d.p[i].clone();
                pts_mv(&mut d.p[j], x, y)
            }
        }
        cx.case(&format!("{:?} by {} {}", m, x, y));
        cx.nontrivial(placed(&m) && (x != 0.0 || y != 0.0));
        cx.tag("element");
        let mut v = m.to_lib();
        no_panic("adjust", || v.adjust(x, y))?;
        le_mv(&mut m, x, y);
        let got = LE::from_lib(&v);
        ensure!(got == m, "move:element", "{}", debug_diff(&m, &got));
        // the typed elements move the same way
        if let (layout::Element::Module(mut f), LE::Module(mut mf)) = (v, m) {
            no_panic("adjust", || f.adjust(y, x))?;
            mod_mv(&mut mf, y, x);
            let got = MModule::from_lib(&f);
            ensure!(got == mf, "move:footprint", "{}", debug_diff(&mf, &got));
        }
        return Ok(());
    }
    let mut m = MLayout::gen(src);
    let mut v = board(src, cx, &m)?;
    let mut moved = false;
    for _ in 0..=src.choice(3) {
        let (x, y) = (gen::shift(src), gen::shift(src));
        cx.case(&format!("by {} {}", x, y));
        moved |= x != 0.0 || y != 0.0;
        no_panic("adjust", || v.adjust(x, y))?;
        for e in &mut m.els {
            le_mv(e, x, y)
        }
    }
    cx.tag("board");
    cx.nontrivial(moved && m.els.iter().filter(|e| placed(e)).count() >= 2);
    layout_same(&m, &MLayout::from_lib(&v))
}

/// box of the model, None when without extent
type B = Option<[f64; 4]>;

fn point(x: f64, y: f64) -> B {
    Some([x, y, x, y])
}

fn join(a: B, b: B) -> B {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some([a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])]),
    }
}

fn xy(p: &MXy) -> B {
    point(p.x, p.y)
}

fn pts(p: &MPts) -> B {
    p.iter().fold(None, |a, p| join(a, xy(p)))
}

fn circle(c: &MXy, e: &MXy) -> B {
    let r = (c.x - e.x).hypot(c.y - e.y);
    Some([c.x - r, c.y - r, c.x + r, c.y + r])
}

fn shift(b: B, x: f64, y: f64) -> B {
    b.map(|b| [b[0] + x, b[1] + y, b[2] + x, b[3] + y])
}

fn e_box(e: &E) -> B {
    match *e {
        E::Pad(ref p) => {
            let turned = p.at.rot.rem_euclid(180.0) == 90.0;
            let (w, h) = if turned { (p.size.y, p.size.x) } else { (p.size.x, p.size.y) };
            Some([p.at.x - w / 2.0, p.at.y - h / 2.0, p.at.x + w / 2.0, p.at.y + h / 2.0])
        }
        E::Poly { pts: ref p, .. } => pts(p),
        E::Line { ref start, ref end, .. } | E::Arc { ref start, ref end, .. } => join(xy(start), xy(end)),
        E::Circle { ref center, ref end, .. } => circle(center, end),
        E::Text(ref t) => point(t.at.x, t.at.y),
        _ => None,
    }
}

fn fab(l: &MLayer) -> bool {
    l.t == "Fab" && !l.other
}

pub fn mod_at(m: &MModule) -> (f64, f64) {
    for e in &m.els {
        if let E::At(ref a) = *e {
            return (a.x, a.y);
        }
    }
    (0.0, 0.0)
}

pub fn mod_box(m: &MModule) -> B {
    let (x, y) = mod_at(m);
    let mut b = point(x, y);
    for e in &m.els {
        let counts = match *e {
            E::Pad(_) => true,
            E::Poly { ref layer, .. } | E::Line { ref layer, .. } | E::Arc { ref layer, .. } | E::Circle { ref layer, .. } => fab(layer),
            _ => false,
        };
        if counts {
            b = join(b, shift(e_box(e), x, y))
        }
    }
    b
}

fn le_box(e: &LE) -> B {
    match *e {
        LE::Module(ref m) => mod_box(m),
        LE::Text(ref t) => point(t.at.x, t.at.y),
        LE::Line { ref start, ref end, .. } | LE::Arc { ref start, ref end, .. } | LE::Segment { ref start, ref end, .. } => {
            join(xy(start), xy(end))
        }
        LE::Circle { ref center, ref end, .. } => circle(center, end),
        LE::Dim(ref d) => d.p.iter().fold(point(d.text.at.x, d.text.at.y), |a, p| join(a, pts(p))),
        LE::Via { ref at, size, .. } => Some([at.x - size / 2.0, at.y - size / 2.0, at.x + size / 2.0, at.y + size / 2.0]),
        LE::Zone(ref z) => {
            z.polygons.iter().chain(z.filled_polygons.iter()).chain(z.fill_segments.iter()).fold(None, |a, p| join(a, pts(p)))
        }
        LE::Net(_) | LE::NetClass(_) | LE::Other(_) => None,
    }
}

fn of(b: &Bound) -> B {
    if b.is_bounded { Some([b.x1, b.y1, b.x2, b.y2]) } else { None }
}

/// room for rounding in a box of that size
pub fn slack(a: &[f64; 4]) -> f64 {
    1e-9 * (1.0 + a.iter().fold(0.0f64, |m, x| m.max(x.abs())))
}

pub fn same_box(what: &str, want: B, got: &Bound) -> Result<(), Fail> {
    let ok = match (want, of(got)) {
        (None, None) => true,
        (Some(a), Some(b)) => (0..4).all(|i| (a[i] - b[i]).abs() <= slack(&a)) && b[0] <= b[2] && b[1] <= b[3],
        _ => false,
    };
    ensure!(ok, "box", "{}: expected {:?}, got {:?}", what, want, got);
    if let Some(a) = want {
        let near = |x: f64, y: f64| (x - y).abs() <= 4.0 * slack(&a);
        ensure!(near(got.width(), a[2] - a[0]), "box:width", "{}: width {} of {:?}", what, got.width(), got);
        ensure!(near(got.height(), a[3] - a[1]), "box:height", "{}: height {} of {:?}", what, got.height(), got);
    }
    Ok(())
}

/// shapes whose box the statement defines: quarter turns, sizes that are not negative
pub fn regular(e: &mut E) {
    if let E::Pad(ref mut p) = *e {
        p.size.x = p.size.x.abs();
        p.size.y = p.size.y.abs();
        p.at.rot = (p.at.rot / 90.0).round() * 90.0
    }
}

fn regular_le(e: &mut LE) {
    match *e {
        LE::Module(ref mut m) => m.els.iter_mut().for_each(regular),
        LE::Via { ref mut size, .. } => *size = size.abs(),
        _ => (),
    }
}

fn via_box(want: B, got: &Bound) -> Result<(), Fail> {
    let (a, b) = (want.unwrap(), of(got));
    let ok = match b {
        None => false,
        Some(b) => {
            // it contains the copper and is not further away than its size
            let w = a[2] - a[0];
            let t = slack(&a);
            b[0] <= a[0] + t
                && b[1] <= a[1] + t
                && b[2] >= a[2] - t
                && b[3] >= a[3] - t
                && b[0] >= a[0] - w - t
                && b[1] >= a[1] - w - t
                && b[2] <= a[2] + w + t
                && b[3] <= a[3] + w + t
        }
    };
    ensure!(ok, "box:via", "copper {:?}, got {:?}", want, got);
    Ok(())
}

pub fn c16(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match src.choice(8) {
        0 | 1 | 2 => {
            cx.tag("footprint");
            let mut m = MModule::gen(src);
            m.els.iter_mut().for_each(regular);
            let v = part(src, cx, &m)?;
            cx.nontrivial(m.els.iter().filter(|e| e_box(e).is_some()).count() >= 2);
            for (e, k) in m.els.iter().zip(&v.elements) {
                let b = no_panic("bounding_box", || k.bounding_box())?;
                same_box(&format!("{:?}", e), e_box(e), &b)?;
            }
            let b = no_panic("bounding_box", || v.bounding_box())?;
            same_box("footprint", mod_box(&m), &b)
        }
        3 | 4 | 5 => {
            cx.tag("board");
            let mut m = MLayout::gen(src);
            m.els.iter_mut().for_each(regular_le);
            let v = board(src, cx, &m)?;
            cx.nontrivial(m.els.iter().filter(|e| le_box(e).is_some()).count() >= 2);
            let mut all = None;
            for (e, k) in m.els.iter().zip(&v.elements) {
                let b = no_panic("bounding_box", || k.bounding_box())?;
                if let LE::Via { .. } = *e {
                    via_box(le_box(e), &b)?
                } else {
                    same_box(&format!("{:?}", e), le_box(e), &b)?
                }
                all = join(all, of(&b));
            }
            let b = no_panic("bounding_box", || v.bounding_box())?;
            same_box("board", all, &b)
        }
        6 => {
            cx.tag("schematic");
            let m = MSch::gen(src);
            let v = if src.bool() { m.to_lib() } else { parse_sch(&m.doc(src))? };
            cx.case(&format!("{:?}", m));
            cx.nontrivial(m.comps().len() + m.sheets.len() >= 2);
            let mut all = None;
            for (e, k) in m.els.iter().zip(&v.elements) {
                let want = match *e {
                    SE::Comp(ref c) => point(c.x as f64, c.y as f64),
                    _ => None,
                };
                let b = no_panic("bounding_box", || k.bounding_box())?;
                same_box("schematic element", want, &b)?;
                all = join(all, want);
            }
            for (s, k) in m.sheets.iter().zip(&v.sheets) {
                let b = no_panic("bounding_box", || k.bounding_box())?;
                let (x1, y1) = (s.x as f64, s.y as f64);
                let (x2, y2) = ((s.x + s.dx) as f64, (s.y + s.dy) as f64);
                // a negative size goes the other way
                let (x1, y1, x2, y2) = (x1.min(x2), y1.min(y2), x1.max(x2), y1.max(y2));
                let ok = b.is_bounded && b.x1 == x1 && b.x2 == x2 && b.y1 <= y1 && b.y2 >= y2 && b.y1 >= y1 - 100.0 && b.y2 <= y2 + 100.0;
                ensure!(ok, "box:sheet", "sheet {:?} has box {:?}", s, b);
                all = join(all, of(&b));
            }
            let b = no_panic("bounding_box", || v.bounding_box())?;
            same_box("schematic", all, &b)
        }
        _ => {
            cx.tag("join");
            // boxes and items without extent, joined in order
            let mut want = None;
            let mut b = Bound::default();
            let l = src.list(8, 4, |s| {
                if s.chance(1, 4) {
                    None
                } else if s.bool() {
                    let (x, y) = (gen::num(s), gen::num(s));
                    Some([x, y, x + gen::unum(s), y + gen::unum(s)])
                } else {
                    let (x, y) = (coord(s), coord(s));
                    Some([x as f64, y as f64, (x + s.range(0, 5000)) as f64, (y + s.range(0, 5000)) as f64])
                }
            });
            cx.case(&format!("{:?}", l));
            cx.nontrivial(l.iter().filter(|x| x.is_some()).count() >= 2);
            for x in l {
                let other = match x {
                    None => Bound { x1: gen::num(src), y1: gen::num(src), x2: gen::num(src), y2: gen::num(src), is_bounded: false },
                    Some(a) => {
                        if a.iter().all(|x| x.fract() == 0.0) && src.bool() {
                            Bound::new_from_i64(a[0] as i64, a[1] as i64, a[2] as i64, a[3] as i64)
                        } else {
                            Bound::new(a[0], a[1], a[2], a[3])
                        }
                    }
                };
                no_panic("update", || b.update(&other))?;
                want = join(want, x);
                same_box("joined", want, &b)?;
            }
            b.swap_if_needed();
            same_box("joined", want, &b)?;
            // corners given in the wrong order
            let (x1, y1, x2, y2) = (gen::num(src), gen::num(src), gen::num(src), gen::num(src));
            let mut b = Bound::new(x1, y1, x2, y2);
            b.swap_if_needed();
            same_box("ordered", join(point(x1, y1), point(x2, y2)), &b)
        }
    }
}

fn turn(r: f64) -> f64 {
    let x = (r.rem_euclid(360.0) * 1e7).round() / 1e7;
    if x >= 360.0 { x - 360.0 } else { x }
}

/// rotations reduced to one turn, so that 0 and 360 are the same
fn one_turn(m: &MModule) -> MModule {
    let mut m = m.clone();
    for e in &mut m.els {
        match *e {
            E::At(ref mut a) => a.rot = turn(a.rot),
            E::Text(ref mut t) => t.at.rot = turn(t.at.rot),
            E::Pad(ref mut p) => p.at.rot = turn(p.at.rot),
            _ => (),
        }
    }
    m
}

fn at_flip(a: &mut MAt) {
    a.y = -a.y;
    a.rot = -a.rot;
}

pub fn e_flip(e: &mut E) {
    match *e {
        E::Layer(ref mut l) => l.flip(),
        E::Text(ref mut t) => {
            at_flip(&mut t.at);
            t.layer.flip();
            t.effects.mirror = !t.effects.mirror;
        }
        E::Pad(ref mut p) => {
            at_flip(&mut p.at);
            p.layers.iter_mut().for_each(|l| l.flip());
        }
        E::Poly { ref mut pts, ref mut layer, .. } => {
            pts.iter_mut().for_each(|p| p.flip());
            layer.flip()
        }
        E::Line { ref mut start, ref mut end, ref mut layer, .. } => {
            start.flip();
            end.flip();
            layer.flip()
        }
        E::Circle { ref mut center, ref mut end, ref mut layer, .. } => {
            center.flip();
            end.flip();
            layer.flip()
        }
        E::Arc { ref mut start, ref mut end, ref mut angle, ref mut layer, .. } => {
            start.flip();
            end.flip();
            *angle = -*angle;
            layer.flip()
        }
        E::At(ref mut a) => at_flip(a),
        _ => (),
    }
}

fn same_turned(sig: &str, want: &MModule, got: &MModule) -> Result<(), Fail> {
    let (a, b) = (one_turn(want), one_turn(got));
    ensure!(a.els.len() == b.els.len(), sig, "{} elements became {}", a.els.len(), b.els.len());
    for (x, y) in a.els.iter().zip(&b.els) {
        ensure!(x == y, sig, "{}", debug_diff(x, y));
    }
    ensure!(a == b, sig, "{}", debug_diff(&a, &b));
    Ok(())
}

pub fn c17(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let m = MModule::gen(src);
    let mut v = part(src, cx, &m)?;
    cx.nontrivial(m.structured() >= 2);
    let mut f = m.clone();
    f.els.iter_mut().for_each(e_flip);
    if src.chance(1, 3) {
        // element by element
        for e in &mut v.elements {
            no_panic("flip", || e.flip())?;
        }
    } else {
        no_panic("flip", || v.flip())?;
    }
    same_turned("flip", &f, &MModule::from_lib(&v))?;
    no_panic("flip", || v.flip())?;
    same_turned("flip:twice", &m, &MModule::from_lib(&v))
}

pub fn c18(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut m = MModule::gen(src);
    // mostly rotations as KiCad writes them
    if src.chance(3, 4) {
        for e in &mut m.els {
            if let E::At(MAt { ref mut rot, .. }) | E::Pad(MPad { at: MAt { ref mut rot, .. }, .. }) | E::Text(MText { at: MAt { ref mut rot, .. }, .. }) = *e {
                if *rot < 0.0 {
                    *rot = -*rot
                }
                if *rot >= 360.0 {
                    *rot = 0.0
                }
            }
        }
    }
    let mut v = part(src, cx, &m)?;
    let mut want = m.clone();
    let angles = src.list_min(1, 4, 1, |s| match s.choice(5) {
        0 => *s.pick(&[90.0, 180.0, 270.0, 360.0, 45.0, 0.0]),
        1 => -*s.pick(&[90.0, 180.0, 270.0, 360.0, 45.0, 0.1]),
        2 => s.range(-360, 360) as f64,
        _ => s.range(-36000, 36000) as f64 / 100.0,
    });
    cx.case(&format!("by {:?}", angles));
    let turns = m.els.iter().filter(|e| matches!(**e, E::At(_) | E::Pad(_) | E::Text(_))).count();
    cx.nontrivial(turns >= 1 && angles.iter().any(|a| *a != 0.0));
    for (i, a) in angles.iter().enumerate() {
        if src.chance(1, 4) {
            for e in &mut v.elements {
                no_panic("rotate", || e.rotate(*a))?;
            }
        } else {
            no_panic("rotate", || v.rotate(*a))?;
        }
        for e in &mut want.els {
            match *e {
                E::At(ref mut x) => x.rot += a,
                E::Pad(ref mut p) => p.at.rot += a,
                E::Text(ref mut t) => t.at.rot += a,
                _ => (),
            }
        }
        let got = MModule::from_lib(&v);
        same_turned("rotate", &want, &got)?;
        if i == 0 {
            for (b, g) in m.els.iter().zip(&got.els) {
                let (b, g) = match (b, g) {
                    (E::At(b), E::At(g)) => (b.rot, g.rot),
                    (E::Pad(b), E::Pad(g)) => (b.at.rot, g.at.rot),
                    (E::Text(b), E::Text(g)) => (b.at.rot, g.at.rot),
                    _ => continue,
                };
                if b >= 0.0 && b < 360.0 {
                    ensure!(g >= 0.0 && g < 360.0, "rotate:range", "rotation {} turned by {} gives {}", b, a, g);
                }
            }
        }
    }
    for a in angles.iter().rev() {
        no_panic("rotate", || v.rotate(-*a))?;
    }
    same_turned("rotate:back", &m, &MModule::from_lib(&v))
}
