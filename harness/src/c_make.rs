//! C36: documents made in code.
use crate::c_line::{parse_sch, parse_symlib};
use crate::c_sexp::{parse_layout, parse_module, write_layout, write_module};
use crate::engine::*;
use crate::fp::*;
use crate::gen;
use crate::ly::*;
use crate::sch::*;
use crate::sym::*;
use kicad_parse_gen::{footprint as f, layout as l, schematic as s, symbol_lib as y, Adjust, Bound};

/// sets some of the fields
macro_rules! mix {
    ($src:expr, $to:expr, $from:expr, $($x:ident),+) => {
        $(if $src.bool() { $to.$x = $from.$x.clone() })+
    };
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: &T, got: &T) -> Result<(), Fail> {
    if want == got {
        return Ok(());
    }
    fail(&format!("made:{}", what), debug_diff(want, got))
}

fn module(src: &mut Src, cx: &mut Cx) -> Result<f::Module, Fail> {
    let name = gen::text(src);
    let mut m = f::Module::new(name.clone());
    same("module", &MModule { name, els: vec![] }, &MModule::from_lib(&m))?;
    for _ in 0..src.choice(6) {
        let e = match src.choice(8) {
            0 => {
                let t = MText::gen(src);
                let mut x = f::FpText::new(t.name.clone(), t.value.clone());
                let want = MText {
                    name: t.name.clone(),
                    value: t.value.clone(),
                    at: MAt::zero(),
                    layer: MLayer::new("F", "Cu"),
                    hide: false,
                    effects: MEffects { sx: 0.0, sy: 0.0, thickness: 0.0, italic: false, side: "", mirror: false },
                };
                same("text", &want, &MText::from_lib(&x))?;
                let mut want = want;
                if src.bool() {
                    x.set_effects(&t.effects.to_lib());
                    want.effects = t.effects.clone();
                }
                if src.bool() {
                    x.set_layer(&t.layer.to_lib());
                    want.layer = t.layer.clone();
                }
                if src.bool() {
                    x.at = f::At::new(t.at.x, t.at.y, t.at.rot);
                    want.at = t.at.clone();
                }
                if src.bool() {
                    x.hide = t.hide;
                    want.hide = t.hide
                }
                same("text", &want, &MText::from_lib(&x))?;
                f::Element::FpText(x)
            }
            1 | 2 => {
                let t = MPad::gen(src);
                let pt = f::PadType::from_string(t.t).map_err(|e| Fail { sig: "made:type".into(), msg: e.to_string() })?;
                let ps = f::PadShape::from_string(t.shape).map_err(|e| Fail { sig: "made:shape".into(), msg: e.to_string() })?;
                let mut x = f::Pad::new(t.name.clone(), pt, ps);
                let want = MPad {
                    name: t.name.clone(),
                    t: t.t,
                    shape: t.shape,
                    at: MAt::zero(),
                    size: MXy::zero("size"),
                    rect_delta: None,
                    drill: None,
                    layers: vec![],
                    net: None,
                    zone_connect: None,
                    solder_paste_margin: None,
                    solder_mask_margin: None,
                    clearance: None,
                    thermal_gap: None,
                };
                same("pad", &want, &MPad::from_lib(&x))?;
                let from = t.to_lib();
                mix!(src, x, from, at, size, rect_delta, drill, layers, net, zone_connect, solder_paste_margin, solder_mask_margin, clearance, thermal_gap);
                if src.bool() {
                    let n = t.net.clone().unwrap_or(MNet { num: 0, name: String::new() });
                    x.set_net(f::Net { num: n.num, name: n.name.clone().into() });
                    same("net", &Some(n), &MPad::from_lib(&x).net)?;
                }
                f::Element::Pad(x)
            }
            3 => {
                let mut x = f::FpLine::default();
                let zero = E::Line { start: MXy::zero("start"), end: MXy::zero("end"), layer: MLayer::new("F", "Cu"), width: 0.0 };
                same("fp_line", &zero, &E::from_lib(&f::Element::FpLine(x.clone())))?;
                let from = f::FpLine {
                    start: f::Xy::new(gen::num(src), gen::num(src), f::XyType::Start),
                    end: f::Xy::new(gen::num(src), gen::num(src), f::XyType::End),
                    layer: MLayer::gen(src).to_lib(),
                    width: gen::num(src),
                };
                mix!(src, x, from, start, end, layer, width);
                f::Element::FpLine(x)
            }
            4 => {
                let mut x = f::FpCircle::default();
                let zero = E::Circle { center: MXy::zero("center"), end: MXy::zero("end"), layer: MLayer::new("F", "Cu"), width: 0.0 };
                same("fp_circle", &zero, &E::from_lib(&f::Element::FpCircle(x.clone())))?;
                x.center.x = gen::num(src);
                x.end.y = gen::num(src);
                mix!(src, x, f::FpCircle { layer: MLayer::gen(src).to_lib(), ..f::FpCircle::default() }, layer);
                f::Element::FpCircle(x)
            }
            5 => {
                let mut x = f::FpArc::default();
                let zero = E::Arc { start: MXy::zero("start"), end: MXy::zero("end"), angle: 0.0, layer: MLayer::new("F", "Cu"), width: 0.0 };
                same("fp_arc", &zero, &E::from_lib(&f::Element::FpArc(x.clone())))?;
                x.start.x = gen::num(src);
                x.end.y = gen::num(src);
                x.angle = gen::num(src);
                f::Element::FpArc(x)
            }
            6 => {
                let mut x = f::FpPoly::default();
                let zero = E::Poly { pts: vec![], layer: MLayer::new("F", "Cu"), width: 0.0 };
                same("fp_poly", &zero, &E::from_lib(&f::Element::FpPoly(x.clone())))?;
                for _ in 0..src.choice(4) {
                    x.pts.elements.push(f::Xy::new(gen::num(src), gen::num(src), f::XyType::Xy))
                }
                x.width = gen::num(src);
                f::Element::FpPoly(x)
            }
            _ => {
                let (a, b) = (gen::num(src), gen::num(src));
                let c = gen::num(src);
                let x = f::Model {
                    name: gen::text(src),
                    at: f::Xyz::new(a, b, c),
                    scale: f::Xyz::new(b, c, a),
                    rotate: f::Xyz::new(c, a, b),
                };
                let want = E::Model(MModel { name: x.name.clone(), at: [a, b, c], scale: [b, c, a], rotate: [c, a, b] });
                let x = f::Element::Model(x);
                same("model", &want, &E::from_lib(&x))?;
                x
            }
        };
        let mut want = MModule::from_lib(&m);
        want.els.push(E::from_lib(&e));
        no_panic("append", || m.append(e))?;
        same("append", &want, &MModule::from_lib(&m))?;
    }
    cx.case(&format!("{:?}", MModule::from_lib(&m)));
    Ok(m)
}

fn layout(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut v = l::Layout::default();
    let want = MLayout {
        version: 4,
        tool: "pcbnew".into(),
        build: "custom".into(),
        counts: [0; 7],
        area: [0.0; 4],
        thickness: 1.6,
        page: "A4".into(),
        setup: vec![],
        plot: vec![],
        layers: vec![],
        els: vec![],
    };
    same("layout", &want, &MLayout::from_lib(&v))?;
    let from = MLayout::gen(src).to_lib();
    mix!(src, v, from, version, host, setup, general, page, layers);
    let cu = || MLayer::new("F", "Cu");
    let no_effects = || MEffects { sx: 0.0, sy: 0.0, thickness: 0.0, italic: false, side: "", mirror: false };
    for _ in 0..src.choice(6) {
        let any = LE::gen(src).to_lib();
        let e = match src.choice(9) {
            0 => {
                let mut x = l::GrText::default();
                let zero = LE::Text(MGrText { value: "".into(), at: MAt::zero(), layer: cu(), effects: no_effects(), tstamp: None });
                same("gr_text", &zero, &LE::from_lib(&l::Element::GrText(x.clone())))?;
                if let l::Element::GrText(ref o) = any {
                    mix!(src, x, o, value, at, layer, effects, tstamp);
                }
                l::Element::GrText(x)
            }
            1 => {
                let mut x = l::GrLine::default();
                let zero = LE::Line { start: MXy::zero("start"), end: MXy::zero("end"), angle: 0.0, layer: cu(), width: 0.0, tstamp: None };
                same("gr_line", &zero, &LE::from_lib(&l::Element::GrLine(x.clone())))?;
                x.start.x = gen::num(src);
                if let l::Element::GrLine(ref o) = any {
                    mix!(src, x, o, start, end, angle, layer, width, tstamp);
                }
                l::Element::GrLine(x)
            }
            2 => {
                let mut x = l::GrArc::default();
                let zero = LE::Arc { start: MXy::zero("start"), end: MXy::zero("end"), angle: 0.0, layer: cu(), width: 0.0, tstamp: None };
                same("gr_arc", &zero, &LE::from_lib(&l::Element::GrArc(x.clone())))?;
                x.angle = gen::num(src);
                if let l::Element::GrArc(ref o) = any {
                    mix!(src, x, o, start, end, angle, layer, width, tstamp);
                }
                l::Element::GrArc(x)
            }
            3 => {
                let mut x = l::GrCircle::default();
                let zero = LE::Circle { center: MXy::zero("center"), end: MXy::zero("end"), layer: cu(), width: 0.0, tstamp: None };
                same("gr_circle", &zero, &LE::from_lib(&l::Element::GrCircle(x.clone())))?;
                x.end.x = gen::num(src);
                if let l::Element::GrCircle(ref o) = any {
                    mix!(src, x, o, center, end, layer, width, tstamp);
                }
                l::Element::GrCircle(x)
            }
            4 => {
                let mut x = l::Segment::default();
                let zero = LE::Segment {
                    start: MXy::zero("start"),
                    end: MXy::zero("end"),
                    width: 0.0,
                    layer: cu(),
                    net: 0,
                    tstamp: None,
                    status: None,
                };
                same("segment", &zero, &LE::from_lib(&l::Element::Segment(x.clone())))?;
                x.width = gen::num(src);
                if let l::Element::Segment(ref o) = any {
                    mix!(src, x, o, start, end, width, layer, net, tstamp, status);
                }
                l::Element::Segment(x)
            }
            5 => {
                let mut x = l::Via::default();
                let zero = LE::Via { blind: false, micro: false, at: MAt::zero(), size: 0.0, drill: 0.0, layers: vec![], net: 0 };
                same("via", &zero, &LE::from_lib(&l::Element::Via(x.clone())))?;
                x.size = gen::num(src);
                if let l::Element::Via(ref o) = any {
                    mix!(src, x, o, blind, micro, at, size, drill, layers, net);
                }
                l::Element::Via(x)
            }
            6 => {
                let mut x = l::Dimension::default();
                let text = MGrText { value: "".into(), at: MAt::zero(), layer: cu(), effects: no_effects(), tstamp: None };
                let zero = LE::Dim(MDim { name: "".into(), width: 0.0, layer: cu(), tstamp: None, text, p: Default::default() });
                same("dimension", &zero, &LE::from_lib(&l::Element::Dimension(x.clone())))?;
                x.width = gen::num(src);
                if let l::Element::Dimension(ref o) = any {
                    mix!(src, x, o, name, width, layer, tstamp, text, feature1, feature2, crossbar, arrow1a, arrow1b, arrow2a, arrow2b);
                }
                l::Element::Dimension(x)
            }
            7 => {
                let (num, name) = (gen::uint(src), gen::netname(src));
                let x = if src.bool() { l::Net::default() } else { l::Net { num, name: name.clone().into() } };
                l::Element::Net(x)
            }
            _ => {
                let mut m = module(src, cx)?;
                if src.bool() {
                    m.adjust(gen::num(src), gen::num(src))
                }
                l::Element::Module(m)
            }
        };
        v.elements.push(e)
    }
    let want = MLayout::from_lib(&v);
    let t = write_layout(&v, 0)?;
    cx.case(&t);
    cx.nontrivial(v.elements.len() >= 2);
    same("layout reread", &want, &MLayout::from_lib(&parse_layout(&t)?))
}

fn sheet(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut v = s::Schematic::default();
    let want = MSch {
        libs: vec![],
        eelayer: v.eelayer.clone(),
        psize: v.description.size.clone(),
        dx: v.description.dimx,
        dy: v.description.dimy,
        portrait: false,
        txt: ["Normal", "Tue 19 May 2015", "", "", "", "", "", ""].map(String::from),
        sheet: 1,
        sheets_n: 1,
        els: vec![],
        sheets: vec![],
    };
    same("schematic", &want, &MSch::from_lib(&v))?;
    let from = MSch::gen(src).to_lib();
    mix!(src, v, from, libraries, eelayer);
    let o = from.description;
    mix!(src, v.description, o, size, dimx, dimy, portrait, title, date, rev, comp, comment1, comment2, comment3, comment4, sheet, sheet_count);
    for _ in 0..src.choice(4) {
        let mut x = s::Component::default();
        let mut m = MComp { name: "DUMMY".into(), reference: "U1".into(), u: "".into(), x: 0, y: 0, ar: vec![], fields: vec![], rot: [0; 4] };
        same("component", &m, &MComp::from_lib(&x))?;
        let g = MComp::gen(src);
        let o = g.to_lib();
        mix!(src, x, o, name, reference, u, x, y, ar_path, rotation);
        for _ in 0..src.choice(4) {
            let i = src.range(0, 8);
            let (name, value) = (if i < 4 { STD[i as usize].to_string() } else { gen::text(src) }, gen::text(src));
            let (fx, fy) = (gen::num(src), gen::num(src));
            let fl = s::ComponentField::new_from(i, name.clone(), value.clone(), fx, fy);
            let want = MField {
                i,
                value,
                vertical: false,
                x: fx,
                y: fy,
                size: 60,
                visible: false,
                h: 'C',
                v: 'C',
                italic: false,
                bold: false,
                name,
            };
            same("field", &want, &MField::from_lib(&fl))?;
            x.fields.push(fl)
        }
        m.x = x.x;
        v.elements.push(s::Element::Component(x))
    }
    for _ in 0..src.choice(3) {
        let mut x = s::Sheet::default();
        let m = MSheet { x: 0, y: 0, dx: 0, dy: 0, unique: "".into(), name: "DUMMY".into(), name_size: 60, file: "".into(), file_size: 60, labels: vec![] };
        same("sheet", &m, &MSheet::from_lib(&x))?;
        let o = MSheet::gen(src).to_lib();
        mix!(src, x, o, x, y, dimx, dimy, unique, name, name_size, filename, filename_size);
        for p in &o.labels {
            let mut q = s::SheetLabel::default();
            let one = s::Sheet { labels: vec![q.clone()], ..s::Sheet::default() };
            let want = MLabel { name: "".into(), form: 'I', side: 'L', x: 0, y: 0, size: 60 };
            same("label", &want, &MSheet::from_lib(&one).labels[0])?;
            mix!(src, q, p, name, form, side, x, y, size);
            x.labels.push(q)
        }
        v.sheets.push(x)
    }
    let want = MSch::from_lib(&v);
    let t = no_panic("write", || v.to_string())?;
    cx.case(&t);
    cx.nontrivial(v.elements.len() + v.sheets.len() >= 2);
    same("schematic reread", &want, &MSch::from_lib(&parse_sch(&t)?))
}

fn symbols(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    let mut v = y::SymbolLib::default();
    same("library", &MSymLib { syms: vec![] }, &MSymLib::from_lib(&v))?;
    let mut n = 0;
    for _ in 0..src.choice(4) {
        let g = MSym::gen(src);
        let mut x = y::Symbol::new(g.name.clone(), g.reference.clone());
        let mut want = MSym {
            name: g.name.clone(),
            reference: g.reference.clone(),
            offset: 0.0,
            numbers: false,
            names: false,
            units: 1,
            locked: false,
            power: false,
            fields: vec![],
            aliases: vec![],
            filters: vec![],
            draw: vec![],
        };
        same("symbol", &want, &MSym::from_lib(&x))?;
        // with any name and reference, also none
        want.name = if src.chance(1, 4) { String::new() } else { gen::text(src) };
        want.reference = if src.chance(1, 4) { String::new() } else { gen::text(src) };
        same("symbol", &want, &MSym::from_lib(&y::Symbol::new(want.name.clone(), want.reference.clone())))?;
        let o = g.to_lib();
        mix!(src, x, o, text_offset, draw_pinnumber, draw_pinname, unit_count, unit_locked, is_power, aliases, footprint_filters);
        for i in 0..4 {
            // writing needs the standard fields
            let mut q = y::Field::default();
            let want = MField {
                i: 0,
                value: "".into(),
                vertical: false,
                x: 0.0,
                y: 0.0,
                size: 0,
                visible: false,
                h: 'C',
                v: 'C',
                italic: false,
                bold: false,
                name: "".into(),
            };
            let one = y::Symbol { fields: vec![q.clone()], ..y::Symbol::new("a".into(), "b".into()) };
            same("symbol field", &want, &MSym::from_lib(&one).fields[0])?;
            q.i = i;
            q.name = STD[i as usize].into();
            if i == 1 {
                q.value = g.name.trim_start_matches('~').trim_end_matches('\\').replace('"', "")
            } else {
                mix!(src, q, y::Field { value: gen::text(src), ..y::Field::default() }, value);
            }
            if let Some(p) = o.fields.get(i as usize) {
                mix!(src, q, p, x, y, dimension, orientation, visible, hjustify, vjustify, italic, bold);
            }
            x.fields.push(q)
        }
        for d in &o.draw {
            let d = match *d {
                y::Draw::Pin(ref p) => {
                    let mut q = y::Pin::default();
                    let want = MPin {
                        name: "".into(),
                        number: "".into(),
                        x: 0,
                        y: 0,
                        len: 0,
                        orient: MPin::from_lib(&q).orient,
                        num_size: 0,
                        name_size: 0,
                        unit: 0,
                        convert: 0,
                        t: MPin::from_lib(&q).t,
                        visible: false,
                        shape: "",
                    };
                    same("pin", &want, &MPin::from_lib(&q))?;
                    q.name = p.name.clone();
                    q.number = p.number.clone();
                    mix!(src, q, p, x, y, len, orientation, num_size, name_size, unit, convert, pin_type, pin_visible, pin_shape);
                    y::Draw::Pin(q)
                }
                y::Draw::Rectangle(ref p) => {
                    let mut q = y::Rectangle::default();
                    let want = MDraw::Rect(MRect { c: [0; 4], unit: 0, convert: 0, thickness: 0, fill: 'N' });
                    same("rectangle", &want, &MDraw::from_lib(&y::Draw::Rectangle(q.clone())))?;
                    mix!(src, q, p, x1, y1, x2, y2, unit, convert, thickness, fill);
                    y::Draw::Rectangle(q)
                }
                ref d => d.clone(),
            };
            x.draw.push(d)
        }
        n += x.draw.len();
        v.symbols.push(x)
    }
    let want = MSymLib::from_lib(&v);
    let t = no_panic("write", || v.to_string())?;
    cx.case(&t);
    cx.nontrivial(n >= 2);
    same("library reread", &want, &MSymLib::from_lib(&parse_symlib(&t)?))
}

fn small(src: &mut Src) -> Result<(), Fail> {
    let (a, b) = (gen::num(src), gen::num(src));
    let c = gen::num(src);
    same("at", &MAt { x: a, y: b, rot: c }, &MAt::from_lib(&f::At::new(a, b, c)))?;
    for (t, n) in [
        (f::XyType::Xy, "xy"),
        (f::XyType::Start, "start"),
        (f::XyType::End, "end"),
        (f::XyType::Size, "size"),
        (f::XyType::Center, "center"),
        (f::XyType::RectDelta, "rect_delta"),
    ]
    .iter()
    {
        same("xy", &MXy { t: n, x: a, y: b }, &MXy::from_lib(&f::Xy::new(a, b, t.clone())))?;
        same("empty xy", &MXy::zero(n), &MXy::from_lib(&f::Xy::new_empty(t.clone())))?;
    }
    let m = MEffects::gen(src);
    let e = m.to_lib();
    same("effects", &m, &MEffects::from_lib(&f::Effects::from_font(e.font.clone(), e.justify.clone())))?;
    let m = MLayer::gen(src);
    match f::Layer::from_string(&m.name()) {
        Ok(x) => same("layer", &m, &MLayer::from_lib(&x))?,
        Err(e) => return fail("made:layer", format!("{}: {}", m.name(), e)),
    }
    let w = gen::text(src);
    let known = ["smd", "thru_hole", "np_thru_hole"].contains(&w.as_str());
    ensure!(f::PadType::from_string(&w).is_ok() == known, "made:type", "{:?} taken for a pad type: {}", w, !known);
    let known = ["rect", "circle", "oval", "trapezoid"].contains(&w.as_str());
    ensure!(f::PadShape::from_string(&w).is_ok() == known, "made:shape", "{:?} taken for a pad shape: {}", w, !known);
    for c in w.chars().chain("HVCLRBT".chars()) {
        let o = s::Orientation::new(c).ok().map(|o| o.to_string());
        let want = if c == 'H' || c == 'V' { Some(c.to_string()) } else { None };
        same("orientation", &want, &o)?;
        let j = s::Justify::new(c).ok().map(|j| just_from(&j));
        same("justify", &if "CLRBT".contains(c) { Some(c) } else { None }, &j)?;
    }
    let (p, q) = (gen::num(src), gen::num(src));
    let bx = |b: &Bound| [b.x1, b.y1, b.x2, b.y2];
    same("bound", &[a, b, p, q], &bx(&Bound::new(a, b, p, q)))?;
    let i: Vec<i64> = (0..4).map(|_| src.range(-1_000_000, 1_000_000)).collect();
    same("bound", &[i[0] as f64, i[1] as f64, i[2] as f64, i[3] as f64], &bx(&Bound::new_from_i64(i[0], i[1], i[2], i[3])))
}

pub fn c36(src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match src.choice(9) {
        0 | 1 => {
            cx.tag("footprint");
            let m = module(src, cx)?;
            let want = MModule::from_lib(&m);
            cx.nontrivial(want.els.len() >= 2);
            same("module reread", &want, &MModule::from_lib(&parse_module(&write_module(&m, 0)?)?))
        }
        2 | 3 => {
            cx.tag("layout");
            layout(src, cx)
        }
        4 | 5 => {
            cx.tag("schematic");
            sheet(src, cx)
        }
        6 | 7 => {
            cx.tag("library");
            symbols(src, cx)
        }
        _ => {
            cx.tag("value");
            small(src)
        }
    }
}
