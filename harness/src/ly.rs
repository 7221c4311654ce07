//! Board layout model.
use crate::engine::Src;
use crate::fp::*;
use crate::gen::{self, Mode};
use crate::sx::{self, l, lf, li, ls, s, N};
use kicad_parse_gen::footprint as f;
use kicad_parse_gen::layout as k;
use kicad_parse_gen::Sexp;

pub fn to_sexp(n: &N) -> Sexp {
    match *n {
        N::L(ref v) => Sexp::List(v.iter().map(to_sexp).collect()),
        N::S(ref s) => Sexp::String(s.clone()),
        ref a => Sexp::String(sx::atom_canon(a)),
    }
}

pub fn from_sexp(x: &Sexp) -> N {
    match *x {
        Sexp::String(ref s) => N::S(s.clone()),
        Sexp::List(ref v) => N::L(v.iter().map(from_sexp).collect()),
        Sexp::Empty => N::L(vec![]),
    }
}

/// names a layout gives a meaning to, at the top
pub const SECTIONS: &[&str] = &["version", "host", "general", "page", "layers", "setup"];
pub const ELEMENTS: &[&str] = &[
    "module", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "zone", "segment", "via",
];

fn foreign_name(src: &mut Src) -> String {
    match src.choice(3) {
        0 => src.pick(&["target", "title_block", "gr_curve", "gr_poly", "foo", "arc", "group", "embedded_fonts"]).to_string(),
        1 => {
            // close to names that mean something
            let b = *src.pick(&["module", "net", "zone", "segment", "via", "gr_line", "layers", "page", "setup"]);
            match src.choice(4) {
                0 => format!("{}s", b),
                1 => b.to_uppercase(),
                2 => format!("{}_", b),
                _ => format!("x{}", b),
            }
        }
        _ => gen::text1(src),
    }
}

fn foreign_item(src: &mut Src, depth: u32) -> N {
    if depth > 0 && src.chance(1, 3) {
        let n = if src.bool() {
            src.pick(&["pts", "xy", "at", "module", "segment", "net", "layer", "polygon", "kicad_pcb", "effects"]).to_string()
        } else {
            gen::text1(src)
        };
        let v = src.list(4, 2, |s| foreign_item(s, depth - 1));
        l(&n, v)
    } else {
        N::S(gen::text(src))
    }
}

/// list with a name the format does not know
pub fn foreign(src: &mut Src, known: &[&str]) -> N {
    let mut n = foreign_name(src);
    if known.contains(&n.as_str()) {
        n.push_str("_x")
    }
    let v = src.list(5, 2, |s| foreign_item(s, 3));
    l(&n, v)
}

#[derive(Clone, PartialEq, Debug)]
pub struct MGrText {
    pub value: String,
    pub at: MAt,
    pub layer: MLayer,
    pub effects: MEffects,
    pub tstamp: Option<String>,
}

fn stamp_text(src: &mut Src) -> String {
    if src.chance(4, 5) { format!("{:X}", gen::stamp(src)) } else { gen::text(src) }
}

impl MGrText {
    pub fn gen(src: &mut Src) -> MGrText {
        MGrText {
            value: gen::text(src),
            at: MAt::gen(src),
            layer: MLayer::gen(src),
            effects: MEffects::gen(src),
            tstamp: src.opt(1, 2, stamp_text),
        }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![s(&self.value), self.at.tree(m), self.layer.tree()];
        let late = m.pick(4) == 3;
        if let (false, &Some(ref t)) = (late, &self.tstamp) {
            v.push(ls("tstamp", t))
        }
        v.push(self.effects.tree(m));
        if let (true, &Some(ref t)) = (late, &self.tstamp) {
            v.push(ls("tstamp", t))
        }
        l("gr_text", v)
    }
    fn from_lib(x: &k::GrText) -> MGrText {
        MGrText {
            value: x.value.clone(),
            at: MAt::from_lib(&x.at),
            layer: MLayer::from_lib(&x.layer),
            effects: MEffects::from_lib(&x.effects),
            tstamp: x.tstamp.clone(),
        }
    }
    fn to_lib(&self) -> k::GrText {
        k::GrText {
            value: self.value.clone(),
            at: self.at.to_lib(),
            layer: self.layer.to_lib(),
            effects: self.effects.to_lib(),
            tstamp: self.tstamp.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MNetClass {
    pub name: String,
    pub desc: String,
    /// clearance trace_width via_dia via_drill uvia_dia uvia_drill
    pub v: [f64; 6],
    pub gap: Option<f64>,
    pub width: Option<f64>,
    pub nets: Vec<String>,
}

pub const NC_NAMES: [&str; 6] = ["clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill"];
pub const NC_DEFAULT: [f64; 6] = [0.1524, 0.2032, 0.675, 0.25, 0.508, 0.127];

#[derive(Clone, PartialEq, Debug)]
pub struct MZone {
    pub net: i64,
    pub net_name: String,
    pub layer: MLayer,
    pub tstamp: String,
    pub hatch: String,
    pub pitch: f64,
    pub priority: u64,
    pub connection: Option<String>,
    pub clearance: f64,
    pub min_thickness: f64,
    /// tracks, vias, copperpour
    pub keepout: Option<[bool; 3]>,
    pub filled: bool,
    pub segment: bool,
    pub arc_segments: i64,
    pub thermal_gap: f64,
    pub thermal_bridge_width: f64,
    pub smoothing: Option<String>,
    pub radius: f64,
    pub polygons: Vec<MPts>,
    pub filled_polygons: Vec<MPts>,
    pub fill_segments: Option<MPts>,
    pub other: Vec<N>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MDim {
    pub name: String,
    pub width: f64,
    pub layer: MLayer,
    pub tstamp: Option<String>,
    pub text: MGrText,
    /// feature1 feature2 crossbar arrow1a arrow1b arrow2a arrow2b
    pub p: [MPts; 7],
}

pub const DIM_NAMES: [&str; 7] = ["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"];

#[derive(Clone, PartialEq, Debug)]
pub enum LE {
    Module(MModule),
    Net(MNet),
    NetClass(MNetClass),
    Text(MGrText),
    Line { start: MXy, end: MXy, angle: f64, layer: MLayer, width: f64, tstamp: Option<String> },
    Arc { start: MXy, end: MXy, angle: f64, layer: MLayer, width: f64, tstamp: Option<String> },
    Circle { center: MXy, end: MXy, layer: MLayer, width: f64, tstamp: Option<String> },
    Dim(MDim),
    Segment { start: MXy, end: MXy, width: f64, layer: MLayer, net: i64, tstamp: Option<String>, status: Option<String> },
    Via { blind: bool, micro: bool, at: MAt, size: f64, drill: f64, layers: Vec<MLayer>, net: i64 },
    Zone(MZone),
    Other(N),
}

#[derive(Clone, PartialEq, Debug)]
pub struct MSetup {
    pub name: String,
    pub v1: String,
    pub v2: Option<String>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MLayerDef {
    pub num: i64,
    pub layer: MLayer,
    pub t: &'static str,
    pub hide: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MLayout {
    pub version: i64,
    pub tool: String,
    pub build: String,
    /// links no_connects drawings tracks zones modules nets
    pub counts: [i64; 7],
    pub area: [f64; 4],
    pub thickness: f64,
    pub page: String,
    pub setup: Vec<MSetup>,
    pub plot: Vec<MSetup>,
    pub layers: Vec<MLayerDef>,
    pub els: Vec<LE>,
}

impl MNetClass {
    pub fn gen(src: &mut Src) -> MNetClass {
        let mut v = NC_DEFAULT;
        for x in v.iter_mut() {
            if src.bool() {
                *x = gen::unum(src)
            }
        }
        MNetClass {
            name: if src.bool() { "Default".into() } else { gen::text(src) },
            desc: gen::text(src),
            v,
            gap: src.opt(1, 3, gen::unum),
            width: src.opt(1, 3, gen::unum),
            nets: src.list(8, 3, gen::netname),
        }
    }
    fn tree(&self, m: &mut Mode) -> N {
        let mut p = vec![];
        for i in 0..6 {
            if m.keep(self.v[i] == NC_DEFAULT[i], true) {
                p.push(lf(NC_NAMES[i], &[self.v[i]]))
            }
        }
        if let Some(x) = self.gap {
            p.push(lf("diff_pair_gap", &[x]))
        }
        if let Some(x) = self.width {
            p.push(lf("diff_pair_width", &[x]))
        }
        m.shuffle(&mut p);
        // the nets keep their order, but can stand between the other fields
        let mut nets: Vec<N> = self.nets.iter().map(|n| ls("add_net", n)).collect();
        if m.pick(4) == 3 {
            nets.reverse();
            p.reverse();
            let mut r = vec![];
            while !nets.is_empty() || !p.is_empty() {
                let from_nets = p.is_empty() || (!nets.is_empty() && m.pick(2) == 1);
                r.extend(if from_nets { nets.pop() } else { p.pop() });
            }
            p = r;
        } else {
            p.append(&mut nets);
        }
        let mut v = vec![s(&self.name), s(&self.desc)];
        v.extend(p);
        l("net_class", v)
    }
    pub fn from_lib(x: &k::NetClass) -> MNetClass {
        MNetClass {
            name: x.name.clone(),
            desc: x.desc.clone(),
            v: [x.clearance, x.trace_width, x.via_dia, x.via_drill, x.uvia_dia, x.uvia_drill],
            gap: x.diff_pair_gap,
            width: x.diff_pair_width,
            nets: x.nets.iter().map(|x| x.0.clone()).collect(),
        }
    }
    pub fn to_lib(&self) -> k::NetClass {
        k::NetClass {
            name: self.name.clone(),
            desc: self.desc.clone(),
            clearance: self.v[0],
            trace_width: self.v[1],
            via_dia: self.v[2],
            via_drill: self.v[3],
            uvia_dia: self.v[4],
            uvia_drill: self.v[5],
            diff_pair_gap: self.gap,
            diff_pair_width: self.width,
            nets: self.nets.iter().map(|x| x.as_str().into()).collect(),
        }
    }
}

fn allowed(b: bool) -> &'static str {
    if b { "allowed" } else { "not_allowed" }
}

impl MZone {
    pub fn gen(src: &mut Src) -> MZone {
        MZone {
            net: gen::int(src),
            net_name: gen::netname(src),
            layer: MLayer::gen(src),
            tstamp: stamp_text(src),
            hatch: if src.bool() { src.pick(&["edge", "none", "full"]).to_string() } else { gen::text(src) },
            pitch: gen::num(src),
            priority: if src.bool() { 0 } else { gen::uint(src) as u64 },
            connection: src.opt(1, 3, |s| if s.bool() { s.pick(&["no", "yes", "thru_hole_only"]).to_string() } else { gen::text(s) }),
            clearance: gen::num(src),
            min_thickness: gen::num(src),
            keepout: src.opt(1, 3, |s| [s.bool(), s.bool(), s.bool()]),
            filled: src.bool(),
            segment: src.chance(1, 3),
            arc_segments: gen::int(src),
            thermal_gap: gen::num(src),
            thermal_bridge_width: gen::num(src),
            smoothing: src.opt(1, 3, |s| if s.bool() { s.pick(&["chamfer", "fillet", "none"]).to_string() } else { gen::text(s) }),
            radius: if src.bool() { 0.0 } else { gen::num(src) },
            polygons: src.list(4, 2, pts_gen),
            filled_polygons: src.list(4, 1, pts_gen),
            fill_segments: src.opt(1, 3, pts_gen),
            other: if src.chance(1, 4) {
                src.list_min(1, 3, 1, |s| {
                    if s.chance(1, 6) { N::S(gen::text(s)) } else { foreign(s, &["polygon", "filled_polygon", "fill_segments"]) }
                })
            } else {
                vec![]
            },
        }
    }
    fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![
            li("net", self.net),
            ls("net_name", &self.net_name),
            self.layer.tree(),
            ls("tstamp", &self.tstamp),
            l("hatch", vec![s(&self.hatch), N::F(self.pitch)]),
        ];
        if m.keep(self.priority == 0, false) {
            v.push(li("priority", self.priority as i64))
        }
        let mut c = vec![];
        if let Some(ref x) = self.connection {
            c.push(s(x))
        }
        c.push(lf("clearance", &[self.clearance]));
        v.push(l("connect_pads", c));
        v.push(lf("min_thickness", &[self.min_thickness]));
        if let Some(k) = self.keepout {
            v.push(l(
                "keepout",
                vec![ls("tracks", allowed(k[0])), ls("vias", allowed(k[1])), ls("copperpour", allowed(k[2]))],
            ))
        }
        let mut f = vec![];
        if self.filled {
            f.push(s("yes"))
        }
        if m.keep(!self.segment, false) {
            f.push(ls("mode", if self.segment { "segment" } else { "polygon" }))
        }
        f.push(li("arc_segments", self.arc_segments));
        f.push(lf("thermal_gap", &[self.thermal_gap]));
        f.push(lf("thermal_bridge_width", &[self.thermal_bridge_width]));
        if let Some(ref x) = self.smoothing {
            f.push(ls("smoothing", x))
        }
        if m.keep(self.radius == 0.0, false) {
            f.push(lf("radius", &[self.radius]))
        }
        v.push(l("fill", f));
        // four kinds of parts; each kind keeps its order, kinds mix freely
        let mut q: Vec<Vec<N>> = vec![
            self.polygons.iter().map(|p| l("polygon", vec![pts_tree(p)])).collect(),
            self.filled_polygons.iter().map(|p| l("filled_polygon", vec![pts_tree(p)])).collect(),
            self.fill_segments.iter().map(|p| l("fill_segments", vec![pts_tree(p)])).collect(),
            self.other.clone(),
        ];
        for x in q.iter_mut() {
            x.reverse()
        }
        let mix = m.pick(3) == 2;
        loop {
            let left: Vec<usize> = (0..4).filter(|i| !q[*i].is_empty()).collect();
            if left.is_empty() {
                break;
            }
            let i = if mix { left[m.pick(left.len() as u64) as usize] } else { left[0] };
            v.push(q[i].pop().unwrap());
        }
        l("zone", v)
    }
    pub fn from_lib(x: &k::Zone) -> MZone {
        MZone {
            net: x.net,
            net_name: x.net_name.0.clone(),
            layer: MLayer::from_lib(&x.layer),
            tstamp: x.tstamp.clone(),
            hatch: x.hatch.style.clone(),
            pitch: x.hatch.pitch,
            priority: x.priority,
            connection: x.connect_pads.connection.clone(),
            clearance: x.connect_pads.clearance,
            min_thickness: x.min_thickness,
            keepout: x.keepout.as_ref().map(|k| [k.tracks, k.vias, k.copperpour]),
            filled: x.fill.filled,
            segment: x.fill.segment,
            arc_segments: x.fill.arc_segments,
            thermal_gap: x.fill.thermal_gap,
            thermal_bridge_width: x.fill.thermal_bridge_width,
            smoothing: x.fill.smoothing.clone(),
            radius: x.fill.corner_radius,
            polygons: x.polygons.iter().map(pts_from).collect(),
            filled_polygons: x.filled_polygons.iter().map(pts_from).collect(),
            fill_segments: x.fill_segments.as_ref().map(pts_from),
            other: x.other.iter().map(from_sexp).collect(),
        }
    }
    pub fn to_lib(&self) -> k::Zone {
        k::Zone {
            net: self.net,
            net_name: self.net_name.as_str().into(),
            layer: self.layer.to_lib(),
            tstamp: self.tstamp.clone(),
            hatch: k::Hatch { style: self.hatch.clone(), pitch: self.pitch },
            priority: self.priority,
            connect_pads: k::ConnectPads { connection: self.connection.clone(), clearance: self.clearance },
            min_thickness: self.min_thickness,
            keepout: self.keepout.map(|k| k::Keepout { tracks: k[0], vias: k[1], copperpour: k[2] }),
            fill: k::Fill {
                filled: self.filled,
                segment: self.segment,
                arc_segments: self.arc_segments,
                thermal_gap: self.thermal_gap,
                thermal_bridge_width: self.thermal_bridge_width,
                smoothing: self.smoothing.clone(),
                corner_radius: self.radius,
            },
            polygons: self.polygons.iter().map(pts_to).collect(),
            filled_polygons: self.filled_polygons.iter().map(pts_to).collect(),
            fill_segments: self.fill_segments.as_ref().map(pts_to),
            other: self.other.iter().map(to_sexp).collect(),
        }
    }
}

impl MDim {
    pub fn gen(src: &mut Src) -> MDim {
        fn p(src: &mut Src) -> MPts {
            src.list(6, 3, |s| MXy::gen(s, "xy"))
        }
        MDim {
            name: gen::text(src),
            width: gen::num(src),
            layer: MLayer::gen(src),
            tstamp: src.opt(1, 2, stamp_text),
            text: MGrText::gen(src),
            p: [p(src), p(src), p(src), p(src), p(src), p(src), p(src)],
        }
    }
    fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![s(&self.name), lf("width", &[self.width]), self.layer.tree()];
        if let Some(ref t) = self.tstamp {
            v.push(ls("tstamp", t))
        }
        v.push(self.text.tree(m));
        for i in 0..7 {
            v.push(l(DIM_NAMES[i], vec![pts_tree(&self.p[i])]))
        }
        l("dimension", v)
    }
    pub fn from_lib(x: &k::Dimension) -> MDim {
        MDim {
            name: x.name.clone(),
            width: x.width,
            layer: MLayer::from_lib(&x.layer),
            tstamp: x.tstamp.clone(),
            text: MGrText::from_lib(&x.text),
            p: [
                pts_from(&x.feature1),
                pts_from(&x.feature2),
                pts_from(&x.crossbar),
                pts_from(&x.arrow1a),
                pts_from(&x.arrow1b),
                pts_from(&x.arrow2a),
                pts_from(&x.arrow2b),
            ],
        }
    }
    pub fn to_lib(&self) -> k::Dimension {
        k::Dimension {
            name: self.name.clone(),
            width: self.width,
            layer: self.layer.to_lib(),
            tstamp: self.tstamp.clone(),
            text: self.text.to_lib(),
            feature1: pts_to(&self.p[0]),
            feature2: pts_to(&self.p[1]),
            crossbar: pts_to(&self.p[2]),
            arrow1a: pts_to(&self.p[3]),
            arrow1b: pts_to(&self.p[4]),
            arrow2a: pts_to(&self.p[5]),
            arrow2b: pts_to(&self.p[6]),
        }
    }
}

impl LE {
    pub fn gen(src: &mut Src) -> LE {
        match src.choice(18) {
            0 | 1 => LE::Net(MNet { num: gen::int(src), name: gen::netname(src) }),
            2 => LE::NetClass(MNetClass::gen(src)),
            3 => LE::Text(MGrText::gen(src)),
            4 | 5 => LE::Line {
                start: MXy::gen(src, "start"),
                end: MXy::gen(src, "end"),
                angle: gen::rot(src),
                layer: MLayer::gen(src),
                width: gen::num(src),
                tstamp: src.opt(1, 2, stamp_text),
            },
            6 => LE::Arc {
                start: MXy::gen(src, "start"),
                end: MXy::gen(src, "end"),
                angle: gen::rot(src),
                layer: MLayer::gen(src),
                width: gen::num(src),
                tstamp: src.opt(1, 2, stamp_text),
            },
            7 => LE::Circle {
                center: MXy::gen(src, "center"),
                end: MXy::gen(src, "end"),
                layer: MLayer::gen(src),
                width: gen::num(src),
                tstamp: src.opt(1, 2, stamp_text),
            },
            8 => LE::Dim(MDim::gen(src)),
            9 | 10 => LE::Segment {
                start: MXy::gen(src, "start"),
                end: MXy::gen(src, "end"),
                width: gen::num(src),
                layer: MLayer::gen(src),
                net: gen::int(src),
                tstamp: src.opt(1, 2, stamp_text),
                status: src.opt(1, 3, gen::text),
            },
            11 | 12 => LE::Via {
                blind: src.chance(1, 3),
                micro: src.chance(1, 3),
                at: MAt::gen(src),
                size: gen::unum(src),
                drill: if src.bool() { 0.0 } else { gen::num(src) },
                layers: src.list(4, 2, MLayer::gen),
                net: if src.chance(1, 3) { 0 } else { gen::int(src) },
            },
            13 | 14 => LE::Zone(MZone::gen(src)),
            15 => {
                let mut known: Vec<&str> = SECTIONS.to_vec();
                known.extend(ELEMENTS);
                LE::Other(foreign(src, &known))
            }
            _ => LE::Module(MModule::gen_sized(src, 6, 3)),
        }
    }

    pub fn tree(&self, m: &mut Mode) -> N {
        fn ts(v: &mut Vec<N>, name: &str, t: &Option<String>) {
            if let Some(ref t) = *t {
                v.push(ls(name, t))
            }
        }
        match *self {
            LE::Module(ref x) => x.tree(m),
            LE::Net(ref x) => l("net", vec![N::I(x.num), s(&x.name)]),
            LE::NetClass(ref x) => x.tree(m),
            LE::Text(ref x) => x.tree(m),
            LE::Line { ref start, ref end, angle, ref layer, width, ref tstamp } => {
                let mut v = vec![start.tree(), end.tree()];
                if m.keep(angle == 0.0, true) {
                    v.push(lf("angle", &[angle]))
                }
                v.push(layer.tree());
                if m.keep(width == 0.0, true) {
                    v.push(lf("width", &[width]))
                }
                ts(&mut v, "tstamp", tstamp);
                l("gr_line", v)
            }
            LE::Arc { ref start, ref end, angle, ref layer, width, ref tstamp } => {
                let mut v = vec![start.tree(), end.tree(), lf("angle", &[angle]), layer.tree()];
                if m.keep(width == 0.0, true) {
                    v.push(lf("width", &[width]))
                }
                ts(&mut v, "tstamp", tstamp);
                l("gr_arc", v)
            }
            LE::Circle { ref center, ref end, ref layer, width, ref tstamp } => {
                let mut v = vec![center.tree(), end.tree(), layer.tree()];
                if m.keep(width == 0.0, true) {
                    v.push(lf("width", &[width]))
                }
                ts(&mut v, "tstamp", tstamp);
                l("gr_circle", v)
            }
            LE::Dim(ref x) => x.tree(m),
            LE::Segment { ref start, ref end, width, ref layer, net, ref tstamp, ref status } => {
                let mut v = vec![start.tree(), end.tree(), lf("width", &[width]), layer.tree(), li("net", net)];
                ts(&mut v, "tstamp", tstamp);
                ts(&mut v, "status", status);
                l("segment", v)
            }
            LE::Via { blind, micro, ref at, size, drill, ref layers, net } => {
                let mut v = vec![];
                if blind {
                    v.push(s("blind"))
                }
                if micro {
                    v.push(s("micro"))
                }
                v.push(at.tree(m));
                v.push(lf("size", &[size]));
                if m.keep(drill == 0.0, false) {
                    v.push(lf("drill", &[drill]))
                }
                v.push(l("layers", layers.iter().map(|x| s(&x.name())).collect()));
                if m.keep(net == 0, true) {
                    v.push(li("net", net))
                }
                l("via", v)
            }
            LE::Zone(ref x) => x.tree(m),
            LE::Other(ref n) => n.clone(),
        }
    }

    pub fn from_lib(e: &k::Element) -> LE {
        match *e {
            k::Element::Module(ref x) => LE::Module(MModule::from_lib(x)),
            k::Element::Net(ref x) => LE::Net(MNet { num: x.num, name: x.name.0.clone() }),
            k::Element::NetClass(ref x) => LE::NetClass(MNetClass::from_lib(x)),
            k::Element::GrText(ref x) => LE::Text(MGrText::from_lib(x)),
            k::Element::GrLine(ref x) => LE::Line {
                start: MXy::from_lib(&x.start),
                end: MXy::from_lib(&x.end),
                angle: x.angle,
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
                tstamp: x.tstamp.clone(),
            },
            k::Element::GrArc(ref x) => LE::Arc {
                start: MXy::from_lib(&x.start),
                end: MXy::from_lib(&x.end),
                angle: x.angle,
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
                tstamp: x.tstamp.clone(),
            },
            k::Element::GrCircle(ref x) => LE::Circle {
                center: MXy::from_lib(&x.center),
                end: MXy::from_lib(&x.end),
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
                tstamp: x.tstamp.clone(),
            },
            k::Element::Dimension(ref x) => LE::Dim(MDim::from_lib(x)),
            k::Element::Segment(ref x) => LE::Segment {
                start: MXy::from_lib(&x.start),
                end: MXy::from_lib(&x.end),
                width: x.width,
                layer: MLayer::from_lib(&x.layer),
                net: x.net,
                tstamp: x.tstamp.clone(),
                status: x.status.clone(),
            },
            k::Element::Via(ref x) => LE::Via {
                blind: x.blind,
                micro: x.micro,
                at: MAt::from_lib(&x.at),
                size: x.size,
                drill: x.drill,
                layers: x.layers.layers.iter().map(MLayer::from_lib).collect(),
                net: x.net,
            },
            k::Element::Zone(ref x) => LE::Zone(MZone::from_lib(x)),
            k::Element::Other(ref x) => LE::Other(from_sexp(x)),
        }
    }

    pub fn to_lib(&self) -> k::Element {
        match *self {
            LE::Module(ref x) => k::Element::Module(x.to_lib()),
            LE::Net(ref x) => k::Element::Net(k::Net { num: x.num, name: x.name.as_str().into() }),
            LE::NetClass(ref x) => k::Element::NetClass(x.to_lib()),
            LE::Text(ref x) => k::Element::GrText(x.to_lib()),
            LE::Line { ref start, ref end, angle, ref layer, width, ref tstamp } => k::Element::GrLine(k::GrLine {
                start: start.to_lib(),
                end: end.to_lib(),
                angle,
                layer: layer.to_lib(),
                width,
                tstamp: tstamp.clone(),
            }),
            LE::Arc { ref start, ref end, angle, ref layer, width, ref tstamp } => k::Element::GrArc(k::GrArc {
                start: start.to_lib(),
                end: end.to_lib(),
                angle,
                layer: layer.to_lib(),
                width,
                tstamp: tstamp.clone(),
            }),
            LE::Circle { ref center, ref end, ref layer, width, ref tstamp } => k::Element::GrCircle(k::GrCircle {
                center: center.to_lib(),
                end: end.to_lib(),
                layer: layer.to_lib(),
                width,
                tstamp: tstamp.clone(),
            }),
            LE::Dim(ref x) => k::Element::Dimension(x.to_lib()),
            LE::Segment { ref start, ref end, width, ref layer, net, ref tstamp, ref status } => {
                k::Element::Segment(k::Segment {
                    start: start.to_lib(),
                    end: end.to_lib(),
                    width,
                    layer: layer.to_lib(),
                    net,
                    tstamp: tstamp.clone(),
                    status: status.clone(),
                })
            }
            LE::Via { blind, micro, ref at, size, drill, ref layers, net } => k::Element::Via(k::Via {
                blind,
                micro,
                at: at.to_lib(),
                size,
                drill,
                layers: f::Layers { layers: layers.iter().map(|x| x.to_lib()).collect() },
                net,
            }),
            LE::Zone(ref x) => k::Element::Zone(x.to_lib()),
            LE::Other(ref n) => k::Element::Other(to_sexp(n)),
        }
    }
}

fn setup_gen(src: &mut Src) -> MSetup {
    let mut name = if src.bool() {
        src.pick(&["last_trace_width", "trace_clearance", "via_size", "user_trace_width", "layerselection", "pad_size", "mode"]).to_string()
    } else {
        gen::text1(src)
    };
    if name == "pcbplotparams" {
        name.push('x')
    }
    MSetup { name, v1: gen::text(src), v2: src.opt(1, 3, gen::text) }
}

fn setup_tree(x: &MSetup) -> N {
    let mut v = vec![s(&x.v1)];
    if let Some(ref y) = x.v2 {
        v.push(s(y))
    }
    l(&x.name, v)
}

impl MLayout {
    pub fn gen(src: &mut Src) -> MLayout {
        let (max, cont) = gen::big(src);
        MLayout::gen_with(src, max.min(60), cont, LE::gen)
    }
    pub fn gen_with(src: &mut Src, max: usize, cont: u64, f: fn(&mut Src) -> LE) -> MLayout {
        let plain = src.chance(1, 2);
        let mut m = MLayout {
            version: 4,
            tool: "pcbnew".into(),
            build: "custom".into(),
            counts: [0; 7],
            area: [0.0; 4],
            thickness: 1.6,
            page: "A4".into(),
            setup: vec![],
            plot: vec![],
            layers: vec![],
            els: vec![],
        };
        if !plain {
            if src.bool() {
                m.version = gen::int(src);
            }
            if src.bool() {
                m.tool = gen::text(src);
                m.build = gen::text(src);
            }
            if src.bool() {
                for x in m.counts.iter_mut() {
                    *x = gen::int(src)
                }
                for x in m.area.iter_mut() {
                    *x = gen::num(src)
                }
                m.thickness = gen::num(src);
            }
            if src.bool() {
                m.page = gen::text(src);
            }
            m.setup = src.list(6, 3, setup_gen);
            m.plot = src.list(6, 2, setup_gen);
            m.layers = src.list(6, 3, |s| MLayerDef {
                num: gen::int(s),
                layer: MLayer::gen(s),
                t: *s.pick(&["signal", "power", "mixed", "jumper", "user"]),
                hide: s.chance(1, 3),
            });
        }
        m.els = src.list(max, cont, f);
        m
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut sec = vec![];
        if m.keep(self.version == 4, true) {
            sec.push(li("version", self.version))
        }
        if m.keep(self.tool == "pcbnew" && self.build == "custom", true) {
            sec.push(l("host", vec![s(&self.tool), s(&self.build)]))
        }
        if m.keep(self.counts == [0; 7] && self.area == [0.0; 4] && self.thickness == 1.6, true) {
            let c = &self.counts;
            sec.push(l(
                "general",
                vec![
                    li("links", c[0]),
                    li("no_connects", c[1]),
                    lf("area", &self.area),
                    lf("thickness", &[self.thickness]),
                    li("drawings", c[2]),
                    li("tracks", c[3]),
                    li("zones", c[4]),
                    li("modules", c[5]),
                    li("nets", c[6]),
                ],
            ))
        }
        if m.keep(self.page == "A4", true) {
            sec.push(ls("page", &self.page))
        }
        if m.keep(self.layers.is_empty(), true) {
            sec.push(l(
                "layers",
                self.layers
                    .iter()
                    .map(|x| {
                        let mut v = vec![N::I(x.num), s(&x.layer.name()), s(x.t)];
                        if x.hide {
                            v.push(s("hide"))
                        }
                        N::L(v)
                    })
                    .collect(),
            ))
        }
        if m.keep(self.setup.is_empty() && self.plot.is_empty(), true) {
            let mut v: Vec<N> = self.setup.iter().map(setup_tree).collect();
            if m.keep(self.plot.is_empty(), true) {
                let p = l("pcbplotparams", self.plot.iter().map(setup_tree).collect());
                let at = v.len() - m.pick(v.len() as u64 + 1) as usize;
                v.insert(at, p);
            }
            sec.push(l("setup", v))
        }
        m.shuffle(&mut sec);
        let mut v: Vec<N> = self.els.iter().map(|e| e.tree(m)).collect();
        if m.pick(4) == 3 {
            // sections anywhere
            for x in sec {
                let at = m.pick(v.len() as u64 + 1) as usize;
                v.insert(at, x);
            }
        } else {
            sec.append(&mut v);
            v = sec;
        }
        l("kicad_pcb", v)
    }
    pub fn canon(&self) -> N {
        self.tree(&mut Mode::Canon)
    }
    pub fn doc(&self, src: &mut Src) -> String {
        let t = self.tree(&mut Mode::Doc(src));
        sx::render_var(&t, src)
    }
    pub fn from_lib(x: &k::Layout) -> MLayout {
        let se = |v: &Vec<k::SetupElement>| {
            v.iter()
                .map(|e| MSetup { name: e.name.clone(), v1: e.value1.clone(), v2: e.value2.clone() })
                .collect::<Vec<_>>()
        };
        let g = &x.general;
        MLayout {
            version: x.version,
            tool: x.host.tool.clone(),
            build: x.host.build.clone(),
            counts: [g.links, g.no_connects, g.drawings, g.tracks, g.zones, g.modules, g.nets],
            area: [g.area.x1, g.area.y1, g.area.x2, g.area.y2],
            thickness: g.thickness,
            page: x.page.clone(),
            setup: se(&x.setup.elements),
            plot: se(&x.setup.pcbplotparams),
            layers: x
                .layers
                .iter()
                .map(|d| MLayerDef {
                    num: d.num,
                    layer: MLayer::from_lib(&d.layer),
                    t: match d.layer_type {
                        k::LayerType::Signal => "signal",
                        k::LayerType::Power => "power",
                        k::LayerType::Mixed => "mixed",
                        k::LayerType::Jumper => "jumper",
                        k::LayerType::User => "user",
                    },
                    hide: d.hide,
                })
                .collect(),
            els: x.elements.iter().map(LE::from_lib).collect(),
        }
    }
    pub fn to_lib(&self) -> k::Layout {
        let se = |v: &Vec<MSetup>| {
            v.iter()
                .map(|e| k::SetupElement { name: e.name.clone(), value1: e.v1.clone(), value2: e.v2.clone() })
                .collect::<Vec<_>>()
        };
        let c = &self.counts;
        let mut x = k::Layout::default();
        x.version = self.version;
        x.host = k::Host { tool: self.tool.clone(), build: self.build.clone() };
        x.general = k::General {
            links: c[0],
            no_connects: c[1],
            area: k::Area { x1: self.area[0], y1: self.area[1], x2: self.area[2], y2: self.area[3] },
            thickness: self.thickness,
            drawings: c[2],
            tracks: c[3],
            zones: c[4],
            modules: c[5],
            nets: c[6],
        };
        x.page = self.page.clone();
        x.setup = k::Setup { elements: se(&self.setup), pcbplotparams: se(&self.plot) };
        x.layers = self
            .layers
            .iter()
            .map(|d| k::Layer {
                num: d.num,
                layer: d.layer.to_lib(),
                layer_type: match d.t {
                    "signal" => k::LayerType::Signal,
                    "power" => k::LayerType::Power,
                    "mixed" => k::LayerType::Mixed,
                    "jumper" => k::LayerType::Jumper,
                    _ => k::LayerType::User,
                },
                hide: d.hide,
            })
            .collect();
        x.elements = self.els.iter().map(|e| e.to_lib()).collect();
        x
    }
    pub fn kinds(&self) -> usize {
        self.els.iter().map(std::mem::discriminant).collect::<std::collections::HashSet<_>>().len()
    }
}
