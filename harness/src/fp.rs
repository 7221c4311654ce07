//! Footprint model: what a footprint document says, independent of the library's own types.
use crate::dict;
use crate::engine::Src;
use crate::gen::{self, Mode};
use crate::sx::{self, l, lf, li, ls, s, N};
use kicad_parse_gen::footprint as k;

#[derive(Clone, PartialEq, Debug)]
pub struct MLayer {
    pub side: &'static str,
    pub t: String,
    pub other: bool,
}

pub const SIDES: &[&str] = &["F", "B", "*", "Dwgs", "Cmts", "Eco1", "Eco2", "Edge", "In1", "In2"];
pub const TYPES: &[&str] = &["Cu", "Paste", "Mask", "SilkS", "User", "Adhes", "Cuts", "CrtYd", "Fab", "Margin"];

impl MLayer {
    pub fn new(side: &'static str, t: &str) -> MLayer {
        MLayer { side, t: t.into(), other: !TYPES.contains(&t) }
    }
    pub fn name(&self) -> String {
        if self.side.is_empty() {
            self.t.clone()
        } else {
            format!("{}.{}", self.side, self.t)
        }
    }
    pub fn gen(src: &mut Src) -> MLayer {
        match src.choice(10) {
            0..=4 => {
                if !dict::get().new_words.is_empty() && src.chance(1, 8) {
                    let w = gen::dict_word(src);
                    // one dot parts a side from a type, and only known sides can be there
                    return if w.contains('.') || src.bool() {
                        MLayer::new("", &w.replace('.', ".."))
                    } else {
                        let side = *src.pick(SIDES);
                        MLayer::new(side, &w)
                    };
                }
                let side = *src.pick(&["F", "B", "F", "B", "*"]);
                MLayer::new(side, *src.pick(TYPES))
            }
            5 | 6 => {
                let side = *src.pick(SIDES);
                MLayer::new(side, *src.pick(TYPES))
            }
            7 => {
                let side = *src.pick(SIDES);
                MLayer::new(side, *src.pick(&["custom", "x y", "cu", "Cu1", "fab", "Silk"]))
            }
            8 => MLayer::new("", *src.pick(TYPES)),
            _ => MLayer::new(
                "",
                *src.pick(&["Ground", "dotless name", "a.b.c", "F.Cu.x", "...", "F.Cu.", "x..y", "B.SilkS.F.Cu", "F", "B", "*"]),
            ),
        }
    }
    pub fn default() -> MLayer {
        MLayer::new("F", "Cu")
    }
    pub fn flip(&mut self) {
        self.side = match self.side {
            "F" => "B",
            "B" => "F",
            x => x,
        }
    }
    pub fn from_lib(x: &k::Layer) -> MLayer {
        let side = match x.side {
            k::LayerSide::Front => "F",
            k::LayerSide::Back => "B",
            k::LayerSide::Dwgs => "Dwgs",
            k::LayerSide::Cmts => "Cmts",
            k::LayerSide::Eco1 => "Eco1",
            k::LayerSide::Eco2 => "Eco2",
            k::LayerSide::Edge => "Edge",
            k::LayerSide::Both => "*",
            k::LayerSide::In1 => "In1",
            k::LayerSide::In2 => "In2",
            k::LayerSide::None => "",
        };
        let (t, other) = match x.t {
            k::LayerType::Cu => ("Cu".to_string(), false),
            k::LayerType::Paste => ("Paste".to_string(), false),
            k::LayerType::Mask => ("Mask".to_string(), false),
            k::LayerType::SilkS => ("SilkS".to_string(), false),
            k::LayerType::User => ("User".to_string(), false),
            k::LayerType::Adhes => ("Adhes".to_string(), false),
            k::LayerType::Cuts => ("Cuts".to_string(), false),
            k::LayerType::CrtYd => ("CrtYd".to_string(), false),
            k::LayerType::Fab => ("Fab".to_string(), false),
            k::LayerType::Margin => ("Margin".to_string(), false),
            k::LayerType::Other(ref s) => (s.clone(), true),
        };
        MLayer { side, t, other }
    }
    pub fn to_lib(&self) -> k::Layer {
        let side = match self.side {
            "F" => k::LayerSide::Front,
            "B" => k::LayerSide::Back,
            "Dwgs" => k::LayerSide::Dwgs,
            "Cmts" => k::LayerSide::Cmts,
            "Eco1" => k::LayerSide::Eco1,
            "Eco2" => k::LayerSide::Eco2,
            "Edge" => k::LayerSide::Edge,
            "*" => k::LayerSide::Both,
            "In1" => k::LayerSide::In1,
            "In2" => k::LayerSide::In2,
            _ => k::LayerSide::None,
        };
        let t = if self.other {
            k::LayerType::Other(self.t.clone())
        } else {
            match self.t.as_str() {
                "Cu" => k::LayerType::Cu,
                "Paste" => k::LayerType::Paste,
                "Mask" => k::LayerType::Mask,
                "SilkS" => k::LayerType::SilkS,
                "User" => k::LayerType::User,
                "Adhes" => k::LayerType::Adhes,
                "Cuts" => k::LayerType::Cuts,
                "CrtYd" => k::LayerType::CrtYd,
                "Fab" => k::LayerType::Fab,
                _ => k::LayerType::Margin,
            }
        };
        k::Layer { side, t }
    }
    pub fn tree(&self) -> N {
        ls("layer", &self.name())
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MXy {
    pub t: &'static str,
    pub x: f64,
    pub y: f64,
}

impl MXy {
    pub fn gen(src: &mut Src, t: &'static str) -> MXy {
        let (x, y) = gen::point(src);
        MXy { t, x, y }
    }
    pub fn zero(t: &'static str) -> MXy {
        MXy { t, x: 0.0, y: 0.0 }
    }
    pub fn is_zero(&self) -> bool {
        self.x == 0.0 && self.y == 0.0
    }
    pub fn tree(&self) -> N {
        lf(self.t, &[self.x, self.y])
    }
    pub fn from_lib(x: &k::Xy) -> MXy {
        let t = match x.t {
            k::XyType::Xy => "xy",
            k::XyType::Start => "start",
            k::XyType::End => "end",
            k::XyType::Size => "size",
            k::XyType::Center => "center",
            k::XyType::RectDelta => "rect_delta",
        };
        MXy { t, x: x.x, y: x.y }
    }
    pub fn to_lib(&self) -> k::Xy {
        let t = match self.t {
            "xy" => k::XyType::Xy,
            "start" => k::XyType::Start,
            "end" => k::XyType::End,
            "size" => k::XyType::Size,
            "center" => k::XyType::Center,
            _ => k::XyType::RectDelta,
        };
        k::Xy { x: self.x, y: self.y, t }
    }
    pub fn mv(&mut self, x: f64, y: f64) {
        self.x += x;
        self.y += y;
    }
    pub fn flip(&mut self) {
        self.y = -self.y;
    }
}

pub type MPts = Vec<MXy>;

pub fn pts_gen(src: &mut Src) -> MPts {
    let (max, cont) = match src.choice(8) {
        7 => (40, 20),
        0 => (1, 1),
        _ => (9, 5),
    };
    src.list(max, cont, |s| MXy::gen(s, "xy"))
}
pub fn pts_tree(p: &MPts) -> N {
    l("pts", p.iter().map(|x| x.tree()).collect())
}
pub fn pts_from(p: &k::Pts) -> MPts {
    p.elements.iter().map(MXy::from_lib).collect()
}
pub fn pts_to(p: &MPts) -> k::Pts {
    k::Pts { elements: p.iter().map(|x| x.to_lib()).collect() }
}
pub fn pts_mv(p: &mut MPts, x: f64, y: f64) {
    for e in p {
        e.mv(x, y)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MAt {
    pub x: f64,
    pub y: f64,
    pub rot: f64,
}

impl MAt {
    pub fn gen(src: &mut Src) -> MAt {
        let (x, y) = gen::point(src);
        MAt { x, y, rot: gen::rot(src) }
    }
    pub fn zero() -> MAt {
        MAt { x: 0.0, y: 0.0, rot: 0.0 }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![self.x, self.y];
        if m.keep(self.rot == 0.0, false) {
            v.push(self.rot)
        }
        lf("at", &v)
    }
    pub fn from_lib(x: &k::At) -> MAt {
        MAt { x: x.x, y: x.y, rot: x.rot }
    }
    pub fn to_lib(&self) -> k::At {
        k::At { x: self.x, y: self.y, rot: self.rot }
    }
    pub fn mv(&mut self, x: f64, y: f64) {
        self.x += x;
        self.y += y;
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MEffects {
    pub sx: f64,
    pub sy: f64,
    pub thickness: f64,
    pub italic: bool,
    /// "", "left" or "right"
    pub side: &'static str,
    pub mirror: bool,
}

impl MEffects {
    pub fn gen(src: &mut Src) -> MEffects {
        let (sx, sy) = match src.choice(4) {
            0 => (0.0, 0.0),
            1 => (1.0, 1.0),
            _ => (gen::unum(src), gen::unum(src)),
        };
        MEffects {
            sx,
            sy,
            thickness: gen::unum(src),
            italic: src.chance(1, 3),
            side: *src.pick(&["", "", "left", "right"]),
            mirror: src.chance(1, 3),
        }
    }
    pub fn default() -> MEffects {
        MEffects { sx: 0.0, sy: 0.0, thickness: 0.0, italic: false, side: "", mirror: false }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut f = vec![];
        if m.keep(self.sx == 0.0 && self.sy == 0.0, false) {
            f.push(lf("size", &[self.sx, self.sy]))
        }
        if m.keep(self.thickness == 0.0, true) {
            f.push(lf("thickness", &[self.thickness]))
        }
        if self.italic {
            f.push(s("italic"))
        }
        let mut v = vec![l("font", f)];
        if !self.side.is_empty() || self.mirror {
            let mut j = vec![];
            if !self.side.is_empty() {
                j.push(s(self.side))
            }
            if self.mirror {
                j.push(s("mirror"))
            }
            v.push(l("justify", j))
        }
        l("effects", v)
    }
    pub fn from_lib(x: &k::Effects) -> MEffects {
        let (side, mirror) = match x.justify {
            None => ("", false),
            Some(k::Justify::Mirror) => ("", true),
            Some(k::Justify::Left) => ("left", false),
            Some(k::Justify::Right) => ("right", false),
            Some(k::Justify::LeftMirror) => ("left", true),
            Some(k::Justify::RightMirror) => ("right", true),
        };
        MEffects { sx: x.font.size.x, sy: x.font.size.y, thickness: x.font.thickness, italic: x.font.italic, side, mirror }
    }
    pub fn to_lib(&self) -> k::Effects {
        let justify = match (self.side, self.mirror) {
            ("", false) => None,
            ("", true) => Some(k::Justify::Mirror),
            ("left", false) => Some(k::Justify::Left),
            ("left", true) => Some(k::Justify::LeftMirror),
            (_, false) => Some(k::Justify::Right),
            (_, true) => Some(k::Justify::RightMirror),
        };
        let font = k::Font {
            size: k::Xy { x: self.sx, y: self.sy, t: k::XyType::Xy },
            thickness: self.thickness,
            italic: self.italic,
        };
        k::Effects { font, justify }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MText {
    pub name: String,
    pub value: String,
    pub at: MAt,
    pub layer: MLayer,
    pub hide: bool,
    pub effects: MEffects,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MDrill {
    pub shape: Option<String>,
    pub w: f64,
    pub h: f64,
    pub ox: f64,
    pub oy: f64,
}

impl MDrill {
    pub fn to_lib(&self) -> k::Drill {
        k::Drill { shape: self.shape.clone(), width: self.w, height: self.h, offset_x: self.ox, offset_y: self.oy }
    }
    pub fn gen(src: &mut Src) -> MDrill {
        let w = if src.chance(1, 6) { 0.0 } else { gen::pnum(src) };
        let h = if w == 0.0 || src.bool() { w } else { gen::pnum(src) };
        let (ox, oy) = if w == 0.0 || src.chance(1, 3) { (gen::num(src), gen::num(src)) } else { (0.0, 0.0) };
        MDrill { shape: if src.chance(1, 3) { Some("oval".into()) } else { None }, w, h, ox, oy }
    }
    fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![];
        if let Some(ref x) = self.shape {
            v.push(s(x))
        }
        if self.w != 0.0 {
            v.push(N::F(self.w));
            if m.keep(self.h == self.w, false) {
                v.push(N::F(self.h))
            }
        } else if let Mode::Doc(_) = *m {
            // a drill of size 0 can be left out or spelled
            match m.pick(3) {
                1 => v.push(N::F(0.0)),
                2 => v.extend(vec![N::F(0.0), N::F(0.0)]),
                _ => (),
            }
        }
        if m.keep(self.ox == 0.0 && self.oy == 0.0, false) {
            v.push(lf("offset", &[self.ox, self.oy]))
        }
        l("drill", v)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MNet {
    pub num: i64,
    pub name: String,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MPad {
    pub name: String,
    pub t: &'static str,
    pub shape: &'static str,
    pub at: MAt,
    pub size: MXy,
    pub rect_delta: Option<MXy>,
    pub drill: Option<MDrill>,
    pub layers: Vec<MLayer>,
    pub net: Option<MNet>,
    pub zone_connect: Option<i64>,
    pub solder_paste_margin: Option<f64>,
    pub solder_mask_margin: Option<f64>,
    pub clearance: Option<f64>,
    pub thermal_gap: Option<f64>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MModel {
    pub name: String,
    pub at: [f64; 3],
    pub scale: [f64; 3],
    pub rotate: [f64; 3],
}

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    SolderMaskMargin(f64),
    Layer(MLayer),
    Descr(String),
    Tags(String),
    Attr(String),
    Text(MText),
    Pad(MPad),
    Poly { pts: MPts, layer: MLayer, width: f64 },
    Line { start: MXy, end: MXy, layer: MLayer, width: f64 },
    Circle { center: MXy, end: MXy, layer: MLayer, width: f64 },
    Arc { start: MXy, end: MXy, angle: f64, layer: MLayer, width: f64 },
    TEdit(i64),
    TStamp(i64),
    Path(String),
    At(MAt),
    Model(MModel),
    Clearance(f64),
    Locked,
}

#[derive(Clone, PartialEq, Debug)]
pub struct MModule {
    pub name: String,
    pub els: Vec<E>,
}

impl MText {
    pub fn gen(src: &mut Src) -> MText {
        let name = match src.choice(7) {
            0 | 1 => "reference".to_string(),
            2 | 3 => "value".to_string(),
            4 | 5 => "user".to_string(),
            _ => gen::text(src),
        };
        let value = if src.chance(1, 3) {
            src.pick(&["R1", "R2", "U1", "REF**", "%R", "R10", ""]).to_string()
        } else {
            gen::text(src)
        };
        MText {
            name,
            value,
            at: MAt::gen(src),
            layer: MLayer::gen(src),
            hide: src.chance(1, 3),
            effects: if src.chance(1, 4) { MEffects::default() } else { MEffects::gen(src) },
        }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![s(&self.name), s(&self.value)];
        if m.keep(self.at == MAt::zero(), true) {
            v.push(self.at.tree(m))
        }
        if m.keep(self.layer == MLayer::default(), true) {
            v.push(self.layer.tree())
        }
        if self.hide {
            v.push(s("hide"))
        }
        if m.keep(self.effects == MEffects::default(), true) {
            v.push(self.effects.tree(m))
        }
        l("fp_text", v)
    }
    pub fn from_lib(x: &k::FpText) -> MText {
        MText {
            name: x.name.clone(),
            value: x.value.clone(),
            at: MAt::from_lib(&x.at),
            layer: MLayer::from_lib(&x.layer),
            hide: x.hide,
            effects: MEffects::from_lib(&x.effects),
        }
    }
    pub fn to_lib(&self) -> k::FpText {
        k::FpText {
            name: self.name.clone(),
            value: self.value.clone(),
            at: self.at.to_lib(),
            layer: self.layer.to_lib(),
            effects: self.effects.to_lib(),
            hide: self.hide,
        }
    }
}

impl MPad {
    pub fn gen(src: &mut Src) -> MPad {
        let (max, cont) = if src.chance(1, 10) { (8, 5) } else { (3, 1) };
        MPad {
            name: if src.bool() { src.pick(&["1", "2", "A1", ""]).to_string() } else { gen::text(src) },
            t: *src.pick(&["smd", "thru_hole", "np_thru_hole"]),
            shape: *src.pick(&["rect", "circle", "oval", "trapezoid"]),
            at: MAt::gen(src),
            size: MXy { t: "size", x: gen::unum(src), y: gen::unum(src) },
            rect_delta: src.opt(1, 3, |s| MXy::gen(s, "rect_delta")),
            drill: src.opt(1, 2, MDrill::gen),
            layers: src.list(max, cont, MLayer::gen),
            net: src.opt(1, 2, |s| MNet { num: gen::int(s), name: gen::netname(s) }),
            zone_connect: src.opt(1, 4, |s| if s.bool() { s.range(0, 3) } else { gen::int(s) }),
            solder_paste_margin: src.opt(1, 4, gen::num),
            solder_mask_margin: src.opt(1, 4, gen::num),
            clearance: src.opt(1, 4, gen::num),
            thermal_gap: src.opt(1, 4, gen::num),
        }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![s(&self.name), s(self.t), s(self.shape)];
        if m.keep(self.at == MAt::zero(), true) {
            v.push(self.at.tree(m))
        }
        if m.keep(self.size.is_zero(), true) {
            v.push(self.size.tree())
        }
        // old files have rect_delta behind the drill
        let late = m.pick(2) == 1;
        if let (false, &Some(ref r)) = (late, &self.rect_delta) {
            v.push(r.tree())
        }
        if let Some(ref d) = self.drill {
            v.push(d.tree(m))
        }
        if let (true, &Some(ref r)) = (late, &self.rect_delta) {
            v.push(r.tree())
        }
        if m.keep(self.layers.is_empty(), true) {
            v.push(l("layers", self.layers.iter().map(|x| s(&x.name())).collect()))
        }
        let mut p = vec![];
        if let Some(ref n) = self.net {
            p.push(l("net", vec![N::I(n.num), s(&n.name)]))
        }
        if let Some(x) = self.zone_connect {
            p.push(li("zone_connect", x))
        }
        for (n, x) in &[
            ("solder_paste_margin", self.solder_paste_margin),
            ("solder_mask_margin", self.solder_mask_margin),
            ("clearance", self.clearance),
            ("thermal_gap", self.thermal_gap),
        ] {
            if let Some(x) = *x {
                p.push(lf(n, &[x]))
            }
        }
        m.shuffle(&mut p);
        v.extend(p);
        l("pad", v)
    }
    pub fn from_lib(x: &k::Pad) -> MPad {
        MPad {
            name: x.name.clone(),
            t: match x.t {
                k::PadType::Smd => "smd",
                k::PadType::Pth => "thru_hole",
                k::PadType::NpPth => "np_thru_hole",
            },
            shape: match x.shape {
                k::PadShape::Rect => "rect",
                k::PadShape::Circle => "circle",
                k::PadShape::Oval => "oval",
                k::PadShape::Trapezoid => "trapezoid",
            },
            at: MAt::from_lib(&x.at),
            size: MXy::from_lib(&x.size),
            rect_delta: x.rect_delta.as_ref().map(MXy::from_lib),
            drill: x.drill.as_ref().map(|d| MDrill {
                shape: d.shape.clone(),
                w: d.width,
                h: d.height,
                ox: d.offset_x,
                oy: d.offset_y,
            }),
            layers: x.layers.layers.iter().map(MLayer::from_lib).collect(),
            net: x.net.as_ref().map(|n| MNet { num: n.num, name: n.name.0.clone() }),
            zone_connect: x.zone_connect,
            solder_paste_margin: x.solder_paste_margin,
            solder_mask_margin: x.solder_mask_margin,
            clearance: x.clearance,
            thermal_gap: x.thermal_gap,
        }
    }
    pub fn to_lib(&self) -> k::Pad {
        let t = match self.t {
            "smd" => k::PadType::Smd,
            "thru_hole" => k::PadType::Pth,
            _ => k::PadType::NpPth,
        };
        let shape = match self.shape {
            "rect" => k::PadShape::Rect,
            "circle" => k::PadShape::Circle,
            "oval" => k::PadShape::Oval,
            _ => k::PadShape::Trapezoid,
        };
        let mut p = k::Pad::new(self.name.clone(), t, shape);
        p.at = self.at.to_lib();
        p.size = self.size.to_lib();
        p.rect_delta = self.rect_delta.as_ref().map(|x| x.to_lib());
        p.drill = self.drill.as_ref().map(|d| d.to_lib());
        p.layers = k::Layers { layers: self.layers.iter().map(|x| x.to_lib()).collect() };
        p.net = self.net.as_ref().map(|n| k::Net { num: n.num, name: n.name.as_str().into() });
        p.zone_connect = self.zone_connect;
        p.solder_paste_margin = self.solder_paste_margin;
        p.solder_mask_margin = self.solder_mask_margin;
        p.clearance = self.clearance;
        p.thermal_gap = self.thermal_gap;
        p
    }
}

fn xyz(name: &str, v: &[f64; 3]) -> N {
    l(name, vec![lf("xyz", v)])
}

fn gxyz(src: &mut Src) -> [f64; 3] {
    [gen::num(src), gen::num(src), gen::num(src)]
}

impl E {
    pub fn gen(src: &mut Src) -> E {
        match src.choice(24) {
            0 => E::Descr(gen::text(src)),
            1 => E::Tags(gen::text(src)),
            2 => E::Attr(if src.bool() { "smd".into() } else { gen::text(src) }),
            3 => E::TEdit(gen::stamp(src)),
            4 => E::TStamp(gen::stamp(src)),
            5 => E::Path(gen::text(src)),
            6 => E::Clearance(gen::num(src)),
            7 => E::SolderMaskMargin(gen::num(src)),
            8 => E::Locked,
            9 => E::Layer(MLayer::gen(src)),
            10 | 11 => E::At(MAt::gen(src)),
            12 => E::Model(MModel { name: gen::text(src), at: gxyz(src), scale: gxyz(src), rotate: gxyz(src) }),
            13 | 14 => E::Text(MText::gen(src)),
            15 => E::Line {
                start: MXy::gen(src, "start"),
                end: MXy::gen(src, "end"),
                layer: MLayer::gen(src),
                width: gen::num(src),
            },
            16 => E::Circle {
                center: MXy::gen(src, "center"),
                end: MXy::gen(src, "end"),
                layer: MLayer::gen(src),
                width: gen::num(src),
            },
            17 => E::Arc {
                start: MXy::gen(src, "start"),
                end: MXy::gen(src, "end"),
                angle: if src.bool() { gen::rot(src) } else { gen::num(src) },
                layer: MLayer::gen(src),
                width: gen::num(src),
            },
            18 | 19 => E::Poly { pts: pts_gen(src), layer: MLayer::gen(src), width: gen::num(src) },
            _ => E::Pad(MPad::gen(src)),
        }
    }

    pub fn tree(&self, m: &mut Mode) -> N {
        fn push(v: &mut Vec<N>, m: &mut Mode, default: bool, n: N) {
            if m.keep(default, true) {
                v.push(n)
            }
        }
        let dl = MLayer::default();
        match *self {
            E::SolderMaskMargin(x) => lf("solder_mask_margin", &[x]),
            E::Layer(ref x) => x.tree(),
            E::Descr(ref x) => ls("descr", x),
            E::Tags(ref x) => ls("tags", x),
            E::Attr(ref x) => ls("attr", x),
            E::Path(ref x) => ls("path", x),
            E::Clearance(x) => lf("clearance", &[x]),
            E::Locked => s("locked"),
            E::TEdit(x) => l("tedit", vec![N::H(x)]),
            E::TStamp(x) => l("tstamp", vec![N::H(x)]),
            E::At(ref x) => x.tree(m),
            E::Text(ref x) => x.tree(m),
            E::Pad(ref x) => x.tree(m),
            E::Model(ref x) => l(
                "model",
                vec![s(&x.name), xyz("at", &x.at), xyz("scale", &x.scale), xyz("rotate", &x.rotate)],
            ),
            E::Line { ref start, ref end, ref layer, width } => {
                let mut v = vec![];
                push(&mut v, m, start.is_zero(), start.tree());
                push(&mut v, m, end.is_zero(), end.tree());
                push(&mut v, m, *layer == dl, layer.tree());
                push(&mut v, m, width == 0.0, lf("width", &[width]));
                l("fp_line", v)
            }
            E::Circle { ref center, ref end, ref layer, width } => {
                let mut v = vec![];
                push(&mut v, m, center.is_zero(), center.tree());
                push(&mut v, m, end.is_zero(), end.tree());
                push(&mut v, m, *layer == dl, layer.tree());
                push(&mut v, m, width == 0.0, lf("width", &[width]));
                l("fp_circle", v)
            }
            E::Arc { ref start, ref end, angle, ref layer, width } => {
                let mut v = vec![];
                push(&mut v, m, start.is_zero(), start.tree());
                push(&mut v, m, end.is_zero(), end.tree());
                push(&mut v, m, angle == 0.0, lf("angle", &[angle]));
                push(&mut v, m, *layer == dl, layer.tree());
                push(&mut v, m, width == 0.0, lf("width", &[width]));
                l("fp_arc", v)
            }
            E::Poly { ref pts, ref layer, width } => {
                let mut v = vec![];
                push(&mut v, m, pts.is_empty(), pts_tree(pts));
                push(&mut v, m, *layer == dl, layer.tree());
                push(&mut v, m, width == 0.0, lf("width", &[width]));
                l("fp_poly", v)
            }
        }
    }

    pub fn from_lib(e: &k::Element) -> E {
        match *e {
            k::Element::SolderMaskMargin(x) => E::SolderMaskMargin(x),
            k::Element::Layer(ref x) => E::Layer(MLayer::from_lib(x)),
            k::Element::Descr(ref x) => E::Descr(x.clone()),
            k::Element::Tags(ref x) => E::Tags(x.clone()),
            k::Element::Attr(ref x) => E::Attr(x.clone()),
            k::Element::FpText(ref x) => E::Text(MText::from_lib(x)),
            k::Element::Pad(ref x) => E::Pad(MPad::from_lib(x)),
            k::Element::FpPoly(ref x) => {
                E::Poly { pts: pts_from(&x.pts), layer: MLayer::from_lib(&x.layer), width: x.width }
            }
            k::Element::FpLine(ref x) => E::Line {
                start: MXy::from_lib(&x.start),
                end: MXy::from_lib(&x.end),
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
            },
            k::Element::FpCircle(ref x) => E::Circle {
                center: MXy::from_lib(&x.center),
                end: MXy::from_lib(&x.end),
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
            },
            k::Element::FpArc(ref x) => E::Arc {
                start: MXy::from_lib(&x.start),
                end: MXy::from_lib(&x.end),
                angle: x.angle,
                layer: MLayer::from_lib(&x.layer),
                width: x.width,
            },
            k::Element::TEdit(x) => E::TEdit(x),
            k::Element::TStamp(x) => E::TStamp(x),
            k::Element::Path(ref x) => E::Path(x.clone()),
            k::Element::At(ref x) => E::At(MAt::from_lib(x)),
            k::Element::Model(ref x) => E::Model(MModel {
                name: x.name.clone(),
                at: [x.at.x, x.at.y, x.at.z],
                scale: [x.scale.x, x.scale.y, x.scale.z],
                rotate: [x.rotate.x, x.rotate.y, x.rotate.z],
            }),
            k::Element::Clearance(x) => E::Clearance(x),
            k::Element::Locked => E::Locked,
        }
    }

    pub fn to_lib(&self) -> k::Element {
        match *self {
            E::SolderMaskMargin(x) => k::Element::SolderMaskMargin(x),
            E::Layer(ref x) => k::Element::Layer(x.to_lib()),
            E::Descr(ref x) => k::Element::Descr(x.clone()),
            E::Tags(ref x) => k::Element::Tags(x.clone()),
            E::Attr(ref x) => k::Element::Attr(x.clone()),
            E::Text(ref x) => k::Element::FpText(x.to_lib()),
            E::Pad(ref x) => k::Element::Pad(x.to_lib()),
            E::Poly { ref pts, ref layer, width } => {
                k::Element::FpPoly(k::FpPoly { pts: pts_to(pts), layer: layer.to_lib(), width })
            }
            E::Line { ref start, ref end, ref layer, width } => k::Element::FpLine(k::FpLine {
                start: start.to_lib(),
                end: end.to_lib(),
                layer: layer.to_lib(),
                width,
            }),
            E::Circle { ref center, ref end, ref layer, width } => k::Element::FpCircle(k::FpCircle {
                center: center.to_lib(),
                end: end.to_lib(),
                layer: layer.to_lib(),
                width,
            }),
            E::Arc { ref start, ref end, angle, ref layer, width } => k::Element::FpArc(k::FpArc {
                start: start.to_lib(),
                end: end.to_lib(),
                angle,
                layer: layer.to_lib(),
                width,
            }),
            E::TEdit(x) => k::Element::TEdit(x),
            E::TStamp(x) => k::Element::TStamp(x),
            E::Path(ref x) => k::Element::Path(x.clone()),
            E::At(ref x) => k::Element::At(x.to_lib()),
            E::Model(ref x) => {
                let g = |v: &[f64; 3]| k::Xyz { x: v[0], y: v[1], z: v[2] };
                k::Element::Model(k::Model { name: x.name.clone(), at: g(&x.at), scale: g(&x.scale), rotate: g(&x.rotate) })
            }
            E::Clearance(x) => k::Element::Clearance(x),
            E::Locked => k::Element::Locked,
        }
    }

    pub fn structured(&self) -> bool {
        matches!(
            *self,
            E::Text(_) | E::Pad(_) | E::Poly { .. } | E::Line { .. } | E::Circle { .. } | E::Arc { .. } | E::Model(_)
        )
    }
}

impl MModule {
    pub fn gen(src: &mut Src) -> MModule {
        let (max, cont) = gen::big(src);
        MModule::gen_sized(src, max, cont)
    }
    pub fn gen_sized(src: &mut Src, max: usize, cont: u64) -> MModule {
        MModule { name: gen::text(src), els: src.list(max, cont, E::gen) }
    }
    pub fn tree(&self, m: &mut Mode) -> N {
        let mut v = vec![s(&self.name)];
        for e in &self.els {
            v.push(e.tree(m))
        }
        l("module", v)
    }
    pub fn canon(&self) -> N {
        self.tree(&mut Mode::Canon)
    }
    pub fn doc(&self, src: &mut Src) -> String {
        let t = self.tree(&mut Mode::Doc(src));
        let lead = *src.pick(&["", "", "", " ", "\t "]);
        format!("{}{}", lead, sx::render_var(&t, src))
    }
    pub fn from_lib(x: &k::Module) -> MModule {
        MModule { name: x.name.clone(), els: x.elements.iter().map(E::from_lib).collect() }
    }
    pub fn to_lib(&self) -> k::Module {
        let mut m = k::Module::new(self.name.clone());
        m.elements = self.els.iter().map(|e| e.to_lib()).collect();
        m
    }
    pub fn structured(&self) -> usize {
        self.els.iter().filter(|e| e.structured()).count()
    }
}

/// first place where two models differ, for messages
pub fn debug_diff<T: std::fmt::Debug>(want: &T, got: &T) -> String {
    let a = format!("{:?}", want);
    let b = format!("{:?}", got);
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] {
        i += 1
    }
    let from = i.saturating_sub(60);
    let cut = |v: &[char]| v[from.min(v.len())..(i + 60).min(v.len())].iter().collect::<String>();
    format!("expected ..{}.. got ..{}..", cut(&a), cut(&b))
}
