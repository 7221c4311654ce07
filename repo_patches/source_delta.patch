From 5c4d5833e3a4ef02bf16c83c77843867a1cc4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:10 +0000
Subject: [PATCH 01/36] fix: order the corners of fp_line and fp_arc bounding
 boxes

A line or arc drawn right to left or bottom to top got a box with swapped
corners. Joining such a box into the footprint's box lost part of the line.
---
 src/footprint/data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..0c73f52 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1218,7 +1218,9 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
@@ -1318,7 +1320,9 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let mut b = Bound::new(self.start.x, self.start.y, self.end.x, self.end.y);
+        b.swap_if_needed();
+        b
     }
 }
 
-- 
2.43.0


From 10aae28ebb39e9605165d1e1b6301bbfa76a1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 02/36] fix: read and write the rect_delta of a pad next to its
 size

A pad with both a size and a rect_delta could not be read back: only one of
the two was accepted. KiCad writes rect_delta right after size.
---
 src/footprint/de.rs  | 27 ++++++++++++++++++++-------
 src/footprint/ser.rs |  6 +++---
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..aa8bfb0 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -148,6 +148,19 @@ impl FromSexp for Xy {
     }
 }
 
+// an optional Xy of the given type, anything else is left for what follows
+fn maybe_xy(i: &mut IterAtom, t: &XyType) -> Option<Xy> {
+    let xy = match i.iter.peek() {
+        Some(s) => Xy::from_sexp(s).ok(),
+        None => None,
+    };
+    match xy {
+        Some(ref xy) if xy.t == *t => i.iter.next(),
+        _ => return None,
+    };
+    xy
+}
+
 impl FromSexp for Pts {
     fn from_sexp(s: &Sexp) -> Result<Pts, SexpError> {
         let mut i = IterAtom::new(s, "pts")?;
@@ -246,15 +259,15 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Size {
-                pad.size = xy;
-            } else if xy.t == XyType::RectDelta {
-                pad.rect_delta = Some(xy);
-            }
-            // else ignore
+        if let Some(size) = maybe_xy(&mut i, &XyType::Size) {
+            pad.size = size;
         }
+        pad.rect_delta = maybe_xy(&mut i, &XyType::RectDelta);
         pad.drill = i.maybe_t::<Drill>();
+        if pad.rect_delta.is_none() {
+            // older versions of this library put it after the drill
+            pad.rect_delta = maybe_xy(&mut i, &XyType::RectDelta);
+        }
         if let Some(layers) = i.maybe_t::<Layers>() {
             pad.layers = layers;
         }
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From eebafda2bf76a25a3171f1790ce8f361b9e708a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 03/36] fix: do not swallow a point of the wrong kind in
 footprint shapes

A point of another kind than the expected one was accepted and dropped, and
leaving out the start of a line lost its end.
---
 src/footprint/de.rs | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index aa8bfb0..0ed63b9 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -77,7 +77,7 @@ impl FromSexp for Font {
     fn from_sexp(s: &Sexp) -> Result<Font, SexpError> {
         let mut i = IterAtom::new(s, "font")?;
         let mut font = Font::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        if let Some(xy) = maybe_xy(&mut i, &XyType::Size) {
             font.size.x = xy.x;
             font.size.y = xy.y;
         }
@@ -310,15 +310,11 @@ impl FromSexp for FpLine {
     fn from_sexp(s: &Sexp) -> Result<FpLine, SexpError> {
         let mut i = IterAtom::new(s, "fp_line")?;
         let mut fp_line = FpLine::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_line.start = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::Start) {
+            fp_line.start = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_line.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::End) {
+            fp_line.end = xy;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_line.layer = layer;
@@ -335,15 +331,11 @@ impl FromSexp for FpCircle {
     fn from_sexp(s: &Sexp) -> Result<FpCircle, SexpError> {
         let mut i = IterAtom::new(s, "fp_circle")?;
         let mut fp_circle = FpCircle::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Center {
-                fp_circle.center = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::Center) {
+            fp_circle.center = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_circle.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::End) {
+            fp_circle.end = xy;
         }
         if let Some(layer) = i.maybe_t::<Layer>() {
             fp_circle.layer = layer;
@@ -360,15 +352,11 @@ impl FromSexp for FpArc {
     fn from_sexp(s: &Sexp) -> Result<FpArc, SexpError> {
         let mut i = IterAtom::new(s, "fp_arc")?;
         let mut fp_arc = FpArc::default();
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::Start {
-                fp_arc.start = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::Start) {
+            fp_arc.start = xy;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
-            if xy.t == XyType::End {
-                fp_arc.end = xy;
-            }
+        if let Some(xy) = maybe_xy(&mut i, &XyType::End) {
+            fp_arc.end = xy;
         }
         if let Some(angle) = i.maybe_f_in_list("angle") {
             fp_arc.angle = angle;
-- 
2.43.0


From 3d858f2d190d3b1af3afd966140cef0985675c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 04/36] fix: accept a pad drill that only has an offset

KiCad writes (drill (offset x y)) for surface mount pads with an offset shape,
and so does this library when the width is zero.
---
 src/footprint/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 0ed63b9..3f60ef3 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -197,7 +197,8 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        // only an offset for pads without a hole
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
-- 
2.43.0


From d540ae17c8ee5fbe3baebe7e9a637bdaaf7c00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 05/36] fix: keep both the side and the mirroring of a
 justified text

(justify left mirror) lost its mirroring when read, and flipping a left or
right justified text lost its side.
---
 src/footprint/data.rs | 10 +++++++++-
 src/footprint/de.rs   | 16 ++++++++++------
 src/footprint/ser.rs  | 12 +++++++++---
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 0c73f52..28eae0c 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -644,7 +644,11 @@ impl Flip for Effects {
     fn flip(&mut self) {
         self.justify = match self.justify {
             None => Some(Justify::Mirror),
-            Some(_) => None,
+            Some(Justify::Mirror) => None,
+            Some(Justify::Left) => Some(Justify::LeftMirror),
+            Some(Justify::LeftMirror) => Some(Justify::Left),
+            Some(Justify::Right) => Some(Justify::RightMirror),
+            Some(Justify::RightMirror) => Some(Justify::Right),
         }
     }
 }
@@ -668,6 +672,10 @@ pub enum Justify {
     Left,
     /// the text is right-justified
     Right,
+    /// the text is left-justified and mirrored
+    LeftMirror,
+    /// the text is right-justified and mirrored
+    RightMirror,
 }
 
 /// the type of X-Y element
diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 3f60ef3..b5e171d 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -63,12 +63,16 @@ impl FromSexp for Justify {
     fn from_sexp(s: &Sexp) -> Result<Justify, SexpError> {
         let mut i = IterAtom::new(s, "justify")?;
         let s = i.s("mirror")?;
-        match &s[..] {
-            "mirror" => Ok(Justify::Mirror),
-            "left" => Ok(Justify::Left),
-            "right" => Ok(Justify::Right),
-            _ => Err(format!("unknown justify: {}", s).into()),
-        }
+        let mirror = i.maybe_literal_s("mirror").is_some();
+        let justify = match (&s[..], mirror) {
+            ("mirror", false) => Justify::Mirror,
+            ("left", false) => Justify::Left,
+            ("right", false) => Justify::Right,
+            ("left", true) => Justify::LeftMirror,
+            ("right", true) => Justify::RightMirror,
+            _ => return Err(format!("unknown justify: {}", s).into()),
+        };
+        i.close(justify)
     }
 }
 
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index bc13b88..66de108 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -98,11 +98,17 @@ impl IntoSexp for Effects {
 
 impl IntoSexp for Justify {
     fn into_sexp(&self) -> Sexp {
+        let mut v = Sexp::start("justify");
         match *self {
-            Justify::Mirror => ("justify", &"mirror").into(),
-            Justify::Left => ("justify", &"left").into(),
-            Justify::Right => ("justify", &"right").into(),
+            Justify::Mirror => (),
+            Justify::Left | Justify::LeftMirror => v.push("left"),
+            Justify::Right | Justify::RightMirror => v.push("right"),
         }
+        match *self {
+            Justify::Mirror | Justify::LeftMirror | Justify::RightMirror => v.push("mirror"),
+            Justify::Left | Justify::Right => (),
+        }
+        v
     }
 }
 
-- 
2.43.0


From 8f5c4aa4ff2c109564d7b6f13439e152096df2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 06/36] fix: reverse the angle of an arc when flipping it

Mirroring an arc changes its turning direction; without it the flipped arc
is drawn on the wrong side of its start point.
---
 src/footprint/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 28eae0c..6172ac8 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1321,6 +1321,7 @@ impl Flip for FpArc {
     fn flip(&mut self) {
         self.start.flip();
         self.end.flip();
+        self.angle = -self.angle;
         self.layer.flip()
     }
 }
-- 
2.43.0


From 6d5b68c02e18b2eea1c7256470c3afc50526b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:01 +0000
Subject: [PATCH 07/36] fix: keep the whole name of a layer with several dots

Everything after the first dot of such a name was dropped.
---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 6172ac8..bd90248 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -958,7 +958,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From 88a5d37221b48dce0b6511f304c2330653ee0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:36 +0000
Subject: [PATCH 08/36] fix: report surplus items instead of dropping them

Single-value footprint elements, pad parts and library table entries accepted
any number of further items and lost them.
---
 src/footprint/de.rs | 18 ++++++++++--------
 src/fp_lib_table.rs |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index b5e171d..7f49d96 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -113,8 +113,8 @@ where
     F: Fn(f64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expected one value in {}", e).into());
     }
     let f = v[1].f()?;
     Ok(make(f))
@@ -125,8 +125,8 @@ where
     F: Fn(i64) -> Part,
 {
     let v = e.list()?;
-    if v.len() < 2 {
-        return Err(format!("not enough elements in {}", e).into());
+    if v.len() != 2 {
+        return Err(format!("expected one value in {}", e).into());
     }
     let i = v[1].i()?;
     Ok(make(i))
@@ -393,21 +393,23 @@ impl FromSexp for Model {
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.s("element")?)
+    let v = i.s("element")?;
+    i.close(v)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
-    Ok(i.f("element")?)
+    let v = i.f("element")?;
+    i.close(v)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
     let name = s.list_name()?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
-    let i = i64::from_str_radix(&s, 16)?;
-    Ok(i)
+    let v = i64::from_str_radix(&s, 16)?;
+    i.close(v)
 }
 
 impl FromSexp for Element {
diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..e017ddc 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -78,7 +78,7 @@ impl FromSexp for Lib {
         let uri = i.s_in_list("uri")?;
         let options = i.s_in_list("options")?;
         let descr = i.s_in_list("descr")?;
-        Ok(Lib {
+        i.close(Lib {
             name: name,
             type_: type_,
             uri: uri,
-- 
2.43.0


From 9ac822554a1f5c85f511cf0c563054b2dc787200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:36 +0000
Subject: [PATCH 09/36] fix: report unknown layer flags, keepout rules and fill
 modes

Any word was taken for the hide flag of a layer, for an allowed keepout rule
or for the segment fill mode, and replaced by that when written.
---
 src/layout/de.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..4628a28 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -134,7 +134,7 @@ impl FromSexp for Layer {
         let num = i.i("num")?;
         let layer = footprint::Layer::from_string(&i.s("layer")?)?;
         let layer_type = i.t("layer_type")?;
-        let hide = i.maybe_s().is_some();
+        let hide = i.maybe_literal_s("hide").is_some();
         i.close(Layer {
             num: num,
             layer: layer,
@@ -400,13 +400,22 @@ impl FromSexp for ConnectPads {
         i.close(connect_pads)
     }
 }
+
+fn parse_allowed(s: &str) -> Result<bool, SexpError> {
+    match s {
+        "allowed" => Ok(true),
+        "not_allowed" => Ok(false),
+        _ => Err(format!("expected allowed or not_allowed, got {}", s).into()),
+    }
+}
+
 impl FromSexp for Keepout {
     fn from_sexp(s: &Sexp) -> Result<Keepout, SexpError> {
         let mut keepout = Keepout::default();
         let mut i = IterAtom::new(s, "keepout")?;
-        keepout.tracks = !i.s_in_list("tracks")?.starts_with("not");
-        keepout.vias = !i.s_in_list("vias")?.starts_with("not");
-        keepout.copperpour = !i.s_in_list("copperpour")?.starts_with("not");
+        keepout.tracks = parse_allowed(&i.s_in_list("tracks")?)?;
+        keepout.vias = parse_allowed(&i.s_in_list("vias")?)?;
+        keepout.copperpour = parse_allowed(&i.s_in_list("copperpour")?)?;
         i.close(keepout)
     }
 }
@@ -417,7 +426,13 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        if let Some(mode) = i.maybe_s_in_list("mode") {
+            fill.segment = match &mode[..] {
+                "segment" => true,
+                "polygon" => false,
+                _ => return Err(format!("unknown fill mode {}", mode).into()),
+            };
+        }
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From 4bc91798710ceb468322e074251526a01fc45e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:36 +0000
Subject: [PATCH 10/36] fix: report an error for an empty list instead of
 crashing

An empty list () in a footprint or layout made the reader panic.
---
 src/footprint/de.rs | 13 +++++++------
 src/layout/de.rs    |  7 ++++---
 src/lib.rs          |  8 ++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 7f49d96..c8c59ee 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -4,6 +4,7 @@ use Sexp;
 use footprint;
 use footprint::data::*;
 use wrap;
+use list_name;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -134,7 +135,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -213,7 +214,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -391,21 +392,21 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let v = i.s("element")?;
     i.close(v)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let v = i.f("element")?;
     i.close(v)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let v = i64::from_str_radix(&s, 16)?;
@@ -420,7 +421,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index 4628a28..4f754c0 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -6,6 +6,7 @@
 // from parent
 use footprint;
 use wrap;
+use list_name;
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,7 +191,7 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
+            let list_name = list_name(x)?;
             let xn = &list_name[..];
             match xn {
                 "add_net" => {
@@ -231,7 +232,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -480,7 +481,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..f8f688a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,14 @@ where
     Ok(wrapper(make(s)?))
 }
 
+// the name a list starts with
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    if s.list()?.is_empty() {
+        return Err("empty list".into());
+    }
+    s.list_name()
+}
+
 #[derive(Debug)]
 /// A bounding box
 pub struct Bound {
-- 
2.43.0


From 16d0c3d6714d4197ae029e26bab8c21c08136b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:56 +0000
Subject: [PATCH 11/36] fix: expect the time stamp of a text before its effects

KiCad writes (tstamp ..) before (effects ..) in gr_text, such boards could not
be read.
---
 src/layout/de.rs  | 6 +++++-
 src/layout/ser.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index 4f754c0..84fa7c3 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -264,8 +264,12 @@ impl FromSexp for GrText {
         t.value = i.s("value")?;
         t.at = i.t("at")?;
         t.layer = i.t("layer")?;
-        t.effects = i.t("effects")?;
         t.tstamp = i.maybe_s_in_list("tstamp");
+        t.effects = i.t("effects")?;
+        if t.tstamp.is_none() {
+            // older versions of this library put it last
+            t.tstamp = i.maybe_s_in_list("tstamp");
+        }
         i.close(t)
     }
 }
diff --git a/src/layout/ser.rs b/src/layout/ser.rs
index 4d17e10..3045d4b 100644
--- a/src/layout/ser.rs
+++ b/src/layout/ser.rs
@@ -273,10 +273,10 @@ impl IntoSexp for GrText {
         v.push(&self.value);
         v.push(self.at.into_sexp());
         v.push(("layer", &self.layer));
-        v.push(self.effects.into_sexp());
         if let Some(ref tstamp) = self.tstamp {
             v.push(("tstamp", tstamp));
         }
+        v.push(self.effects.into_sexp());
         v
     }
 }
-- 
2.43.0


From 009982c002c105da02ca977d4a856759c263c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:56 +0000
Subject: [PATCH 12/36] fix: replace every occurrence of a block name in a net
 name

Of two directly nested blocks with the same name only the outer one was
replaced, because they share a separator.
---
 src/layout/data.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..10f1f54 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -284,8 +284,17 @@ impl NetName {
     /// replace the block_name in a net name
     pub fn replace_block(&mut self, from: &str, to: &str) {
         let from_pat = format!("/{}/", from);
-        let to_pat = format!("/{}/", to);
-        let n = self.0.replace(&from_pat, &to_pat);
+        let mut n = String::new();
+        {
+            let mut rest = &self.0[..];
+            while let Some(i) = rest.find(&from_pat) {
+                n.push_str(&rest[..i + 1]);
+                n.push_str(to);
+                // the closing / can be the opening one of the next block
+                rest = &rest[i + from_pat.len() - 1..];
+            }
+            n.push_str(rest);
+        }
         self.0 = n;
     }
 
-- 
2.43.0


From b0191254541981e9c169acff7952b364ef1bd189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:56 +0000
Subject: [PATCH 13/36] fix: do not crash on an empty reference when ordering

Components without a reference sort first.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f8f688a..41a6392 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,7 +355,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or('\0');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0


From 29e1629a9b3a54a3beaca55c44edfe008c5f37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 14/36] fix: do not crash on file names that are not valid
 UTF-8

---
 src/lib.rs        | 2 +-
 src/symbol_lib.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 41a6392..52165af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..11a2184 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -842,8 +842,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From 130152f2ad12d7b2983aad0b601a7b2b007cb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 15/36] fix: write the bold flag of a symbol field as B

It was written as I, which the parser rejects.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 11a2184..33e3670 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 4dc9315d2d03381398d89ddcc32658adb1e5a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 16/36] fix: use the x coordinate in the bounding box of a
 component

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..912b356 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -433,7 +433,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From 41f9944b57c70d9667bd3e4524343ba106b2761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 17/36] fix: keep escaped quotes in quoted strings of line
 based files

A \" ended the string, so the rest of the line was split in the wrong places
and the quote got lost when writing the file back.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 52165af..b54d622 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,8 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
     // if we are inside our outside a quoted string
     let mut inside_quotation = false;
     let mut quotation_seen = false;
+    // if the previous character was a \ that escapes this one
+    let mut escaped = false;
     let mut s2: String = "".into();
     for c in s.chars() {
         if let Some(n) = n_opt {
@@ -44,11 +46,13 @@ fn parse_split_quote_aware_int(n_opt: Option<usize>, s: &str) -> Result<Vec<Stri
             continue;
         }
         // detection of final "
-        if inside_quotation && c == '\"' {
+        if inside_quotation && !escaped && c == '\"' {
             inside_quotation = false;
             quotation_seen = true;
             continue;
         }
+        // an escaped character is kept as is
+        escaped = inside_quotation && !escaped && c == '\\';
         // detection of space before or in between parts
         if !inside_quotation && c == ' ' {
             if !s2.is_empty() || quotation_seen {
-- 
2.43.0


From 54f7bbacc85f1d290792653b18f85929e4bc4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 18/36] fix: handle components that are not the first unit of a
 symbol

The line with the position of a component starts with its unit number. For
units other than 0 and 1 reading failed or lost the rotation, and the number
was always written as 1.
---
 src/schematic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 912b356..34a7b26 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -596,7 +596,7 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            "1",
+            self.u.split_whitespace().nth(1).unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
@@ -1288,8 +1288,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
+            // the position line starts with the unit number
+            Some(x) if i64::from_str(x).is_ok() => parse_component_rotation(p, &mut d)?,
             _ => println!("skipping unknown component line {}", s),
         }
         p.next()
-- 
2.43.0


From 1d0dd1b7740917b3e3615d73bb68e3407bfc8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 19/36] fix: keep the portrait flag of a schematic page

It was dropped when reading, so writing the schematic changed the page to
landscape.
---
 src/schematic.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 34a7b26..3c5773d 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -282,6 +282,8 @@ pub struct Description {
     pub dimx: i64,
     /// dimension in Y
     pub dimy: i64,
+    /// if the page is in portrait orientation
+    pub portrait: bool,
     /// title
     pub title: String,
     /// date
@@ -310,6 +312,7 @@ impl Default for Description {
             size: String::from(""),
             dimx: 0,
             dimy: 0,
+            portrait: false,
             title: String::from("Normal"),
             date: String::from("Tue 19 May 2015"),
             rev: String::from(""),
@@ -326,7 +329,8 @@ impl Default for Description {
 
 impl fmt::Display for Description {
     fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
-        writeln!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        write!(f, "$Descr {} {} {}", self.size, self.dimx, self.dimy)?;
+        writeln!(f, "{}", if self.portrait { " portrait" } else { "" })?;
         writeln!(f, "encoding utf-8")?;
         writeln!(f, "Sheet {} {}", self.sheet, self.sheet_count)?;
         writeln!(f, "Title \"{}\"", self.title)?;
@@ -1190,6 +1194,11 @@ fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     d.size = v[1].clone();
     d.dimx = i64_from_string(p, &v[2])?;
     d.dimy = i64_from_string(p, &v[3])?;
+    d.portrait = match v.get(4).map(|x| x.trim()) {
+        None | Some("") => false,
+        Some("portrait") => true,
+        Some(x) => return str_error(format!("unknown page orientation {}", x)),
+    };
     p.next(); // $Descr
     p.next(); // encoding
     let v = parse_split_quote_aware_n(3, &p.here())?;
-- 
2.43.0


From 18995fab261b0ec0d764cf4dd8b99805311c64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 20/36] fix: do not number new fields as one of the predefined
 fields

A component without all of the predefined fields got a new field with one of
their numbers, which is written without its name.
---
 src/schematic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 3c5773d..c487107 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -496,8 +496,9 @@ impl Component {
     }
 
     /// get the first free component field number
+    /// 0 to 3 are reserved for the predefined fields
     pub fn get_available_field_num(&self) -> i64 {
-        let mut i: i64 = 0;
+        let mut i: i64 = 3;
         for field in &self.fields[..] {
             if field.i > i {
                 i = field.i
-- 
2.43.0


From 76876709408ec78e6fbebe2edf904445d575a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:31 +0000
Subject: [PATCH 21/36] fix: check pins against the 100mil and 50mil grids

Symbol libraries use mils as the unit, so the 10 and 5 used here never
reported pins on a 50mil or 25mil grid.
---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 33e3670..f4ca69c 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -941,7 +941,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -949,7 +949,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -958,7 +958,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From 530cb3e008fc7367e8a93d6a698fe162261ae3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 22/36] fix: report an error for malformed schematics instead
 of crashing

Truncated files, empty lines, lines with missing items and empty or too short
flags made the parser panic.
---
 src/schematic.rs | 115 +++++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 54 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index c487107..2f9a6b5 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -227,8 +227,8 @@ macro_rules! assume_line {
         if $s.eof() {
             return str_error("end of file reached".to_string())
         }
-        if $s.here() != $exp {
-            return str_error(format!("expected '{}', got '{}'", $exp, $s.here()))
+        if $s.here()? != $exp {
+            return str_error(format!("expected '{}', got '{}'", $exp, $s.here()?))
         }
         $s.i += 1;
     )
@@ -248,8 +248,11 @@ impl ParseState {
         }
     }
 
-    fn here(&self) -> String {
-        (self.v[self.i]).clone()
+    fn here(&self) -> Result<String, KicadError> {
+        match self.v.get(self.i) {
+            Some(s) => Ok(s.clone()),
+            None => str_error("end of file reached".to_string()),
+        }
     }
 
     fn next(&mut self) {
@@ -733,7 +736,7 @@ impl ComponentField {
             return str_error(format!(
                 "expecting 10 or 11 parts got {} in {}",
                 v.len(),
-                p.here()
+                p.here()?
             ));
         }
         let i = i64_from_string(p, &v[1])?;
@@ -751,15 +754,15 @@ impl ComponentField {
         let c = ComponentField {
             i: i,
             value: v[2].clone(),
-            orientation: Orientation::new(char_at(&v[3], 0))?,
+            orientation: Orientation::new(char_at(&v[3], 0)?)?,
             x: f64_from_string(p, &v[4])?,
             y: f64_from_string(p, &v[5])?,
             size: i64_from_string(p, &v[6])?,
             visible: bool_from_string(&v[7], "0000", "0001")?,
-            hjustify: Justify::new(char_at(&v[8], 0))?,
-            vjustify: Justify::new(char_at(&v[9], 0))?,
-            italic: bool_from(&char_at(&v[9], 1), &'I', &'N')?,
-            bold: bool_from(&char_at(&v[9], 2), &'B', &'N')?,
+            hjustify: Justify::new(char_at(&v[8], 0)?)?,
+            vjustify: Justify::new(char_at(&v[9], 0)?)?,
+            italic: bool_from(&char_at(&v[9], 1)?, &'I', &'N')?,
+            bold: bool_from(&char_at(&v[9], 2)?, &'B', &'N')?,
             name: name,
         };
         Ok(c)
@@ -1131,9 +1134,11 @@ impl fmt::Display for Text {
     }
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("expecting at least {} characters in '{}'", p + 1, s)),
+    }
 }
 
 
@@ -1147,14 +1152,14 @@ fn assume_string(e: &'static str, s: &str) -> Result<(), KicadError> {
 fn i64_from_string(p: &ParseState, s: &str) -> Result<i64, KicadError> {
     match i64::from_str(&s[..]) {
         Ok(i) => Ok(i),
-        _ => str_error(format!("int parse error in {}; line: {}", s, p.here())),
+        _ => str_error(format!("int parse error in {}; line: {}", s, p.here()?)),
     }
 }
 
 fn f64_from_string(p: &ParseState, s: &str) -> Result<f64, KicadError> {
     match f64::from_str(s) {
         Ok(i) => Ok(i),
-        _ => str_error(format!("float parse error in {}; line: {}", s, p.here())),
+        _ => str_error(format!("float parse error in {}; line: {}", s, p.here()?)),
     }
 }
 
@@ -1191,7 +1196,7 @@ where
 
 fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     let mut d = Description::default();
-    let v = parse_split_quote_aware_n(4, &p.here())?;
+    let v = parse_split_quote_aware_n(4, &p.here()?)?;
     d.size = v[1].clone();
     d.dimx = i64_from_string(p, &v[2])?;
     d.dimy = i64_from_string(p, &v[3])?;
@@ -1202,60 +1207,60 @@ fn parse_description(p: &mut ParseState) -> Result<Description, KicadError> {
     };
     p.next(); // $Descr
     p.next(); // encoding
-    let v = parse_split_quote_aware_n(3, &p.here())?;
+    let v = parse_split_quote_aware_n(3, &p.here()?)?;
     if v[0] != "Sheet" {
         return str_error(String::from("Expecting 'Sheet'"));
     };
     d.sheet = i64_from_string(p, &v[1])?;
     d.sheet_count = i64_from_string(p, &v[2])?;
     p.next(); // Sheet
-    word_and_qstring(&mut d, "Title", &p.here(), |d, x| d.title = x)?;
+    word_and_qstring(&mut d, "Title", &p.here()?, |d, x| d.title = x)?;
     p.next();
-    word_and_qstring(&mut d, "Date", &p.here(), |d, x| d.date = x)?;
+    word_and_qstring(&mut d, "Date", &p.here()?, |d, x| d.date = x)?;
     p.next();
-    word_and_qstring(&mut d, "Rev", &p.here(), |d, x| d.rev = x)?;
+    word_and_qstring(&mut d, "Rev", &p.here()?, |d, x| d.rev = x)?;
     p.next();
-    word_and_qstring(&mut d, "Comp", &p.here(), |d, x| d.comp = x)?;
+    word_and_qstring(&mut d, "Comp", &p.here()?, |d, x| d.comp = x)?;
     p.next();
-    word_and_qstring(&mut d, "Comment1", &p.here(), |d, x| d.comment1 = x)?;
+    word_and_qstring(&mut d, "Comment1", &p.here()?, |d, x| d.comment1 = x)?;
     p.next();
-    word_and_qstring(&mut d, "Comment2", &p.here(), |d, x| d.comment2 = x)?;
+    word_and_qstring(&mut d, "Comment2", &p.here()?, |d, x| d.comment2 = x)?;
     p.next();
-    word_and_qstring(&mut d, "Comment3", &p.here(), |d, x| d.comment3 = x)?;
+    word_and_qstring(&mut d, "Comment3", &p.here()?, |d, x| d.comment3 = x)?;
     p.next();
-    word_and_qstring(&mut d, "Comment4", &p.here(), |d, x| d.comment4 = x)?;
+    word_and_qstring(&mut d, "Comment4", &p.here()?, |d, x| d.comment4 = x)?;
     p.next();
-    assume_string("$EndDescr", &p.here())?;
+    assume_string("$EndDescr", &p.here()?)?;
     Ok(d)
 }
 
 fn parse_component_l(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
-    let v = parse_split_quote_aware_n(3, &p.here())?;
+    let v = parse_split_quote_aware_n(3, &p.here()?)?;
     d.set_name(v[1].clone());
     d.set_reference(v[2].clone());
     Ok(())
 }
 
 fn parse_component_u(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
-    d.u = p.here();
+    d.u = p.here()?;
     Ok(())
 }
 
 fn parse_component_ar(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
-    d.ar_path.push(p.here());
+    d.ar_path.push(p.here()?);
     Ok(())
 }
 
 fn parse_component_p(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
-    let v = parse_split_quote_aware_n(3, &p.here())?;
+    let v = parse_split_quote_aware_n(3, &p.here()?)?;
     d.x = i64_from_string(p, &v[1])?;
     d.y = i64_from_string(p, &v[2])?;
     Ok(())
 }
 
 fn parse_component_f(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
-    // println!("{}", p.here());
-    let v = parse_split_quote_aware(&p.here())?;
+    // println!("{}", p.here()?);
+    let v = parse_split_quote_aware(&p.here()?)?;
     // for i in &v[..] {
     //    println!("'{}'", i)
     // }
@@ -1266,7 +1271,7 @@ fn parse_component_f(p: &mut ParseState, d: &mut Component) -> Result<(), KicadE
 
 fn parse_component_rotation(p: &mut ParseState, d: &mut Component) -> Result<(), KicadError> {
     p.next(); // skip redundant position line
-    let s = p.here();
+    let s = p.here()?;
     let v: Vec<&str> = s.split_whitespace().collect();
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
@@ -1289,7 +1294,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
-        let s = p.here();
+        let s = p.here()?;
         if s == "$EndComp" {
             break;
         }
@@ -1310,7 +1315,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
 
 // S 5250 2300 950  3100
 fn parse_sheet_s(p: &mut ParseState, s: &mut Sheet) -> Result<(), KicadError> {
-    let v = parse_split_quote_aware_n(5, &p.here())?;
+    let v = parse_split_quote_aware_n(5, &p.here()?)?;
     s.x = i64_from_string(p, &v[1])?;
     s.y = i64_from_string(p, &v[2])?;
     s.dimx = i64_from_string(p, &v[3])?;
@@ -1320,7 +1325,7 @@ fn parse_sheet_s(p: &mut ParseState, s: &mut Sheet) -> Result<(), KicadError> {
 
 // U 5655A9F3
 fn parse_sheet_u(p: &mut ParseState, s: &mut Sheet) -> Result<(), KicadError> {
-    let v = parse_split_quote_aware_n(2, &p.here())?;
+    let v = parse_split_quote_aware_n(2, &p.here()?)?;
     s.unique = v[1].clone();
     Ok(())
 }
@@ -1361,20 +1366,20 @@ fn parse_sheet_label(p: &ParseState, s: &str) -> Result<SheetLabel, KicadError>
 }
 
 fn parse_sheet_f(p: &mut ParseState, s: &mut Sheet, f: &str) -> Result<(), KicadError> {
-    // s.u = p.here();
+    // s.u = p.here()?;
     let mut f = String::from(f);
     f.remove(0);
     let i = i64_from_string(p, &f)?;
     if i == 0 {
-        let name_size = parse_split_quote_aware_n(3, &p.here())?;
+        let name_size = parse_split_quote_aware_n(3, &p.here()?)?;
         s.name = name_size[1].clone();
         s.name_size = i64_from_string(p, &name_size[2])?;
     } else if i == 1 {
-        let filename_size = parse_split_quote_aware_n(3, &p.here())?;
+        let filename_size = parse_split_quote_aware_n(3, &p.here()?)?;
         s.filename = filename_size[1].clone();
         s.filename_size = i64_from_string(p, &filename_size[2])?;
     } else {
-        let label_el = parse_sheet_label(p, &p.here())?;
+        let label_el = parse_sheet_label(p, &p.here()?)?;
         s.labels.push(label_el)
     }
     Ok(())
@@ -1385,7 +1390,7 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
-        let st = p.here();
+        let st = p.here()?;
         if st == "$EndSheet" {
             break;
         }
@@ -1407,7 +1412,7 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
 // Wire Wire Line
 //	6100 3050 5850 3050
 fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
-    let t = p.here();
+    let t = p.here()?;
     let v: Vec<&str> = t.split_whitespace().collect();
     if v.len() != 3 {
         return str_error(format!("expecting 3 elements in {}", t));
@@ -1418,7 +1423,7 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
         _ => WireType::Wire,
     };
     p.next();
-    let s = p.here();
+    let s = p.here()?;
     let v: Vec<&str> = s.split_whitespace().collect();
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
@@ -1438,7 +1443,7 @@ fn parse_wire(p: &mut ParseState) -> Result<Wire, KicadError> {
 
 // Connection ~ 5250 3050
 fn parse_connection(p: &mut ParseState) -> Result<Connection, KicadError> {
-    let s = p.here();
+    let s = p.here()?;
     let v: Vec<&str> = s.split_whitespace().collect();
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
@@ -1450,7 +1455,7 @@ fn parse_connection(p: &mut ParseState) -> Result<Connection, KicadError> {
 
 // NoConnect ~ 5250 3050
 fn parse_no_connect(p: &mut ParseState) -> Result<NoConnect, KicadError> {
-    let s = p.here();
+    let s = p.here()?;
     let v: Vec<&str> = s.split_whitespace().collect();
     if v.len() != 4 {
         return str_error(format!("expecting 4 elements in {}", s));
@@ -1465,7 +1470,7 @@ fn parse_no_connect(p: &mut ParseState) -> Result<NoConnect, KicadError> {
 //Text Notes 8025 5400 0    60   ~ 0
 //IAMANOTE
 fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
-    let s = p.here();
+    let s = p.here()?;
     let v: Vec<&str> = s.split_whitespace().collect();
     if v.len() < 8 {
         return str_error(format!("expecting 8 or 9 elements in {}", s));
@@ -1483,6 +1488,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     let size = i64_from_string(p, &String::from(v[5]))?;
     let mut index = 6;
     let shape = if !t.is_local() {
+        if v.len() < 9 {
+            return str_error(format!("expecting 9 elements in {}", s));
+        }
         index = 7;
         Some(v[6].into())
     } else {
@@ -1494,7 +1502,7 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
-    let text = p.here();
+    let text = p.here()?;
     Ok(Text {
         t: t,
         x: x1,
@@ -1517,7 +1525,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
     assume_line!(p, "EESchema Schematic File Version 2");
     while !p.eof() {
         {
-            let s = p.here();
+            let s = p.here()?;
             if !s.starts_with("LIBS:") {
                 break;
             }
@@ -1525,15 +1533,15 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
         }
         p.next();
     }
-    if !p.here().starts_with("EELAYER ") {
-        return str_error(format!("expecting EELAYER, got {}", p.here()));
+    if !p.here()?.starts_with("EELAYER ") {
+        return str_error(format!("expecting EELAYER, got {}", p.here()?));
     }
-    sch.eelayer = p.here();
+    sch.eelayer = p.here()?;
     p.next();
     assume_line!(p, "EELAYER END");
     while !p.eof() {
         {
-            match p.here().split_whitespace().next() {
+            match p.here()?.split_whitespace().next() {
                 Some("$Descr") => {
                     let d = parse_description(p)?;
                     sch.set_description(d)
@@ -1563,8 +1571,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     let w = parse_text(p)?;
                     sch.append_text(w)
                 }
-                Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                Some(_) | None => sch.append_other(p.here()?),
             }
         }
         p.next()
-- 
2.43.0


From 9a7157fd47088d54ca9f560d41ff3f1011ad376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 23/36] fix: report an error for malformed symbol libraries
 instead of crashing

Truncated files, empty lines and empty or too short flags made the parser
panic.
---
 src/symbol_lib.rs | 53 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f4ca69c..8a87783 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -587,8 +587,8 @@ macro_rules! assume_line {
         if $s.eof() {
             return str_error("end of file reached".to_string())
         }
-        if $s.here() != $exp {
-            return str_error(format!("expected '{}', got '{}'", $exp, $s.here()))
+        if $s.here()? != $exp {
+            return str_error(format!("expected '{}', got '{}'", $exp, $s.here()?))
         }
         $s.i += 1;
     )
@@ -608,8 +608,11 @@ impl ParseState {
         }
     }
 
-    fn here(&self) -> String {
-        (self.v[self.i]).clone()
+    fn here(&self) -> Result<String, KicadError> {
+        match self.v.get(self.i) {
+            Some(s) => Ok(s.clone()),
+            None => str_error("end of file reached".to_string()),
+        }
     }
 
     fn next(&mut self) {
@@ -631,14 +634,14 @@ fn assume_string(e: &'static str, s: &str) -> Result<(), KicadError> {
 fn i64_from_string(p: &ParseState, s: &str) -> Result<i64, KicadError> {
     match i64::from_str(s) {
         Ok(i) => Ok(i),
-        _ => str_error(format!("int parse error in {}; line: {}", s, p.here())),
+        _ => str_error(format!("int parse error in {}; line: {}", s, p.here()?)),
     }
 }
 
 fn f64_from_string(p: &ParseState, s: &str) -> Result<f64, KicadError> {
     match f64::from_str(s) {
         Ok(i) => Ok(i),
-        _ => str_error(format!("float parse error in {}; line: {}", s, p.here())),
+        _ => str_error(format!("float parse error in {}; line: {}", s, p.here()?)),
     }
 }
 
@@ -652,15 +655,17 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
     str_error(format!("unknown boolean {}, expected {} or {}", s, t, f))
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("expecting at least {} characters in '{}'", p + 1, s)),
+    }
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next(); // skip line like # name
     assume_line!(p, "#");
-    let s = p.here();
+    let s = p.here()?;
     let v = &parse_split_quote_aware(&s)?;
     if v.len() != 10 {
         return str_error(format!("unexpected elements in {}", s));
@@ -675,8 +680,8 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     s.is_power = bool_from_string(&v[9], "P", "N")?;
     p.next();
     loop {
-        let s2 = p.here();
-        if char_at(&s2, 0) == 'F' {
+        let s2 = p.here()?;
+        if s2.starts_with('F') {
             let f = parse_field(p, &s2)?;
             s.fields.push(f);
             p.next();
@@ -684,19 +689,19 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
-    if &p.here() == "$FPLIST" {
+    if &p.here()? == "$FPLIST" {
         p.next();
         // skip FPLIST for now
         while !p.eof() {
-            if &p.here() == "$ENDFPLIST" {
+            if &p.here()? == "$ENDFPLIST" {
                 p.next();
                 break;
             }
             p.next()
         }
     }
-    if p.here().starts_with("ALIAS") {
-        let v = parse_split_quote_aware(&p.here())?;
+    if p.here()?.starts_with("ALIAS") {
+        let v = parse_split_quote_aware(&p.here()?)?;
         for alias in v.into_iter().skip(1) {
             s.aliases.push(alias)
         }
@@ -705,7 +710,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     // TODO draw
     assume_line!(p, "DRAW");
     while !p.eof() {
-        let s2 = p.here();
+        let s2 = p.here()?;
         if &s2 == "ENDDRAW" {
             p.next();
             break;
@@ -761,12 +766,12 @@ fn parse_field(p: &mut ParseState, line: &str) -> Result<Field, KicadError> {
     f.x = f64_from_string(p, &v[2])?;
     f.y = f64_from_string(p, &v[3])?;
     f.dimension = i64_from_string(p, &v[4])?;
-    f.orientation = schematic::Orientation::new(char_at(&v[5], 0))?;
+    f.orientation = schematic::Orientation::new(char_at(&v[5], 0)?)?;
     f.visible = bool_from_string(&v[6], "V", "I")?;
-    f.hjustify = schematic::Justify::new(char_at(&v[7], 0))?;
-    f.vjustify = schematic::Justify::new(char_at(&v[8], 0))?;
-    f.italic = bool_from(char_at(&v[8], 1), 'I', 'N')?;
-    f.bold = bool_from(char_at(&v[8], 2), 'B', 'N')?;
+    f.hjustify = schematic::Justify::new(char_at(&v[7], 0)?)?;
+    f.vjustify = schematic::Justify::new(char_at(&v[8], 0)?)?;
+    f.italic = bool_from(char_at(&v[8], 1)?, 'I', 'N')?;
+    f.bold = bool_from(char_at(&v[8], 2)?, 'B', 'N')?;
     f.name = name;
     Ok(f)
 }
@@ -824,8 +829,8 @@ fn parse(s: &str) -> Result<SymbolLib, KicadError> {
     assume_line!(p, "#encoding utf-8");
     assume_line!(p, "#");
     while !p.eof() {
-        // println!("here: {}", &p.here());
-        if &p.here() == "#End Library" {
+        // println!("here: {}", &p.here()?);
+        if &p.here()? == "#End Library" {
             break;
         }
         let s = parse_symbol(p)?;
-- 
2.43.0


From ec64baa95f4310aa3eb335bf5a97f9811c2ccead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 24/36] fix: do not crash on symbols without a value field

A symbol made with Symbol::new has no fields, so it could not be renamed or
written.
---
 src/symbol_lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 8a87783..20e768a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -290,13 +290,14 @@ impl Symbol {
 
     /// set the name of the symbol
     pub fn set_name(&mut self, name: &str) {
-        if char_at(&self.name, 0) == '~' {
+        if self.name.starts_with('~') {
             self.name = format!("~{}", name)
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        if let Some(field) = self.fields.get_mut(1) {
+            field.value = name.to_string()
+        }
     }
 
     /// get the list of pins on the symbol
@@ -331,7 +332,10 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        match self.fields.get(1) {
+            Some(field) => writeln!(f, "# {}", field.value)?,
+            None => writeln!(f, "# {}", self.name)?,
+        }
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From 868d015068df1b6e35f036d259918df19f779d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:59 +0000
Subject: [PATCH 25/36] fix: keep the footprint filters of symbols

The $FPLIST section was skipped, so it got lost when writing the library. As
KiCad puts the aliases before it, libraries with both could not be read.
---
 src/symbol_lib.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 20e768a..dbef40a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -47,6 +47,8 @@ pub struct Symbol {
     pub fields: Vec<Field>,
     /// aliases
     pub aliases: Vec<String>,
+    /// footprint filters
+    pub footprint_filters: Vec<String>,
     /// draw
     pub draw: Vec<Draw>,
 }
@@ -284,6 +286,7 @@ impl Symbol {
             is_power: false,
             fields: vec![],
             aliases: vec![],
+            footprint_filters: vec![],
             draw: vec![],
         }
     }
@@ -360,6 +363,13 @@ impl fmt::Display for Symbol {
             }
             writeln!(f, "")?;
         }
+        if !self.footprint_filters.is_empty() {
+            writeln!(f, "$FPLIST")?;
+            for filter in &self.footprint_filters {
+                writeln!(f, " {}", filter)?;
+            }
+            writeln!(f, "$ENDFPLIST")?;
+        }
         writeln!(f, "DRAW")?;
         for draw in &self.draw {
             writeln!(f, "{}", draw)?
@@ -693,24 +703,17 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
+    // the aliases normally come first, but accept them after the filters as well
+    parse_aliases(p, &mut s)?;
     if &p.here()? == "$FPLIST" {
         p.next();
-        // skip FPLIST for now
-        while !p.eof() {
-            if &p.here()? == "$ENDFPLIST" {
-                p.next();
-                break;
-            }
+        while &p.here()? != "$ENDFPLIST" {
+            s.footprint_filters.push(p.here()?.trim().to_string());
             p.next()
         }
-    }
-    if p.here()?.starts_with("ALIAS") {
-        let v = parse_split_quote_aware(&p.here()?)?;
-        for alias in v.into_iter().skip(1) {
-            s.aliases.push(alias)
-        }
         p.next();
     }
+    parse_aliases(p, &mut s)?;
     // TODO draw
     assume_line!(p, "DRAW");
     while !p.eof() {
@@ -736,6 +739,17 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     Ok(s)
 }
 
+fn parse_aliases(p: &mut ParseState, s: &mut Symbol) -> Result<(), KicadError> {
+    if p.here()?.starts_with("ALIAS") {
+        let v = parse_split_quote_aware(&p.here()?)?;
+        for alias in v.into_iter().skip(1) {
+            s.aliases.push(alias)
+        }
+        p.next();
+    }
+    Ok(())
+}
+
 #[cfg_attr(feature = "cargo-clippy", allow(needless_pass_by_value))]
 fn bool_from<T: PartialEq + fmt::Display>(i: T, t: T, f: T) -> Result<bool, KicadError> {
     if i == t {
-- 
2.43.0


From 7df8f39d3e7fff21beab067416841ef51bfe93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:21 +0000
Subject: [PATCH 26/36] fix: report unreadable sheets of sheets when looking
 for a component

An error in a sheet below a sub-sheet was taken as the component not being
there, so the search went on and could return another component of the same
reference from a later sheet.
---
 src/schematic.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 2f9a6b5..6953b16 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -172,10 +172,21 @@ impl Schematic {
 
     /// get a component by reference
     pub fn component_by_reference(&self, reference: &str) -> Result<Component, KicadError> {
+        match self.find_component(reference)? {
+            Some(c) => Ok(c),
+            None => str_error(format!(
+                "could not find component {} in schematic",
+                reference
+            )),
+        }
+    }
+
+    // search a component, not finding it is no error but an unreadable sheet is
+    fn find_component(&self, reference: &str) -> Result<Option<Component>, KicadError> {
         for x in &self.elements {
             match *x {
                 Element::Component(ref c) => if c.reference == *reference {
-                    return Ok(c.clone());
+                    return Ok(Some(c.clone()));
                 },
                 Element::Wire(_) |
                 Element::Connection(_) |
@@ -186,14 +197,11 @@ impl Schematic {
         }
         for sheet in &self.sheets {
             let schematic = parse_file_for_sheet(self, sheet)?;
-            if let Ok(c) = schematic.component_by_reference(reference) {
-                return Ok(c);
+            if let Some(c) = schematic.find_component(reference)? {
+                return Ok(Some(c));
             }
         }
-        str_error(format!(
-            "could not find component {} in schematic",
-            reference
-        ))
+        Ok(None)
     }
 
     /// increment the sheet counter of the schematic
-- 
2.43.0


From 13e7413b9d82fa322277ae60259cf6db5d48f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:21 +0000
Subject: [PATCH 27/36] fix: recognise only complete names of unnamed nets

Names like Net-(R1-Pad1)x or Net-(a)b- were taken as unnamed nets too, and
setting the component in them dropped or changed the rest of the name.
---
 src/layout/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 10f1f54..25e6188 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -913,7 +913,7 @@ impl NetName {
     pub fn is_unnamed_net(&self) -> Option<(String, String)> {
         if self.0.starts_with("Net-(") {
             let v: Vec<&str> = self.0.split(|c| c == '-' || c == '(' || c == ')').collect();
-            if v.len() != 5 {
+            if v.len() != 5 || self.0 != format!("Net-({}-{})", v[2], v[3]) {
                 None
             } else {
                 Some((v[2].into(), v[3].into()))
-- 
2.43.0


From 91f07655178ada51509b661decc2de5c1407f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:32 +0000
Subject: [PATCH 28/36] fix: report an error for lists nested too deep instead
 of overflowing the stack

---
 src/footprint/mod.rs |  4 ++--
 src/fp_lib_table.rs  |  3 ++-
 src/layout/mod.rs    |  4 ++--
 src/lib.rs           | 38 ++++++++++++++++++++++++++++++++++++++
 4 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/footprint/mod.rs b/src/footprint/mod.rs
index 771a7e6..6db2422 100644
--- a/src/footprint/mod.rs
+++ b/src/footprint/mod.rs
@@ -10,7 +10,7 @@ use std::result;
 use symbolic_expressions;
 use symbolic_expressions::IntoSexp;
 use formatter::KicadFormatter;
-use KicadError;
+use {parse_sexp, KicadError};
 
 // pub use footprint;
 pub use footprint::data::*;
@@ -55,7 +55,7 @@ impl fmt::Display for Layer {
 
 /// parse a &str to a Kicad Module
 pub fn parse(s: &str) -> Result<Module, KicadError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index e017ddc..9252896 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -9,6 +9,7 @@ use formatter::KicadFormatter;
 use symbolic_expressions::iteratom::*;
 use shellexpand;
 use error::KicadError;
+use parse_sexp;
 
 /// a fp-lib-table
 #[derive(Debug, Clone)]
@@ -90,7 +91,7 @@ impl FromSexp for Lib {
 
 /// parse a &str to an `FpLibTable`
 pub fn parse(s: &str) -> Result<FpLibTable, SexpError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/layout/mod.rs b/src/layout/mod.rs
index f407554..ee1c7da 100644
--- a/src/layout/mod.rs
+++ b/src/layout/mod.rs
@@ -10,7 +10,7 @@ use formatter::KicadFormatter;
 
 pub use layout::data::*;
 
-use {Adjust, Bound, BoundingBox, KicadError};
+use {parse_sexp, Adjust, Bound, BoundingBox, KicadError};
 
 /// convert a Kicad layout to a String
 pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, KicadError> {
@@ -23,7 +23,7 @@ pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, Ki
 
 /// parse a &str to a Kicad layout
 pub fn parse(s: &str) -> Result<Layout, KicadError> {
-    let x = match symbolic_expressions::parser::parse_str(s) {
+    let x = match parse_sexp(s) {
         Ok(s) => symbolic_expressions::from_sexp(&s),
         Err(x) => Err(format!("ParseError: {:?}", x).into()),
     };
diff --git a/src/lib.rs b/src/lib.rs
index b54d622..da52aa0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -248,6 +248,44 @@ where
     Ok(wrapper(make(s)?))
 }
 
+// lists nested deeper than this are rejected, as reading them is recursive
+const MAX_NESTING: usize = 500;
+
+// parse a symbolic expression
+fn parse_sexp(s: &str) -> result::Result<Sexp, SexpError> {
+    let mut depth = 0;
+    // inside a quoted string, after a \ in it, inside a string without quotes
+    let (mut quoted, mut escaped, mut bare) = (false, false, false);
+    for c in s.chars() {
+        if quoted {
+            quoted = c != '"' || escaped;
+            escaped = c == '\\';
+            continue;
+        }
+        match c {
+            '(' => {
+                depth += 1;
+                bare = false;
+                if depth > MAX_NESTING {
+                    return Err(format!("lists are nested more than {} deep", MAX_NESTING).into());
+                }
+            }
+            ')' if depth > 0 => {
+                depth -= 1;
+                bare = false;
+                if depth == 0 {
+                    break;
+                }
+            }
+            '"' if !bare => quoted = true,
+            ' ' | '\r' | '\n' => bare = false,
+            '\t' if !bare => (),
+            _ => bare = true,
+        }
+    }
+    symbolic_expressions::parser::parse_str(s)
+}
+
 // the name a list starts with
 fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
     if s.list()?.is_empty() {
-- 
2.43.0


From 5f8ac0166db7c357a0db1591331d21b1c044b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:17 +0000
Subject: [PATCH 29/36] fix: compute the bounding box of a sheet without
 integer overflow

---
 src/schematic.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 6953b16..3bcca61 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -843,11 +843,12 @@ pub struct Sheet {
 
 impl BoundingBox for Sheet {
     fn bounding_box(&self) -> Bound {
-        Bound::new_from_i64(
-            self.x,
-            self.y - 100,
-            self.x + self.dimx,
-            self.y + self.dimy + 100,
+        let (x, y) = (self.x as f64, self.y as f64);
+        Bound::new(
+            x,
+            y - 100.0,
+            x + self.dimx as f64,
+            y + self.dimy as f64 + 100.0,
         )
     }
 }
-- 
2.43.0


From 59373dbb5cbe8d13cda305ff48905478255ee46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:50 +0000
Subject: [PATCH 30/36] fix: expand variables whose names start with a
 multi-byte character instead of panicking

---
 src/fp_lib_table.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 9252896..0bea428 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -36,11 +36,42 @@ pub struct Lib {
 impl Lib {
     /// return the URI with environment variables substituted
     pub fn get_expanded_uri(&self) -> Result<String, KicadError> {
-        let s = shellexpand::full(&self.uri)?;
+        let uri = brace_variables(&self.uri);
+        let s = shellexpand::full(&uri)?;
         Ok(s.into())
     }
 }
 
+// shellexpand panics on a variable without braces when its name starts with
+// a multi-byte character, so put such names in braces
+fn brace_variables(uri: &str) -> String {
+    let mut out = String::with_capacity(uri.len());
+    let mut rest = uri;
+    while let Some(i) = rest.find('$') {
+        let (before, reference) = rest.split_at(i);
+        out.push_str(before);
+        let name = &reference[1..];
+        let len = if name.starts_with('$') {
+            1
+        } else if name.starts_with('{') {
+            name.find('}').map_or(1, |i| i + 1)
+        } else {
+            name.find(|c: char| !c.is_alphanumeric() && c != '_')
+                .unwrap_or_else(|| name.len())
+        };
+        let (name, after) = name.split_at(len);
+        if name.starts_with(|c: char| c.len_utf8() > 1) {
+            out.push_str(&format!("${{{}}}", name));
+        } else {
+            out.push('$');
+            out.push_str(name);
+        }
+        rest = after;
+    }
+    out.push_str(rest);
+    out
+}
+
 impl IntoSexp for FpLibTable {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("fp_lib_table");
-- 
2.43.0


From f8268c586f3885491dbcbcf4a39edeeefe540afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:07 +0000
Subject: [PATCH 31/36] fix: write a readable page size for schematics without
 a description

A schematic file without a description block was read with an empty page
size, and writing it gave a description line that could not be read back.
Use the A4 page KiCad itself starts from.
---
 src/schematic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 3bcca61..c2947df 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -320,9 +320,9 @@ pub struct Description {
 impl Default for Description {
     fn default() -> Description {
         Description {
-            size: String::from(""),
-            dimx: 0,
-            dimy: 0,
+            size: String::from("A4"),
+            dimx: 11693,
+            dimy: 8268,
             portrait: false,
             title: String::from("Normal"),
             date: String::from("Tue 19 May 2015"),
-- 
2.43.0


From 72513c9703edbe2be1d753df28d456f2d24beef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:35 +0000
Subject: [PATCH 32/36] fix: leave out the stamp line of sheets without a stamp

A sheet block without its U line was accepted, but was written with an
empty U line that could not be read back.
---
 src/schematic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index c2947df..5910f62 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -874,7 +874,9 @@ impl fmt::Display for Sheet {
     fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
         writeln!(f, "$Sheet")?;
         writeln!(f, "S {} {} {} {}", self.x, self.y, self.dimx, self.dimy)?;
-        writeln!(f, "U {}", self.unique)?;
+        if !self.unique.is_empty() {
+            writeln!(f, "U {}", self.unique)?;
+        }
         writeln!(f, "F0 \"{}\" {}", self.name, self.name_size)?;
         writeln!(f, "F1 \"{}\" {}", self.filename, self.filename_size)?;
         let mut i = 2;
-- 
2.43.0


From 5b94b4d960093d75f4c117e503b9cc021451d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:10 +0000
Subject: [PATCH 33/36] fix: write a readable unit number when the U line has
 none

---
 src/schematic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 5910f62..c747a46 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -612,7 +612,11 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            self.u.split_whitespace().nth(1).unwrap_or("1"),
+            self.u
+                .split_whitespace()
+                .nth(1)
+                .filter(|x| i64::from_str(x).is_ok())
+                .unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
-- 
2.43.0


From 61f97e3343dbfc9a4992ff70bfe586e48b61f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:12 +0000
Subject: [PATCH 34/36] fix: give new schematics a layer line, so that they can
 be read back

---
 src/schematic.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index c747a46..953c1ba 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -16,7 +16,7 @@ use parse_split_quote_aware;
 use parse_split_quote_aware_n;
 
 /// a Kicad schematic
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct Schematic {
     /// filename of the schematic
     pub filename: Option<PathBuf>,
@@ -32,6 +32,19 @@ pub struct Schematic {
     pub eelayer: String,
 }
 
+impl Default for Schematic {
+    fn default() -> Schematic {
+        Schematic {
+            filename: None,
+            libraries: vec![],
+            description: Description::default(),
+            elements: vec![],
+            sheets: vec![],
+            eelayer: String::from("EELAYER 25 0"),
+        }
+    }
+}
+
 impl BoundingBox for Schematic {
     fn bounding_box(&self) -> Bound {
         let mut b = Bound::default();
-- 
2.43.0


From a048e1e0f5c6d03de64d8bef204ceb5740914d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:45 +0000
Subject: [PATCH 35/36] fix: give the points of default graphics and tracks
 their names, so that they can be read back

---
 src/layout/data.rs | 60 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 25e6188..dc42d45 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -371,7 +371,7 @@ impl BoundingBox for GrText {
 }
 
 /// line
-#[derive(Clone, Debug, Default)]
+#[derive(Clone, Debug)]
 pub struct GrLine {
     /// start point
     pub start: footprint::Xy,
@@ -387,6 +387,19 @@ pub struct GrLine {
     pub tstamp: Option<String>,
 }
 
+impl Default for GrLine {
+    fn default() -> GrLine {
+        GrLine {
+            start: footprint::Xy::new_empty(footprint::XyType::Start),
+            end: footprint::Xy::new_empty(footprint::XyType::End),
+            angle: 0.0,
+            layer: footprint::Layer::default(),
+            width: 0.0,
+            tstamp: None,
+        }
+    }
+}
+
 impl Adjust for GrLine {
     fn adjust(&mut self, x: f64, y: f64) {
         self.start.adjust(x, y);
@@ -405,7 +418,7 @@ impl BoundingBox for GrLine {
 }
 
 /// arc
-#[derive(Clone, Debug, Default)]
+#[derive(Clone, Debug)]
 pub struct GrArc {
     /// start point
     pub start: footprint::Xy,
@@ -421,6 +434,19 @@ pub struct GrArc {
     pub tstamp: Option<String>,
 }
 
+impl Default for GrArc {
+    fn default() -> GrArc {
+        GrArc {
+            start: footprint::Xy::new_empty(footprint::XyType::Start),
+            end: footprint::Xy::new_empty(footprint::XyType::End),
+            angle: 0.0,
+            layer: footprint::Layer::default(),
+            width: 0.0,
+            tstamp: None,
+        }
+    }
+}
+
 impl Adjust for GrArc {
     fn adjust(&mut self, x: f64, y: f64) {
         self.start.adjust(x, y);
@@ -440,7 +466,7 @@ impl BoundingBox for GrArc {
 
 /// `gr_circle`
 // (gr_circle (center 178.6 68.8) (end 176.1 68.7) (layer Eco2.User) (width 0.2))
-#[derive(Clone, Debug, Default)]
+#[derive(Clone, Debug)]
 pub struct GrCircle {
     /// center point
     pub center: footprint::Xy,
@@ -454,6 +480,18 @@ pub struct GrCircle {
     pub tstamp: Option<String>,
 }
 
+impl Default for GrCircle {
+    fn default() -> GrCircle {
+        GrCircle {
+            center: footprint::Xy::new_empty(footprint::XyType::Center),
+            end: footprint::Xy::new_empty(footprint::XyType::End),
+            layer: footprint::Layer::default(),
+            width: 0.0,
+            tstamp: None,
+        }
+    }
+}
+
 impl Adjust for GrCircle {
     fn adjust(&mut self, x: f64, y: f64) {
         self.center.x += x;
@@ -536,7 +574,7 @@ impl BoundingBox for Dimension {
 
 /// segment
 // (segment (start 117.5548 123.4602) (end 118.3848 122.6302) (width 0.2032) (layer B.Cu) (net 0) (tstamp 55E99398) (status foo))
-#[derive(Clone, Debug, Default)]
+#[derive(Clone, Debug)]
 pub struct Segment {
     /// start point
     pub start: footprint::Xy,
@@ -554,6 +592,20 @@ pub struct Segment {
     pub status: Option<String>,
 }
 
+impl Default for Segment {
+    fn default() -> Segment {
+        Segment {
+            start: footprint::Xy::new_empty(footprint::XyType::Start),
+            end: footprint::Xy::new_empty(footprint::XyType::End),
+            width: 0.0,
+            layer: footprint::Layer::default(),
+            net: 0,
+            tstamp: None,
+            status: None,
+        }
+    }
+}
+
 impl Adjust for Segment {
     fn adjust(&mut self, x: f64, y: f64) {
         self.start.adjust(x, y);
-- 
2.43.0


From 76d2c196f264c13d024eea220321b9167835da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:01 +0000
Subject: [PATCH 36/36] fix: order the corners of the box of a sheet with a
 negative size

---
 src/schematic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 953c1ba..642c44a 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -861,11 +861,12 @@ pub struct Sheet {
 impl BoundingBox for Sheet {
     fn bounding_box(&self) -> Bound {
         let (x, y) = (self.x as f64, self.y as f64);
+        let (x2, y2) = (x + self.dimx as f64, y + self.dimy as f64);
         Bound::new(
-            x,
-            y - 100.0,
-            x + self.dimx as f64,
-            y + self.dimy as f64 + 100.0,
+            x.min(x2),
+            y.min(y2) - 100.0,
+            x.max(x2),
+            y.max(y2) + 100.0,
         )
     }
 }
-- 
2.43.0

