From 2daacd82191546add50301ce15416114d63e2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 01/21] fix: don't panic on a lone sign or an exponent without
 digits in a value

---
 src/bracket_expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..e18c1fd 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -148,7 +148,8 @@ pub fn extract_value(text: &str) -> Option<f64> {
     let mut text_iter = text.chars();
 
     fn eval( txt :&str, mult: f64) -> Option<f64> {
-        Some( txt.parse::<f64>().unwrap() * mult )
+        // not everything gathered so far is a number, e.g. a lone sign or `1e+`
+        txt.parse::<f64>().ok().map(|val| val * mult)
     }
 
     'things: loop {
-- 
2.43.0


From 406d7dd6364b335dba161b5ba4a7fb925943d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 02/21] fix: reject unterminated and empty bracket expressions
 instead of panicking

---
 src/bracket_expression.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index e18c1fd..66ceb54 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -62,35 +62,29 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
         return None
     }
 
-    while expr_str[i].is_whitespace() {
+    while i < expr_str.len() && expr_str[i].is_whitespace() {
         i += 1;
-        if i >expr_str.len() {
-            return None;
-        }
     }
 
     trace!("looking for identifier");
     let mut ident_chars: Vec<char> = vec![];
-    while expr_str[i].is_ascii_alphanumeric() {
+    while i < expr_str.len() && expr_str[i].is_ascii_alphanumeric() {
         ident_chars.push(expr_str[i]);
         i += 1;
-        if i > expr_str.len() {
-            return None;
-        }
     }
 
     let ident: String = ident_chars.into_iter().collect();
+    if ident.is_empty() {
+        println!("*ERROR* - expected an identifier");
+        return None
+    }
 
     trace!("looking for '}}'");
-    while expr_str[i].is_whitespace() {
+    while i < expr_str.len() && expr_str[i].is_whitespace() {
         i += 1;
-        if i > expr_str.len() {
-            return None;
-        }
     }
 
-    if expr_str[i] == '}' {
-    } else {
+    if i >= expr_str.len() || expr_str[i] != '}' {
         println!("*ERROR* - expected '}}'");
         return None
     }
-- 
2.43.0


From ab65825c8216294a0786b6fd144a79b8d9d554a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 03/21] fix: PWL sources hit their first and last points, hold
 the last value, and stay 0 before the delay

---
 src/element/vpwl.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..24a9cba 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,16 +29,23 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && (t >= (self.t_delay + t_period)) {
             return self.pat[idx_last].1;
         }
 
-        // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
+        // nothing happens until the delay is over
+        if t < self.t_delay {
             return 0.0;
         }
 
+        // all the points are at the start of the cycle
+        if t_period <= 0.0 {
+            return self.pat[idx_last].1;
+        }
+
+        // where in the cycle are we?
+        let t_cycle = ( t - self.t_delay ) % t_period;
+
         // find out which points we're between...
         let mut t1 = 0.0;
         let mut t2 = 0.0;
@@ -59,10 +66,11 @@ impl VoltageSourcePwl {
         //dbg!(t1,v1, t2,v2);
 
         // ... and interpolate between them
-        let mut gradient = (v2-v1) / (t2-t1);
-        if gradient.is_nan() {
-            gradient = 0.0;
+        // (a first point at the very start of the cycle has nothing before it)
+        if t2 == t1 {
+            return v2;
         }
+        let gradient = (v2-v1) / (t2-t1);
         gradient * (t_cycle - t1) + v1
 
     }
-- 
2.43.0


From f04e4dbb6e1ccf49a7f2a73378f2a78f8b45aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 04/21] fix: report non-finite unknowns in the convergence
 check, and don't accept a step from NaN

---
 src/engine.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..56215d5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -962,8 +962,7 @@ impl Engine {
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
                 println!("*ERROR* math gone bad - infinites in convergence check {}", i);
-                res = Err(ConvergenceError::Divergent);
-                continue;
+                return Err(ConvergenceError::Divergent);
             }
             let limit: f64 = if i < self.c_nodes {
                 x.abs() * cfg.RELTOL + cfg.VNTOL
@@ -973,7 +972,8 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            let within = this <= limit; // never true for a NaN
+            if !within {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From 5d24d9233eed017b4b123a3aae0671cfb71323b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 05/21] fix: forget the previous circuit's elements when an
 engine is used again

---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 56215d5..3c0141e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -458,6 +458,12 @@ impl Engine {
 
     /// Look at the circuit, and initialise linear version of the matrix
     fn elaborate(&mut self, ckt: &circuit::Circuit) {
+        // forget the elements of whatever circuit was simulated before
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // assume here that nodes have been indexed 0 -> N-1
         // where n is the number of nodes (including ground) in the circuit
 
-- 
2.43.0


From 09b7caae14ea0114e9f55412da4dfe42a7a191bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 06/21] fix: read a PWL source written without blanks

---
 src/spice.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..9011f13 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -228,11 +228,7 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Vdc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN(") {
+                    if bits[3].starts_with("SIN(") {
                         trace!("*INFO* Vsin");
                         let src = self.extract_v_sine(&bits);
                         self.ckts[self.c].add_v_sin(src);
@@ -240,6 +236,10 @@ impl Reader {
                         trace!("*INFO* Vpwl");
                         let src = self.extract_v_pwl(&bits);
                         self.ckts[self.c].add_v_pwl(src);
+                    } else if bits.len() == 4 {
+                        trace!("*INFO* Vdc");
+                        let value = extract_value(bits[3]);
+                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
-- 
2.43.0


From 24a24be97f53e3ae66c6bdf4ba5b36fb35d78a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 07/21] fix: a semicolon starts a comment wherever it is on the
 line

---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 9011f13..e74f8f5 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let card = line.split(';').next().unwrap_or("");
+            let bits :Vec<&str> = card.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From a975dabb78489f26a0ce6828725b7fa53ac31f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 08/21] fix: name a node with aliases the same way in every run

---
 src/circuit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..35eb006 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -409,9 +409,15 @@ impl Circuit {
 
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
+    ///
+    /// A node can have many aliases. Pick the one highest up the hierarchy.
     pub fn build_node_id_lut(&mut self) {
+        let rank = |name: &str| (name.matches('.').count(), name.to_string());
         for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+            match self.node_id_lut.get(id) {
+                Some(alias) if rank(alias) <= rank(name) => {},
+                _ => { self.node_id_lut.insert(*id, String::from(name)); }
+            }
         }
     }
 
-- 
2.43.0


From e35fd0b97df12f8ae8702ca8619c4683ea360542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 09/21] fix: don't panic on an option command without a value

---
 src/spice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index e74f8f5..0cdcb4a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -399,7 +399,7 @@ impl Reader {
         }
 
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
-        if bits[2] != "=" {
+        if bits.len() < 4 || bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
             return;
         }
-- 
2.43.0


From fe6fb017e1cddc37529dd8f812787b23f7c6915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 10/21] fix: don't panic on a tran command without step or stop
 time

---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index 0cdcb4a..c4470a2 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -181,6 +181,7 @@ impl Reader {
                     if bits.len() < 3 {
                         println!("*ERROR* not enough trans info");
                         self.there_are_errors = true;
+                        continue;
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
-- 
2.43.0


From 7a5113a6547b1db076e9b37de0f0066e04bba26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 11/21] fix: keep the independent sources of a subcircuit when
 expanding it

---
 src/expander.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..d250d98 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -39,6 +39,7 @@
 
 use crate::element::{Element};
 use crate::circuit::{Circuit, Instance};
+use crate::circuit::{CurrentSourceSine, VoltageSourceSine, VoltageSourcePwl};
 use crate::circuit::{NodeId};
 
 use crate::element::resistor::Resistor;
@@ -337,11 +338,51 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These aren't instances - the reader adds them directly to the list of
+/// elements of the (sub)circuit.
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    subckt_id: usize,
+    hier: &[String]
+) {
+    for el in &ckts[subckt_id].elements {
+        let mut connect = |nid| local_connect(ckts, ckt, subckt_id, hier, nid);
+        match el {
+            Element::I(src) => {
+                let (p, n) = (connect(src.p), connect(src.n));
+                ckt.add_i(p, n, src.value);
+            },
+            Element::V(src) => {
+                let (p, n) = (connect(src.p), connect(src.n));
+                ckt.add_v(p, n, src.value);
+            },
+            Element::Isin(src) => {
+                let (p, n) = (connect(src.p), connect(src.n));
+                ckt.add_i_sin(CurrentSourceSine { p, n, ..src.clone() });
+            },
+            Element::Vsin(src) => {
+                let (p, n) = (connect(src.p), connect(src.n));
+                ckt.add_v_sin(VoltageSourceSine { p, n, ..src.clone() });
+            },
+            Element::Vpwl(src) => {
+                let (p, n) = (connect(src.p), connect(src.n));
+                ckt.add_v_pwl(VoltageSourcePwl { p, n, ..src.clone() });
+            },
+            _ => { println!("*ERROR* unexpected element in a subcircuit: {}", el); }
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From 3883427680bd03e5ce75f3f4ad59bb920114ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 12/21] fix: check the node names of subcircuit ports and
 instances too

---
 src/spice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index c4470a2..494bd0b 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -305,7 +305,7 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            self.extract_node(nn);
                             num_ports += 1;
                         }
                         self.ckts[self.c].num_ports = num_ports;
@@ -615,7 +615,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From 711c16f66b59db58577b81c0db4866e792e487e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 13/21] fix: report device cards with missing or bad values as
 errors

---
 src/spice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 494bd0b..38ef742 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -244,30 +244,35 @@ impl Reader {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -734,6 +739,9 @@ impl Reader {
             if let Some(expr) = extract_expression(param_text) {
                 let param = Parameter::override_from_expression(&name, &expr);
                 inst.params.push(param);
+            } else if p < min_num_params {
+                println!("*ERROR* bad value: '{}'", param_text);
+                return None
             } else {
                 println!("*WARN* or maybe an err, i dunno");
             }
-- 
2.43.0


From ea30624e7d65120daf49c54b880bb4b0e6df3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 14/21] fix: report source cards with missing or bad values as
 errors instead of panicking or ignoring them

---
 src/spice.rs | 96 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 38ef742..3f5f7dd 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -208,36 +208,51 @@ impl Reader {
                     self.c = 0; // point back to toplevel
                 } else if bits[0].starts_with('I') {
                     let _ = extract_identifier(bits[0]);
+                    if bits.len() < 4 {
+                        println!("*ERROR* current source without nodes or value");
+                        self.there_are_errors = true;
+                        continue;
+                    }
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Idc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN") {
+                    if bits[3].starts_with("SIN") {
                         trace!("*INFO* Isin");
-                        let src = self.extract_i_sine(&bits);
-                        self.ckts[self.c].add_i_sin(src);
+                        if let Some(src) = self.extract_i_sine(&bits) {
+                            self.ckts[self.c].add_i_sin(src);
+                        }
+                    } else if let (Some(value), 4) = (extract_value(bits[3]), bits.len()) {
+                        trace!("*INFO* Idc");
+                        self.ckts[self.c].add_i(node1, node2, value);
+                    } else {
+                        println!("*ERROR* weird current source: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
+                    if bits.len() < 4 {
+                        println!("*ERROR* voltage source without nodes or value");
+                        self.there_are_errors = true;
+                        continue;
+                    }
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
                     if bits[3].starts_with("SIN(") {
                         trace!("*INFO* Vsin");
-                        let src = self.extract_v_sine(&bits);
-                        self.ckts[self.c].add_v_sin(src);
+                        if let Some(src) = self.extract_v_sine(&bits) {
+                            self.ckts[self.c].add_v_sin(src);
+                        }
                     } else if bits[3].starts_with("PWL(") {
                         trace!("*INFO* Vpwl");
-                        let src = self.extract_v_pwl(&bits);
-                        self.ckts[self.c].add_v_pwl(src);
-                    } else if bits.len() == 4 {
+                        if let Some(src) = self.extract_v_pwl(&bits) {
+                            self.ckts[self.c].add_v_pwl(src);
+                        }
+                    } else if let (Some(value), 4) = (extract_value(bits[3]), bits.len()) {
                         trace!("*INFO* Vdc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
+                        self.ckts[self.c].add_v(node1, node2, value);
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
@@ -426,7 +441,7 @@ impl Reader {
     }
 
     /// Parse a Sine Current Source description from SPICE
-    fn extract_i_sine(&mut self, bits: &[&str]) -> CurrentSourceSine {
+    fn extract_i_sine(&mut self, bits: &[&str]) -> Option<CurrentSourceSine> {
         let _ = extract_identifier(bits[0]);
         let node1 = self.extract_node(bits[1]);
         let node2 = self.extract_node(bits[2]);
@@ -446,25 +461,26 @@ impl Reader {
         line = line.replace(')', "");
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
-        if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+        let values :Vec<f64> = all_bits.iter().filter_map(|b| extract_value(b)).collect();
+        if all_bits.len() != 3 || values.len() != 3 {
+            println!("*ERROR* SIN() needs three values");
+            self.there_are_errors = true;
+            return None;
         }
-        let offset = extract_value(all_bits[0]).unwrap();
-        let amplitude = extract_value(all_bits[1]).unwrap();
-        let frequency = extract_value(all_bits[2]).unwrap();
+        let (offset, amplitude, frequency) = (values[0], values[1], values[2]);
         trace!("*INFO* ISIN {} {} {}", offset, amplitude, frequency);
 
-        CurrentSourceSine {
+        Some(CurrentSourceSine {
             p: node1,
             n: node2,
             vo: offset,
             va: amplitude,
             freq: frequency,
-        }
+        })
     }
 
     // extract the stuff from SIN()
-    fn extract_v_sine(&mut self, bits: &[&str]) -> VoltageSourceSine {
+    fn extract_v_sine(&mut self, bits: &[&str]) -> Option<VoltageSourceSine> {
         let _ = extract_identifier(bits[0]);
         let node1 = self.extract_node(bits[1]);
         let node2 = self.extract_node(bits[2]);
@@ -484,27 +500,28 @@ impl Reader {
         line = line.replace(')', "");
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
-        if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+        let values :Vec<f64> = all_bits.iter().filter_map(|b| extract_value(b)).collect();
+        if all_bits.len() != 3 || values.len() != 3 {
+            println!("*ERROR* SIN() needs three values");
+            self.there_are_errors = true;
+            return None;
         }
-        let offset = extract_value(all_bits[0]).unwrap();
-        let amplitude = extract_value(all_bits[1]).unwrap();
-        let frequency = extract_value(all_bits[2]).unwrap();
+        let (offset, amplitude, frequency) = (values[0], values[1], values[2]);
         trace!("*INFO* VSIN {} {} {}", offset, amplitude, frequency);
 
-        VoltageSourceSine {
+        Some(VoltageSourceSine {
             p: node1,
             n: node2,
             vo: offset,
             va: amplitude,
             freq: frequency,
             idx: 0
-        }
+        })
     }
 
 
     /// extract the stuff from PWL
-    fn extract_v_pwl(&mut self, bits: &[&str]) -> VoltageSourcePwl {
+    fn extract_v_pwl(&mut self, bits: &[&str]) -> Option<VoltageSourcePwl> {
         let _ = extract_identifier(bits[0]);
         let node1 = self.extract_node(bits[1]);
         let node2 = self.extract_node(bits[2]);
@@ -571,19 +588,22 @@ impl Reader {
         let mut tvs: Vec<(f64, f64)> = vec![];
 
         for tv_pair in all_bits.chunks(2) {
-            if tv_pair.len() == 1 {
-                println!("*WARNING* Unmatched time value: {}", tv_pair[0]);
+            let t = tv_pair.first().and_then(|t| extract_value(t.trim()));
+            let v = tv_pair.get(1).and_then(|v| extract_value(v.trim()));
+            if let (Some(t), Some(v)) = (t, v) {
+                tvs.push((t,v));
+                trace!("time: {:?}, value: {:?}", t, v);
+            } else {
+                println!("*ERROR* bad time and value in PWL: {:?}", tv_pair);
+                self.there_are_errors = true;
+                return None;
             }
-            let t = extract_value(tv_pair[0].trim()).unwrap();
-            let v = extract_value(tv_pair[1].trim()).unwrap();
-            tvs.push((t,v));
-            trace!("time: {:?}, value: {:?}", t, v);
         }
         src.pat = tvs;
 
         //trace!("*INFO* VPWL {} {} {}", offset, amplitude, frequency);
         trace!("{:?}", src);
-        src
+        Some(src)
     }
 
 
-- 
2.43.0


From f59006d6b12a1970c5668f4afb72c3e4e0e07588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 15/21] fix: count nodes without a limit of 256 and without
 overlooking ids above a gap

---
 src/circuit.rs | 145 +++++++------------------------------------------
 1 file changed, 21 insertions(+), 124 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 35eb006..5033d7c 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -141,135 +141,32 @@ impl Circuit {
     }
 
     /// Count the nodes in the circuit
+    ///
+    /// Node ids index the rows of the circuit matrix, so this covers every id
+    /// up to the highest one an element connects to.
     pub fn count_nodes(&self) -> usize {
 
-        // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        // there is always at least ground
+        let mut highest: NodeId = 0;
 
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                }
+            let nodes = match *el {
+                Element::I(CurrentSource{ p, n, .. }) => vec![p, n],
+                Element::R(Resistor{ a, b, .. }) => vec![a, b],
+                Element::V(VoltageSource{ p, n, .. }) => vec![p, n],
+                Element::D(Diode{ p, n, .. }) => vec![p, n],
+                Element::Isin(CurrentSourceSine{ p, n, .. }) => vec![p, n],
+                Element::Vsin(VoltageSourceSine{ p, n, .. }) => vec![p, n],
+                Element::C(Capacitor{ a, b, .. }) => vec![a, b],
+                Element::Vpwl(VoltageSourcePwl{ p, n, ..}) => vec![p, n],
+                Element::Vcvs(Vcvs{ p, n, cp, cn, ..}) => vec![p, n, cp, cn],
+                Element::Vccs(Vccs{ p, n, cp, cn, ..}) => vec![p, n, cp, cn],
+            };
+            for node in nodes {
+                highest = highest.max(node);
+            }
         }
-        c_nodes
+        highest + 1
     }
 
     /// Count the voltage sources in the circuit
-- 
2.43.0


From fa346c7b94a0d03d288a740903261cc45549ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 16/21] fix: start the capacitors of a transient analysis from
 the DC operating point

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 3c0141e..dea85da 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,7 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        let mut unknowns_prev : Vec<f64> = self.dc_op.clone();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From d269072472d29c7e0cdb6f46385f32e2e2778a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 17/21] fix: the first transient timestep is limited by RMAX
 too

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index dea85da..28c817f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -191,7 +191,7 @@ impl Engine {
         let mut unknowns_prev : Vec<f64> = self.dc_op.clone();
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
-- 
2.43.0


From 178297f9194111e1006ec679086c9a5a4c1b1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 18/21] fix: transient points carry the time they were solved
 for, the last one is TSTOP, and a failed step doesn't count

---
 src/engine.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 28c817f..7d9ce7a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -228,6 +228,11 @@ impl Engine {
                 break;
             }
 
+            // don't step over the end, solve for it
+            let reaches_tstop = t_now + t_delta >= cfg.TSTOP;
+            if reaches_tstop {
+                t_delta = cfg.TSTOP - t_now;
+            }
 
             // solver loop
             // breaks when solved, or time-step too small
@@ -311,6 +316,20 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
+            // this is the time that we've a solution for
+            if reaches_tstop && !geared {
+                t_now = cfg.TSTOP;
+                is_final_timestep = true;
+            } else {
+                t_now += t_delta;
+            }
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -330,18 +349,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From 9213a059420c27af372636cdbb4e811d9be1f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 19/21] Verification hook: report each pivot (only with
 --cfg=tiny_spice_verif)

---
 src/engine.rs |  2 ++
 src/lib.rs    | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 7d9ce7a..571ddea 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -591,6 +591,8 @@ impl Engine {
                 break;
             }
             v.swap(r_max, r_ref);
+            #[cfg(tiny_spice_verif)]
+            crate::verif::pivot(&v, r_ref);
 
             // check that we're not going to divide by zero
             if v[r_ref][r_ref] == 0.0 {
diff --git a/src/lib.rs b/src/lib.rs
index 957f8e3..23f69c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,3 +19,17 @@ pub mod wavewriter;
 pub mod spice;
 pub mod expander;
 
+
+/// Verification hooks, compiled only with `--cfg=tiny_spice_verif`
+#[cfg(tiny_spice_verif)]
+pub mod verif {
+    /// called with the matrix after the row exchange for elimination step `k`
+    pub static mut ON_PIVOT: Option<fn(&[Vec<f64>], usize)> = None;
+
+    pub fn pivot(m: &[Vec<f64>], k: usize) {
+        // single threaded harnesses only
+        if let Some(f) = unsafe { ON_PIVOT } {
+            f(m, k)
+        }
+    }
+}
-- 
2.43.0


From d203340e6cd7cc5ee226d183dbf16369ce68438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 20/21] fix: don't turn a non-finite last unknown into 0 unless
 its equation is degenerate

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 571ddea..d694e25 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -634,7 +634,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if v[i_last][i_last] == 0.0 && v[i_last][c_mna].is_finite() {
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From eb87fa50b200e48323390edf21abe2712bccfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 21/21] fix: a tran command without start time doesn't keep the
 start time of an earlier one

---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 3f5f7dd..0a1becf 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -185,6 +185,8 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
+                    // an earlier `tran` may have set a start time
+                    self.cfg.TSTART = Configuration::new().TSTART;
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
-- 
2.43.0

