From a77836b5a2523ad46d21dfed6dbff82a3f02176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:32 +0000
Subject: [PATCH 01/65] fix: reject and clamp adaptive steps by magnitude so
 that backward propagation honours the tolerance

---
 nyx-core/src/propagators/instance.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..0e8c7dd 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,9 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    // The step size is negative when propagating backward.
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From fda8ba0ba8eee1c52bb64393596c835cf2d44c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:19 +0000
Subject: [PATCH 02/65] fix: integrate the STM as A times the osculating STM

---
 nyx-core/src/dynamics/spacecraft.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..e400aaa 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,14 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        // The STM is part of the integrated vector: use its osculating value, not the one at the start of the step.
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM: dΦ/dt = A Φ
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 30fd8b387b645995ba3e1ee1e4ae501d00b23ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 03/65] fix: disperse Cr, Cd and mass with their standard
 deviation and mean, on their own state component

---
 nyx-core/src/mc/multivariate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..8b69b33 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 29694646e30ffcca1a38124be175750608a516c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 04/65] fix: report the applied dispersion as dispersed minus
 template, as documented

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 8b69b33..68a89ab 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 96caf0374af296bff9a0f94195a54e350da5b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 05/65] fix: report the standard deviation, not the variance,
 of a spacecraft covariance's dispersions

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 68a89ab..58d5001 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From d7047f121dd48c9d1671904cc32a2dddffaf42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 06/65] fix: an estimate from dispersions deviates towards the
 dispersed state, as documented

---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From e5b6180b74cb6fd008f7329734769b5246aab5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 07/65] fix: sort a trajectory before removing duplicate epochs

---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..bd3aa12 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs, which sorting has made adjacent
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From 0e02146e07c85484e7aec4126749e4072d7e3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 08/65] fix: interpolate the propellant mass from the first
 state of the window

---
 nyx-core/src/md/trajectory/interpolatable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..34f1286 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -100,7 +100,8 @@ impl Interpolatable for Spacecraft {
         let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
             / (last.epoch() - first.epoch()).to_seconds();
 
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        self.mass.prop_mass_kg =
+            first.mass.prop_mass_kg + prop_kg_dt * (epoch - first.epoch()).to_seconds();
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From 169fb61debe175aa26c9e05230cf640816c584a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:12 +0000
Subject: [PATCH 09/65] fix: keep the first state of a trajectory in the
 interpolation window when it holds exactly one window

---
 nyx-core/src/md/trajectory/traj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index bd3aa12..ab9acf2 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -110,7 +110,7 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    first_idx = last_idx.saturating_sub(INTERPOLATION_SAMPLES);
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From 2dd3a1ef2fbf92db5472ac483acc5078a986c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:18 +0000
Subject: [PATCH 10/65] fix: measurements are equal only if both have the same
 measurement types

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From 6e40b6c57b115fb5d779deddc86ecda6119b79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:38 +0000
Subject: [PATCH 11/65] fix: honour the kind of bound when filtering a tracking
 arc by offset

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..1eb69ce 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -20,7 +20,7 @@ use core::fmt;
 use hifitime::prelude::{Duration, Epoch};
 use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
-use std::ops::Bound::{self, Excluded, Included, Unbounded};
+use std::ops::Bound;
 use std::ops::{Add, AddAssign, RangeBounds};
 
 mod io_ccsds_tdm;
@@ -396,17 +396,11 @@ impl TrackingDataArc {
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        let first = self.start_epoch().unwrap();
+        let start = bound.start_bound().map(|offset| first + *offset);
+        let end = bound.end_bound().map(|offset| first + *offset);
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch((start, end))
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From 4cb9d4483c82f6d8084d0abf17886a306f09979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:40 +0000
Subject: [PATCH 12/65] fix: honour the kind of bound when filtering a
 trajectory by offset

---
 nyx-core/src/md/trajectory/traj.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index ab9acf2..860686e 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -45,7 +45,6 @@ use std::fmt;
 use std::fs::File;
 use std::iter::Iterator;
 use std::ops;
-use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -179,17 +178,11 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        let first = self.states.first().unwrap().epoch();
+        let start = bound.start_bound().map(|offset| first + *offset);
+        let end = bound.end_bound().map(|offset| first + *offset);
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch((start, end))
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From d915daefef65aa646865764eb006613e73788dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:40 +0000
Subject: [PATCH 13/65] fix: keep the moduli and the rejection flag of a
 downsampled tracking arc

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 1eb69ce..55af919 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -238,8 +238,10 @@ impl TrackingDataArc {
         );
 
         let mut result = TrackingDataArc {
+            measurements: Vec::new(),
             source: self.source.clone(),
-            ..Default::default()
+            moduli: self.moduli.clone(),
+            force_reject: self.force_reject,
         };
 
         let measurements: Vec<_> = self.measurements.iter().collect();
-- 
2.43.0


From 4577b7a16eff2527750806bfe0e7831dc33b72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:42 +0000
Subject: [PATCH 14/65] fix: downsample each tracker on its own instead of
 averaging across trackers

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 55af919..db326dc 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -218,6 +218,24 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self.clone();
         }
+
+        // Never average the measurements of different trackers together.
+        let aliases = self.unique_aliases();
+        if aliases.len() > 1 {
+            let mut result = self.clone();
+            result.measurements = aliases
+                .into_iter()
+                .flat_map(|alias| {
+                    self.clone()
+                        .filter_by_tracker(alias)
+                        .downsample(target_step)
+                        .measurements
+                })
+                .collect();
+            result.sort();
+            return result;
+        }
+
         let current_step = self.min_duration_sep().unwrap();
 
         if current_step >= target_step {
-- 
2.43.0


From 6eb461a6d706bc2784c9c22fa93f5737cabcc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 15/65] fix: compare the magnitude of the state change in the
 largest-error control

A component that decreases was always held to the absolute error.
---
 nyx-core/src/propagators/error_ctrl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/error_ctrl.rs b/nyx-core/src/propagators/error_ctrl.rs
index 30b670d..e61f0e4 100644
--- a/nyx-core/src/propagators/error_ctrl.rs
+++ b/nyx-core/src/propagators/error_ctrl.rs
@@ -138,7 +138,7 @@ impl ErrorControl {
                 let state_delta = candidate - cur_state;
                 let mut max_err = 0.0;
                 for (i, prop_err_i) in error_est.iter().enumerate() {
-                    let err = if state_delta[i] > REL_ERR_THRESH {
+                    let err = if state_delta[i].abs() > REL_ERR_THRESH {
                         (prop_err_i / state_delta[i]).abs()
                     } else {
                         prop_err_i.abs()
-- 
2.43.0


From fb3c91333d4550bbcd7f5309e1afc86fe2aeeec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 16/65] fix: hand back every propagated state in the frame of
 the initial state

The states published on the channel, those given to a stopping condition, and the
state returned when it triggers were left in the integration frame, and the step
kept its backward sign after a triggered condition, so that the next backward
propagation went forward forever.
---
 nyx-core/src/propagators/instance.rs | 55 ++++++++++++++++------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 0e8c7dd..9e6410b 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -164,16 +165,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.in_original_frame(self.state, original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -187,7 +179,7 @@ where
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.in_original_frame(self.state, original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -208,16 +200,7 @@ where
                 }
 
                 // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
+                self.state = self.in_original_frame(self.state, original_frame)?;
 
                 return Ok(self.state);
             } else {
@@ -241,19 +224,26 @@ where
                 self.single_step()?;
 
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(self.in_original_frame(self.state, original_frame)?)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
 
+                    if backprop {
+                        self.step_size = -self.step_size; // Restore to a positive step size
+                    }
+
+                    // Rotate back if needed
+                    self.state = self.in_original_frame(self.state, original_frame)?;
+
                     return Ok(self.state);
                 }
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(self.in_original_frame(self.state, original_frame)?)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -261,6 +251,25 @@ where
         }
     }
 
+    /// Returns the provided state in the frame it was in before the propagation, if that differs from the integration frame.
+    fn in_original_frame(
+        &self,
+        mut state: D::StateType,
+        original_frame: Option<Frame>,
+    ) -> Result<D::StateType, PropagationError> {
+        if let Some(original_frame) = original_frame {
+            let new_orbit = self
+                .almanac
+                .transform_to(state.orbit(), original_frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(new_orbit);
+        }
+        Ok(state)
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From 470ef32aab03854ab8b686c0cbd459ecd1cfee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:00 +0000
Subject: [PATCH 17/65] fix: find the n-th event in either direction, in the
 last step, and in the requested frame

Backward searches never reported a missing event and searched an unsorted
trajectory, the bracket was searched without the event frame, and crossings within
the last step or exactly at the end of a step were missed.
---
 nyx-core/src/propagators/event.rs    | 33 ++++++++++++++++++++++------
 nyx-core/src/propagators/instance.rs | 13 ++++++++---
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..51ebaed 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -134,8 +134,8 @@ where
                     crossing_counts += 1;
                 }
             } else {
-                // Previous step accepted, check if there was a zero crossing.
-                if y_prev * y_next < 0.0 {
+                // Previous step accepted, check if there was a zero crossing, or if this step ends exactly on a zero.
+                if y_prev * y_next < 0.0 || (y_next == 0.0 && y_prev != 0.0) {
                     crossing_counts += 1;
                 }
             }
@@ -169,17 +169,24 @@ where
 
         traj.finalize();
 
-        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
-        if end_state == last_traj_state {
+        if crossing_counts < trigger {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
                 found: crossing_counts,
             });
         }
 
+        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
+        // The trajectory is in chronological order, whichever way we propagated.
+        let last_traj_state = if max_duration.is_negative() {
+            traj.states.first().cloned().unwrap()
+        } else {
+            traj.states.last().cloned().unwrap()
+        };
+
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,11 +196,23 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-        let event_epoch = brent_solver(traj_at, event, last_traj_state.epoch(), end_state.epoch())
+        let bracket_start = last_traj_state.epoch().min(end_state.epoch());
+        let bracket_end = last_traj_state.epoch().max(end_state.epoch());
+        let event_epoch = brent_solver(traj_at, event, bracket_start, bracket_end)
             .context(PropAnalysisSnafu)?;
 
         #[cfg(not(target_arch = "wasm32"))]
diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 9e6410b..e87586a 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -152,8 +152,6 @@ where
             if (!backprop && epoch + self.step_size > stop_time)
                 || (backprop && epoch + self.step_size <= stop_time)
             {
-                // We don't check for the interrupt condition on the last step.
-                // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
                     #[cfg(not(target_arch = "wasm32"))]
@@ -177,8 +175,17 @@ where
 
                 self.single_step()?;
 
+                // As for any other step, don't publish the state on which the stopping condition triggers.
+                let stopped = match stop_condition {
+                    Some(ref mut condition) => {
+                        condition(self.in_original_frame(self.state, original_frame)?)?
+                    }
+                    None => false,
+                };
+
                 // Publish to channel if provided
-                if let Some(ref chan) = maybe_tx_chan
+                if !stopped
+                    && let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.in_original_frame(self.state, original_frame)?)
                 {
                     warn!("{e} when sending on channel")
-- 
2.43.0


From fbcb94f399847b8c7b06f9ac61874e4e2b7311db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:34 +0000
Subject: [PATCH 18/65] fix: Kluever law steers the equinoctial h and k with
 the sign of their radial partials

---
 nyx-core/src/dynamics/guidance/kluever.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 6c0684a..56d2962 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -222,7 +222,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * cos_l;
+                    sum_weighted_num_alpha += weight * (-cos_l);
                     sum_weighted_den_alpha +=
                         weight * (sin_l + (h + sin_l) / (1.0 + h * sin_l + k * cos_l));
                 }
@@ -235,7 +235,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * (-sin_l);
+                    sum_weighted_num_alpha += weight * sin_l;
                     sum_weighted_den_alpha +=
                         weight * (cos_l + (k + cos_l) / (1.0 + h * sin_l + k * cos_l));
                 }
-- 
2.43.0


From 3e2ae983b57e39d560b2575b52554ac0d887b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:34 +0000
Subject: [PATCH 19/65] fix: Ruggiero law coasts in eclipse when an eclipse
 limit is set

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..2f6ded0 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -439,10 +439,12 @@ impl GuidanceLaw for Ruggiero {
                     } else {
                         sc.mode = GuidanceMode::Thrust;
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From 3ad3ea18e6e2e353bca1ef95628cc8cbffcf7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 20/65] fix: measurement types missing from a measurement do
 not affect the filter

---
 nyx-core/src/od/groundpnt/sensitivity.rs |  2 +-
 nyx-core/src/od/interlink/sensitivity.rs |  2 +-
 nyx-core/src/od/msr/sensitivity.rs       |  2 +-
 nyx-core/src/od/process/mod.rs           | 18 ++++++++++++++++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..f87c5d7 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -318,20 +318,34 @@ where
                                         &self.almanac,
                                     )?;
 
-                                    let measurement_covar = device
+                                    let mut measurement_covar = device
                                         .measurement_covar_matrix(&cur_msr_types, epoch)?;
+                                    // Rows without any measurement type have no sensitivity, hence a unit variance prevents
+                                    // a singular innovation without affecting the estimate.
+                                    for i in cur_msr_types.len()..MsrSize::DIM {
+                                        measurement_covar[(i, i)] = 1.0;
+                                    }
 
                                     if let Some(computed_meas) =
                                         device.measure(epoch, &traj, None, &self.almanac)?
                                     {
                                         // Apply any biases on the computed observation
-                                        let computed_obs = computed_meas
+                                        let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
                                             - device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
 
+                                        // Measurement types missing from this measurement have no residual.
+                                        for (i, avail) in
+                                            msr.availability(&cur_msr_types).iter().enumerate()
+                                        {
+                                            if !avail {
+                                                computed_obs[i] = 0.0;
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
-- 
2.43.0


From edac5779e922bde1139a6fce443d5d9d950311ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 21/65] fix: the constant bias of a ground station measurement
 is set, and added to the computed observation

---
 nyx-core/src/od/ground_station/mod.rs | 12 +++++-------
 nyx-core/src/od/process/mod.rs        |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..1c4872c 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,14 +182,12 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
-        if this_noise.bias.is_none() {
-            this_noise.bias = Some(GaussMarkov::ZERO);
-        }
-
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        this_noise
+            .bias
+            .get_or_insert(GaussMarkov::ZERO)
+            .constant = Some(bias_constant);
 
         Ok(self)
     }
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index f87c5d7..c79d090 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -332,7 +332,7 @@ where
                                         // Apply any biases on the computed observation
                                         let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
-- 
2.43.0


From 30152aab2e883af11713d52c793e33314eacdeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 22/65] fix: interlink Doppler accounts for the velocity of the
 transmitter

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..cc5a3a1 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the velocity of rx relative to tx.
+            let delta_v_km_s = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&delta_v_km_s) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From 32d9b422883c6c1ffde9c10abdade1c0e25f2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 23/65] fix: position device measures the configured coordinate
 and biases it only once

---
 nyx-core/src/od/position/trk_device.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..0452f7a 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,13 +73,19 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
-            msr.push(
-                msr_type,
-                rx.orbit.radius_km[ii]
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
-            );
+        for msr_type in self.measurement_types.iter().copied() {
+            let value_km = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by PositionDevice"),
+                    });
+                }
+            };
+            // The noise already includes the constant bias, if any.
+            msr.push(msr_type, value_km + noises.get(&msr_type).unwrap_or(&0.0));
         }
 
         Ok(Some(msr))
-- 
2.43.0


From 00bb7cfbb8ec4722e424883ff71ed36491cf0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:25 +0000
Subject: [PATCH 24/65] fix: two-way azimuth averages across north

---
 nyx-core/src/od/msr/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..e77ad7b 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -17,6 +17,7 @@
 */
 
 use anise::astro::AzElRange;
+use anise::math::angles::{between_0_360, between_pm_180};
 use arrow::datatypes::{DataType, Field};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, str::FromStr};
@@ -134,7 +135,9 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the shortest arc since the azimuth wraps around north.
+                let delta_az_deg = between_pm_180(aer_t1.azimuth_deg - aer_t0.azimuth_deg);
+                let az_deg = between_0_360(aer_t0.azimuth_deg + delta_az_deg * 0.5);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From 3beecf047785532793f36594712ff70a287f1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:04 +0000
Subject: [PATCH 25/65] fix: interlink Doppler sensitivity does not require a
 range measurement

---
 nyx-core/src/od/interlink/sensitivity.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..0ea8f05 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -108,11 +108,10 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
         match msr_type {
             MeasurementType::Doppler => {
                 // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                let ρ_km = match msr.data.get(&MeasurementType::Range) {
+                    Some(range_km) => *range_km,
+                    None => delta_r.norm(),
+                };
                 let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
                     ODError::MeasurementSimError {
                         details: "Doppler measurement data is missing".to_string(),
-- 
2.43.0


From 8f07d937913d4d398e6f9e5ed2995d31a63ad094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:04 +0000
Subject: [PATCH 26/65] fix: the timestamp noise of a tracker keeps its state
 between measurements

---
 nyx-core/src/od/ground_station/mod.rs   | 2 +-
 nyx-core/src/od/interlink/trk_device.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 1c4872c..59209a9 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -205,7 +205,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index cc5a3a1..86e90e5 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From 429ce74d263beac8d60eab1e5ed98a7cdbe32eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 27/65] fix: azimuth and elevation sensitivities are in the
 station frame and in degrees

---
 nyx-core/src/od/msr/sensitivity.rs | 66 ++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..9742e74 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -21,9 +21,10 @@ use crate::linalg::allocator::Allocator;
 use crate::md::prelude::Interpolatable;
 use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
+use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, Matrix3, OMatrix, RowVector3, U1};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -115,6 +116,34 @@ where
     }
 }
 
+/// Returns the rotation matrix from the frame of the receiver to the SEZ frame of the ground station, in which the
+/// azimuth and elevation are measured.
+fn sez_rotation(
+    rx: &Spacecraft,
+    tx: &GroundStation,
+    almanac: &Almanac,
+) -> Result<Matrix3<f64>, ODError> {
+    let action = "computing SEZ frame for sensitivity matrix";
+    let transmitter = tx
+        .to_orbit(rx.orbit.epoch, almanac)
+        .context(ODAlmanacSnafu { action })?;
+    let sez_dcm = transmitter
+        .dcm_from_topocentric_to_body_fixed()
+        .map_err(|source| AlmanacError::AlmanacPhysics {
+            action,
+            source: Box::new(source),
+        })
+        .context(ODAlmanacSnafu { action })?;
+    let fixed_dcm = almanac
+        .rotate(rx.orbit.frame, transmitter.frame, rx.orbit.epoch)
+        .map_err(|source| AlmanacError::GenericError {
+            err: source.to_string(),
+        })
+        .context(ODAlmanacSnafu { action })?;
+
+    Ok(sez_dcm.rot_mat.transpose() * fixed_dcm.rot_mat)
+}
+
 impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
     for ScalarSensitivity<Spacecraft, Spacecraft, GroundStation>
 {
@@ -186,16 +215,17 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
+                // Build the sensitivity in the SEZ frame of the transmitter and rotate back into the estimation frame.
+                let sez_rot = sez_rotation(rx, tx, almanac)?;
+                let rho_sez = sez_rot * delta_r;
+                let denom = rho_sez.x.powi(2) + rho_sez.y.powi(2);
+                let m = RowVector3::new(rho_sez.y / denom, -rho_sez.x / denom, 0.0)
+                    * sez_rot
+                    * 1.0_f64.to_degrees();
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        m.x, m.y, m.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
@@ -205,17 +235,21 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+                // Build the sensitivity in the SEZ frame of the transmitter and rotate back into the estimation frame.
+                let sez_rot = sez_rotation(rx, tx, almanac)?;
+                let rho_sez = sez_rot * delta_r;
+                let r2 = rho_sez.norm_squared();
+                let horizontal = (rho_sez.x.powi(2) + rho_sez.y.powi(2)).sqrt();
+                let m = RowVector3::new(
+                    -(rho_sez.x * rho_sez.z) / (r2 * horizontal),
+                    -(rho_sez.y * rho_sez.z) / (r2 * horizontal),
+                    horizontal / r2,
+                ) * sez_rot
+                    * 1.0_f64.to_degrees();
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        m.x, m.y, m.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From eb90ea5c3ba7ab84a5ef4c6d30041bc5ddf4fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:05 +0000
Subject: [PATCH 28/65] fix: the state transition matrix of a ground asset is
 propagated

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 23 ++++++++------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..aeef2ef 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -31,27 +31,22 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
     {
-        let d_x = Vector6::from_iterator([
-            state_ctx.latitude_rate_deg_s,
-            state_ctx.longitude_rate_deg_s,
-            state_ctx.height_rate_km_s,
-            0.0,
-            0.0,
-            0.0,
-        ]);
+        let (d_x, grad) = self.dual_eom(delta_t, state_ctx, almanac)?;
+
+        // The STM evolves with the gradient, and stays null if it is unset.
+        let stm = Matrix6::from_column_slice(&state_vec.as_slice()[6..]);
+        let d_stm = grad * stm;
 
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(d_stm.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From bba2459be5d2ba285380242025ac06b349219a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:17 +0000
Subject: [PATCH 29/65] fix: the Doppler of a ground asset accounts for its own
 velocity

---
 nyx-core/src/od/groundpnt/trk_device.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index d07545b..e31b1c5 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -22,6 +22,7 @@ use anise::math::interpolation::InterpolationError;
 use anise::prelude::{Frame, Orbit};
 use hifitime::{Epoch, TimeUnits};
 use indexmap::IndexSet;
+use nalgebra::Vector3;
 use rand_pcg::Pcg64Mcg;
 use snafu::ResultExt;
 
@@ -156,11 +157,27 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
             let mut msr =
                 Measurement::new("GroundAsset".to_string(), rx.epoch + noises[0].seconds());
 
-            // Range is a norm, so we don't flip the sign. But the rate depends on the direction of travel, so we do indeed flip its sign.
+            // The AER data assumes that the asset is fixed on the ground, so account for its own velocity along the line of sight.
+            let asset_vel_km_s = rx
+                .velocity_sez_m_s()
+                .map_err(|source| AlmanacError::AlmanacPhysics {
+                    action: "computing velocity of ground asset",
+                    source: Box::new(source),
+                })
+                .context(ODAlmanacSnafu {
+                    action: "computing velocity of ground asset",
+                })?
+                * 1e-3;
+            let (sin_az, cos_az) = aer.azimuth_deg.to_radians().sin_cos();
+            let (sin_el, cos_el) = aer.elevation_deg.to_radians().sin_cos();
+            let line_of_sight = Vector3::new(-cos_el * cos_az, cos_el * sin_az, sin_el);
+
             for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
-                    MeasurementType::Doppler => aer.range_rate_km_s,
+                    MeasurementType::Doppler => {
+                        aer.range_rate_km_s - line_of_sight.dot(&asset_vel_km_s)
+                    }
                     // Or return an error for unsupported types
                     _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
                 } + noises[ii + 1];
-- 
2.43.0


From da9cdf95fabfcf3ccf55fcfa767abf4394f6b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:07 +0000
Subject: [PATCH 30/65] fix: the sensitivity of a ground asset measurement is
 computed in the frame of the asset

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..36aa9b4 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -27,7 +27,7 @@ use crate::{Spacecraft, State};
 use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -94,6 +94,11 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 details: "computing sensitivity ground asset / interlink".into(),
             })?
             .orbit;
+        let transmitter = almanac
+            .transform_to(transmitter, rx.frame, None)
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
@@ -106,7 +111,14 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
             })?;
 
         let delta_r = receiver.radius_km - transmitter.radius_km;
-        let delta_v = receiver.velocity_km_s - transmitter.velocity_km_s;
+        // The velocity of the asset in its body fixed frame is given by its geodetic rates.
+        let asset_velocity_km_s = jac.fixed_view::<3, 3>(3, 3)
+            * Vector3::new(
+                rx.latitude_rate_deg_s,
+                rx.longitude_rate_deg_s,
+                rx.height_rate_km_s,
+            );
+        let delta_v = asset_velocity_km_s - transmitter.velocity_km_s;
 
         match msr_type {
             MeasurementType::Doppler => {
-- 
2.43.0


From aa415d1635a426c3baf55db02b2ef1f66ce90840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:24 +0000
Subject: [PATCH 31/65] fix: start the reference update filter from the
 estimated state

---
 nyx-core/src/od/process/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index c79d090..56a89c0 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -121,6 +121,15 @@ where
         + Allocator<Accel, <D::StateType as State>::Size>
         + Allocator<nalgebra::Const<1>, MsrSize>,
 {
+    /// Returns the state from which to propagate the provided initial estimate: the reference update variant does not
+    /// track any deviation, so the reference must start from the estimated state.
+    fn initial_state(&self, initial_estimate: &KfEstimate<D::StateType>) -> D::StateType {
+        match self.kf_variant {
+            KalmanVariant::ReferenceUpdate => initial_estimate.state(),
+            KalmanVariant::DeviationTracking => initial_estimate.nominal_state(),
+        }
+    }
+
     /// Process the provided tracking arc for this orbit determination process.
     #[allow(clippy::erasing_op)]
     pub fn process_arc(
@@ -162,7 +171,7 @@ where
 
         // Set up the propagator instance.
         let prop = self.prop.clone();
-        let mut prop_instance = prop.with(initial_estimate.nominal_state().with_stm(), self.almanac.clone()).quiet();
+        let mut prop_instance = prop.with(self.initial_state(&initial_estimate).with_stm(), self.almanac.clone()).quiet();
 
         // Update the step size of the navigation propagator if it isn't already fixed step
         if !prop_instance.fixed_step {
@@ -463,7 +472,7 @@ where
 
         // Set up the propagator instance.
         let prop = self.prop.clone();
-        let mut prop_instance = prop.with(initial_estimate.nominal_state().with_stm(), self.almanac.clone()).quiet();
+        let mut prop_instance = prop.with(self.initial_state(&initial_estimate).with_stm(), self.almanac.clone()).quiet();
 
 
         // Set up the Kalman filter.
-- 
2.43.0


From 3e7f2ae4ad4c95d823768c1f62157cc86fc8de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:42 +0000
Subject: [PATCH 32/65] fix: predict_until stops at the requested epoch

---
 nyx-core/src/od/process/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 56a89c0..43c98c6 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -487,7 +487,9 @@ where
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
         loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+            // Do not predict past the end epoch.
+            let step = self.max_step.min(end_epoch - prop_instance.state.epoch());
+            let nominal_state = prop_instance.for_duration(step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
-- 
2.43.0


From 1ca1fb49f5336d60d2a61b2dfab1ab91b1c4a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:12 +0000
Subject: [PATCH 33/65] fix: initialize the process noises of a prediction

---
 nyx-core/src/od/process/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 43c98c6..801b7c1 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -483,6 +483,8 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-- 
2.43.0


From 5006f7f7cbc21a74a202fc3e9b9b87b5cdca49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:12 +0000
Subject: [PATCH 34/65] fix: residuals report the tracker under which their
 device is configured

---
 nyx-core/src/od/process/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 801b7c1..98f88ec 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -384,7 +384,7 @@ where
                                             device.name()
                                         );
 
-                                        residual.tracker = Some(device.name());
+                                        residual.tracker = Some(msr.tracker.clone());
                                         residual.msr_types = cur_msr_types;
 
                                         if kf.replace_state() && !residual.rejected {
-- 
2.43.0


From 80f9ab16147caa37bc34c5255913deb2263d6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:12 +0000
Subject: [PATCH 35/65] fix: the navigation trajectory keeps the latest
 estimate of each epoch

---
 nyx-core/src/od/process/solution/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/mod.rs b/nyx-core/src/od/process/solution/mod.rs
index 94a3715..1d5f347 100644
--- a/nyx-core/src/od/process/solution/mod.rs
+++ b/nyx-core/src/od/process/solution/mod.rs
@@ -163,9 +163,9 @@ where
                 msg: "No navigation trajectory to generate: run the OD process first".to_string(),
             })
         } else {
-            // Make sure to remove duplicate entries.
+            // Make sure to remove duplicate entries, keeping the latest estimate of each epoch (the sort is stable).
             let mut traj = Traj {
-                states: self.estimates.iter().map(|est| est.state()).collect(),
+                states: self.estimates.iter().rev().map(|est| est.state()).collect(),
                 name: None,
             };
             traj.finalize();
-- 
2.43.0


From 3e409bcac589c9af64509f2cd0ebc9a30103ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:14 +0000
Subject: [PATCH 36/65] fix: merging OD solutions sorts them by epoch

---
 .../src/od/process/solution/filter_data.rs    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..c8ee091 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,14 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
-        }
+        // Apply the permutation to all of the vectors
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
 
         self
     }
-- 
2.43.0


From eb73afcc2acce7793c3065ece99ca874bcbda53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:16 +0000
Subject: [PATCH 37/65] fix: residual statistics do not count the time updates

---
 nyx-core/src/od/process/solution/stats.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..34d9495 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -147,28 +147,35 @@ where
     /// Returns the root mean square of the prefit residuals
     pub fn rms_prefit_residuals(&self) -> f64 {
         let mut sum = 0.0;
+        let mut count = 0;
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
     pub fn rms_postfit_residuals(&self) -> f64 {
         let mut sum = 0.0;
-        for residual in self.residuals.iter().flatten() {
+        let mut count = 0;
+        // Rejected residuals have no postfit.
+        for residual in self.residuals.iter().flatten().filter(|r| !r.rejected) {
             sum += residual.postfit.dot(&residual.postfit);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
     pub fn rms_residual_ratios(&self) -> f64 {
         let mut sum = 0.0;
+        let mut count = 0;
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
+            count += 1;
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From 35503f2534732f52db806711f039b2917e2c8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:55 +0000
Subject: [PATCH 38/65] fix: smoothing fewer than two estimates does not panic

---
 nyx-core/src/od/process/solution/smooth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..dbb79ed 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -106,6 +106,14 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        if self.estimates.len() < 2 {
+            // The very last estimate cannot be smoothed.
+            return Ok(Self {
+                gains: vec![None; self.estimates.len()],
+                ..self
+            });
+        }
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
-- 
2.43.0


From 27efe68dbd7665e91ce9dd104bbdac10c4857729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:57 +0000
Subject: [PATCH 39/65] fix: smooth each estimate with the smoothed estimate
 that follows it

---
 nyx-core/src/od/process/solution/smooth.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index dbb79ed..8a38bc9 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -138,7 +138,7 @@ where
         loop {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
-            let sm_est_kp1 = &self.estimates[k + 1];
+            let sm_est_kp1 = smoothed.estimates.last().unwrap();
             let x_kp1_l = sm_est_kp1.state_deviation();
             let p_kp1_l = sm_est_kp1.covar();
             // Borrow the k-th estimate, which we're smoothing with the next estimate
@@ -159,8 +159,21 @@ where
                 .try_inverse()
                 .ok_or(ODError::SingularStateTransitionMatrix)?;
 
+            // Rebuild the deviation that the filter predicted at k+1, prior to any measurement update.
+            // The reference update variant predicts no deviation since it propagates the estimated state itself.
+            let x_kp1_k = match (&self.gains[k + 1], &self.residuals[k + 1]) {
+                (Some(gain), Some(residual)) => {
+                    if est_kp1.state_deviation() == gain * &residual.prefit {
+                        OVector::<f64, <StateType as State>::Size>::zeros()
+                    } else {
+                        est_kp1.state_deviation() - gain * &residual.postfit
+                    }
+                }
+                _ => est_kp1.state_deviation(),
+            };
+
             // Compute smoothed state deviation
-            let x_k_l = &phi_kp1_k * x_kp1_l;
+            let x_k_l = est_k.state_deviation() + &phi_kp1_k * (x_kp1_l - x_kp1_k);
             // Compute smoothed covariance
             let p_k_l = &phi_kp1_k * p_kp1_l * &phi_kp1_k.transpose();
             // Store into vector
-- 
2.43.0


From f011b8931e6b98fd1e1a6f205b8343bd07bba5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:59 +0000
Subject: [PATCH 40/65] fix: the smoother recomputes the residual of each
 estimate with its own state and bias

---
 nyx-core/src/od/process/solution/smooth.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 8a38bc9..97e83fb 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -183,7 +183,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
@@ -201,9 +201,17 @@ where
                     device.measure_instantaneous(new_state_est, None, almanac)?
                 {
                     // Only recompute the computed observation from the update state estimate.
-                    residual.computed_obs = computed_meas
+                    let mut computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+
+                    // Measurement types missing from this measurement have no residual.
+                    for i in 0..MsrSize::DIM {
+                        if residual.real_obs[i] == 0.0 && residual.computed_obs[i] == 0.0 {
+                            computed_obs[i] = 0.0;
+                        }
+                    }
+                    residual.computed_obs = computed_obs;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From 453398789d49170bbbd1223bb695a53b404be4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:31 +0000
Subject: [PATCH 41/65] fix: batch least squares maps each measurement with the
 transition matrix to its own epoch

---
 nyx-core/src/od/blse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..c9d026c 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -220,6 +220,8 @@ where
                     let step_stm = this_state.stm().expect("STM unavailable");
                     // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
                     stm = step_stm * stm;
+                    // The propagated STM is that of the next step only.
+                    prop_inst.state.reset_stm();
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 373ed41915f936a6f283446449b5c7991a44cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:34 +0000
Subject: [PATCH 42/65] fix: batch least squares accounts for the measurement
 bias

---
 nyx-core/src/od/blse/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index c9d026c..49571df 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -259,7 +259,8 @@ where
                             };
 
                             // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                                + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
 
                             // Get real observation y_i
                             let real_obs = msr.observation::<U1>(&msr_types)[0];
@@ -515,7 +516,8 @@ where
                             None => continue,
                         };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                            + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
                         let real_obs = msr.observation::<U1>(&msr_types)[0];
 
                         ensure!(
-- 
2.43.0


From 318f69956da73de5185da763bf2e94506789d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:41 +0000
Subject: [PATCH 43/65] fix: batch least squares uses the measurements at the
 initial epoch and simultaneous ones

---
 nyx-core/src/od/blse/mod.rs | 206 ++++++++++++++++++------------------
 1 file changed, 104 insertions(+), 102 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 49571df..ddb634d 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -204,8 +204,8 @@ where
 
                 loop {
                     let delta_t = msr_epoch - epoch;
-                    if delta_t <= Duration::ZERO {
-                        // Move onto the next measurement.
+                    if delta_t <= Duration::ZERO || delta_t < self.epoch_precision {
+                        // The reference state is at the epoch of this measurement.
                         break;
                     }
 
@@ -222,82 +222,83 @@ where
                     stm = step_stm * stm;
                     // The propagated STM is that of the next step only.
                     prop_inst.state.reset_stm();
+                }
 
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                let this_state = prop_inst.state;
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
-                                + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                            + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -481,62 +482,63 @@ where
 
             loop {
                 let delta_t = msr_epoch - epoch;
-                if delta_t <= Duration::ZERO {
+                if delta_t <= Duration::ZERO || delta_t < self.epoch_precision {
                     break;
                 }
 
                 let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
                 let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                 epoch = this_state.epoch();
+            }
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            let this_state = prop_inst.state;
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
-                            + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0]
+                        + device.measurement_bias_vector::<U1>(&msr_types, msr_epoch)?[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From 45650203d875bae9a8d77a768c3a147410e41f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:47 +0000
Subject: [PATCH 44/65] fix: the estimate of a batch least squares solution has
 a valid covariance

---
 nyx-core/src/od/blse/solution.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/blse/solution.rs b/nyx-core/src/od/blse/solution.rs
index 4efa2bb..5c6647b 100644
--- a/nyx-core/src/od/blse/solution.rs
+++ b/nyx-core/src/od/blse/solution.rs
@@ -84,9 +84,10 @@ where
 {
     fn from(mut bls: BLSSolution<StateType>) -> Self {
         // Set the uncertainty on Cr, Cd, mass to zero
-        bls.covariance[(6, 6)] = 0.0;
-        bls.covariance[(7, 7)] = 0.0;
-        bls.covariance[(8, 8)] = 0.0;
+        for i in 6..<StateType as State>::Size::DIM {
+            bls.covariance.row_mut(i).fill(0.0);
+            bls.covariance.column_mut(i).fill(0.0);
+        }
 
         Self::from_covar(bls.estimated_state, bls.covariance)
     }
-- 
2.43.0


From ebd6ca21a0ae0864184ead8080e2a2ba87a1c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:48 +0000
Subject: [PATCH 45/65] verification hook: gravity field from coefficients (cfg
 nyx_vp)

---
 nyx-core/src/io/gravity.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..5c1d316 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -127,6 +127,24 @@ impl GravityFieldData {
         }
     }
 
+    /// Verification hook: a gravity field with the given fully normalized coefficients.
+    #[cfg(nyx_vp)]
+    pub fn from_coefficients(
+        c_nm: DMatrix<f64>,
+        s_nm: DMatrix<f64>,
+        degree: usize,
+        order: usize,
+        frame: Frame,
+    ) -> GravityFieldData {
+        GravityFieldData {
+            degree,
+            order,
+            c_nm,
+            s_nm,
+            frame,
+        }
+    }
+
     /// Initialize `GravityFieldData` from the file path (must be a gunzipped file)
     ///
     /// Gravity models provided by `nyx`:
-- 
2.43.0


From 762167d1c489939ed43ad733327f50c61b7d118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:48 +0000
Subject: [PATCH 46/65] fix: the gradient of a third body does not depend on
 its own position

---
 nyx-core/src/dynamics/orbital.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..e10330b 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -284,14 +284,11 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on that of the spacecraft, so its dual parts are zero.
+            let r_ij = st_ij.radius_km.map(OHyperdual::<f64, Const<7>>::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
+            let r_j = radius - r_ij; // sc as seen from 3rd body
 
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
-- 
2.43.0


From 561be8f4b64d809db19e8fe7929d16cc84322bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:48 +0000
Subject: [PATCH 47/65] fix: the partial of the solar pressure with respect to
 a null coefficient of reflectivity is defined

---
 nyx-core/src/dynamics/solarpressure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..60f8ba4 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -222,8 +222,10 @@ impl ForceModel for SolarPressure {
             }
         }
 
-        // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        // Compute the partial wrt to Cr: the force is proportional to Cr.
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From 6d92f46eeb21f2964066e2230a42543afdc6b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 48/65] fix: drag opposes the velocity relative to the
 atmosphere, in the integration frame

---
 nyx-core/src/dynamics/drag.rs | 47 ++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index c71dbde..37635eb 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -18,12 +18,13 @@
 
 use anise::almanac::Almanac;
 use anise::constants::frames::IAU_EARTH_FRAME;
+use anise::errors::OrientationSnafu;
 use snafu::ResultExt;
 
 use super::{
     DynamicsAlmanacSnafu, DynamicsAstroSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel,
 };
-use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Spacecraft};
+use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Orbit, Spacecraft};
 use crate::linalg::{Matrix4x3, Vector3};
 use serde::{Deserialize, Serialize};
 use serde_dhall::StaticType;
@@ -57,6 +58,24 @@ impl AtmDensity {
     }
 }
 
+/// Returns the velocity of the orbit as seen from its frame, along the axes of the integration frame.
+fn into_integration_frame(
+    osc: &Orbit,
+    integration_frame: Frame,
+    almanac: &Almanac,
+) -> Result<Vector3<f64>, DynamicsError> {
+    let dcm = almanac
+        .rotate(osc.frame, integration_frame, osc.epoch)
+        .context(OrientationSnafu {
+            action: "rotating into the integration frame",
+        })
+        .context(DynamicsAlmanacSnafu {
+            action: "rotating into the integration frame",
+        })?;
+
+    Ok(dcm.rot_mat * osc.velocity_km_s)
+}
+
 /// `ConstantDrag` implements a constant drag model as defined in Vallado, 4th ed., page 551, with an important caveat.
 ///
 /// **WARNING:** This basic model assumes that the velocity of the spacecraft is identical to the velocity of the upper atmosphere.
@@ -95,7 +114,7 @@ impl ForceModel for ConstantDrag {
                     action: "transforming into drag frame",
                 })?;
 
-        let velocity = osc.velocity_km_s;
+        let velocity = into_integration_frame(&osc, ctx.orbit.frame, almanac)?;
         // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
         Ok(-0.5
             * 1e3
@@ -179,8 +198,6 @@ impl ForceModel for Drag {
     }
 
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
-        let integration_frame = ctx.orbit.frame;
-
         let osc_drag_frame =
             almanac
                 .transform_to(ctx.orbit, self.frame, None)
@@ -188,9 +205,11 @@ impl ForceModel for Drag {
                     action: "transforming into drag frame",
                 })?;
 
+        // Velocity with respect to the atmosphere, which moves with the drag frame.
+        let velocity = into_integration_frame(&osc_drag_frame, ctx.orbit.frame, almanac)?;
+
         match self.density {
             AtmDensity::Constant(rho) => {
-                let velocity = osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -218,16 +237,6 @@ impl ForceModel for Drag {
                         / ref_alt_m)
                         .exp();
 
-                // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
-                // The frame will be double checked in this PR as well.
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -263,14 +272,6 @@ impl ForceModel for Drag {
                     10.0_f64.powf(logdensity)
                 };
 
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
-- 
2.43.0


From b8d200fb063c869b459bfc076acc649e4431d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 49/65] fix: the exponential atmosphere uses altitudes in
 meters

---
 nyx-core/src/dynamics/drag.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index 37635eb..30eba17 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -225,17 +225,15 @@ impl ForceModel for Drag {
                 r0,
                 ref_alt_m,
             } => {
-                // Compute rho in the drag frame.
-                let rho = rho0
-                    * (-(osc_drag_frame.rmag_km()
-                        - (r0
-                            + self
-                                .frame
-                                .mean_equatorial_radius_km()
-                                .context(AstroPhysicsSnafu)
-                                .context(DynamicsAstroSnafu)?))
-                        / ref_alt_m)
-                        .exp();
+                // Compute rho in the drag frame, with the altitudes in meters.
+                let altitude_m = (osc_drag_frame.rmag_km()
+                    - self
+                        .frame
+                        .mean_equatorial_radius_km()
+                        .context(AstroPhysicsSnafu)
+                        .context(DynamicsAstroSnafu)?)
+                    * 1e3;
+                let rho = rho0 * (-(altitude_m - r0) / ref_alt_m).exp();
 
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
-- 
2.43.0


From 6558221f68ea4b2fbc1c3f1ce53cb8a917765c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 50/65] fix: the handoff between trackers accounts for all of
 the overlapping strands

---
 nyx-core/src/od/simulator/arc.rs | 71 ++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..08976ac 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -401,38 +401,57 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
         let mut cfg_as_vec = Vec::new();
         for (name, cfg) in &built_cfg {
             if let Some(strands) = &cfg.strands {
-                for (ii, strand) in strands.iter().enumerate() {
-                    cfg_as_vec.push((name.clone(), ii, *strand));
+                for strand in strands {
+                    cfg_as_vec.push((name.clone(), *strand));
                 }
             }
         }
         // Iterate through the strands by chronological order. Cannot use maps because we change types.
-        cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
-        {
-            // Grab the config
-            if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-                // Grab the next strand, chronologically
-                if let Some((next_name, next_pos, next_strand)) = cfg_as_vec.get(ii + 1) {
-                    if config.handoff == Handoff::Greedy && this_strand.end >= next_strand.start {
-                        // Modify the built configurations to change the start time of the next strand because the current one is greedy.
-                        let next_config = built_cfg.get_mut(next_name).unwrap();
-                        let new_start = this_strand.end + next_config.sampling;
-                        next_config.strands.as_mut().unwrap()[*next_pos].start = new_start;
-                        info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
-                    } else if config.handoff == Handoff::Eager
-                        && this_strand.end >= next_strand.start
-                    {
-                        let this_config = built_cfg.get_mut(this_name).unwrap();
-                        let new_end = next_strand.start - this_config.sampling;
-                        this_config.strands.as_mut().unwrap()[*this_pos].end = new_end;
-                        info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
-                    }
+        cfg_as_vec.sort_by_key(|(_, strand)| strand.start);
+        let mut ii = 0;
+        while ii + 1 < cfg_as_vec.len() {
+            let (this_name, this_strand) = cfg_as_vec[ii].clone();
+            // Grab the next strand, chronologically
+            let (next_name, next_strand) = cfg_as_vec[ii + 1].clone();
+            let handoff = self.configs[&this_name].scheduler.map(|cfg| cfg.handoff);
+
+            if this_strand.end < next_strand.start {
+                ii += 1;
+            } else if handoff == Some(Handoff::Greedy) {
+                // Change the start time of the next strand because the current one is greedy, and check the one after that.
+                let new_start = this_strand.end + built_cfg[&next_name].sampling;
+                if new_start > next_strand.end {
+                    info!("Greedy handoff for {this_name}: {next_name} dropped");
+                    cfg_as_vec.remove(ii + 1);
+                } else {
+                    info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
+                    cfg_as_vec[ii + 1].1.start = new_start;
+                    cfg_as_vec[ii + 1..].sort_by_key(|(_, strand)| strand.start);
+                }
+            } else if handoff == Some(Handoff::Eager) {
+                let new_end = next_strand.start - built_cfg[&this_name].sampling;
+                if new_end < this_strand.start {
+                    info!("Eager handoff for {this_name}: {this_name} dropped");
+                    cfg_as_vec.remove(ii);
                 } else {
-                    // Reached the end
-                    break;
+                    info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
+                    cfg_as_vec[ii].1.end = new_end;
+                    ii += 1;
                 }
+            } else {
+                ii += 1;
+            }
+        }
+
+        // Store the strands after the handoffs.
+        for cfg in built_cfg.values_mut() {
+            if let Some(strands) = cfg.strands.as_mut() {
+                strands.clear();
+            }
+        }
+        for (name, strand) in cfg_as_vec {
+            if let Some(strands) = built_cfg.get_mut(&name).unwrap().strands.as_mut() {
+                strands.push(strand);
             }
         }
 
-- 
2.43.0


From 201f259027a9714baf27a7ad37d5cf7fec66bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 51/65] fix: the alignment of a tracking strand does not move
 it out of the trajectory

---
 nyx-core/src/od/simulator/arc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 08976ac..b4ae4c7 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -356,6 +356,13 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                     if let Some(alignment) = scheduler.sample_alignment {
                         strand_range.start = strand_range.start.round(alignment);
                         strand_range.end = strand_range.end.round(alignment);
+                        // Stay within the trajectory: there are no measurements outside of it.
+                        if strand_range.start < traj.first().epoch() {
+                            strand_range.start += alignment;
+                        }
+                        if strand_range.end > traj.last().epoch() {
+                            strand_range.end -= alignment;
+                        }
                     }
 
                     if let Cadence::Intermittent { on, off } = scheduler.cadence {
-- 
2.43.0


From 2db3144b85bec63a40f7c92c2cbfa4768a5b5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 52/65] fix: a tracking opportunity lost to the cadence after
 alignment is dropped

---
 nyx-core/src/od/simulator/arc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index b4ae4c7..dd5f4e4 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -373,7 +373,7 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                             // We're turning on the tracking sooner than the schedule allows, so let's fix that.
                             strand_range.start = prev_strand.end + off;
                             // Check that we didn't eat into the whole tracking opportunity
-                            if strand_range.start > strand_end {
+                            if strand_range.start > strand_range.end {
                                 // Lost this whole opportunity.
                                 warn!(
                                     "Dropped {name} [{strand_start}, {strand_end}]: cadence {:?}",
-- 
2.43.0


From 680bef21bc2dca88671bc2e3552c1dd5f4faa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:20 +0000
Subject: [PATCH 53/65] fix: Izzo's method solves transfers whose angular
 momentum points to -Z

---
 nyx-core/src/tools/lambert/izzo.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..27c9b06 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -63,13 +63,6 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let mut i_h = i_r1.cross(&i_r2);
     i_h /= i_h.norm(); // Ensure normalization
 
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
-    }
-
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
     let mut m_lambda = lambda.sqrt();
@@ -84,13 +77,14 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     // prograde branch to preserve historical behavior. `direction_of_motion`
     // returns `MultiRevNotSupported` for NRevs, hence the guard.
     let dm = if matches!(kind, TransferKind::NRevs(_)) {
-        1.0
+        if i_h.z < 0.0 { -1.0 } else { 1.0 }
     } else {
         kind.direction_of_motion(&r_final, &r_init)?
     };
-    let retrograde = dm < 0.0;
+    let long_way = dm < 0.0;
 
-    let (mut i_t1, mut i_t2) = if retrograde {
+    // The long way goes around i_h in the opposite direction.
+    let (mut i_t1, mut i_t2) = if long_way {
         m_lambda = -m_lambda;
         (i_r1.cross(&i_h), i_r2.cross(&i_h))
     } else {
-- 
2.43.0


From 4a900b36fe735cb9533bc8a4dff91e4bee5f6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:34 +0000
Subject: [PATCH 54/65] fix: angle rates are finite burn variables

---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From c5d2a5ab2809eb5660d0359fe91eacaf9223d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:34 +0000
Subject: [PATCH 55/65] fix: applying a targeter solution judges the objectives
 as the targeter does

---
 nyx-core/src/md/opti/targeter.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..d62362e 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame if there is one
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
@@ -325,9 +333,8 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 unreachable!()
             };
 
-            let param_err = obj.desired_value - partial.real();
-
-            if param_err.abs() > obj.tolerance {
+            let (ok, param_err) = obj.assess_value(partial.real());
+            if !ok {
                 converged = false;
             }
             param_errors.push(param_err);
-- 
2.43.0


From f59416dfe50da3907b81a2b2ebf71a50d55873b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:34 +0000
Subject: [PATCH 56/65] fix: the bounds of a targeter variable apply to its
 total correction

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 6 ++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..0705a14 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -710,11 +710,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     // Choose the minimum step between the provided max step and the correction.
                     if delta[i].abs() > var.max_step.abs() {
                         delta[i] = var.max_step.abs() * delta[i].signum();
-                    } else if delta[i] > var.max_value {
-                        delta[i] = var.max_value;
-                    } else if delta[i] < var.min_value {
-                        delta[i] = var.min_value;
                     }
+                    // And keep the total correction within the bounds of this variable.
+                    delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
                     state_correction[var.component.vec_index()] += delta[i];
                 }
             }
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 8705161..fcbbc49 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -300,11 +300,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 // Choose the minimum step between the provided max step and the correction.
                 if delta[i].abs() > var.max_step {
                     delta[i] = var.max_step * delta[i].signum();
-                } else if delta[i] > var.max_value {
-                    delta[i] = var.max_value;
-                } else if delta[i] < var.min_value {
-                    delta[i] = var.min_value;
                 }
+                // And keep the total correction within the bounds of this variable.
+                delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
 
                 info!(
                     "Correction {:?} (element {}): {}",
-- 
2.43.0


From 5f885c08d5cf6c2ac671e217bc4cc405760128c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:34 +0000
Subject: [PATCH 57/65] fix: the dual targeter refuses invalid variables

---
 nyx-core/src/md/opti/raphson_hyperdual.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index fcbbc49..dde8757 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -69,6 +69,8 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
         // Apply the initial guess
         for (i, var) in self.variables.iter().enumerate() {
+            // Check the validity (this function will report to log and raise an error)
+            var.valid()?;
             match var.component {
                 Vary::PositionX => {
                     xi.orbit.radius_km.x += var.init_guess;
-- 
2.43.0


From 3c44a08e149de3e5d59d3fce14c00056cd84ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:34 +0000
Subject: [PATCH 58/65] fix: local frame corrections stay in the frame of the
 uncorrected state

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 0705a14..678867d 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -429,8 +429,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         state_correction[var.component.vec_index()] += var.perturbation;
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
+                            // The correction is expressed in the local frame of the uncorrected state.
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -719,7 +720,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
             // Now, let's apply the correction to the initial state
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From fd5ac9763b27975412559c295208b6f36b2f137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:41 +0000
Subject: [PATCH 59/65] fix: impulsive maneuvers of a sequence are applied in
 their local frame

---
 nyx-core/src/dynamics/guidance/mnvr.rs | 16 ++++++++++++++--
 nyx-core/src/dynamics/sequence/mod.rs  |  6 ++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..39934b7 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -19,8 +19,8 @@
 use super::{
     GuidanceError, GuidanceLaw, GuidancePhysicsSnafu, LocalFrame, ra_dec_from_unit_vector,
 };
-use crate::State;
-use crate::cosmic::{GuidanceMode, Spacecraft};
+use crate::{NyxError, State};
+use crate::cosmic::{GuidanceMode, Orbit, Spacecraft};
 use crate::dynamics::guidance::unit_vector_from_ra_dec;
 use crate::linalg::Vector3;
 use crate::polyfit::CommonPolynomial;
@@ -41,6 +41,18 @@ pub struct ImpulsiveManeuver {
     pub dv_km_s: Vector3<f64>,
 }
 
+impl ImpulsiveManeuver {
+    /// Returns the provided orbit after this maneuver, whose delta-v is in the local frame of that orbit.
+    pub(crate) fn apply(&self, orbit: Orbit) -> Result<Orbit, NyxError> {
+        let dcm = orbit.dcm_to_inertial(self.local_frame).map_err(|source| {
+            NyxError::GuidanceConfigError {
+                msg: format!("impulsive maneuver in {:?}: {source}", self.local_frame),
+            }
+        })?;
+        Ok(orbit.with_dv_km_s(dcm.rot_mat * self.dv_km_s))
+    }
+}
+
 impl fmt::Display for ImpulsiveManeuver {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{:.3} m/s in {:?}", self.dv_km_s * 1e3, self.local_frame)
diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..3f781d4 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -182,8 +182,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = state.with_orbit(mnvr.apply(state.orbit)?);
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +206,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = state.with_orbit(mnvr.apply(state.orbit)?);
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
-- 
2.43.0


From 60100163dfc4893581625558838e180036150a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:41 +0000
Subject: [PATCH 60/65] fix: a frame swap also rotates into the new frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 3f781d4..d5ed85e 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -162,13 +162,7 @@ impl SpacecraftSequence {
                                     {
                                         state = state.with_orbit(
                                             almanac
-                                                .translate_to(state.orbit, *new_frame, None)
-                                                .map_err(|source| {
-                                                    anise::errors::AlmanacError::Ephemeris {
-                                                        action: "central body swap",
-                                                        source: Box::new(source),
-                                                    }
-                                                })
+                                                .transform_to(state.orbit, *new_frame, None)
                                                 .context(FromAlmanacSnafu {
                                                     action: "central body swap",
                                                 })?,
-- 
2.43.0


From 9fcaae5eded1fa344fa22e9e88152b644ef2a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:41 +0000
Subject: [PATCH 61/65] fix: a disabled phase neither shortens the previous one
 nor advances the next one

---
 nyx-core/src/dynamics/sequence/config.rs | 12 ++++++++++++
 nyx-core/src/dynamics/sequence/mod.rs    |  6 ++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/config.rs b/nyx-core/src/dynamics/sequence/config.rs
index 80adbce..c5fc17b 100644
--- a/nyx-core/src/dynamics/sequence/config.rs
+++ b/nyx-core/src/dynamics/sequence/config.rs
@@ -54,6 +54,18 @@ pub enum Phase {
     },
 }
 
+impl Phase {
+    /// Returns whether this phase is a disabled activity
+    pub(crate) fn is_disabled(&self) -> bool {
+        matches!(self, Self::Activity { disabled: true, .. })
+    }
+
+    /// Returns whether this phase is the activity with the provided name, if any
+    pub(crate) fn is_named(&self, target: &Option<String>) -> bool {
+        matches!(self, Self::Activity { name, .. } if target.as_ref() == Some(name))
+    }
+}
+
 impl StaticType for Phase {
     fn static_type() -> SimpleType {
         let mut variants = HashMap::new();
diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index d5ed85e..254f855 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -125,7 +125,7 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        let mut phase_iterator = self.seq.range(state.epoch()..);
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -221,8 +221,10 @@ impl SpacecraftSequence {
                             }
                         }
 
+                        // This phase goes on until the next one that is not disabled.
                         let end_time = phase_iterator
-                            .peek()
+                            .clone()
+                            .find(|(_, next)| !next.is_disabled() || next.is_named(&until_phase))
                             .expect("validate did not catch missing terminate")
                             .0;
 
-- 
2.43.0


From 75f310147fc4c279a8dea137ece8acb54a431882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:41 +0000
Subject: [PATCH 62/65] fix: a sequence resumes the phase in progress at the
 epoch of the state

---
 nyx-core/src/dynamics/sequence/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 254f855..6ece497 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -125,7 +125,14 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..);
+        // Start with the phase in progress at the epoch of the state, if any.
+        let init_epoch = state.epoch();
+        let first_epoch = self
+            .seq
+            .range(..=init_epoch)
+            .rfind(|(_, phase)| !phase.is_disabled())
+            .map_or(init_epoch, |(epoch, _)| *epoch);
+        let mut phase_iterator = self.seq.range(first_epoch..);
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -154,7 +161,10 @@ impl SpacecraftSequence {
                         info!("[{epoch}] skipping disabled {name}");
                     } else {
                         info!("[{epoch}] executing {name}");
-                        if let Some(discrete_event) = on_entry {
+                        // A phase already in progress is not entered again.
+                        if let Some(discrete_event) = on_entry
+                            && *epoch >= init_epoch
+                        {
                             match &**discrete_event {
                                 DiscreteEvent::FrameSwap { new_frame } => {
                                     if !new_frame.orient_origin_match(state.orbit.frame)
-- 
2.43.0


From 3baf60cae467cf3a8f91d2953205c1b9522eaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:08 +0000
Subject: [PATCH 63/65] fix: B-plane dispersions are dispersed instead of
 refused

---
 nyx-core/src/mc/multivariate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 58d5001..0a0b06f 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -99,7 +99,7 @@ impl MvnSpacecraft {
 
         let num_orbital = dispersions
             .iter()
-            .filter(|disp| disp.param.is_orbital())
+            .filter(|disp| disp.param.is_orbital() || disp.param.is_b_plane())
             .count();
 
         if num_orbital > 0 {
@@ -111,7 +111,7 @@ impl MvnSpacecraft {
 
             for (rno, disp) in dispersions
                 .iter()
-                .filter(|d| d.param.is_orbital())
+                .filter(|d| d.param.is_orbital() || d.param.is_b_plane())
                 .enumerate()
             {
                 let partial = if let StateParameter::Element(oe) = disp.param {
@@ -163,7 +163,7 @@ impl MvnSpacecraft {
 
         if dispersions.len() > num_orbital {
             for disp in &dispersions {
-                if disp.param.is_orbital() {
+                if disp.param.is_orbital() || disp.param.is_b_plane() {
                     continue;
                 } else {
                     match disp.param {
-- 
2.43.0


From b6e55d8b270a8d602786ef723cb23cdf5ecacf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:08 +0000
Subject: [PATCH 64/65] fix: a dry mass dispersion disperses the dry mass, not
 the propellant

---
 nyx-core/src/mc/multivariate.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 0a0b06f..4ac5075 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -176,6 +176,17 @@ impl MvnSpacecraft {
                             mean[7] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::DryMass() | StateParameter::PropMass() => {
+                            // There is only one mass in the state space: the dry and propellant
+                            // masses cannot both be dispersed.
+                            if dispersions.iter().any(|other| {
+                                other.param != disp.param
+                                    && matches!(
+                                        other.param,
+                                        StateParameter::DryMass() | StateParameter::PropMass()
+                                    )
+                            }) {
+                                return Err(Box::new(StateError::ReadOnly { param: disp.param }));
+                            }
                             cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
                             mean[8] = disp.mean.unwrap_or(0.0);
                         }
@@ -304,6 +315,10 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let x_rng = SVector::<f64, 9>::from_fn(|_, _| self.std_norm_distr.sample(rng));
         let x = self.sqrt_s_v * x_rng + self.mean;
         let mut state = self.template;
+        let dry_mass = self
+            .dispersions
+            .iter()
+            .any(|disp| disp.param == StateParameter::DryMass());
 
         // Set the new state data
         for (coord, val) in x.iter().copied().enumerate() {
@@ -315,6 +330,8 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
                 state.srp.coeff_reflectivity += val;
             } else if coord == 7 {
                 state.drag.coeff_drag += val;
+            } else if coord == 8 && dry_mass {
+                state.mass.dry_mass_kg += val;
             } else if coord == 8 {
                 state.mass.prop_mass_kg += val;
             }
-- 
2.43.0


From 77b86bdddebafd485419d1d9a2573ae28e5ae935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:54 +0000
Subject: [PATCH 65/65] fix: the normality test returns an error when residuals
 have no spread

---
 nyx-core/src/od/process/solution/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 34d9495..39db2f1 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -223,7 +223,10 @@ where
         let std_dev = variance.sqrt();
 
         // Create a normal distribution based on the empirical mean and std deviation.
-        let normal_dist = Normal::new(mean, std_dev).unwrap();
+        // Residuals without any spread, e.g. a single one, do not define such a distribution.
+        let normal_dist = Normal::new(mean, std_dev).map_err(|_| ODError::ODNoResiduals {
+            action: "fit a normal distribution",
+        })?;
 
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
-- 
2.43.0

