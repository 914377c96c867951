//! Minimal user-defined `State`/`Dynamics` (both are public traits of nyx): the propagator under
//! check is nyx's own, the state and its equations of motion are the harness'.
use nyx_space::State;
use nyx_space::cosmic::Orbit;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::linalg::{Const, OVector, U1};
use anise::prelude::Almanac;
use hifitime::Epoch;
use std::fmt;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Toy { pub epoch: Epoch, pub x: f64 }
impl Default for Toy { fn default() -> Self { Toy { epoch: Epoch::from_tai_seconds(0.0), x: 0.0 } } }
impl fmt::Display for Toy { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::LowerExp for Toy { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl State for Toy {
    type Size = U1;
    type VecLength = U1;
    fn to_vector(&self) -> OVector<f64, U1> { OVector::<f64, U1>::new(self.x) }
    fn with_stm(self) -> Self { self }
    fn unset_stm(&mut self) {}
    fn set(&mut self, epoch: Epoch, v: &OVector<f64, U1>) { self.epoch = epoch; self.x = v[0]; }
    fn epoch(&self) -> Epoch { self.epoch }
    fn set_epoch(&mut self, epoch: Epoch) { self.epoch = epoch; }
    fn orbit(&self) -> Orbit { Orbit::zero(anise::constants::frames::EARTH_J2000) }
}

/// x' = a + b t + c x
#[derive(Copy, Clone, Debug)]
pub struct ToyDyn { pub a: f64, pub b: f64, pub c: f64 }
impl Dynamics for ToyDyn {
    type HyperdualSize = Const<2>;
    type StateType = Toy;
    fn eom(&self, dt: f64, v: &OVector<f64, U1>, _ctx: &Toy, _alm: &Almanac) -> Result<OVector<f64, U1>, DynamicsError> {
        Ok(OVector::<f64, U1>::new(self.a + self.b * dt + self.c * v[0]))
    }
}

/// Dynamics whose derivative at the n-th evaluation is the arbitrary value k[n]: whatever the integrator
/// does with the derivatives, it has to cope with every sequence of values.
pub struct FreeDyn { pub k: Vec<f64>, pub n: std::sync::Arc<std::sync::atomic::AtomicUsize> }
impl Clone for FreeDyn { fn clone(&self) -> Self { FreeDyn { k: self.k.clone(), n: self.n.clone() } } }
impl Dynamics for FreeDyn {
    type HyperdualSize = Const<2>;
    type StateType = Toy;
    fn eom(&self, _dt: f64, _v: &OVector<f64, U1>, _ctx: &Toy, _alm: &Almanac) -> Result<OVector<f64, U1>, DynamicsError> {
        let i = self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(OVector::<f64, U1>::new(self.k[i]))
    }
}

/// State of `N` components; used with `TreeDyn` below.
macro_rules! vecstate {
    ($name:ident, $n:literal) => {
        #[derive(Copy, Clone, Debug, PartialEq)]
        pub struct $name { pub epoch: Epoch, pub x: [f64; $n] }
        impl Default for $name { fn default() -> Self { $name { epoch: Epoch::from_tai_seconds(0.0), x: [0.0; $n] } } }
        impl fmt::Display for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl fmt::LowerExp for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl State for $name {
            type Size = Const<$n>;
            type VecLength = Const<$n>;
            fn to_vector(&self) -> OVector<f64, Const<$n>> { OVector::<f64, Const<$n>>::from_column_slice(&self.x) }
            fn with_stm(self) -> Self { self }
            fn unset_stm(&mut self) {}
            fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<$n>>) { self.epoch = epoch; self.x.copy_from_slice(v.as_slice()); }
            fn epoch(&self) -> Epoch { self.epoch }
            fn set_epoch(&mut self, epoch: Epoch) { self.epoch = epoch; }
            fn orbit(&self) -> Orbit { Orbit::zero(anise::constants::frames::EARTH_J2000) }
        }
    };
}
vecstate!(Vs8, 8);
vecstate!(Vs17, 17);
vecstate!(Vs37, 37);
vecstate!(Vs85, 85);
vecstate!(Vs200, 200);

/// The rooted trees of B-series theory, ordered by order: (order, gamma, children indices)
pub fn trees(max_order: usize) -> Vec<(usize, f64, Vec<usize>)> {
    let mut t: Vec<(usize, f64, Vec<usize>)> = vec![(1, 1.0, vec![])];
    for o in 2..=max_order {
        // multisets of existing trees with total order o-1, as non-increasing index sequences
        let avail = t.len();
        let mut stack: Vec<(Vec<usize>, usize, usize)> = vec![(vec![], o - 1, avail)];
        let mut found = vec![];
        while let Some((ch, left, cap)) = stack.pop() {
            if left == 0 { found.push(ch); continue; }
            for i in 0..cap {
                if t[i].0 <= left {
                    let mut c = ch.clone();
                    c.push(i);
                    stack.push((c, left - t[i].0, i + 1));
                }
            }
        }
        for c in found {
            let g = c.iter().fold(o as f64, |g, &i| g * t[i].1);
            t.push((o, g, c));
        }
    }
    t
}
/// y_tau' = prod y_child(tau): from y(0)=0 the exact solution is t^|tau| / gamma(tau), and a Runge-Kutta
/// method has order p exactly when it reproduces it for every tree of order <= p.
macro_rules! treedyn {
    ($name:ident, $st:ident, $n:literal) => {
        #[derive(Clone)]
        pub struct $name { pub t: std::sync::Arc<Vec<(usize, f64, Vec<usize>)>> }
        impl Dynamics for $name {
            type HyperdualSize = Const<2>;
            type StateType = $st;
            fn eom(&self, _dt: f64, v: &OVector<f64, Const<$n>>, _ctx: &$st, _alm: &Almanac) -> Result<OVector<f64, Const<$n>>, DynamicsError> {
                let mut o = OVector::<f64, Const<$n>>::zeros();
                for i in 0..$n { let mut p = 1.0; for &c in &self.t[i].2 { p *= v[c]; } o[i] = p; }
                Ok(o)
            }
        }
    };
}
treedyn!(Tree8, Vs8, 8);
treedyn!(Tree17, Vs17, 17);
treedyn!(Tree37, Vs37, 37);
treedyn!(Tree85, Vs85, 85);
treedyn!(Tree200, Vs200, 200);

/// Linear state with an STM, the shape the filters work on.
macro_rules! linstate {
    ($name:ident, $n:literal, $nn:literal) => {
        #[derive(Copy, Clone, Debug, PartialEq)]
        pub struct $name { pub epoch: Epoch, pub x: [f64; $n], pub stm: Option<nyx_space::linalg::OMatrix<f64, Const<$n>, Const<$n>>> }
        impl Default for $name { fn default() -> Self { $name { epoch: Epoch::from_tai_seconds(0.0), x: [0.0; $n], stm: None } } }
        impl fmt::Display for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl fmt::LowerExp for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl State for $name {
            type Size = Const<$n>;
            type VecLength = Const<$nn>;
            fn to_vector(&self) -> OVector<f64, Const<$nn>> {
                let mut o = OVector::<f64, Const<$nn>>::zeros();
                for i in 0..$n { o[i] = self.x[i]; }
                if let Some(m) = self.stm { for i in 0..$n { for j in 0..$n { o[$n + i * $n + j] = m[(i, j)]; } } }
                o
            }
            fn stm(&self) -> Result<nyx_space::linalg::OMatrix<f64, Const<$n>, Const<$n>>, DynamicsError> { self.stm.ok_or(DynamicsError::StateTransitionMatrixUnset) }
            fn with_stm(mut self) -> Self { self.stm = Some(nyx_space::linalg::OMatrix::<f64, Const<$n>, Const<$n>>::identity()); self }
            fn reset_stm(&mut self) { self.stm = Some(nyx_space::linalg::OMatrix::<f64, Const<$n>, Const<$n>>::identity()); }
            fn unset_stm(&mut self) { self.stm = None; }
            fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<$nn>>) {
                self.epoch = epoch;
                for i in 0..$n { self.x[i] = v[i]; }
                if let Some(m) = self.stm.as_mut() { for i in 0..$n { for j in 0..$n { m[(i, j)] = v[$n + i * $n + j]; } } }
            }
            fn epoch(&self) -> Epoch { self.epoch }
            fn set_epoch(&mut self, epoch: Epoch) { self.epoch = epoch; }
            fn add(mut self, d: OVector<f64, Const<$n>>) -> Self { for i in 0..$n { self.x[i] += d[i]; } self }
            fn orbit(&self) -> Orbit { let mut o = crate::sc::fixed_orbit(self.epoch); o.epoch = self.epoch; o }
        }
    };
}
linstate!(Lin2, 2, 6);
linstate!(Lin3, 3, 12);
linstate!(Lin6, 6, 42);
