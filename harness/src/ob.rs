//! Cartesian point state (position and velocity in a frame) with simple public-trait dynamics.
use anise::math::interpolation::InterpolationError;
use anise::prelude::{Almanac, Frame};
use hifitime::Epoch;
use nyx_space::State;
use nyx_space::cosmic::Orbit;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::linalg::{Const, OVector, Vector6};
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::Interpolatable;
use std::fmt;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use crate::sc::*;
use crate::*;

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Ob { pub o: Orbit, pub done: u32 }
impl Default for Ob { fn default() -> Self { Ob { o: fixed_orbit(ep(E0)), done: 0 } } }
impl fmt::Display for Ob { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::LowerExp for Ob { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl State for Ob {
    type Size = Const<6>;
    type VecLength = Const<6>;
    fn to_vector(&self) -> OVector<f64, Const<6>> { self.o.to_cartesian_pos_vel() }
    fn with_stm(self) -> Self { self }
    fn unset_stm(&mut self) {}
    fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<6>>) { self.o = Orbit::from_cartesian_pos_vel(*v, epoch, self.o.frame); }
    fn epoch(&self) -> Epoch { self.o.epoch }
    fn set_epoch(&mut self, epoch: Epoch) { self.o.epoch = epoch; }
    fn orbit(&self) -> Orbit { self.o }
    fn set_orbit(&mut self, o: Orbit) { self.o = o; }
}
impl Interpolatable for Ob {
    /// linear between the two neighbours of the epoch
    fn interpolate(self, epoch: Epoch, st: &[Self]) -> Result<Self, InterpolationError> {
        let mut k = 0;
        while k + 2 < st.len() && st[k + 1].o.epoch <= epoch { k += 1; }
        let (a, b) = (st[k], st[k + 1]);
        let f = (epoch - a.o.epoch).to_seconds() / (b.o.epoch - a.o.epoch).to_seconds();
        let mut r = a;
        r.o.epoch = epoch;
        for i in 0..3 { r.o.radius_km[i] = a.o.radius_km[i] + f * (b.o.radius_km[i] - a.o.radius_km[i]); }
        Ok(r)
    }
    fn frame(&self) -> Frame { self.o.frame }
    fn set_frame(&mut self, f: Frame) { self.o.frame = f; }
    fn export_params() -> Vec<StateParameter> { vec![] }
}
/// straight line; the equations must see the frame they are integrated in
#[derive(Clone)]
pub struct Line { pub frame: Frame }
impl Dynamics for Line {
    type HyperdualSize = Const<7>;
    type StateType = Ob;
    fn eom(&self, _: f64, v: &OVector<f64, Const<6>>, ctx: &Ob, _: &Almanac) -> Result<OVector<f64, Const<6>>, DynamicsError> {
        vp_check(ctx.o.frame.orientation_id == self.frame.orientation_id, 90);
        Ok(Vector6::new(v[3], v[4], v[5], 0.0, 0.0, 0.0))
    }
    fn finally(&self, mut s: Ob, _: &Almanac) -> Result<Ob, DynamicsError> { s.done += 1; Ok(s) }
}
/// x moves at the arbitrary speed k[n] during the n-th (RK4) step
#[derive(Clone)]
pub struct Piece { pub k: Vec<f64>, pub n: Arc<AtomicUsize>, pub snap: f64 }
impl Dynamics for Piece {
    type HyperdualSize = Const<7>;
    type StateType = Ob;
    fn eom(&self, _: f64, _: &OVector<f64, Const<6>>, _: &Ob, _: &Almanac) -> Result<OVector<f64, Const<6>>, DynamicsError> {
        let i = self.n.fetch_add(1, Ordering::Relaxed) / 4;
        Ok(Vector6::new(self.k[i], 0.0, 0.0, 0.0, 0.0, 0.0))
    }    /// a step that ends within 1e-6 of `snap` ends on it
    fn finally(&self, mut s: Ob, _: &Almanac) -> Result<Ob, DynamicsError> { if near(s.o.radius_km.x, self.snap, 1e-6) { s.o.radius_km.x = self.snap; } Ok(s) }
}
