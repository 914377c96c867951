//! A two-component state (position, speed) on a straight line, and a device measuring fixed linear combinations
//! of it: with these, what nyx' orbit determination process does is linear in every symbolic input.
use anise::errors::AlmanacResult;
use anise::math::interpolation::InterpolationError;
use anise::prelude::{Almanac, Frame};
use hifitime::Epoch;
use indexmap::IndexSet;
use nyx_space::State;
use nyx_space::cosmic::Orbit;
use nyx_space::dynamics::{Dynamics, DynamicsError};
use nyx_space::io::ConfigRepr;
use nyx_space::linalg::allocator::Allocator;
use nyx_space::linalg::{Const, DefaultAllocator, DimName, OMatrix, OVector};
use nyx_space::md::StateParameter;
use nyx_space::md::trajectory::{Interpolatable, Traj};
use nyx_space::od::ODError;
use nyx_space::od::TrackingDevice;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::msr::sensitivity::TrackerSensitivity;
use rand_pcg::Pcg64Mcg;
use std::fmt;

pub type C2 = Const<2>;
macro_rules! odstate {
    ($name:ident, $n:literal, $len:literal) => {
        #[derive(Copy, Clone, Debug, PartialEq)]
        pub struct $name { pub epoch: Epoch, pub x: [f64; $n], pub stm: Option<OMatrix<f64, Const<$n>, Const<$n>>> }
        impl Default for $name { fn default() -> Self { $name { epoch: Epoch::from_tai_seconds(0.0), x: [0.0; $n], stm: None } } }
        impl fmt::Display for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl fmt::LowerExp for $name { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl std::ops::Add<OVector<f64, Const<$n>>> for $name { type Output = $name; fn add(mut self, d: OVector<f64, Const<$n>>) -> $name { for i in 0..$n { self.x[i] += d[i]; } self } }
        impl State for $name {
            type Size = Const<$n>;
            type VecLength = Const<$len>;
            fn to_vector(&self) -> OVector<f64, Const<$len>> {
                let mut o = OVector::<f64, Const<$len>>::zeros();
                for i in 0..$n { o[i] = self.x[i]; }
                if let Some(m) = self.stm { for i in 0..$n { for j in 0..$n { o[$n + i * $n + j] = m[(i, j)]; } } }
                o
            }
            fn to_state_vector(&self) -> OVector<f64, Const<$n>> { OVector::<f64, Const<$n>>::from_column_slice(&self.x) }
            fn stm(&self) -> Result<OMatrix<f64, Const<$n>, Const<$n>>, DynamicsError> { self.stm.ok_or(DynamicsError::StateTransitionMatrixUnset) }
            fn with_stm(mut self) -> Self { self.stm = Some(OMatrix::<f64, Const<$n>, Const<$n>>::identity()); self }
            fn reset_stm(&mut self) { self.stm = Some(OMatrix::<f64, Const<$n>, Const<$n>>::identity()); }
            fn unset_stm(&mut self) { self.stm = None; }
            fn set(&mut self, epoch: Epoch, v: &OVector<f64, Const<$len>>) {
                self.epoch = epoch;
                for i in 0..$n { self.x[i] = v[i]; }
                if let Some(m) = self.stm.as_mut() { for i in 0..$n { for j in 0..$n { m[(i, j)] = v[$n + i * $n + j]; } } }
            }
            fn epoch(&self) -> Epoch { self.epoch }
            fn set_epoch(&mut self, epoch: Epoch) { self.epoch = epoch; }
            fn add(self, d: OVector<f64, Const<$n>>) -> Self { self + d }
            fn orbit(&self) -> Orbit { let mut o = crate::sc::fixed_orbit(self.epoch); o.epoch = self.epoch; o }
        }
        impl Interpolatable for $name {
            fn interpolate(self, epoch: Epoch, st: &[Self]) -> Result<Self, InterpolationError> {
                let mut k = 0;
                while k + 2 < st.len() && st[k + 1].epoch <= epoch { k += 1; }
                let (a, b) = (st[k], st[k + 1]);
                let f = (epoch - a.epoch).to_seconds() / (b.epoch - a.epoch).to_seconds();
                let mut r = a;
                r.epoch = epoch;
                for i in 0..$n { r.x[i] = a.x[i] + f * (b.x[i] - a.x[i]); }
                Ok(r)
            }
            fn frame(&self) -> Frame { crate::sc::earth() }
            fn set_frame(&mut self, _: Frame) {}
            fn export_params() -> Vec<StateParameter> { vec![] }
        }
    };
}
odstate!(Od2, 2, 6);
odstate!(Od6, 6, 42);

/// uniform motion and its state transition matrix
#[derive(Copy, Clone, Debug)]
pub struct Drift;
impl Dynamics for Drift {
    type HyperdualSize = Const<3>;
    type StateType = Od2;
    fn eom(&self, _: f64, v: &OVector<f64, Const<6>>, _: &Od2, _: &Almanac) -> Result<OVector<f64, Const<6>>, DynamicsError> {
        // Phi' = [[0 1] [0 0]] Phi, row by row
        Ok(OVector::<f64, Const<6>>::from_column_slice(&[v[1], 0.0, v[4], v[5], 0.0, 0.0]))
    }
}

/// three dimensions, the speed along x bending the motion along y more and more (so that transition matrices do not commute)
#[derive(Copy, Clone, Debug)]
pub struct Drift6(pub f64);
pub const BEND: f64 = 1e-3;
impl Dynamics for Drift6 {
    type HyperdualSize = Const<7>;
    type StateType = Od6;
    fn eom(&self, dt: f64, v: &OVector<f64, Const<42>>, ctx: &Od6, _: &Almanac) -> Result<OVector<f64, Const<42>>, DynamicsError> {
        let k = self.0 * ((ctx.epoch - crate::sc::ep(crate::sc::E0)).to_seconds() + dt);
        let mut o = OVector::<f64, Const<42>>::zeros();
        for i in 0..3 { o[i] = v[i + 3]; for j in 0..6 { o[6 + i * 6 + j] = v[6 + (i + 3) * 6 + j]; } }
        o[4] = k * v[3];
        for j in 0..6 { o[6 + 4 * 6 + j] = k * v[6 + 3 * 6 + j]; }
        Ok(o)
    }
}
/// where it is, t seconds after E0
pub fn at6(x: &[f64; 6], t: f64) -> [f64; 6] { [x[0] + t * x[3], x[1] + t * x[4] + BEND * t * t * t / 6.0 * x[3], x[2] + t * x[5], x[3], x[4] + BEND * t * t / 2.0 * x[3], x[5]] }

pub const RG: MeasurementType = MeasurementType::Range;
pub const DP: MeasurementType = MeasurementType::Doppler;
/// measures h[0].x as range and h[1].x as Doppler
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Gauge {
    pub name: String,
    #[serde(skip)]
    pub types: IndexSet<MeasurementType>,
    pub h: [[f64; 6]; 2],
    pub bias: [f64; 2],
    pub var: [f64; 2],
    pub seen: bool,
}
fn row(t: MeasurementType) -> usize { if t == RG { 0 } else { 1 } }
impl ConfigRepr for Gauge {}
impl Gauge { pub fn value(&self, t: MeasurementType, x: &[f64]) -> f64 { let h = self.h[row(t)]; let mut o = 0.0; for i in 0..x.len() { o += h[i] * x[i]; } o } }
macro_rules! gauge {
    ($st:ident, $n:literal) => {
        impl TrackingDevice<$st> for Gauge {
            fn name(&self) -> String { format!("device {}", self.name) }
            fn measurement_types(&self) -> &IndexSet<MeasurementType> { &self.types }
            fn measure(&mut self, epoch: Epoch, traj: &Traj<$st>, rng: Option<&mut Pcg64Mcg>, alm: &Almanac) -> Result<Option<Measurement>, ODError> {
                let s = traj.at(epoch).unwrap();
                self.measure_instantaneous(s, rng, alm)
            }
            fn location(&self, _: Epoch, _: Frame, _: &Almanac) -> AlmanacResult<Orbit> { unreachable!() }
            fn measure_instantaneous(&mut self, rx: $st, _: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
                if !self.seen { return Ok(None); }
                let mut m = Measurement::new(self.name.clone(), rx.epoch);
                for t in &self.types { m.push(*t, self.value(*t, &rx.x)); }
                Ok(Some(m))
            }
            fn measurement_covar(&self, t: MeasurementType, _: Epoch) -> Result<f64, ODError> { Ok(self.var[row(t)]) }
            fn measurement_bias(&self, t: MeasurementType, _: Epoch) -> Result<f64, ODError> { Ok(self.bias[row(t)]) }
        }
        impl TrackerSensitivity<$st, $st> for Gauge {
            fn h_tilde<M: DimName>(&self, msr: &Measurement, types: &IndexSet<MeasurementType>, _: &$st, _: &Almanac) -> Result<OMatrix<f64, M, Const<$n>>, ODError>
            where DefaultAllocator: Allocator<M> + Allocator<M, Const<$n>> {
                let mut m = OMatrix::<f64, M, Const<$n>>::zeros();
                for (i, t) in types.iter().enumerate() { if msr.data.contains_key(t) { for c in 0..$n { m[(i, c)] = self.h[row(*t)][c]; } } }
                Ok(m)
            }
        }
    };
}
gauge!(Od2, 2);
gauge!(Od6, 6);
