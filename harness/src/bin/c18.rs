use anise::errors::AlmanacResult;
use anise::constants::frames::IAU_EARTH_FRAME;
use anise::prelude::{Almanac, Frame};
use anise::structure::LocationDataSet;
use nyx_space::State;
use hifitime::Epoch;
use indexmap::IndexSet;
use nyx_space::Spacecraft;
use nyx_space::cosmic::Orbit;
use nyx_space::io::ConfigRepr;
use nyx_space::md::Trajectory;
use nyx_space::md::trajectory::Traj;
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::msr::measurement::Measurement;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrackingArcSim, TrkConfig};
use nyx_space::od::{GroundStation, ODError, TrackingDevice};
use rand::RngExt;
use rand_pcg::Pcg64Mcg;
use std::collections::BTreeMap;
use std::f64::consts::PI;
use vpharness::od::{Od2, RG};
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
/// sees the vehicle from `from` to `to`, fails from `fail` to 400 s later; what it measures is the next random draw
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
struct Dish { name: String, #[serde(skip)] types: IndexSet<MeasurementType>, from: i64, to: i64, fail: i64 }
impl ConfigRepr for Dish {}
impl Dish {
    fn fails(&self, e: Epoch) -> bool { e >= ep(self.fail) && e < ep(self.fail + 400 * S) }
    fn sees(&self, e: Epoch) -> bool { e >= ep(self.from) && e <= ep(self.to) }
}
impl TrackingDevice<Od2> for Dish {
    fn name(&self) -> String { self.name.clone() }
    fn measurement_types(&self) -> &IndexSet<MeasurementType> { &self.types }
    fn measure(&mut self, epoch: Epoch, _: &Traj<Od2>, rng: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> {
        if self.fails(epoch) { return Err(ODError::NoiseNotConfigured { kind: String::new() }); }
        if !self.sees(epoch) { return Ok(None); }
        let mut m = Measurement::new(self.name.clone(), epoch);
        m.push(RG, rng.unwrap().random::<u32>() as f64);
        Ok(Some(m))
    }
    fn location(&self, _: Epoch, _: Frame, _: &Almanac) -> AlmanacResult<Orbit> { unreachable!() }
    fn measure_instantaneous(&mut self, _: Od2, _: Option<&mut Pcg64Mcg>, _: &Almanac) -> Result<Option<Measurement>, ODError> { unreachable!() }
    fn measurement_covar(&self, _: MeasurementType, _: Epoch) -> Result<f64, ODError> { Ok(1.0) }
    fn measurement_bias(&self, _: MeasurementType, _: Epoch) -> Result<f64, ODError> { Ok(0.0) }
}
fn dish(n: &str, from: i64, to: i64, fail: i64) -> Dish { Dish { name: n.to_string(), types: [RG].into_iter().collect(), from, to, fail } }
fn path(a: i64, b: i64) -> Traj<Od2> { let mut t = Traj::new(); for e in [a, b] { t.states.push(Od2 { epoch: ep(e), x: [1.0, 2.0], stm: None }); } t }
fn strands(s: Vec<(i64, i64)>, sampling: i64) -> TrkConfig { TrkConfig { scheduler: None, sampling: ns(sampling), strands: Some(s.iter().map(|x| Strand::new(ep(x.0), ep(x.1))).collect()) } }
const SEED: u64 = 5;
/// (device, epoch, value) of every measurement, in the order they are simulated
fn expected(dev: &[Dish], cfg: &[(Vec<(i64, i64)>, i64)], rng: &mut Pcg64Mcg) -> Vec<(String, i64, f64)> {
    let mut out = vec![];
    for (d, (st, h)) in dev.iter().zip(cfg) {
        for &(a, b) in st {
            let mut e = a;
            while e <= b && !d.fails(ep(e)) {
                if d.sees(ep(e)) { out.push((d.name.clone(), e, rng.random::<u32>() as f64)); }
                e += h;
            }
        }
    }
    out
}
fn same(got: &[Measurement], want: &[(String, i64, f64)]) {
    vp_check(got.len() == want.len(), 1);
    for w in got.windows(2) { vp_check(w[0].epoch <= w[1].epoch, 2); }
    for (n, e, x) in want {
        let mut hits = 0;
        for m in got { if m.epoch == ep(*e) && m.tracker == *n { hits += 1; vp_check(m.data[&RG] == *x, 3); } }
        vp_check(hits == 1, 4);
    }
}

harnesses! {
    /// one device, two strands anywhere (up to three samples each), seen and failing anywhere: every sample of every strand, in order
    fn h_c18_strands() {
        let h = 60 * S;
        let a = [vp_i64(1, E0, E0 + 1000 * S), vp_i64(2, E0, E0 + 1000 * S)];
        let b = [vp_i64(3, E0, E0 + 1200 * S), vp_i64(4, E0, E0 + 1200 * S)];
        for i in 0..2 { vp_assume(b[i] - a[i] < 3 * h); }
        vp_assume(a[1] > b[0] && a[1] > a[0]);
        let d = dish("a", vp_i64(5, E0, E0 + 1200 * S), vp_i64(6, E0, E0 + 1200 * S), vp_i64(7, E0, E0 + 1300 * S));
        let st = vec![(a[0], b[0]), (a[1], b[1])];
        let devs = BTreeMap::from([("a".to_string(), d.clone())]);
        let cfg = BTreeMap::from([("a".to_string(), strands(st.clone(), h))]);
        let mut sim = TrackingArcSim::with_seed(devs, path(E0, E0 + 2000 * S), cfg, SEED);
        if let Ok(sim) = sim.as_mut() {
            let arc = sim.generate_measurements(&Almanac::default()).unwrap();
            let want = expected(&[d], &[(st, h)], &mut Pcg64Mcg::new(SEED as u128));
            same(&arc.measurements, &want);
        } else { vp_check(b[0] - a[0] < h || b[1] - a[1] < h, 5); }
    }
    /// two devices with their own strands and rates, in name order: one stream of random numbers, sorted by time; a device without configuration is left out
    fn h_c18_devices() {
        let (a, b) = (vp_i64(1, E0, E0 + 500 * S), vp_i64(2, E0, E0 + 500 * S));
        let (ea, eb) = (vp_i64(3, E0, E0 + 700 * S), vp_i64(4, E0, E0 + 700 * S));
        vp_assume(ea - a < 120 * S && eb - b < 60 * S && ea - a >= 60 * S && eb - b >= 20 * S);
        let d = [dish("a", vp_i64(5, E0, E0 + 700 * S), E0 + 900 * S, E0 + 1000 * S), dish("b", E0, vp_i64(6, E0, E0 + 700 * S), E0 + 1000 * S)];
        let devs = BTreeMap::from([("b".to_string(), d[1].clone()), ("a".to_string(), d[0].clone()), ("c".to_string(), dish("c", E0, E0 + 900 * S, E0 + 1000 * S))]);
        let cfg = BTreeMap::from([("b".to_string(), strands(vec![(b, eb)], 20 * S)), ("a".to_string(), strands(vec![(a, ea)], 60 * S)), ("z".to_string(), strands(vec![(a, ea)], 7 * S))]);
        let mut sim = TrackingArcSim::with_seed(devs, path(E0, E0 + 2000 * S), cfg, SEED).unwrap();
        let mut r = Pcg64Mcg::new(SEED as u128);
        for _ in 0..2 {
            let arc = sim.generate_measurements(&Almanac::default()).unwrap();
            same(&arc.measurements, &expected(&d, &[(vec![(a, ea)], 60 * S), (vec![(b, eb)], 20 * S)], &mut r));
        }
    }
    /// which configurations are accepted: a device with strands at least one sample long or a scheduler, not both; a scheduler must have become strands before measurements are simulated
    fn h_c18_config() {
        let (a, b, h) = (vp_i64(1, E0, E0 + 500 * S), vp_i64(2, E0, E0 + 700 * S), 60 * S);
        let k = vp_fix_i64(vp_i64(3, 0, 4));
        let cfg = match k {
            0 => strands(vec![(a, b)], h),
            1 => TrkConfig { scheduler: Some(Scheduler::builder().build()), ..strands(vec![(a, b)], h) },
            2 => TrkConfig { scheduler: Some(Scheduler::builder().build()), strands: None, sampling: ns(h) },
            3 => strands(vec![], h),
            _ => TrkConfig { scheduler: None, strands: None, sampling: ns(h) },
        };
        let devs = BTreeMap::from([("a".to_string(), dish("a", E0, E0 + 900 * S, E0 + 1000 * S))]);
        let sim = TrackingArcSim::with_seed(devs, path(E0, E0 + 2000 * S), BTreeMap::from([("a".to_string(), cfg)]), SEED);
        vp_check(sim.is_ok() == (k == 2 || k == 0 && b - a >= h), 1);
        if k == 2 { vp_check(sim.unwrap().generate_measurements(&Almanac::default()).is_err(), 2); }
    }
    /// a schedule for one station over two passes: any minimum number of samples, any on/off cadence, alignments
    //@ time=300
    fn h_c18_cadence() {
        let a = al();
        let (p, s) = (orbiting(42), stations(&[("a", 20.0, 255.0)]));
        let h = 60 * S;
        let w = passes(&a, &p, &s["a"], h);
        vp_check(w.len() == 2, 1);
        let (min, on, off) = (vp_i64(1, 0, 40), vp_i64(2, S, 3000 * S), vp_i64(3, 0, 9000 * S));
        let al = [0, S, 10 * S, 60 * S][vp_fix_i64(vp_i64(4, 0, 3)) as usize];
        let inter = vp_fix_i64(vp_i64(5, 0, 1)) == 1;
        let sch = Scheduler { handoff: Handoff::Eager, cadence: if inter { Cadence::Intermittent { on: ns(on), off: ns(off) } } else { Cadence::Continuous }, min_samples: min as u32, sample_alignment: if al > 0 { Some(ns(al)) } else { None } };
        let sim = TrackingArcSim::with_seed(s, p, BTreeMap::from([("a".to_string(), TrkConfig { scheduler: Some(sch), sampling: ns(h), strands: None })]), 1).unwrap();
        let o = sim.generate_schedule(&a).unwrap();
        let c = &o["a"];
        vp_check(c.scheduler.is_none() && c.sampling == ns(h), 2);
        let got = c.strands.as_ref().unwrap();
        let mut last: Option<i64> = None;
        let mut n = 0;
        for (r, f) in w {
            if f - r < min * h { continue; }
            let (mut x, mut y) = (near_to(r, al), near_to(f, al));
            if x < BEG { x += al; }
            if let (Some(l), true) = (last, inter) { if l + off > x { x = l + off; } }
            if x > y { continue; }
            if inter && y - x > on { y = x + on; }
            last = Some(y);
            vp_check(n < got.len() && got[n].start == ep(x) && got[n].end == ep(y), 3);
            n += 1;
        }
        vp_check(got.len() == n, 4);
    }
    /// three stations seeing the vehicle in turn, one of them only while another does; the first one eager
    //@ time=300
    fn h_c18_eager() { handoff(Handoff::Eager) }
    /// the same, the first one greedy
    //@ time=300
    fn h_c18_greedy() { handoff(Handoff::Greedy) }
    /// the same, the first one sharing
    //@ time=300
    fn h_c18_overlap() { handoff(Handoff::Overlap) }
    /// a strand includes both its ends; its duration is the time between them
    fn h_c18_strand() {
        let (a, b, e) = (vp_i64(1, -1000, 1000), vp_i64(2, -1000, 1000), vp_i64(3, -1000, 1000));
        let s = Strand::new(ep(E0 + a), ep(E0 + b));
        vp_check(s.contains(ep(E0 + e)) == (a <= e && e <= b), 1);
        vp_check(s.duration() == ns(b - a), 2);
    }
    /// nobody sees the vehicle long enough: an empty schedule, and no measurements
    fn h_c18_nobody() {
        let a = al();
        let s = stations(&[("a", 20.0, 285.0)]);
        let min = vp_i64(1, 100, 1000);
        let sch = Scheduler { min_samples: min as u32, ..Scheduler::builder().build() };
        let mut sim = TrackingArcSim::with_seed(s, orbiting(4), BTreeMap::from([("a".to_string(), TrkConfig { scheduler: Some(sch), sampling: ns(60 * S), strands: None })]), 1).unwrap();
        sim.build_schedule(&a).unwrap();
        vp_check(sim.configs["a"].strands == Some(vec![]) && sim.configs["a"].scheduler.is_none(), 1);
        vp_check(sim.generate_measurements(&a).unwrap().measurements.is_empty(), 2);
    }
}
/// the trajectory starts a third of a second after a whole one
const BEG: i64 = E0 + 300_000_000;
fn near_to(x: i64, a: i64) -> i64 { if a == 0 { x } else { (x + a / 2) / a * a } }
fn al() -> Almanac { vpharness::alm::almanac(&[vpharness::alm::body(399, 0, [0.0; 3], [0.0; 3])], &[(399, 398600.4418, 6378.0)]) }
/// circular, inclined 30 deg, radius 8000 km, a state every five minutes
fn orbiting(n: i64) -> Trajectory {
    let mut t = Trajectory::new();
    let (r, mu): (f64, f64) = (8000.0, 398600.4418);
    let w = (mu / r / r / r).sqrt();
    let (ci, si) = ((PI / 6.0).cos(), (PI / 6.0).sin());
    for k in 0..n {
        let dt = 300.0 * k as f64 + 0.3;
        let (c, s) = ((w * dt).cos(), (w * dt).sin());
        let o = Orbit::new(r * c, r * s * ci, r * s * si, -r * w * s, r * w * c * ci, r * w * c * si, ep(BEG + 300 * S * k), earth());
        t.states.push(Spacecraft::new(o, 100.0, 10.0, 1.0, 1.0, 1.5, 2.2));
    }
    t
}
fn stations(s: &[(&str, f64, f64)]) -> BTreeMap<String, GroundStation> { s.iter().map(|x| (x.0.to_string(), GroundStation::from_point(x.0.to_string(), x.1, x.2, 0.0, IAU_EARTH_FRAME))).collect() }
/// rise and set, by anise
fn passes(a: &Almanac, t: &Trajectory, g: &GroundStation, h: i64) -> Vec<(i64, i64)> {
    let mut set = LocationDataSet::default();
    set.push(g.location.clone(), Some(7), None).unwrap();
    let a = a.clone().with_location_data(set);
    let q = |e: Epoch| e.to_tai_duration().total_nanoseconds() as i64;
    a.report_visibility_arcs(t, 7, t.first().epoch(), t.last().epoch(), ns(h), None).unwrap().iter().map(|v| (q(v.rise.orbit.epoch), q(v.fall.orbit.epoch))).collect()
}
fn handoff(first: Handoff) {
    let a = al();
    let (p, s) = (orbiting(10), stations(&[("m", 20.0, 285.0), ("k", -10.0, 300.0), ("c", 20.0, 330.0)]));
    let rate = BTreeMap::from([("c", 30 * S), ("k", 20 * S), ("m", 60 * S)]);
    let mut pre = vec![];
    for (n, g) in &s { for (r, f) in passes(&a, &p, g, rate[n.as_str()]) { let q = near_to(f, S); pre.push((n.clone(), near_to(r, S), if q > BEG + 2700 * S { q - S } else { q })); } }
    vp_check(pre.len() == 3, 1);
    let mut how = BTreeMap::new();
    how.insert("m".to_string(), first);
    for (i, n) in ["c", "k"].iter().enumerate() { how.insert(n.to_string(), [Handoff::Eager, Handoff::Greedy, Handoff::Overlap][vp_fix_i64(vp_i64(1 + i as u32, 0, 2)) as usize]); }
    let cfg: BTreeMap<String, TrkConfig> = s.keys().map(|k| (k.clone(), TrkConfig { scheduler: Some(Scheduler::builder().handoff(how[k]).build()), sampling: ns(rate[k.as_str()]), strands: None })).collect();
    let sim = TrackingArcSim::with_seed(s, p, cfg, 1).unwrap();
    let o = sim.generate_schedule(&a).unwrap();
    let mut got = vec![];
    for (n, c) in &o { vp_check(c.scheduler.is_none(), 2); for t in c.strands.as_ref().unwrap() { got.push((n.clone(), t.start, t.end)); } }
    for (n, x, y) in &got {
        // only while the station sees the vehicle
        vp_check(x <= y && pre.iter().any(|w| w.0 == *n && ep(w.1) <= *x && *y <= ep(w.2)), 3);
        // who does not share is alone
        for (m, u, _) in &got { if n != m && how[n] != Handoff::Overlap && u >= x { vp_check(u > y, 4); } }
    }
    // in order of rise: the greedy one keeps the vehicle until it sets, the eager one hands it to whoever rises
    pre.sort_by_key(|w| w.1);
    let mut want: Vec<(String, i64, i64)> = vec![];
    while !pre.is_empty() {
        let mut t = pre.remove(0);
        match how[&t.0] {
            Handoff::Greedy => { for w in pre.iter_mut() { if w.1 <= t.2 { w.1 = t.2 + rate[w.0.as_str()]; } } pre.retain(|w| w.1 <= w.2); pre.sort_by_key(|w| w.1); }
            Handoff::Eager => if let Some(w) = pre.first() { if w.1 <= t.2 { t.2 = w.1 - rate[t.0.as_str()]; } },
            Handoff::Overlap => {}
        }
        if t.2 >= t.1 { want.push(t); }
    }
    vp_check(want.len() == got.len(), 5);
    for w in &want { vp_check(got.iter().any(|g| g.0 == w.0 && g.1 == ep(w.1) && g.2 == ep(w.2)), 6); }
}
