use anise::astro::{Location, TerrainMask};
use der::{Decode, Encode};
use indexmap::{IndexMap, IndexSet};
use hifitime::{Epoch, TimeScale};
use nyx_space::Spacecraft;
use nyx_space::cosmic::GuidanceMode;
use nyx_space::dynamics::guidance::Thruster;
use nyx_space::od::noise::{GaussMarkov, StochasticNoise, WhiteNoise};
use nyx_space::od::msr::MeasurementType;
use nyx_space::od::GroundStation;
use nyx_space::od::simulator::{Cadence, Handoff, Scheduler, Strand, TrkConfig};
use vpharness::sc::*;
use vpharness::*;

/// encoded: the announced length is the written one, and nothing is left over when reading it back
fn there_and_back<T: Encode + for<'a> Decode<'a>>(x: &T, id: u32) -> T {
    let mut buf = vec![];
    x.encode_to_vec(&mut buf).unwrap();
    vp_check(x.encoded_len().unwrap() == der::Length::try_from(buf.len()).unwrap(), id);
    match T::from_der(&buf) {
        Ok(y) => y,
        Err(_) => { vp_check(false, id + 1); panic!("cannot be read back") }
    }
}
fn dur(id: u32) -> hifitime::Duration { ns(vp_i64(id, 0, 1_000_000_000_000_000_000)) }
fn sched(b: u32) -> Scheduler {
    Scheduler {
        handoff: [Handoff::Eager, Handoff::Greedy, Handoff::Overlap][pick(b, 3) as usize],
        cadence: if pick(b + 1, 2) == 1 { Cadence::Intermittent { on: dur(b + 2), off: dur(b + 3) } } else { Cadence::Continuous },
        min_samples: vp_i64(b + 4, 0, 1_000_000) as u32,
        sample_alignment: (pick(b + 5, 2) == 1).then(|| dur(b + 6)),
    }
}
fn pick(id: u32, n: i64) -> i64 { vp_fix_i64(vp_i64(id, 0, n - 1)) }

harnesses! {
/// spacecraft with and without a thruster, in each guidance mode
fn h_c24_spacecraft() {
    let mut s = craft(0, ep(vp_i64(20, 0, 3_000_000_000_000_000_000)));
    let has = pick(21, 2) == 1;
    if has { s.thruster = Some(Thruster { thrust_N: v(22, 10.0), isp_s: v(23, 1e4) }); }
    s.mode = [GuidanceMode::Coast, GuidanceMode::Thrust, GuidanceMode::Inhibit][pick(24, 3) as usize];
    let t: Spacecraft = there_and_back(&s, 1);
    let (a, b) = (scal(&s), scal(&t));
    for i in 0..13 { vp_check(a[i] == b[i], 10 + i as u32); }
    vp_check(t.orbit.epoch == s.orbit.epoch && t.orbit.frame == s.orbit.frame, 30);
    vp_check(t.mode == s.mode, 31);
    match (s.thruster, t.thruster) {
        (None, None) => vp_check(!has, 32),
        (Some(x), Some(y)) => { vp_check(x.thrust_N == y.thrust_N && x.isp_s == y.isp_s, 32); }
        _ => vp_check(false, 32),
    }
    vp_check(t.thrust_direction.is_none() && t.stm.is_none(), 33);
}
/// white noise, Gauss-Markov bias with and without its constant, and every combination of the two
fn h_c24_noise() {
    let w = (pick(0, 2) == 1).then(|| WhiteNoise { mean: v(1, 10.0), sigma: v(2, 10.0) });
    let c = (pick(3, 2) == 1).then(|| v(4, 10.0));
    let b = (pick(5, 2) == 1).then(|| GaussMarkov { tau: dur(6), process_noise: v(7, 10.0), constant: c, prev_epoch: None, init_sample: None });
    let s = StochasticNoise { white_noise: w, bias: b };
    let t = there_and_back(&s, 1);
    vp_check(t.white_noise == s.white_noise, 3);
    vp_check(t.bias == s.bias, 4);
    if let Some(w) = w { vp_check(there_and_back(&w, 5) == w, 7); }
    if let Some(b) = b { vp_check(there_and_back(&b, 8) == b, 10); }
}
/// cadence, scheduler: every hand-off rule, each cadence, with and without an alignment; durations of up to 30 years
fn h_c24_scheduler() {
    let s = sched(0);
    let t = there_and_back(&s, 1);
    vp_check(t.handoff == s.handoff, 3);
    match (s.cadence, t.cadence) {
        (Cadence::Continuous, Cadence::Continuous) => {}
        (Cadence::Intermittent { on: a, off: b }, Cadence::Intermittent { on: c, off: d }) => { vp_check(a == c && b == d, 4); }
        _ => vp_check(false, 4),
    }
    vp_check(t.min_samples == s.min_samples, 5);
    vp_check(t.sample_alignment == s.sample_alignment, 6);
    vp_check(there_and_back(&s.cadence, 7) == s.cadence, 9);
}
/// durations of either sign
fn h_c24_negative() {
    let s = Cadence::Intermittent { on: ns(vp_i64(0, -1_000_000_000_000_000_000, 1_000_000_000_000_000_000)), off: ns(5) };
    vp_check(there_and_back(&s, 1) == s, 3);
    let g = GaussMarkov { tau: ns(vp_i64(1, -1_000_000_000_000_000_000, 1_000_000_000_000_000_000)), process_noise: 1.0, constant: None, prev_epoch: None, init_sample: None };
    vp_check(there_and_back(&g, 4) == g, 6);
}
/// one strand, each end in any of the time scales
fn h_c24_strand() {
    let all = [TimeScale::TAI, TimeScale::TT, TimeScale::ET, TimeScale::TDB, TimeScale::UTC, TimeScale::GPST, TimeScale::GST, TimeScale::BDT, TimeScale::QZSST];
    let (i, j) = (pick(0, 9) as usize, pick(1, 9) as usize);
    vp_assume(i == 0 || j == 4);
    let x = Strand { start: Epoch::from_duration(dur(2), all[i]), end: Epoch::from_duration(dur(3), all[j]) };
    let y = there_and_back(&x, 1);
    vp_check(x.start.duration == y.start.duration, 3);
    vp_check(x.end.duration == y.end.duration, 4);
    vp_check(x.start.time_scale == y.start.time_scale, 5);
    vp_check(x.end.time_scale == y.end.time_scale, 6);
}
/// tracking configuration with and without a scheduler, no strands or zero to three of them
fn h_c24_tracking() {
    let sch = (pick(0, 2) == 1).then(|| sched(30));
    let n = pick(8, 5);
    let strands = (n > 0).then(|| (1..n).map(|i| Strand { start: ep(vp_i64(10 + 2 * i as u32, 0, 1_000_000_000_000_000_000)), end: ep(1_500_000_000_000_000_000 + i) }).collect::<Vec<_>>());
    let c = TrkConfig { scheduler: sch, sampling: dur(9), strands };
    let t = there_and_back(&c, 1);
    vp_check(t.sampling == c.sampling, 3);
    vp_check(t.scheduler == c.scheduler, 4);
    vp_check(t.strands.is_some() == c.strands.is_some(), 5);
    if let (Some(a), Some(b)) = (&c.strands, &t.strands) {
        vp_check(a.len() == b.len(), 6);
        for (x, y) in a.iter().zip(b) { vp_check(x.start.duration == y.start.duration && x.end.duration == y.end.duration, 7); }
    }
}
/// ground station with every combination of optional parts
fn h_c24_station() {
    let kinds = [MeasurementType::Range, MeasurementType::Doppler, MeasurementType::Azimuth, MeasurementType::Elevation, MeasurementType::TransmitFrequencyRate];
    let k = pick(0, 6) as usize;
    let alike = pick(13, 2) == 1;
    let types: IndexSet<_> = kinds[..k].iter().rev().copied().collect();
    let noises = (pick(1, 2) == 1).then(|| kinds[..k.min(3)].iter().rev().enumerate().map(|(i, t)| (*t, StochasticNoise { white_noise: (alike || i != 1).then(|| WhiteNoise { mean: v(20 + i as u32, 1.0), sigma: 0.5 }), bias: (!alike && i > 0).then(|| GaussMarkov { tau: ns(60_000_000_000), process_noise: v(30 + i as u32, 1.0), constant: None, prev_epoch: None, init_sample: None }) })).collect::<IndexMap<_, _>>());
    let mask = (0..pick(2, 3)).map(|i| TerrainMask { azimuth_deg: v(40 + i as u32, 180.0), elevation_mask_deg: v(45 + i as u32, 90.0) }).collect();
    let g = GroundStation {
        name: "Canberra".to_string(),
        location: Location { latitude_deg: v(3, 90.0), longitude_deg: v(4, 180.0), height_km: v(5, 5.0), frame: earth().into(), terrain_mask: mask, terrain_mask_ignored: pick(6, 2) == 1 },
        measurement_types: types,
        integration_time: (pick(7, 2) == 1).then(|| dur(8)),
        light_time_correction: pick(9, 2) == 1,
        timestamp_noise_s: (pick(10, 2) == 1).then(|| StochasticNoise { white_noise: None, bias: Some(GaussMarkov { tau: ns(3_600_000_000_000), process_noise: v(11, 1.0), constant: Some(v(12, 1.0)), prev_epoch: None, init_sample: None }) }),
        stochastic_noises: noises,
    };
    let t = there_and_back(&g, 1);
    vp_check(t.name == g.name, 3);
    vp_check(t.location == g.location, 4);
    vp_check(t.measurement_types.iter().eq(g.measurement_types.iter()), 5);
    vp_check(t.integration_time == g.integration_time, 6);
    vp_check(t.light_time_correction == g.light_time_correction, 7);
    vp_check(t.timestamp_noise_s == g.timestamp_noise_s, 8);
    vp_check(t.stochastic_noises.is_some() == g.stochastic_noises.is_some(), 9);
    if let (Some(a), Some(b)) = (&g.stochastic_noises, &t.stochastic_noises) { vp_check(a.iter().eq(b.iter()), 10); }
}
}
