use indexmap::IndexSet;
use nyx_space::linalg::Const;
use nyx_space::od::msr::{Measurement, MeasurementType, TrackingDataArc};
use vpharness::sc::*;
use vpharness::*;

const S: i64 = 1_000_000_000;
const R: MeasurementType = MeasurementType::Range;
const D: MeasurementType = MeasurementType::Doppler;

fn name(k: i64) -> String { if k == 0 { "A".into() } else { "B".into() } }
fn msr(e: i64, trk: i64, t: MeasurementType, val: f64) -> Measurement { Measurement::new(name(trk), ep(E0 + e)).with(t, val) }
fn arc(m: Vec<Measurement>) -> TrackingDataArc { TrackingDataArc { measurements: m, source: Some("src".into()), moduli: None, force_reject: false } }
/// n measurements at arbitrary non-decreasing epochs, one tracker
fn sorted(n: usize) -> ([i64; 5], TrackingDataArc) {
    let mut e = [0i64; 5];
    let mut m = vec![];
    for i in 0..n { if i > 0 { e[i] = e[i - 1] + vp_i64(i as u32, 1, 100 * S); } m.push(msr(e[i], 0, R, i as f64)); }
    (e, arc(m))
}

harnesses! {
    /// 3 measurements of 2 trackers in any order at any epochs: sorting orders by (epoch, tracker), merges simultaneous ones of one tracker, loses and invents nothing
    //@ cost=9
    fn h_c10_sort() {
        let ty = [R, D, MeasurementType::Azimuth];
        let mut e = [0i64; 3];
        let mut k = [0i64; 3];
        let mut x = [0.0; 3];
        let mut m = vec![];
        for i in 0..3 {
            e[i] = vp_i64(i as u32, 0, 100 * S);
            k[i] = if i == 0 { 0 } else { vp_fix_i64(vp_i64(10 + i as u32, 0, 1)) };
            x[i] = v(20 + i as u32, 1e3);
            m.push(msr(e[i], k[i], ty[i], x[i]));
        }
        m[1].rejected = true;
        let mut a = arc(m);
        a.sort();
        let n = a.len();
        let mut total = 0;
        for j in 0..n {
            if j > 0 {
                let (p, q) = (&a.measurements[j - 1], &a.measurements[j]);
                vp_check(p.epoch < q.epoch || (p.epoch == q.epoch && p.tracker < q.tracker), 1);
            }
            total += a.measurements[j].data.len();
        }
        vp_check(total == 3, 2);
        for i in 0..3 {
            let mut found = 0;
            for j in 0..n {
                let q = &a.measurements[j];
                if let Some(val) = q.data.get(&ty[i]) {
                    found += 1;
                    vp_check(q.epoch == ep(E0 + e[i]) && q.tracker == name(k[i]) && *val == x[i], 3);
                    if i == 1 { vp_check(q.rejected, 4); }
                    if q.data.len() == 1 && i != 1 { vp_check(!q.rejected, 5); }
                }
            }
            vp_check(found == 1, 6);
        }
    }
    /// epoch filters, exclusion and rejection with every kind of bound
    //@ cost=8
    fn h_c10_epoch() {
        let (e, a) = sorted(3);
        let (lo, hi) = (vp_i64(10, -10 * S, 300 * S), vp_i64(11, -10 * S, 300 * S));
        vp_assume(lo <= hi);
        let op = vp_fix_i64(vp_i64(12, 0, 2));
        let kind = vp_fix_i64(vp_i64(13, 0, 3));
        let (l, h) = (ep(E0 + lo), ep(E0 + hi));
        let f = match (op, kind) {
            (0, 0) => a.filter_by_epoch(l..h), (0, 1) => a.filter_by_epoch(l..=h), (0, 2) => a.filter_by_epoch(l..), (0, _) => a.filter_by_epoch(..h),
            (1, 0) => a.exclude_by_epoch(l..h), (1, 1) => a.exclude_by_epoch(l..=h), (1, 2) => a.exclude_by_epoch(l..), (1, _) => a.exclude_by_epoch(..h),
            (_, 0) => a.reject_by_epoch(l..h), (_, 1) => a.reject_by_epoch(l..=h), (_, 2) => a.reject_by_epoch(l..), _ => a.reject_by_epoch(..h),
        };
        let mut j = 0;
        for i in 0..3 {
            let inside = match kind { 0 => e[i] >= lo && e[i] < hi, 1 => e[i] >= lo && e[i] <= hi, 2 => e[i] >= lo, _ => e[i] < hi };
            let keep = match op { 0 => inside, 1 => !inside, _ => true };
            if keep {
                vp_check(f.measurements[j].epoch == ep(E0 + e[i]) && *f.measurements[j].data.get(&R).unwrap() == i as f64, 1);
                vp_check(f.measurements[j].rejected == (op == 2 && inside), 2);
                j += 1;
            }
        }
        vp_check(f.len() == j, 3);
        vp_check(f.source == Some("src".to_string()), 4);
    }
    /// offset filters with every kind of bound
    fn h_c10_offset() {
        let (e, a) = sorted(3);
        let (lo, hi) = (vp_i64(10, -10 * S, 300 * S), vp_i64(11, -10 * S, 300 * S));
        vp_assume(lo <= hi);
        let kind = vp_fix_i64(vp_i64(13, 0, 3));
        let f = match kind { 0 => a.filter_by_offset(ns(lo)..ns(hi)), 1 => a.filter_by_offset(ns(lo)..=ns(hi)), 2 => a.filter_by_offset(ns(lo)..), _ => a.filter_by_offset(..ns(hi)) };
        let mut j = 0;
        for i in 0..3 {
            let inside = match kind { 0 => e[i] >= lo && e[i] < hi, 1 => e[i] >= lo && e[i] <= hi, 2 => e[i] >= lo, _ => e[i] < hi };
            if inside { vp_check(f.measurements[j].epoch == ep(E0 + e[i]), 1); j += 1; }
        }
        vp_check(f.len() == j, 2);
    }
    /// tracker and type filters on every assignment of trackers and types to 3 measurements
    fn h_c10_filters() {
        let mut m = vec![];
        let mut k = [0i64; 3];
        let mut two = [0i64; 3];
        for i in 0..3 {
            k[i] = vp_fix_i64(vp_i64(i as u32, 0, 1));
            two[i] = vp_fix_i64(vp_i64(10 + i as u32, 0, 2));
            let mut q = msr(i as i64 * S, k[i], if two[i] == 1 { D } else { R }, v(20 + i as u32, 10.0));
            if two[i] == 2 { q.push(D, v(30 + i as u32, 10.0)); }
            m.push(q);
        }
        let a = arc(m.clone());
        let ft = a.clone().filter_by_tracker("A".into());
        let et = a.clone().exclude_tracker("A".into());
        let fm = a.clone().filter_by_measurement_type(R);
        let em = a.clone().exclude_measurement_type(R);
        let rt = a.clone().reject_by_tracker("B");
        let (mut jf, mut je, mut jm) = (0, 0, 0);
        for i in 0..3 {
            if k[i] == 0 { vp_check(ft.measurements[jf] == m[i], 1); jf += 1; } else { vp_check(et.measurements[je] == m[i], 2); je += 1; }
            if two[i] != 1 { let q = &fm.measurements[jm]; vp_check(q.epoch == m[i].epoch && q.tracker == m[i].tracker && q.data.len() == 1 && q.data.get(&R) == m[i].data.get(&R), 3); jm += 1; }
            vp_check(!em.measurements[i].data.contains_key(&R) && em.measurements[i].data.get(&D) == m[i].data.get(&D), 4);
            vp_check(rt.measurements[i].rejected == (k[i] == 1) && rt.measurements[i] == m[i], 5);
        }
        vp_check(ft.len() == jf && et.len() == je && fm.len() == jm && rt.len() == 3, 6);
        let (who, what) = (a.unique_aliases(), a.unique_types());
        vp_check(who.contains("A") == k.contains(&0) && who.contains("B") == k.contains(&1) && who.len() == k.contains(&0) as usize + k.contains(&1) as usize, 7);
        let (r, d) = (two.iter().any(|t| *t != 1), two.iter().any(|t| *t != 0));
        vp_check(what.contains(&R) == r && what.contains(&D) == d && what.len() == r as usize + d as usize, 8);
        vp_check(a.unique() == (who, what), 9);
        vp_check(a.clone().resid_vs_ref_check().force_reject && a.clone().resid_vs_ref_check() == a, 10);
    }
    /// chunking: consecutive pieces no longer than the maximum, together exactly the arc
    fn h_c10_chunk() {
        let (e, mut a) = sorted(4);
        a.force_reject = true;
        a.set_moduli(R, 100.0);
        let d = vp_i64(10, 1, 200 * S);
        let c = a.chunk(ns(d));
        let mut i = 0;
        for q in &c {
            vp_check(!q.is_empty(), 1);
            vp_check(q.duration().unwrap() <= ns(d), 2);
            vp_check(q.force_reject && q.moduli.as_ref().unwrap().get(&R) == Some(&100.0) && q.source == a.source, 3);
            for msr in &q.measurements { vp_check(msr.epoch == ep(E0 + e[i]) && *msr.data.get(&R).unwrap() == i as f64, 4); i += 1; }
            // greedy: the next measurement would not have fit
            if i < 4 { vp_check(ep(E0 + e[i]) - q.start_epoch().unwrap() > ns(d), 5); }
        }
        vp_check(i == 4, 6);
        vp_check(a.chunk(ns(-d)).is_empty() && a.chunk(ns(0)).is_empty(), 7);
    }
    /// equality is symmetric, and needs tracker, epoch, types and values to agree
    fn h_c10_eq() {
        let e = vp_i64(1, 0, S);
        let (x, y) = (v(2, 10.0), v(3, 10.0));
        let k = vp_fix_i64(vp_i64(4, 0, 1));
        let extra = vp_fix_i64(vp_i64(5, 0, 2));
        let mut a = msr(0, 0, R, x);
        let mut b = msr(e, k, R, y);
        if extra == 1 { a.push(D, 1.0); }
        if extra == 2 { b.push(D, 1.0); }
        vp_assume(!near(x, y, 2e-10) || near(x, y, 5e-11));
        let want = e == 0 && k == 0 && extra == 0 && near(x, y, 6e-11);
        vp_check((a == b) == want, 1);
        vp_check((b == a) == (a == b), 2);
    }
    /// observation vector and availability in the order of the requested types; absent types are zero
    fn h_c10_obs() {
        let (x, y) = (v(1, 10.0), v(2, 10.0));
        let has_d = vp_fix_i64(vp_i64(3, 0, 1)) == 1;
        let order = vp_fix_i64(vp_i64(4, 0, 1)) == 1;
        let mut m = msr(0, 0, R, x);
        if has_d { m.push(D, y); }
        let mut ts = IndexSet::new();
        if order { ts.insert(D); ts.insert(R); } else { ts.insert(R); ts.insert(D); }
        let o = m.observation::<Const<2>>(&ts);
        let av = m.availability(&ts);
        let (ir, id) = if order { (1, 0) } else { (0, 1) };
        vp_check(o[ir] == x && av[ir], 1);
        vp_check(o[id] == if has_d { y } else { 0.0 } && av[id] == has_d, 2);
        let c = v(5, 5.0);
        m.correct(R, c);
        vp_check(near(*m.data.get(&R).unwrap(), x + c, 1e-12) && (!has_d || *m.data.get(&D).unwrap() == y), 3);
    }
    /// merging two arcs: everything of both, in order, nothing rejected wholesale
    fn h_c10_add() {
        let (a0, b0) = (vp_i64(1, 0, 100 * S), vp_i64(2, 0, 100 * S));
        let (x, y) = (v(3, 10.0), v(4, 10.0));
        let mut a = arc(vec![msr(a0, 0, R, x)]);
        a.set_moduli(R, 7.0);
        let b = arc(vec![msr(b0, 0, D, y)]);
        let same = a0 == b0;
        let s = a + b;
        if same { vp_check(s.len() == 1 && s.measurements[0].data.get(&R) == Some(&x) && s.measurements[0].data.get(&D) == Some(&y), 1); }
        else {
            vp_check(s.len() == 2 && s.measurements[0].epoch < s.measurements[1].epoch, 2);
            let (i, j) = if a0 < b0 { (0, 1) } else { (1, 0) };
            vp_check(s.measurements[i].data.get(&R) == Some(&x) && s.measurements[j].data.get(&D) == Some(&y), 3);
        }
        vp_check(s.moduli.as_ref().unwrap().get(&R) == Some(&7.0), 4);
        vp_check(s.start_epoch().unwrap() == ep(E0 + if a0 < b0 { a0 } else { b0 }) && s.end_epoch().unwrap() == ep(E0 + if a0 < b0 { b0 } else { a0 }), 5);
    }
    /// downsampling 6 regular measurements of one or two trackers: decimated epochs, values averaged over neighbours of the same tracker only
    fn h_c10_down() {
        let two = vp_fix_i64(vp_i64(30, 0, 1)) == 1;
        let mut m = vec![];
        let mut x = [0.0; 6];
        for i in 0..6 { x[i] = v(i as u32, 100.0); m.push(msr(i as i64 * 10 * S, 0, R, x[i])); if two { m.push(msr(i as i64 * 10 * S, 1, R, 5000.0)); } }
        let mut a = arc(m);
        a.set_moduli(R, 9.0);
        let n = vp_fix_i64(vp_i64(31, 1, 4)) as usize;
        let d = a.downsample(ns(n as i64 * 10 * S));
        vp_check(d.moduli.as_ref().unwrap().get(&R) == Some(&9.0), 1);
        let mut j = 0;
        let mut cnt = 0;
        for q in &d.measurements {
            if q.tracker == "B" { vp_check(near(*q.data.get(&R).unwrap(), 5000.0, 1e-9), 2); continue; }
            vp_check(q.epoch == ep(E0 + j as i64 * 10 * S), 3);
            let val = *q.data.get(&R).unwrap();
            if n == 1 { vp_check(val == x[j], 4); }
            else {
                let (s, e) = (j.saturating_sub(n / 2), (j + n / 2 + 1).min(6));
                let mut sum = 0.0;
                for w in s..e { sum += x[w]; }
                vp_check(near(val * (e - s) as f64, sum, 1e-6), 5);
            }
            j += n;
            cnt += 1;
        }
        vp_check(cnt == (6 + n - 1) / n, 6);
        vp_check(d.len() == if two { 2 * cnt } else { cnt }, 7);
    }
    /// modulus: values are reduced below it, keeping their residue; nil moduli are refused
    fn h_c10_moduli() {
        let x = vp_f64(1, 0.0, 50.0);
        let md = vp_f64(2, 10.0, 60.0);
        let mut a = arc(vec![msr(0, 0, R, x).with(D, x)]);
        a.set_moduli(R, 0.0);
        vp_check(a.moduli.is_none(), 1);
        a.set_moduli(R, md);
        a.apply_moduli();
        let y = *a.measurements[0].data.get(&R).unwrap();
        vp_check(y >= 0.0 && y < md, 2);
        let k = x - y;
        vp_check(near(k, 0.0, 1e-9) || near(k, md, 1e-9) || near(k, 2.0 * md, 1e-9) || near(k, 3.0 * md, 1e-9) || near(k, 4.0 * md, 1e-9) || near(k, 5.0 * md, 1e-9), 3);
        vp_check(*a.measurements[0].data.get(&D).unwrap() == x, 4);
    }
    /// shortest spacing between consecutive measurements
    fn h_c10_sep() {
        let (e, a) = sorted(3);
        let (p, q) = (e[1] - e[0], e[2] - e[1]);
        vp_check(a.min_duration_sep() == Some(ns(if p < q { p } else { q })), 1);
        vp_check(a.duration() == Some(ns(e[2])), 2);
    }
}
