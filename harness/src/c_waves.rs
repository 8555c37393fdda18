//! Swell statistics, tracking, wave theory.
use crate::c_spec::*;
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use chrono::{Duration, TimeZone, Utc};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::spectra::{Spectra, SpectralAxis};
use surfrs::swell::{Swell, SwellProvider, SwellSummary};
use surfrs::tools::waves::*;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, Unit, UnitSystem};

/// Frequency weights (Hz) of the WW3 partition integrals on a grid, with the high-frequency tail.
fn ww3_weights(f: &[f64]) -> (Vec<f64>, f64) {
    let n = f.len();
    let w = (0..n)
        .map(|k| {
            if k == 0 {
                0.5 * f[0] * (f[1] / f[0] - 1.0)
            } else if k == n - 1 {
                0.5 * f[k] * (1.0 - f[k - 1] / f[k])
            } else {
                0.5 * f[k] * (f[k] / f[k - 1] - f[k - 1] / f[k])
            }
        })
        .collect();
    (w, 0.25 * f[n - 1])
}

struct Expected {
    hs: f64,
    total: f64,
    spectrum: Vec<f64>,
    north: f64,
    east: f64,
}

/// Height, one-dimensional spectrum and mean direction of the bins `keep` selects.
fn expected(s: &Spec, keep: impl Fn(usize) -> bool) -> Expected {
    let (w, tail) = ww3_weights(&s.f);
    let nk = s.nk();
    let dth = s.d[1] - s.d[0];
    let (mut m0, mut north, mut east) = (0.0, 0.0, 0.0);
    let mut spectrum = vec![0.0; nk];
    for k in 0..nk {
        let wk = w[k] + if k == nk - 1 { tail } else { 0.0 };
        for t in 0..s.nth() {
            if keep(t * nk + k) {
                let e = s.at(k, t) * dth;
                spectrum[k] += e;
                m0 += e * wk;
                let b = from_bearing(s.d[t], s.conv);
                north += e * wk * b.cos();
                east += e * wk * b.sin();
            }
        }
    }
    Expected { hs: 4.0 * m0.sqrt(), total: m0, spectrum, north, east }
}

fn check_swell(what: &str, got: &Swell, s: &Spec, want: &Expected) -> Result<(), String> {
    let hs = got.wave_height.value.ok_or("no height")?;
    need_close(&format!("{what}: significant height"), hs, want.hs, 1e-6, 1e-9)?;
    need_eq!(got.wave_height.unit, Unit::Meters, "{what}: height unit");
    need_eq!(got.period.unit, Unit::Seconds, "{what}: period unit");
    let tp = got.period.value.ok_or("no period")?;
    let max = want.spectrum.iter().copied().fold(0.0, f64::max);
    let peak = (0..s.nk())
        .find(|k| close(tp, 1.0 / s.f[*k], 1e-9, 0.0))
        .ok_or(format!("{what}: period {tp} is not that of a bin"))?;
    if max > 0.0 {
        need!(want.spectrum[peak] >= max * (1.0 - 1e-9), "{what}: peak at {tp} s holds {}, the highest bin {max}", want.spectrum[peak]);
        // value of the parabola through the peak and its two neighbours
        let mut sd = want.spectrum[peak];
        if peak > 0 && peak < s.nk() - 1 {
            let (l, h) = (want.spectrum[peak - 1], want.spectrum[peak + 1]);
            let curve = l - 2.0 * sd + h;
            if curve != 0.0 {
                sd -= 0.125 * (l - h).powi(2) / curve;
            }
            if curve.abs() < 1e-9 * max {
                sd = f64::NAN; // flat top: the parabola is ill-conditioned
            }
        }
        if sd.is_finite() {
            let v = got.spectral_density.as_ref().and_then(|d| d.value).ok_or("no spectral density")?;
            need_close(&format!("{what}: peak spectral density"), v, sd, 1e-6, 1e-9 * max)?;
        }
    }
    if want.north.hypot(want.east) > 1e-4 * want.total && want.total > 0.0 {
        let dir = want.east.atan2(want.north).to_degrees();
        let d = got.direction.value.as_ref().ok_or("no direction")?.degrees;
        need!((0..=360).contains(&d), "{what}: direction {d}");
        need!(circ_diff(d as f64, dir) <= 1.0 + 0.05, "{what}: mean direction {d}, expected {dir}");
    }
    Ok(())
}

fn energy_of(s: &Swell) -> f64 {
    s.energy.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN)
}

/// Everything the property says about the statistics of a partitioned spectrum.
pub fn check_summary(s: &Spec, map: &[i32], count: usize, got: &SwellSummary, o: &mut Obs) -> Result<(), String> {
    check_swell("summary", &got.summary, s, &expected(s, |_| true))?;
    need_eq!(got.summary.partition, Some(0), "summary partition");
    let mut want = BTreeMap::new();
    let mut dropped = 0;
    let mut edge = BTreeSet::new();
    for id in 1..=count as i32 {
        let e = expected(s, |i| map[i] == id);
        if (e.hs - 0.1).abs() < 1e-6 {
            edge.insert(id as usize);
        } else if e.hs > 0.1 {
            want.insert(id as usize, e);
        } else if e.hs > 0.0 {
            dropped += 1;
        }
    }
    let ids: BTreeSet<usize> = got.components.iter().filter_map(|c| c.partition).filter(|i| !edge.contains(i)).collect();
    need_eq!(ids, want.keys().copied().collect::<BTreeSet<_>>(), "components of at least 0.1 m");
    need!(
        got.components.len() == got.components.iter().filter_map(|c| c.partition).collect::<BTreeSet<_>>().len(),
        "a component is listed twice"
    );
    o.nt_if(want.len() >= 2);
    o.label_if(want.len() >= 4, "four or more components");
    o.label_if(dropped > 0, "small component dropped");
    let mut sum = 0.0;
    for c in &got.components {
        let id = c.partition.unwrap();
        if let Some(e) = want.get(&id) {
            check_swell(&format!("component {id}"), c, s, e)?;
        }
        let (h, t) = (c.wave_height.get_value(), c.period.get_value());
        // deep-water wave energy in kJ
        let kj = 1029.0 * 9.81 * 9.81 / (16.0 * PI) * h * h * t * t / 1000.0;
        need_close(&format!("component {id}: energy"), energy_of(c), kj, 1e-6, 0.0)?;
        sum += energy_of(c);
    }
    for w in got.components.windows(2) {
        need!(energy_of(&w[0]) >= energy_of(&w[1]), "components are not sorted by energy: {} before {}", energy_of(&w[0]), energy_of(&w[1]));
    }
    need_close("summary energy", energy_of(&got.summary), sum, 1e-6, 1e-9)?;
    if dropped == 0 && edge.is_empty() && map.iter().enumerate().all(|(i, l)| *l > 0 || s.e[i] == 0.0) {
        let parts: f64 = got.components.iter().map(|c| c.wave_height.get_value().powi(2)).sum();
        need_close("height from the components", parts.sqrt(), got.summary.wave_height.get_value(), 1e-6, 1e-9)?;
        o.label("components add up");
    }
    Ok(())
}

pub fn c17(run: &mut Run) {
    run.rule(
        "Spectra of 3-18 frequencies by 4-24 even directions in all conventions, with library and random \
         partition maps, any depth and wind. Non-trivial: at least two components of 0.1 m or more.",
    );
    run.check(
        "statistics",
        150_000,
        || {
            (spec(2, 18, 2, 24), prop_oneof![3 => (2usize..120).prop_map(Some), 2 => Just(None)])
                .prop_flat_map(|(s, steps)| {
                    let n = s.e.len();
                    (
                        Just(s),
                        Just(steps),
                        prop::collection::vec(0i32..6, n),
                        prop::option::of(prop_oneof![Just(0.5), 1.0..4000.0f64]),
                        prop::option::of(0.0..40.0f64),
                        prop::option::of(0.0..6.28f64),
                    )
                })
        },
        |(s, steps, random, depth, wind, wind_dir), o| {
            let x = s.build();
            let (map, count) = match steps {
                Some(n) => x.partition(*n, None).map_err(|e| format!("{e:?}"))?,
                None => (random.clone(), 6),
            };
            let got = x.swell_data(*depth, *wind, *wind_dir, &(map.clone(), count)).map_err(|e| e.to_string())?;
            check_summary(s, &map, count, &got, o)
        },
    );
    run.check(
        "relations",
        60_000,
        || (spec(3, 14, 4, 18), 2usize..100, 0.3..4.0f64, 0usize..20),
        |(s, steps, c, by), o| {
            let x = s.build();
            let parts = x.partition(*steps, None).map_err(|e| format!("{e:?}"))?;
            let a = x.swell_data(None, None, None, &parts).map_err(|e| e.to_string())?;
            o.nt_if(a.components.len() >= 2);
            // c^2 times the energy is c times the height
            let big = Spec { e: s.e.iter().map(|e| e * c * c).collect(), ..s.clone() }.build();
            let b = big.swell_data(None, None, None, &parts).map_err(|e| e.to_string())?;
            need_close("scaled height", b.summary.wave_height.get_value(), c * a.summary.wave_height.get_value(), 1e-9, 1e-12)?;
            for q in &a.components {
                let Some(r) = b.components.iter().find(|r| r.partition == q.partition) else { continue };
                need_close("scaled component height", r.wave_height.get_value(), c * q.wave_height.get_value(), 1e-9, 0.0)?;
                // unless two bins tie for the peak
                let spectrum = expected(s, |i| parts.0[i] == q.partition.unwrap() as i32).spectrum;
                let max = spectrum.iter().copied().fold(0.0, f64::max);
                if spectrum.iter().filter(|v| **v > max * (1.0 - 1e-9)).count() == 1 {
                    need_close("period of the scaled component", r.period.get_value(), q.period.get_value(), 1e-12, 0.0)?;
                }
            }
            // Renaming the components renames the results.
            let n = parts.1 as i32;
            let shift = *by as i32;
            let rename = |l: i32| if l > 0 { (l - 1 + shift).rem_euclid(n) + 1 } else { l };
            let renamed = (parts.0.iter().map(|l| rename(*l)).collect::<Vec<_>>(), parts.1);
            let d = x.swell_data(None, None, None, &renamed).map_err(|e| e.to_string())?;
            need_eq!(d.components.len(), a.components.len(), "components after renaming");
            for q in &a.components {
                let id = rename(q.partition.unwrap() as i32) as usize;
                let r = d.components.iter().find(|r| r.partition == Some(id)).ok_or(format!("component {id} is missing"))?;
                need_close("height after renaming", r.wave_height.get_value(), q.wave_height.get_value(), 1e-12, 0.0)?;
                need_eq!(r.direction.get_value().degrees, q.direction.get_value().degrees, "direction after renaming");
            }
            Ok(())
        },
    );
    run.check(
        "from_buoy_records",
        20_000,
        buoy_case,
        |b, o| {
            let r = b.record();
            let got = r.swell_data().map_err(|e| e.to_string())?;
            let s = Spec { f: b.f.clone(), d: b.d.clone(), e: r.spectra.energy.clone(), conv: 0 };
            let (map, count) = r.spectra.partition(100, Some(0.8)).map_err(|e| format!("{e:?}"))?;
            check_summary(&s, &map, count, &got, o)
        },
    );
}

/// Takes away the period (1), the direction (2) or the height (4) of a swell.
pub fn without(s: &mut Swell, gone: u8) {
    if gone & 1 != 0 {
        s.period.value = None;
    }
    if gone & 2 != 0 {
        s.direction.value = None;
    }
    if gone & 4 != 0 {
        s.wave_height.value = None;
    }
}

pub fn c18(run: &mut Run) {
    run.rule(
        "Up to 8 components whose periods and directions come from small sets so that they collide. \
         Non-trivial: two components share a period.",
    );
    run.check(
        "mirrored",
        200_000,
        || {
            prop::collection::vec(
                (
                    prop_oneof![4 => (0usize..4).prop_map(|i| [8.0, 8.04, 8.06, 12.5][i]), 1 => 4.0..20.0f64],
                    prop_oneof![3 => (0usize..8).prop_map(|i| [0, 10, 169, 170, 171, 180, 189, 350][i]), 2 => 0i32..=360],
                    0.1..5.0f64,
                    // the period, the direction or the height may be missing
                    prop_oneof![9 => Just(0u8), 3 => 0u8..8],
                ),
                0..8,
            )
            .prop_flat_map(|v| long(Just(v), 150, 60))
        },
        |parts, o| {
            let swells: Vec<Swell> = parts
                .iter()
                .enumerate()
                .map(|(i, (p, d, h, gone))| {
                    let mut s = Swell::new(&UnitSystem::Metric, *h, *p, Direction::from_degrees(*d), None, Some(100.0 - i as f64), Some(i + 1));
                    without(&mut s, *gone);
                    s
                })
                .collect();
            let Some(first) = swells.first() else {
                o.label("empty");
                let s = SwellSummary {
                    summary: Swell::new(&UnitSystem::Metric, 1.0, 8.0, Direction::from_degrees(0), None, None, None),
                    components: vec![],
                };
                need!(s.probable_false_components().is_empty() && s.filtered_components().is_empty(), "components from nothing");
                return Ok(());
            };
            let s = SwellSummary { summary: first.clone(), components: swells.clone() };
            let key = |i: usize| (parts[i].3 & 3 == 0).then(|| format!("{:.1}", parts[i].0));
            let mut want = vec![];
            for i in 0..parts.len() {
                if key(i).is_none() {
                    o.label("component without period or direction");
                    continue;
                }
                let strongest = (0..parts.len()).find(|j| key(*j) == key(i)).unwrap();
                if strongest != i {
                    o.nt();
                    if circ_diff(parts[strongest].1 as f64, parts[i].1 as f64) >= 170.0 {
                        want.push(i);
                    }
                }
            }
            o.label_if(!want.is_empty(), "mirrored component");
            let mut got = s.probable_false_components();
            got.sort();
            need_eq!(got, want, "mirrored components");
            let kept: Vec<Option<usize>> = s.filtered_components().iter().map(|c| c.partition).collect();
            let want: Vec<Option<usize>> = (0..parts.len()).filter(|i| !want.contains(i)).map(|i| Some(i + 1)).collect();
            need_eq!(kept, want, "components left");
            Ok(())
        },
    );
}

pub fn c19(run: &mut Run) {
    run.rule(
        "Histories of 1 to 8 steps of 0 to 5 swells whose periods and directions drift, jump, cross north, \
         vanish, reappear and miss measurements; steps from none or a minute to a day. Non-trivial: at least one swell is tracked onto a \
         later step.",
    );
    run.assume("Steps do not go back in time and the ids of the first step are distinct.");
    run.check(
        "against_reference",
        150_000,
        || {
            let swell = || (
                prop_oneof![2 => (0usize..4).prop_map(|i| [8.0, 10.0, 12.5, 14.0][i]), 2 => (320i32..1280).prop_map(|v| v as f64 / 64.0)],
                prop_oneof![2 => (0usize..6).prop_map(|i| [0, 5, 90, 180, 350, 358][i]), 2 => 0i32..=360],
                0.2..4.0f64,
            );
            (
                long(prop::collection::vec((prop_oneof![12 => 60i64..86_400, 1 => Just(0i64), 1 => 86_400i64..30 * 86_400], prop_oneof![100 => prop::collection::vec(swell(), 0..6), 1 => prop::collection::vec(swell(), 6..20)]), 0..9), 300, 250),
                prop_oneof![4 => (1i32..=180).prop_map(f64::from), 8 => (10i32..40).prop_map(f64::from), 3 => 0.25..60.0f64, 1 => 180.0..360.0f64],
                prop_oneof![2 => 1e3..2e4f64, 1 => 1e4..1e6f64, 1 => 1e6..2e7f64],
                prop::collection::vec(prop_oneof![6 => 0usize..50, 1 => 900usize..1100, 1 => 0usize..100_000], 6),
                prop_oneof![3 => Just(0u8), 1 => 0u8..64],
                prop::option::weighted(0.3, prop::collection::vec(prop::option::weighted(0.8, 0usize..60), 1..9)),
                (0i32..20).prop_map(|v| v as f64 / 64.0),
                any::<bool>(),
                prop_oneof![2 => Just(vec![0u8]), 1 => prop::collection::vec(prop_oneof![5 => Just(0u8), 2 => 0u8..8], 1..12)],
            )
        },
        |(steps, max_dir, distance, ids, without_id, later_ids, drift, drifting, missing), o| {
            let mut gone = missing.iter().cycle();
            let mut t = Utc.with_ymd_and_hms(2023, 12, 30, 0, 0, 0).unwrap();
            let mut used = BTreeSet::new();
            let first_ids: Vec<Option<usize>> = ids
                .iter()
                .enumerate()
                .map(|(i, id)| {
                    let mut id = *id;
                    while !used.insert(id) {
                        id += 1;
                    }
                    (without_id >> i & 1 == 0).then_some(id)
                })
                .collect();
            let mut inputs = vec![];
            let mut prev: Vec<(f64, i32, f64)> = vec![];
            for (i, (dt, swells)) in steps.iter().enumerate() {
                t += Duration::seconds(*dt);
                // either the swells as generated, or last step's swells moved a little
                let now: Vec<(f64, i32, f64)> = if *drifting && i % 3 != 0 && !prev.is_empty() {
                    prev.iter()
                        .zip(swells.iter().cycle().chain(std::iter::repeat(&(10.0, 0, 1.0))))
                        .map(|((p, d, h), (_, jitter, _))| (p + drift, (d + jitter % 21 - 10).rem_euclid(360), *h))
                        .collect()
                } else {
                    swells.clone()
                };
                let list: Vec<Swell> = now
                    .iter()
                    .enumerate()
                    .map(|(j, (p, d, h))| {
                        let id = if i == 0 { first_ids.get(j).copied().flatten()
                        } else {
                            // the ids of later steps mean nothing
                            match later_ids {
                                Some(l) => l[(i + j) % l.len()],
                                None => Some(j),
                            }
                        };
                        let mut s = Swell::new(&UnitSystem::Metric, *h, *p, Direction::from_degrees(*d), Some(h * p), Some(h * h * p), id);
                        without(&mut s, *gone.next().unwrap());
                        s
                    })
                    .collect();
                inputs.push((t, list));
                prev = now;
            }
            let out = track_partitions(&inputs, *max_dir, *distance);
            need_eq!(out.len(), inputs.len(), "steps");
            for (a, (_, b)) in out.iter().zip(&inputs) {
                need_eq!(a.len(), b.len(), "swells in a step");
                for (x, y) in a.iter().zip(b) {
                    let mut z = x.clone();
                    z.partition = y.partition;
                    need_eq!(format!("{z:?}"), format!("{y:?}"), "swell other than its id");
                }
            }
            if inputs.len() < 2 {
                o.label("single step");
                return Ok(());
            }
            // reference: greedy in order of score, each swell offered only its best predecessor
            let mut next = inputs[0].1.len();
            let mut track: Vec<Vec<usize>> = vec![(0..next).collect()];
            for i in 1..inputs.len() {
                let dt = (inputs[i].0 - inputs[i - 1].0).num_seconds() as f64;
                let rate = dt * 9.81 / (4.0 * PI * distance);
                let mut best: Vec<(f64, usize, usize)> = vec![];
                let mut parts: Vec<(f64, f64, f64)> = vec![];
                for (c, s) in inputs[i].1.iter().enumerate() {
                    let mut mine = (f64::INFINITY, c, usize::MAX);
                    for (p, q) in inputs[i - 1].1.iter().enumerate() {
                        let (Some(sd), Some(qd), Some(st), Some(qt)) =
                            (&s.direction.value, &q.direction.value, s.period.value, q.period.value)
                        else {
                            o.label("swell without period or direction");
                            continue;
                        };
                        let dir = circ_diff(sd.degrees as f64, qd.degrees as f64);
                        if dir > *max_dir {
                            continue;
                        }
                        let apart = (st - qt).abs();
                        let score = dir / *max_dir + if apart == 0.0 { 0.0 } else { apart / rate };
                        // different pairs that tie to rounding have no certain order
                        if parts.iter().any(|(x, a, b)| close(*x, score, 1e-12, 1e-14) && (*a != dir || *b != apart)) {
                            o.label("tie");
                            return Ok(());
                        }
                        parts.push((score, dir, apart));
                        if (score - 999.5).abs() < 1.0 {
                            o.label("skipped");
                            return Ok(()); // at the cut-off
                        }
                        if score < 999.0 && score < mine.0 {
                            mine = (score, c, p);
                        }
                    }
                    best.push(mine);
                }
                best.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
                let mut row = vec![usize::MAX; best.len()];
                let mut taken = BTreeSet::new();
                for (_, c, p) in best {
                    if p != usize::MAX && taken.insert(p) {
                        row[c] = track[i - 1][p];
                        o.nt();
                        o.label("tracked");
                    } else {
                        o.label_if(p != usize::MAX, "predecessor already taken");
                        row[c] = next;
                        next += 1;
                    }
                }
                track.push(row);
            }
            // the ids must name the same tracks
            let mut name: BTreeMap<usize, usize> = BTreeMap::new();
            let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
            for (i, row) in track.iter().enumerate() {
                let mut seen = BTreeSet::new();
                for (c, t) in row.iter().enumerate() {
                    let id = out[i][c].partition.ok_or("swell without an id")?;
                    need!(seen.insert(id), "id {id} appears twice in step {i}");
                    need!(*name.entry(*t).or_insert(id) == id, "step {i} swell {c}: id {id}, but its track is called {}", name[t]);
                    need!(*owner.entry(id).or_insert(*t) == *t, "step {i} swell {c}: id {id} belongs to another track");
                    if i == 0 {
                        if let Some(own) = inputs[0].1[c].partition {
                            need_eq!(id, own, "id of the first step");
                        }
                    }
                }
            }
            Ok(())
        },
    );
}

// ---- theory ------------------------------------------------------------------------------

/// Wavenumber from the exact linear dispersion relation, by bisection.
fn exact_k(omega: f64, h: f64, g: f64) -> f64 {
    let (mut lo, mut hi) = (omega * omega / g * 0.999, omega * omega / g + omega / (g * h).sqrt() * 2.0);
    for _ in 0..200 {
        let k = 0.5 * (lo + hi);
        if g * k * (k * h).tanh() < omega * omega {
            lo = k;
        } else {
            hi = k;
        }
    }
    0.5 * (lo + hi)
}

fn period_depth() -> BoxedStrategy<(f64, f64)> {
    (fl(1.0, 30.0), depth()).boxed()
}

fn depth() -> BoxedStrategy<f64> {
    prop_oneof![2 => (-1.0..4.0f64).prop_map(|e| 10f64.powf(e)), 1 => fl(0.5, 200.0)].boxed()
}

/// Also ripples and tides.
fn any_period_depth() -> BoxedStrategy<(f64, f64)> {
    (prop_oneof![9 => fl(1.0, 30.0), 1 => (-0.5..3.0f64).prop_map(|e| 10f64.powf(e))], depth()).boxed()
}

pub fn c22(run: &mut Run) {
    run.rule(
        "Periods of 1 to 30 s, depths of 0.1 to 10000 m. Non-trivial: intermediate depth, where neither the \
         deep nor the shallow limit applies.",
    );
    run.check(
        "ldis",
        200_000,
        any_period_depth,
        |(t, h), o| {
            let omega = 2.0 * PI / t;
            let k = exact_k(omega, *h, 9.81);
            o.nt_if(k * h > 0.3 && k * h < 3.0);
            o.label_if(k * h <= 0.3, "shallow");
            o.label_if(k * h >= 3.0, "deep");
            let Ok(l) = ldis(*t, *h) else { return Err("did not converge".into()) };
            need_close("wavelength", l, 2.0 * PI / k, 1e-8, 0.0)?;
            let Ok(deeper) = ldis(*t, h * 1.5) else { return Err("did not converge".into()) };
            need!(deeper >= l * (1.0 - 1e-6), "{l} m at {h} m but {deeper} m further out");
            Ok(())
        },
    );
    run.check(
        "approximations",
        200_000,
        period_depth,
        |(t, h), o| {
            let omega = 2.0 * PI / t;
            let k = exact_k(omega, *h, 9.81);
            o.nt_if(k * h > 0.3 && k * h < 3.0);
            let (k3, cg) = wavenu3(omega, *h);
            need_close("Beji wavenumber", k3, k, 8e-4, 0.0)?;
            let q = (2.0 * k * h).min(300.0);
            let want = 0.5 * omega / k * (1.0 + q / q.sinh());
            need_close("group velocity", cg, want, 1e-3, 0.0)?;
            need_close("Chen and Thomson wavenumber", wavenuma(omega, *h), k, 1.2e-3, 0.0)?;
            Ok(())
        },
    );
    run.check(
        "celerity_and_wavelength",
        200_000,
        any_period_depth,
        |(t, h), o| {
            let f = 1.0 / t;
            let k = exact_k(2.0 * PI * f, *h, 9.81);
            o.nt_if(k * h > 0.3 && k * h < 3.0);
            for depth in [Some(*h), None] {
                let (c, l) = (celerity(f, depth), wavelength(f, depth));
                need_close("celerity against wavelength", c, l * f, 1e-9, 0.0)?;
                let want = if depth.is_some() { 2.0 * PI / k } else { 9.81 * t * t / (2.0 * PI) };
                need_close("wavelength", l, want, 1.3e-3, 0.0)?;
            }
            Ok(())
        },
    );
    run.enumerate("sea", 0..2usize, |i, o| {
        o.nt();
        // kilograms per cubic meter, pounds per cubic foot
        let (rho, unit) = [(UnitSystem::Metric.density_of_seawater(), 1.0), (UnitSystem::English.density_of_seawater(), 16.01846)][*i];
        need!((1015.0..1035.0).contains(&(rho * unit)), "sea water of density {rho}");
        Ok(())
    });
    run.check(
        "energy",
        100_000,
        || (fl(0.0, 20.0), fl(1.0, 30.0)),
        |(h, t), o| {
            o.nt_if(*h > 0.0);
            // rho g^2 H^2 T^2 / 16 pi, in kJ
            need_close("wave energy", wave_energy(*h, *t), 1029.0 * (9.81 * h * t).powi(2) / (16.0 * PI) / 1000.0, 1e-9, 1e-12)?;
            Ok(())
        },
    );
}

pub fn c23(run: &mut Run) {
    run.rule(
        "Periods of 2 to 25 s, heights to 15 m, depths of 1 to 500 m, slopes of 0.001 to 0.5, all beach angles \
         and swell directions. Non-trivial: the swell reaches the beach at an angle.",
    );
    run.check(
        "break_wave",
        150_000,
        || (fl(2.0, 25.0), prop_oneof![3 => fl(0.0, 89.0), 1 => fl(-89.0, 0.0)], fl(0.1, 15.0), 0.001..0.5f64, fl(1.0, 500.0)),
        |(t, angle, h0, slope, depth), o| {
            o.nt_if(*angle != 0.0);
            let Ok((hb, db)) = break_wave(*t, *angle, *h0, *slope, *depth) else { return Err("no breaking wave".into()) };
            let omega = 2.0 * PI / t;
            let c = omega / exact_k(omega, *depth, 9.81);
            let c0 = 9.81 * t / (2.0 * PI);
            let l0 = c0 * t;
            let a = angle.to_radians();
            let theta = (a.sin() * c / c0).clamp(-1.0, 1.0).asin();
            let h = h0 * (a.cos() / theta.cos()).sqrt();
            let want_h = 0.56 * h * (h / l0).powf(-0.2);
            need_close("breaking height", hb, want_h, 1e-4, 0.0)?;
            // Weggel: gamma = b - a Hb / g T^2
            let wa = 43.8 * (1.0 - (-19.0 * slope).exp());
            let wb = 1.56 / (1.0 + (-19.5 * slope).exp());
            let gamma = wb - wa * want_h / (9.81 * t * t);
            if gamma.abs() > 0.01 {
                need_close("breaking depth", db, want_h / gamma, 1e-2, 0.0)?;
            }
            Ok(())
        },
    );
    run.check(
        "beach",
        150_000,
        || {
            (
                0i32..=360,
                prop_oneof![1 => (-360i32..=720).prop_map(|b| b as f64), 1 => (-3600i32..=7200).prop_map(|b| b as f64 / 10.0)],
                fl(0.1, 10.0),
                fl(3.0, 22.0),
                0.005..0.3f64,
                fl(2.0, 100.0),
                prop_oneof![15 => Just(0u8), 1 => 1u8..8],
            )
        },
        |(dir, beach, h, t, slope, depth, gone), o| {
            let mut s = Swell::new(&UnitSystem::Metric, *h, *t, Direction::from_degrees(*dir), None, None, None);
            without(&mut s, *gone);
            let got = estimate_breaking_wave_height(&s, *beach, *slope, *depth);
            if *gone != 0 {
                o.label("swell without a measurement");
                need!(got.is_err(), "a swell without period, direction or height breaks at {} m", got.unwrap_or(f64::NAN));
                return Ok(());
            }
            let angle = circ_diff(*dir as f64, *beach);
            if (angle - 90.0).abs() < 1e-6 && beach.fract() != 0.0 {
                o.label("skipped");
                return Ok(());
            }
            o.nt_if(angle > 0.0 && angle <= 90.0);
            o.label_if(angle > 90.0, "from behind");
            match got {
                Err(Error::OutOfRange) => need!(angle > 90.0, "a swell {angle} degrees off the beach was refused"),
                Err(_) => return Err("did not converge".into()),
                Ok(b) => {
                    need!(angle <= 90.0, "a swell {angle} degrees off the beach breaks at {b} m");
                    let Ok((want, _)) = break_wave(*t, angle, *h, *slope, *depth) else { return Err("no breaking wave".into()) };
                    need_close("breaking height", b, want, 1e-9, 1e-12)?;
                }
            }
            Ok(())
        },
    );
    run.check(
        "coefficients",
        150_000,
        || (fl(2.0, 900.0), fl(0.5, 500.0), prop_oneof![3 => fl(0.0, 89.0), 1 => fl(-89.0, 0.0)]),
        |(l, d, angle), o| {
            o.nt_if(*angle > 0.0);
            let kd = 2.0 * PI / l * d;
            let a = angle.to_radians();
            let (kr, shallow) = refraction_coefficient(*l, *d, *angle);
            let theta = (a.sin() * kd.tanh()).asin();
            need_close("refracted angle", shallow, theta.to_degrees(), 1e-9, 1e-9)?;
            need_close("refraction coefficient", kr, (a.cos() / theta.cos()).sqrt(), 1e-9, 0.0)?;
            need!(kr <= 1.0 + 1e-12 && shallow.abs() <= angle.abs() + 1e-9, "waves turn away from the beach: {kr}, {shallow}");
            let q = 2.0 * kd;
            let n = if q > 300.0 { 1.0 } else { 1.0 + q / q.sinh() };
            need_close("shoaling coefficient", shoaling_coefficient(*l, *d), 1.0 / (kd.tanh() * n).sqrt(), 1e-9, 0.0)?;
            Ok(())
        },
    );
    run.check(
        "moments_and_rates",
        150_000,
        || (fl(0.0, 100.0), 1e-4..0.1f64, 0.02..1.0f64, fl(1.0, 40.0), fl(1.0, 25.0), fl(1.0, 86400.0), 0.01..2.0f64, 1e3..1e7f64),
        |(e, bw, f, u, t, dt, scale, dist), o| {
            o.nt_if(*e > 0.0);
            let (m0, m2) = (zero_spectral_moment(*e, *bw), second_spectral_moment(*e, *bw, *f));
            need_close("zero moment", m0, e * bw, 1e-12, 0.0)?;
            need_close("second moment", m2, e * bw * f * f, 1e-12, 0.0)?;
            if m0 > 0.0 {
                need_close("steepness", steepness_coefficient(m0, m2), 8.0 * PI * m2 / (9.81 * m0.sqrt()), 1e-12, 0.0)?;
            }
            // fetch-limited growth: fp = A (t0 + dt)^-0.43 with t0 from the present peak
            let a = 15.8 * (9.81 / u).powf(0.57);
            let t0 = (t / a).powf(-1.0 / 0.43);
            need_close("wind sea rate", dfp_wind_sea(*u, *t, *dt, *scale), scale * a * (t0 + dt).powf(-0.43) - t, 1e-9, 1e-9)?;
            need_close("swell rate", dfp_swell_sea(*dt, *dist), dt * 9.81 / (4.0 * PI * dist), 1e-12, 0.0)?;
            Ok(())
        },
    );
}

// ---- directional spectra from buoy coefficients --------------------------------------------

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Buoy {
    f: Vec<f64>,
    d: Vec<f64>,
    e: Vec<f64>,
    a1: Vec<f64>,
    a2: Vec<f64>,
    r1: Vec<f64>,
    r2: Vec<f64>,
    /// which of the five values is missing in a bin; 5 and above: none
    gap: Vec<u8>,
}

impl Buoy {
    fn values(&self) -> [Vec<f64>; 5] {
        let n = self.f.len();
        let pick = |v: &[f64], which: u8, sentinel: f64| -> Vec<f64> {
            (0..n).map(|k| if self.gap[k] == which { sentinel } else { v[k] }).collect()
        };
        [
            pick(&self.e, 0, 999.9),
            pick(&self.a1, 1, 999.0),
            pick(&self.a2, 2, 999.0),
            pick(&self.r1, 3, 999.0),
            pick(&self.r2, 4, 999.0),
        ]
    }
    pub fn record(&self) -> DirectionalSpectralWaveDataRecord {
        let [e, a1, a2, r1, r2] = self.values();
        DirectionalSpectralWaveDataRecord::new(&Utc.with_ymd_and_hms(2022, 9, 18, 1, 26, 0).unwrap(), &self.d, &self.f, &e, &a1, &a2, &r1, &r2)
    }
}

/// Whole degrees as buoys report them, and fractions
fn buoy_angle() -> BoxedStrategy<f64> {
    prop_oneof![8 => (0i32..=360).prop_map(|v| v as f64), 1 => (0i32..3600).prop_map(|v| v as f64 / 10.0), 1 => 0.0..360.0f64].boxed()
}

/// A polar coefficient: hundredths with both ends as buoys report them, fractions, and now and then more than one
fn buoy_coefficient(low: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0),
        1 => Just(1.0),
        10 => (0i32..=100).prop_map(|v| v as f64 / 100.0),
        15 => 0.0..=low,
        15 => 0.0..=1.0f64,
        1 => 1.0..100.0f64
    ]
    .boxed()
}

pub fn buoy_case() -> BoxedStrategy<Buoy> {
    (prop_oneof![100 => freqs(3, 16), 1 => many_freqs()], prop_oneof![50 => even_dirs(5, 36), 1 => even_dirs(60, 90), 50 => Just((0..36).map(|i| i as f64 * PI / 18.0).collect::<Vec<_>>())])
        .prop_flat_map(|(f, d)| {
            let n = f.len();
            (
                Just(f),
                Just(d),
                prop::collection::vec(prop_oneof![10 => Just(0.0), 50 => 0.0..30.0f64, 5 => 1e-7..1e-2f64, 1 => 30.0..900.0f64, 1 => 1000.0..3000.0f64], n),
                prop::collection::vec(buoy_angle(), n),
                prop::collection::vec(prop_oneof![8 => buoy_angle().prop_map(Some), 1 => Just(None)], n),
                prop::collection::vec(buoy_coefficient(0.3), n),
                prop::collection::vec(buoy_coefficient(0.2), n),
                prop::collection::vec(prop_oneof![4 => Just(9u8), 1 => 0u8..5], n),
                prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
            )
        })
        .prop_map(|(f, d, e, a1, a2, mut r1, mut r2, gap, flat)| {
            // both directions the same now and then, and bins without a direction at all
            let a2 = a2.iter().zip(&a1).map(|(b, a)| b.unwrap_or(*a)).collect();
            if flat & 1 > 0 {
                r1.iter_mut().step_by(2).for_each(|r| *r = 0.0);
            }
            if flat & 2 > 0 {
                r2.iter_mut().step_by(2).for_each(|r| *r = 0.0);
            }
            Buoy { f, d, e, a1, a2, r1, r2, gap }
        })
        .boxed()
}

pub fn c24(run: &mut Run) {
    run.rule(
        "3-16 frequencies by 5-36 directions, coefficients from isotropic to fully directional, missing values \
         in any of the five inputs. Non-trivial: a bin with energy and a directional coefficient.",
    );
    run.check(
        "reconstruction",
        100_000,
        buoy_case,
        |b, o| {
            let r = b.record();
            let (nk, nth) = (b.f.len(), b.d.len());
            let s = &r.spectra;
            need_eq!(s.frequency, b.f, "frequencies");
            need_eq!(s.direction_raw(), b.d, "directions");
            need!(matches!(s.dir_convention, DirectionConvention::From), "buoy directions are where waves come from");
            need_eq!(s.energy.len(), nk * nth, "bins");
            let spread = 2.0 * PI / nth as f64;
            let of = s.oned(SpectralAxis::Frequency);
            let mean = s.mean_wave_direction_f();
            for k in 0..nk {
                let missing = b.gap[k] < 5;
                o.label_if(missing, "missing value");
                o.label_if(!missing && b.e[k] > 0.0 && b.r1[k] == 0.0 && b.r2[k] == 0.0, "the same from everywhere");
                o.nt_if(!missing && b.e[k] > 0.0 && b.r1[k] > 0.0);
                for t in 0..nth {
                    let got = s.energy_at(k, t);
                    let (a1, a2) = (b.a1[k].to_radians(), b.a2[k].to_radians());
                    let d = (0.5 + b.r1[k] * (b.d[t] - a1).cos() + b.r2[k] * (2.0 * b.d[t] - 2.0 * a2).cos()) / PI;
                    let want = if missing { 0.0 } else { (b.e[k] * d).max(0.0) };
                    need_close(&format!("energy in bin ({k}, {t})"), got, want, 1e-9, 1e-9)?;
                }
                // With small coefficients no lobe is cut off: the integral gives the energy back.
                if !missing && b.r1[k] + b.r2[k] <= 0.5 {
                    o.label("complete");
                    need_close("energy over all directions", of[k], b.e[k], 1e-6, 1e-9)?;
                    need_close("spread", s.dth()[0], spread, 1e-9, 0.0)?;
                    if b.e[k] > 0.01 && b.r1[k] > 0.01 {
                        need!(circ_diff(mean[k], b.a1[k]) < 1e-3, "mean direction {} instead of {}", mean[k], b.a1[k]);
                    }
                }
            }
            Ok(())
        },
    );
    run.check(
        "from_records",
        40_000,
        || (buoy_case(), minute()),
        |(b, date), o| {
            let v = b.values();
            o.nt();
            let rec = |i: usize| SpectralWaveDataRecord { date: *date, separation_frequency: None, value: v[i].clone(), frequency: b.f.clone() };
            let r = DirectionalSpectralWaveDataRecord::from_data_records(&b.d, rec(0), rec(1), rec(2), rec(3), rec(4));
            need_eq!(r.date, *date, "date");
            need_eq!(r.spectra.energy, b.record().spectra.energy, "energy");
            need_eq!(r.spectra.frequency, b.f, "frequencies");
            let text = serde_json::to_string(&r).map_err(|e| e.to_string())?;
            let back: DirectionalSpectralWaveDataRecord = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            need_eq!(back.date, *date, "date through JSON");
            for (a, c) in back.spectra.energy.iter().zip(&r.spectra.energy) {
                need_close("energy through JSON", *a, *c, 1e-14, 0.0)?;
            }
            Ok(())
        },
    );
}
