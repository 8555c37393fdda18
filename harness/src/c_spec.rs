//! Directional spectra: integrals, interpolation, regridding, partitioning, projection.
use crate::c_num::{dirs, fc_eval, fc_slopes};
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::f64::consts::PI;
use surfrs::spectra::{Spectra, SpectralAxis};
use surfrs::tools::analysis::{bilerp, detect_peaks, lerp, nearest_neighbors, watershed, WatershedError};
use surfrs::units::direction::DirectionConvention;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub f: Vec<f64>,
    /// raw directions in radians, ascending
    pub d: Vec<f64>,
    pub e: Vec<f64>,
    pub conv: u8,
}

pub fn convention(c: u8) -> DirectionConvention {
    match c {
        0 => DirectionConvention::From,
        1 => DirectionConvention::Towards,
        _ => DirectionConvention::Met,
    }
}

/// The compass bearing (radians) the waves of a raw direction come from, by unit vectors.
pub fn from_bearing(raw: f64, conv: u8) -> f64 {
    let (e, n) = match conv {
        0 => (-raw.sin(), -raw.cos()),
        1 => (raw.sin(), raw.cos()),
        _ => (raw.cos(), raw.sin()),
    };
    (-e).atan2(-n).rem_euclid(2.0 * PI)
}

impl Spec {
    pub fn build(&self) -> Spectra {
        Spectra::new(self.f.clone(), self.d.clone(), self.e.clone(), convention(self.conv))
    }
    pub fn nk(&self) -> usize {
        self.f.len()
    }
    pub fn nth(&self) -> usize {
        self.d.len()
    }
    pub fn at(&self, k: usize, t: usize) -> f64 {
        self.e[t * self.f.len() + k]
    }
}

pub fn freqs(min: usize, max: usize) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        2 => (min..=max, 0.02..0.06f64, 1.03..1.2f64)
            .prop_map(|(n, f0, x)| (0..n).map(|i| f0 * x.powi(i as i32)).collect()),
        1 => (min..=max, 0.02..0.06f64, 0.003..0.03f64)
            .prop_map(|(n, f0, s)| (0..n).map(|i| f0 + s * i as f64).collect()),
        1 => (min..=max).prop_flat_map(|n| prop::collection::vec(0.003..0.03f64, n))
            .prop_map(|v| v.iter().scan(0.02, |s, x| { *s += x; Some(*s) }).collect()),
    ]
    .boxed()
}

/// As many frequencies as a model or a buoy has.
pub fn many_freqs() -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        2 => (21i32..=72, 0.02..0.05f64, 1.03..1.08f64).prop_map(|(n, f0, x)| (0..n).map(|i| f0 * x.powi(i)).collect()),
        1 => (21i32..=72, 0.02..0.05f64, 0.003..0.01f64).prop_map(|(n, f0, s)| (0..n).map(|i| f0 + s * i as f64).collect()),
    ]
    .boxed()
}

/// Evenly spaced ascending directions over one turn, in radians.
pub fn even_dirs(min: usize, max: usize) -> BoxedStrategy<Vec<f64>> {
    (min..=max, prop_oneof![Just(0.0), Just(0.5), 0.0..0.99f64])
        .prop_map(|(n, o)| (0..n).map(|i| (i as f64 + o) * 2.0 * PI / n as f64).collect())
        .boxed()
}

/// Energies of any sea, now and then all but calm or mountainous.
pub fn energies(nk: usize, nth: usize) -> BoxedStrategy<Vec<f64>> {
    (ordinary_energies(nk, nth), prop_oneof![12 => Just(1.0), 1 => (-7.0..3.0f64).prop_map(|e| 10f64.powf(e))])
        .prop_map(|(e, by)| e.iter().map(|v| v * by).collect())
        .boxed()
}

/// Energies: wave systems, noise, plateaus, single spikes.
fn ordinary_energies(nk: usize, nth: usize) -> BoxedStrategy<Vec<f64>> {
    let n = nk * nth;
    let system = (0.0..1.0f64, 0.0..1.0f64, 0.5..3.0f64, 0.5..3.0f64, 0.05..30.0f64);
    prop_oneof![
        5 => (prop::collection::vec(system, 1..5), prop_oneof![2 => Just(0.0), 1 => 0.0..0.2f64], prop::collection::vec(0.0..1.0f64, n))
            .prop_map(move |(sys, noise, r)| {
                (0..n)
                    .map(|i| {
                        let (k, t) = ((i % nk) as f64, (i / nk) as f64);
                        sys.iter()
                            .map(|(fk, ft, wk, wt, a)| {
                                let dk = k - fk * (nk as f64 - 1.0);
                                let dt = (t - ft * nth as f64).rem_euclid(nth as f64);
                                let dt = dt.min(nth as f64 - dt);
                                a * (-(dk / wk).powi(2) - (dt / wt).powi(2)).exp()
                            })
                            .filter(|e| *e > 1e-60)
                            .sum::<f64>()
                            + noise * r[i]
                    })
                    .collect()
            }),
        2 => prop::collection::vec(0.0..10.0f64, n),
        2 => prop::collection::vec((0u8..4).prop_map(|v| v as f64), n),
        1 => (0..n, 0.1..50.0f64).prop_map(move |(i, a)| {
            let mut v = vec![0.0; n];
            v[i] = a;
            v
        }),
        1 => (0.0..3.0f64).prop_map(move |a| vec![a; n]),
    ]
    .boxed()
}

/// One in some two hundred grids is as large as those of wave models.
pub fn spec(kmin: usize, kmax: usize, tmin: usize, tmax: usize) -> BoxedStrategy<Spec> {
    prop_oneof![
        200 => (freqs(kmin, kmax), even_dirs(tmin, tmax)),
        1 => (many_freqs(), even_dirs(25, 90)),
    ]
    .prop_flat_map(|(f, d)| {
        let e = energies(f.len(), d.len());
        (Just(f), Just(d), e, 0u8..3)
    })
    .prop_map(|(f, d, e, conv)| Spec { f, d, e, conv })
    .boxed()
}

/// As `spec` with directions that need not be evenly spaced.
fn spec_any_dirs(kmax: usize, tmax: usize) -> BoxedStrategy<Spec> {
    prop_oneof![
        200 => (freqs(2, kmax), dirs(tmax, 0.5).prop_filter("two", |d| d.len() >= 2)),
        1 => (many_freqs(), dirs(90, 0.5).prop_filter("two", |d| d.len() >= 2)),
    ]
        .prop_flat_map(|(f, d)| {
            let e = energies(f.len(), d.len());
            (Just(f), Just(d.iter().map(|v| v.to_radians()).collect::<Vec<_>>()), e, 0u8..3)
        })
        .prop_map(|(f, d, e, conv)| Spec { f, d, e, conv })
        .boxed()
}

fn widths(v: &[f64]) -> Vec<f64> {
    (0..v.len()).map(|i| v[i.max(1)] - v[i.max(1) - 1]).collect()
}

pub fn c12(run: &mut Run) {
    run.rule(
        "Spectra of 2-20 (at times up to 72) frequencies by 2-24 (90) directions, even or irregular, in all three direction \
         conventions with swell systems, noise, plateaus and spikes. Non-trivial: at least two bins hold energy.",
    );
    run.check(
        "integrals_and_moments",
        120_000,
        || (prop_oneof![spec(2, 20, 2, 24), spec_any_dirs(12, 16)], prop_oneof![9 => -3i32..=4, 1 => -8i32..=10]),
        |(s, i), o| {
            let x = s.build();
            let (nk, nth) = (s.nk(), s.nth());
            o.nt_if(s.e.iter().filter(|e| **e > 0.0).count() >= 2);
            need_eq!((x.nk(), x.nth()), (nk, nth), "bins");
            let (dk, dth) = (widths(&s.f), widths(&s.d));
            for k in 0..nk {
                need_close("frequency bandwidth", x.dk()[k], dk[k], 1e-9, 1e-12)?;
                need_close("period", x.period()[k] * s.f[k], 1.0, 1e-12, 0.0)?;
            }
            for t in 0..nth {
                need_close("direction bandwidth", x.dth()[t], dth[t], 1e-9, 1e-12)?;
            }
            let scale = s.e.iter().sum::<f64>().max(1e-9);
            let of = x.oned(SpectralAxis::Frequency);
            let od = x.oned(SpectralAxis::Direction);
            need_eq!((of.len(), od.len()), (nk, nth), "one-dimensional lengths");
            for k in 0..nk {
                let want: f64 = (0..nth).map(|t| s.at(k, t) * dth[t]).sum();
                need_close("energy per frequency", of[k], want, 1e-9, 1e-12 * scale)?;
            }
            for t in 0..nth {
                let want: f64 = (0..nk).map(|k| s.at(k, t) * dk[k]).sum();
                need_close("energy per direction", od[t], want, 1e-9, 1e-12 * scale)?;
            }
            let a: f64 = of.iter().zip(&dk).map(|(e, w)| e * w).sum();
            let b: f64 = od.iter().zip(&dth).map(|(e, w)| e * w).sum();
            need_close("variance along the two axes", a, b, 1e-9, 1e-12 * scale)?;
            let mf = x.mom_f(*i);
            let md = x.mom_d((*i).abs());
            need_eq!((mf.len(), md.len()), (nth, nk), "moment lengths");
            for t in 0..nth {
                let want: f64 = (0..nk).map(|k| s.f[k].powi(*i) * s.at(k, t) * dk[k]).sum();
                need_close("frequency moment", mf[t], want, 1e-9, 1e-12)?;
            }
            for k in 0..nk {
                let p = i.abs();
                let ws: f64 = (0..nth).map(|t| s.d[t].sin().powi(p) * s.at(k, t) * dth[t]).sum();
                let wc: f64 = (0..nth).map(|t| s.d[t].cos().powi(p) * s.at(k, t) * dth[t]).sum();
                need_close("sine moment", md[k].0, ws, 1e-9, 1e-10 * scale)?;
                need_close("cosine moment", md[k].1, wc, 1e-9, 1e-10 * scale)?;
            }
            Ok(())
        },
    );
    run.check(
        "directions",
        120_000,
        || (prop_oneof![spec(2, 12, 2, 24), spec_any_dirs(10, 16)], 0.0..6.28f64),
        |(s, turn), o| {
            let x = s.build();
            let (nk, nth) = (s.nk(), s.nth());
            o.nt_if(s.e.iter().filter(|e| **e > 0.0).count() >= 2);
            need_eq!(x.direction_raw(), s.d, "raw directions");
            for t in 0..nth {
                let want = from_bearing(s.d[t], s.conv).to_degrees();
                let (deg, rad) = (x.direction_deg()[t], x.direction_rad()[t]);
                need!(circ_diff(deg, want) < 1e-6, "direction {} became {deg}, expected {want}", s.d[t]);
                need!((0.0..=360.0 + 1e-9).contains(&deg), "direction {deg}");
                need!((rad - deg.to_radians()).abs() < 1e-9, "{deg} degrees in radians is {rad}");
            }
            let dth = widths(&s.d);
            let mean = x.mean_wave_direction_f();
            need_eq!(mean.len(), nk, "mean directions");
            let turned = Spec { d: s.d.iter().map(|v| v + turn).collect(), ..s.clone() }.build().mean_wave_direction_f();
            for k in 0..nk {
                // vector mean of the directions the waves come from
                let total: f64 = (0..nth).map(|t| s.at(k, t) * dth[t]).sum();
                let (mut n, mut e) = (0.0, 0.0);
                for t in 0..nth {
                    let b = from_bearing(s.d[t], s.conv);
                    n += b.cos() * s.at(k, t) * dth[t];
                    e += b.sin() * s.at(k, t) * dth[t];
                }
                if n.hypot(e) < 1e-6 * total || total <= 1e-250 {
                    continue;
                }
                o.label("resultant");
                let want = e.atan2(n).to_degrees();
                need!(circ_diff(mean[k], want) < 1e-3, "mean direction {} in bin {k}, expected {want}", mean[k]);
                need!((0.0..=360.0).contains(&mean[k]), "mean direction {}", mean[k]);
                let by = if s.conv == 2 { -turn.to_degrees() } else { turn.to_degrees() };
                need!(circ_diff(turned[k], mean[k] + by) < 1e-3, "turned by {by} the mean direction {} became {}", mean[k], turned[k]);
            }
            Ok(())
        },
    );
    run.check(
        "layout",
        60_000,
        || spec(2, 12, 2, 16),
        |s, o| {
            let x = s.build();
            o.nt_if(s.e.iter().filter(|e| **e > 0.0).count() >= 2);
            let idx = x.energy_indices();
            need_eq!(idx.len(), s.e.len(), "indices");
            for (i, (k, t)) in idx.iter().enumerate() {
                need!(*k < s.nk() && *t < s.nth(), "bin {i} is ({k}, {t})");
                need_eq!(x.energy_at(*k, *t), s.e[i], "energy of bin {i}");
                need_eq!(k + t * s.nk(), i, "position of bin ({k}, {t})");
            }
            let lo = s.e.iter().copied().fold(f64::INFINITY, f64::min);
            let hi = s.e.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            need_eq!(x.energy_range(), (lo, hi), "energy range");
            let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            let y: Spectra = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            for (a, b) in y.energy.iter().zip(&x.energy).chain(y.frequency.iter().zip(&x.frequency)).chain(y.direction_raw().iter().zip(&x.direction_raw())) {
                need_close("through JSON", *a, *b, 1e-14, 0.0)?;
            }
            need_eq!(y.direction_deg().len(), x.direction_deg().len(), "directions through JSON");
            for (a, b) in y.direction_deg().iter().zip(x.direction_deg()) {
                need_close("direction convention through JSON", *a, b, 1e-12, 1e-12)?;
            }
            Ok(())
        },
    );
}

pub fn c13(run: &mut Run) {
    run.rule(
        "Spectra with even or irregular directions; frequencies below, on, between and above the bins; \
         directions on, between and across the seam. Non-trivial: the point lies inside a cell with energy, \
         or an index is not whole.",
    );
    run.check(
        "linear_and_bilinear",
        200_000,
        || (prop::array::uniform4(-50.0..50.0f64), wide(), 1e-3..1e3f64, wide(), 1e-3..1e3f64, 0.0..=1.0f64, 0.0..=1.0f64, any::<bool>(), any::<bool>()),
        |(v, x0, dx, y0, dy, fx, fy, flip, back), o| {
            o.nt();
            let [a, b, c, d] = *v;
            let (x1, y1) = (if *back { x0 - dx } else { x0 + dx }, if *flip { y0 - dy } else { y0 + dy });
            let (x, y) = (x0 + fx * (x1 - x0), y0 + fy * (y1 - y0));
            // cancellation in x - x0
            let tol = 1e-9 * 50.0 * (1.0 + x0.abs() / dx) * (1.0 + y0.abs() / dy);
            need_close("lerp", lerp(&a, &b, &x, x0, &x1), a + (b - a) * fx, 1e-9, tol)?;
            need_close("lerp with the ends swapped", lerp(&b, &a, &x, &x1, x0), a + (b - a) * fx, 1e-9, tol)?;
            need_close("lerp at the start", lerp(&a, &b, x0, x0, &x1), a, 1e-12, 1e-12)?;
            need_close("lerp at the end", lerp(&a, &b, &x1, x0, &x1), b, 1e-12, 1e-12)?;
            let want = a * (1.0 - fx) * (1.0 - fy) + b * fx * (1.0 - fy) + c * (1.0 - fx) * fy + d * fx * fy;
            need_close("bilerp", bilerp(&a, &b, &c, &d, &x, x0, &x1, &y, y0, &y1), want, 1e-9, tol)?;
            for (px, py, want) in [(x0, y0, a), (&x1, y0, b), (x0, &y1, c), (&x1, &y1, d)] {
                need_close("bilerp at a corner", bilerp(&a, &b, &c, &d, px, x0, &x1, py, y0, &y1), want, 1e-9, 1e-9)?;
            }
            let edge = bilerp(&a, &b, &c, &d, &x, x0, &x1, y0, y0, &y1);
            need_close("bilerp along an edge", edge, lerp(&a, &b, &x, x0, &x1), 1e-9, tol)?;
            Ok(())
        },
    );
    run.check(
        "index_lookup",
        150_000,
        || {
            (spec_any_dirs(12, 16), prop_oneof![4 => -2.0..25.0f64, 1 => 0.0..90.0f64, 3 => (-2i32..25).prop_map(|v| v as f64), 1 => 0.0..1.0f64])
        },
        |(s, i), o| {
            let x = s.build();
            let want = |v: &[f64]| {
                let c = i.clamp(0.0, v.len() as f64 - 1.0);
                let lo = (c.floor() as usize).min(v.len() - 1);
                let hi = (lo + 1).min(v.len() - 1);
                v[lo] + (v[hi] - v[lo]) * (c - lo as f64)
            };
            o.nt_if(i.fract() != 0.0 && *i > 0.0);
            o.label_if(*i < 0.0 || *i > s.nk() as f64 - 1.0, "outside");
            need_close("frequency at index", x.ik(*i), want(&s.f), 1e-9, 1e-12)?;
            need_close("direction at index", x.ith(*i), want(&s.d), 1e-9, 1e-12)?;
            Ok(())
        },
    );
    run.check(
        "brackets_and_energy",
        200_000,
        || {
            (
                prop_oneof![spec(2, 12, 2, 16), spec_any_dirs(10, 12)],
                any::<u16>(),
                any::<u16>(),
                prop_oneof![2 => Just(0.0), 4 => 0.0..1.0f64],
                prop_oneof![2 => Just(0.0), 4 => 0.0..1.0f64],
                0u8..8,
                prop::option::weighted(0.2, 0.0..1.0f64),
            )
        },
        |(s, ki, ti, ff, ft, place, south), o| {
            let x = s.build();
            let (nk, nth) = (s.nk(), s.nth());
            // the frequency: inside, below or above
            let k = *ki as usize % (nk - 1);
            let (freq, klo, khi, fx) = match place {
                0 => (s.f[0] * 0.5, 0, 0, 0.0),
                1 => (s.f[nk - 1] + ff * 0.3, nk - 1, nk - 1, 0.0),
                _ => (s.f[k] + ff * (s.f[k + 1] - s.f[k]), k, k + 1, *ff),
            };
            // the direction: after bin t, or before the first bin
            let (t, dir, fy) = match south {
                Some(q) if s.d[0] > 1e-3 => {
                    let dir = q * s.d[0] * 0.999;
                    let gap = s.d[0] + 2.0 * PI - s.d[nth - 1];
                    (nth - 1, dir, (dir + 2.0 * PI - s.d[nth - 1]) / gap)
                }
                _ => {
                    let t = *ti as usize % nth;
                    let gap = if t + 1 < nth { s.d[t + 1] - s.d[t] } else { s.d[0] + 2.0 * PI - s.d[t] };
                    let mut dir = s.d[t] + ft * gap;
                    if dir >= 2.0 * PI {
                        dir -= 2.0 * PI;
                    }
                    (t, dir, *ft)
                }
            };
            let t2 = (t + 1) % nth;
            o.label_if(t2 == 0, "across the seam");
            o.label_if(klo == khi, "outside the frequencies");
            let got_k = x.closest_k(freq);
            let got_t = x.closest_th(dir);
            // Rounding decides on which side of a bin a computed position falls.
            if *place > 1 && *ff > 1e-6 && *ff < 1.0 - 1e-6 || *place < 2 || *ff == 0.0 {
                need_eq!(got_k, (klo, khi), "frequency bins around {freq} in {:?}", s.f);
            }
            if fy > 1e-6 && fy < 1.0 - 1e-6 {
                need_eq!(got_t, (t, t2), "direction bins around {dir} in {:?}", s.d);
            }
            let (a, b, c, d) = (s.at(klo, t), s.at(khi, t), s.at(klo, t2), s.at(khi, t2));
            let want = (a * (1.0 - fx) + b * fx) * (1.0 - fy) + (c * (1.0 - fx) + d * fx) * fy;
            o.nt_if(want > 0.0 && (fx > 0.0 || fy > 0.0));
            let got = x.interp_energy(freq, dir);
            let scale = a.max(b).max(c).max(d);
            need!(close(got, want, 1e-6, 1e-6 * scale + 1e-12), "energy at {freq} Hz, {dir} rad is {got}, expected {want}");
            Ok(())
        },
    );
}

// ---- regridding --------------------------------------------------------------------------

pub fn c11(run: &mut Run) {
    run.rule(
        "Source spectra of 2-14 frequencies by 2-18 directions in all three conventions, target grids that \
         reach below, into and above the source, directions over the whole circle. Non-trivial: the source \
         holds energy and the target has a point inside it.",
    );
    let strategy = || {
        (
            prop_oneof![2 => spec(2, 14, 2, 18), 1 => spec_any_dirs(10, 12)],
            prop::collection::vec(0.0..1.0f64, 1..6),
            dirs(7, 0.5),
            any::<bool>(),
        )
            .prop_map(|(s, fr, d, own)| {
                let (lo, hi) = (s.f[0], s.f[s.f.len() - 1]);
                let mut f: Vec<f64> = fr.iter().map(|v| (lo * 0.6) * ((hi * 1.5) / (lo * 0.6)).powf(*v)).collect();
                if own {
                    f.push(lo);
                    f.push(hi);
                }
                f.sort_by(|a, b| a.partial_cmp(b).unwrap());
                f.dedup();
                (s, f, d)
            })
    };
    run.check("documented_behaviour", 60_000, strategy, |(s, tf, td), o| {
        let x = s.build();
        let y = x.interpolate_to_grid(tf, td);
        let (nk, nth) = (s.nk(), s.nth());
        o.nt_if(s.e.iter().any(|e| *e > 0.0) && tf.iter().any(|f| *f > s.f[0] && *f < s.f[nk - 1]));
        need_eq!(y.frequency, *tf, "target frequencies");
        need_eq!((y.nk(), y.nth(), y.energy.len()), (tf.len(), td.len(), tf.len() * td.len()), "target size");
        for (got, want) in y.direction_deg().iter().zip(td) {
            need!((got - want).abs() < 1e-9, "target direction {want} became {got}");
        }
        need!(matches!(y.dir_convention, DirectionConvention::From), "target convention");
        let scale = s.e.iter().copied().fold(1e-9, f64::max);
        let eps = 1e-7 * scale;
        // source columns by the bearing the waves come from
        let mut cols: Vec<(f64, usize)> = (0..nth).map(|t| (from_bearing(s.d[t], s.conv).to_degrees(), t)).collect();
        cols.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for (k, f) in tf.iter().enumerate() {
            for (t, d) in td.iter().enumerate() {
                let got = y.energy[k + t * tf.len()];
                need!(got >= 0.0, "negative energy {got}");
                if *f < s.f[0] {
                    o.label("below");
                    need_eq!(got, 0.0, "energy below the source frequencies");
                    continue;
                }
                o.label_if(*f > s.f[nk - 1], "above");
                // bounded by the four source bins around it
                let k1 = (0..nk).rposition(|k| s.f[k] <= *f).unwrap();
                let k2 = if s.f[k1] == *f { k1 } else { (k1 + 1).min(nk - 1) };
                let k0 = if (f - s.f[k1]) < 1e-9 { k1.saturating_sub(1) } else { k1 };
                let after = cols.iter().position(|c| c.0 > *d).unwrap_or(0);
                let before = (after + nth - 1) % nth;
                // a target right on a column may belong to either side
                let mut near = vec![cols[before].1, cols[after].1];
                if circ_diff(cols[before].0, *d) < 1e-6 {
                    near.push(cols[(before + nth - 1) % nth].1);
                }
                if circ_diff(cols[after].0, *d) < 1e-6 {
                    near.push(cols[(after + 1) % nth].1);
                }
                let around: Vec<f64> = near
                    .iter()
                    .flat_map(|t| [k0, k1, k2].into_iter().map(move |k| (k, *t)))
                    .map(|(k, t)| s.at(k, t))
                    .collect();
                let lo = around.iter().copied().fold(f64::INFINITY, f64::min);
                let hi = around.iter().copied().fold(0.0, f64::max);
                need!(got >= lo - eps && got <= hi + eps, "energy {got} at {f} Hz, {d} degrees is outside [{lo}, {hi}]");
                if *f >= s.f[nk - 1] {
                    // clamped: the same as at the last source frequency
                    let edge = x.interpolate_to_grid(&[s.f[nk - 1]], &[*d]).energy[0];
                    need!(close(got, edge, 1e-9, eps), "energy above the source {got}, at its edge {edge}");
                }
            }
        }
        Ok(())
    });
    run.check(
        "own_grid",
        60_000,
        || prop_oneof![spec(2, 14, 2, 18), spec_any_dirs(10, 12)],
        |s, o| {
            let x = s.build();
            o.nt_if(s.e.iter().any(|e| *e > 0.0));
            let scale = s.e.iter().copied().fold(1e-9, f64::max);
            let mut cols: Vec<(f64, usize)> = x.direction_deg().into_iter().zip(0..).collect();
            cols.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let td: Vec<f64> = cols.iter().map(|c| c.0).collect();
            let y = x.interpolate_to_grid(&s.f, &td);
            for (t, (deg, src)) in cols.iter().enumerate() {
                for k in 0..s.nk() {
                    let (got, want) = (y.energy[k + t * s.nk()], s.at(k, *src));
                    need!(close(got, want, 1e-7, 1e-7 * scale), "{} Hz from {deg}: {want} became {got}", s.f[k]);
                }
            }
            Ok(())
        },
    );
    run.check("reference", 40_000, strategy, |(s, tf, td), o| {
        let x = s.build();
        let y = x.interpolate_to_grid(tf, td);
        let (nk, nth) = (s.nk(), s.nth());
        o.nt_if(s.e.iter().any(|e| *e > 0.0) && tf.iter().any(|f| *f > s.f[0] && *f < s.f[nk - 1]));
        let scale = s.e.iter().copied().fold(1e-9, f64::max);
        let mut cols: Vec<(f64, usize)> = (0..nth).map(|t| (from_bearing(s.d[t], s.conv).to_degrees(), t)).collect();
        cols.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let logs: Vec<f64> = s.f.iter().map(|f| f.ln()).collect();
        // the columns and their slopes along the frequencies
        let along: Vec<(Vec<f64>, Vec<f64>)> = cols
            .iter()
            .map(|(_, t)| {
                let v: Vec<f64> = (0..nk).map(|k| s.at(k, *t)).collect();
                let m = fc_slopes(&logs, &v);
                (v, m)
            })
            .collect();
        let turns: Vec<f64> = (-2..=2).flat_map(|q| cols.iter().map(move |c| c.0 + 360.0 * q as f64)).collect();
        for (k, f) in tf.iter().enumerate() {
            let ring: Vec<f64> = along.iter().map(|(v, m)| if *f < s.f[0] { 0.0 } else { fc_eval(&logs, v, m, f.ln()) }).collect();
            let ring: Vec<f64> = (0..5).flat_map(|_| ring.iter().copied()).collect();
            let m = fc_slopes(&turns, &ring);
            for (t, d) in td.iter().enumerate() {
                let want = fc_eval(&turns, &ring, &m, *d);
                let got = y.energy[k + t * tf.len()];
                need!(close(got, want, 1e-5, 1e-6 * scale), "energy {got} at {f} Hz, {d} degrees, reference {want}");
            }
        }
        Ok(())
    });
    run.check("relations", 40_000, strategy, |(s, tf, td), o| {
        let x = s.build();
        let y = x.interpolate_to_grid(tf, td);
        o.nt_if(s.e.iter().any(|e| *e > 0.0));
        let scale = s.e.iter().copied().fold(1e-9, f64::max);
        let eps = 1e-6 * scale;
        // each target point is independent of the others
        for (k, f) in tf.iter().enumerate() {
            let t = k % td.len();
            let one = x.interpolate_to_grid(&[*f], &[td[t]]).energy[0];
            need!(close(one, y.energy[k + t * tf.len()], 1e-9, eps), "alone {one}, in the grid {}", y.energy[k + t * tf.len()]);
        }
        // energy is proportional
        let twice = Spec { e: s.e.iter().map(|e| e * 2.0).collect(), ..s.clone() }.build().interpolate_to_grid(tf, td);
        for (a, b) in twice.energy.iter().zip(&y.energy) {
            need!(close(*a, 2.0 * b, 1e-7, eps), "doubled energy: {a} instead of {}", 2.0 * b);
        }
        // the same sea described in another convention
        let other = (s.conv + 1) % 3;
        let raw = |from: f64| match other {
            0 => from,
            1 => from + PI,
            _ => 1.5 * PI - from,
        };
        let mut cols: Vec<(f64, usize)> = (0..s.nth()).map(|t| (raw(from_bearing(s.d[t], s.conv)).rem_euclid(2.0 * PI), t)).collect();
        cols.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let z = Spec {
            f: s.f.clone(),
            d: cols.iter().map(|c| c.0).collect(),
            e: cols.iter().flat_map(|(_, t)| (0..s.nk()).map(move |k| (k, *t))).map(|(k, t)| s.at(k, t)).collect(),
            conv: other,
        }
        .build()
        .interpolate_to_grid(tf, td);
        for (a, b) in z.energy.iter().zip(&y.energy) {
            need!(close(*a, *b, 1e-5, 1e-5 * scale), "in another convention: {a} instead of {b}");
        }
        // 0 and 360 degrees are the same direction
        let north = x.interpolate_to_grid(tf, &[0.0]);
        let full = x.interpolate_to_grid(tf, &[360.0]);
        for (a, b) in north.energy.iter().zip(&full.energy) {
            need!(close(*a, *b, 1e-7, eps), "north is {a} at 0 and {b} at 360");
        }
        Ok(())
    });
}

// ---- partitioning ------------------------------------------------------------------------

fn ref_neighbors(w: usize, h: usize, i: usize) -> Vec<usize> {
    let (x, y) = ((i % w) as i64, (i / w) as i64);
    let mut out = vec![];
    for dy in -1..=1i64 {
        for dx in -1..=1i64 {
            if (dx, dy) != (0, 0) && (0..w as i64).contains(&(x + dx)) {
                out.push((y + dy).rem_euclid(h as i64) as usize * w + (x + dx) as usize);
            }
        }
    }
    out
}

pub fn c14(run: &mut Run) {
    run.rule("Every cell of every grid from 1x1 to 14x14 and random larger grids. Non-trivial: grids of at least 3x3.");
    let test = |(w, h, i): &(usize, usize, usize), o: &mut Obs| -> Result<(), String> {
        let got = nearest_neighbors(*w, *h, *i);
        o.nt_if(*w >= 3 && *h >= 3);
        o.label_if(*i / *w == 0 || *i / *w == h - 1, "wraps");
        let mut g = got.clone();
        let mut r = ref_neighbors(*w, *h, *i);
        g.sort();
        r.sort();
        if *h < 3 || *w < 2 {
            g.dedup();
            r.dedup();
        }
        need_eq!(g, r, "neighbours of cell {i} in {w}x{h}");
        for n in got {
            need!(nearest_neighbors(*w, *h, n).contains(i), "{n} is a neighbour of {i} but not the other way around");
        }
        Ok(())
    };
    run.enumerate(
        "small_grids",
        (1..=14usize).flat_map(|w| (1..=14usize).flat_map(move |h| (0..w * h).map(move |i| (w, h, i)))),
        test,
    );
    run.check(
        "large_grids",
        40_000,
        || (3usize..120, 3usize..120).prop_flat_map(|(w, h)| (Just(w), Just(h), prop_oneof![3 => 0..w * h, 1 => 0..w, 1 => w * (h - 1)..w * h])),
        test,
    );
}

/// Levels as WW3 digitizes them, 1 for the highest energy; None when a value sits on a rounding edge.
fn levels(data: &[f64], steps: usize) -> Option<Vec<i64>> {
    let lo = data.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = data.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    if hi == lo {
        return Some(vec![1; data.len()]);
    }
    data.iter()
        .map(|v| {
            let p = (hi - v) / (hi - lo) * (steps as f64 - 1.0);
            if ((p - p.floor()) - 0.5).abs() < 1e-6 {
                None
            } else {
                Some(1 + p.round() as i64)
            }
        })
        .collect()
}

/// Connected plateaus of the levels without a higher-energy neighbour.
fn summits(w: usize, h: usize, lv: &[i64]) -> Vec<Vec<usize>> {
    let mut seen = vec![false; lv.len()];
    let mut out = vec![];
    for s in 0..lv.len() {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut plateau = vec![s];
        let mut top = true;
        let mut i = 0;
        while i < plateau.len() {
            for n in ref_neighbors(w, h, plateau[i]) {
                if lv[n] < lv[s] {
                    top = false;
                }
                if lv[n] == lv[s] && !seen[n] {
                    seen[n] = true;
                    plateau.push(n);
                }
            }
            i += 1;
        }
        if top {
            out.push(plateau);
        }
    }
    out
}

fn check_partition(data: &[f64], w: usize, h: usize, lv: &[i64], map: &[i32], count: usize, o: &mut Obs) -> Result<(), String> {
    need_eq!(map.len(), w * h, "map length");
    let tops = summits(w, h, lv);
    o.nt_if(tops.len() >= 2);
    o.label_if(tops.len() >= 5, "five or more systems");
    need_eq!(count, tops.len() + 1, "component count (including the background id) for {} separate peaks", tops.len());
    let labels: BTreeSet<i32> = map.iter().copied().filter(|l| *l > 0).collect();
    need_eq!(labels, (1..=tops.len() as i32).collect::<BTreeSet<_>>(), "labels in use");
    need!(map.iter().all(|l| *l >= 0), "negative label");
    // each peak has a label of its own
    let mut owner = BTreeMap::new();
    for (i, t) in tops.iter().enumerate() {
        let l = map[t[0]];
        need!(t.iter().all(|c| map[*c] == l), "one peak carries several labels");
        need!(owner.insert(l, i).is_none(), "two peaks share label {l}");
    }
    // A bin that rises to one peak only belongs to it.
    let mut reached: Vec<Vec<usize>> = vec![vec![]; lv.len()];
    for (i, t) in tops.iter().enumerate() {
        let mut q: VecDeque<usize> = t.iter().copied().collect();
        let mut seen: BTreeSet<usize> = t.iter().copied().collect();
        while let Some(c) = q.pop_front() {
            reached[c].push(i);
            for n in ref_neighbors(w, h, c) {
                if lv[n] >= lv[c] && seen.insert(n) {
                    q.push_back(n);
                }
            }
        }
    }
    for c in 0..lv.len() {
        if reached[c].len() == 1 {
            need_eq!(owner[&map[c]], reached[c][0], "bin {c} climbs to one peak only but is labelled with another; peak index");
        } else {
            o.label("contested bins");
        }
    }
    // Like WW3, five passes give watershed bins to a neighbouring component: only bins further
    // than that from every uncontested bin may stay without one.
    if map.contains(&0) {
        o.label("unassigned bins");
        let mut dist = vec![usize::MAX; map.len()];
        let mut q: VecDeque<usize> = (0..map.len()).filter(|c| reached[*c].len() == 1).collect();
        q.iter().for_each(|c| dist[*c] = 0);
        while let Some(c) = q.pop_front() {
            for n in ref_neighbors(w, h, c) {
                if dist[n] == usize::MAX {
                    dist[n] = dist[c] + 1;
                    q.push_back(n);
                }
            }
        }
        for c in 0..map.len() {
            need!(map[c] != 0 || dist[c] > 5, "bin {c} belongs to no component, {} bins from an uncontested one", dist[c]);
        }
    }
    // components are connected
    for l in labels {
        let cells: BTreeSet<usize> = (0..map.len()).filter(|c| map[*c] == l).collect();
        let start = *cells.iter().next().unwrap();
        let mut q = VecDeque::from([start]);
        let mut seen = BTreeSet::from([start]);
        while let Some(c) = q.pop_front() {
            for n in ref_neighbors(w, h, c) {
                if cells.contains(&n) && seen.insert(n) {
                    q.push_back(n);
                }
            }
        }
        need_eq!(seen.len(), cells.len(), "bins of component {l} connected to its first bin");
    }
    let _ = data;
    Ok(())
}

/// The immersion algorithm of WAVEWATCH III (w3partmd, PT_FLD), level by level.
fn ww3_partition(data: &[f64], w: usize, h: usize, lv: &[i64], steps: usize) -> (Vec<i32>, usize) {
    let n = w * h;
    let neigh: Vec<Vec<usize>> = (0..n).map(|i| nearest_neighbors(w, h, i)).collect();
    // None: not flooded yet; Some(0): watershed; Some(l): basin l
    let mut label: Vec<Option<i32>> = vec![None; n];
    let mut basins = 0;
    let used: BTreeSet<i64> = lv.iter().copied().filter(|l| *l <= steps as i64).collect();
    for level in used {
        let cells: Vec<usize> = (0..n).filter(|c| lv[*c] == level).collect();
        let mut dist = vec![0u32; n];
        let open: BTreeSet<usize> = cells.iter().copied().collect();
        // the front that touches basins or watersheds of the levels above
        let mut front: Vec<usize> =
            cells.iter().copied().filter(|c| neigh[*c].iter().any(|q| label[*q].is_some())).collect();
        front.iter().for_each(|c| dist[*c] = 1);
        let mut step = 1u32;
        while !front.is_empty() {
            let mut next = vec![];
            for c in &front {
                for q in &neigh[*c] {
                    match label[*q] {
                        Some(l) if dist[*q] < step => {
                            label[*c] = match (label[*c], l) {
                                (None, 0) => Some(0),
                                (mine, 0) => mine,
                                (None | Some(0), l) => Some(l),
                                (Some(mine), l) if mine != l => Some(0),
                                (mine, _) => mine,
                            };
                        }
                        None if open.contains(q) && dist[*q] == 0 => {
                            dist[*q] = step + 1;
                            next.push(*q);
                        }
                        _ => {}
                    }
                }
            }
            front = next;
            step += 1;
        }
        // what is still dry is a new summit
        for c in cells {
            if label[c].is_none() {
                basins += 1;
                label[c] = Some(basins);
                let mut q = vec![c];
                while let Some(c) = q.pop() {
                    for n in &neigh[c] {
                        if open.contains(n) && label[*n].is_none() {
                            label[*n] = Some(basins);
                            q.push(*n);
                        }
                    }
                }
            }
        }
    }
    let mut map: Vec<i32> = label.into_iter().map(|l| l.unwrap_or(-1)).collect();
    for _ in 0..5 {
        let old = map.clone();
        for c in (0..n).filter(|c| old[*c] == 0) {
            let mut best = f64::INFINITY;
            for q in &neigh[c] {
                let d = (data[c] - data[*q]).abs();
                if old[*q] != 0 && d <= best {
                    best = d;
                    map[c] = old[*q];
                }
            }
        }
    }
    (map, basins as usize + 1)
}

pub fn grid() -> BoxedStrategy<(usize, usize, Vec<f64>)> {
    prop_oneof![200 => (2usize..16, 3usize..20), 1 => (20usize..66, 20usize..80)]
        .prop_flat_map(|(w, h)| (Just(w), Just(h), energies(w, h)))
        .boxed()
}

/// How many levels: mostly a few or some hundred, now and then one or thousands.
fn step_count() -> BoxedStrategy<usize> {
    prop_oneof![20 => 2usize..20, 20 => 20usize..=250, 1 => Just(1usize), 3 => 251usize..1200, 1 => 1200usize..60_000].boxed()
}

pub fn c15(run: &mut Run) {
    run.rule(
        "Energy grids of 2-15 by 3-19 bins (some as large as those of wave models) with swell systems, noise, plateaus, spikes and constants, 2 to 60,000 \
         levels, with and without blur. Non-trivial: at least two separate peaks.",
    );
    run.assume("Values within 1e-6 of a digitization edge are not generated into a verdict (counted as skipped).");
    run.check(
        "watershed",
        60_000,
        || (grid(), step_count()),
        |((w, h, data), steps), o| {
            let (map, count) = watershed(data, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            let Some(lv) = levels(data, *steps) else {
                o.label("skipped");
                return Ok(());
            };
            check_partition(data, *w, *h, &lv, &map, count, o)
        },
    );
    run.check(
        "ww3_reference",
        60_000,
        || (grid(), step_count()),
        |((w, h, data), steps), o| {
            let got = watershed(data, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            let Some(lv) = levels(data, *steps) else {
                o.label("skipped");
                return Ok(());
            };
            o.nt_if(got.1 > 2);
            need_eq!(got, ww3_partition(data, *w, *h, &lv, *steps), "partition");
            Ok(())
        },
    );
    run.check(
        "scale_and_offset",
        40_000,
        || (grid(), step_count(), prop_oneof![-6i32..8, -90i32..90]),
        |((w, h, data), steps, p), o| {
            let a = watershed(data, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            o.nt_if(a.1 > 2);
            // A power of two scales every intermediate result exactly.
            let big: Vec<f64> = data.iter().map(|v| v * 2f64.powi(*p)).collect();
            let b = watershed(&big, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            need_eq!(b, a, "partition of the energies scaled by 2^{p}");
            Ok(())
        },
    );
    run.check(
        "turned",
        40_000,
        || (grid(), step_count(), any::<u16>()),
        |((w, h, data), steps, by), o| {
            // Turning the compass does not change how many systems there are, nor which bins
            // unambiguously belong together.
            let by = *by as usize % *h;
            let turned: Vec<f64> = (0..w * h).map(|i| data[(i / w + by) % h * w + i % w]).collect();
            let a = watershed(data, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            let b = watershed(&turned, *w, *h, *steps, None).map_err(|e| format!("{e:?}"))?;
            o.nt_if(a.1 > 2 && by > 0);
            need_eq!(b.1, a.1, "components after turning by {by} of {h} rows");
            Ok(())
        },
    );
    run.check(
        "wrong_length",
        20_000,
        || (1usize..12, 1usize..12, 0usize..200, prop::option::of(0.5..2.0f32)),
        |(w, h, n, blur), o| {
            let n = if *n == w * h { n + 1 } else { *n };
            o.nt();
            let r = watershed(&vec![1.0; n], *w, *h, 10, *blur);
            need!(matches!(r, Err(WatershedError::InvalidData)), "{n} values for a {w}x{h} grid gave {r:?}");
            let f: Vec<f64> = (0..*w).map(|i| 0.05 + i as f64 * 0.01).collect();
            let d: Vec<f64> = (0..*h).map(|i| i as f64 * 0.1).collect();
            let s = Spectra::new(f, d, vec![1.0; n], DirectionConvention::From);
            need!(matches!(s.partition(10, *blur), Err(WatershedError::InvalidData)), "spectra of the wrong length was partitioned");
            Ok(())
        },
    );
    run.check(
        "blurred",
        12_000,
        || (grid(), step_count(), 0.3..2.5f32),
        |((w, h, data), steps, blur), o| {
            let (map, count) = watershed(data, *w, *h, *steps, Some(*blur)).map_err(|e| format!("{e:?}"))?;
            need_eq!(map.len(), w * h, "map length");
            o.nt_if(levels(data, *steps).is_some_and(|lv| ww3_partition(data, *w, *h, &lv, *steps).1 > 2));
            need!(count >= 2, "no component at all");
            let labels: BTreeSet<i32> = map.iter().copied().filter(|l| *l != 0).collect();
            need_eq!(labels, (1..count as i32).collect::<BTreeSet<_>>(), "labels in use");
            o.label_if(map.contains(&0), "unassigned bins");
            for l in labels {
                let cells: BTreeSet<usize> = (0..map.len()).filter(|c| map[*c] == l).collect();
                let start = *cells.iter().next().unwrap();
                let mut q = VecDeque::from([start]);
                let mut seen = BTreeSet::from([start]);
                while let Some(c) = q.pop_front() {
                    for n in ref_neighbors(*w, *h, c) {
                        if cells.contains(&n) && seen.insert(n) {
                            q.push_back(n);
                        }
                    }
                }
                need_eq!(seen.len(), cells.len(), "bins of component {l} connected to its first bin");
            }
            let again = watershed(data, *w, *h, *steps, Some(*blur)).map_err(|e| format!("{e:?}"))?;
            need_eq!(&again, &(map, count), "same input twice");
            // A power of two scales every intermediate result exactly.
            for p in [-7, 5, -41, 30] {
                let big: Vec<f64> = data.iter().map(|v| v * 2f64.powi(p)).collect();
                let b = watershed(&big, *w, *h, *steps, Some(*blur)).map_err(|e| format!("{e:?}"))?;
                need_eq!(&b, &again, "partition of the energies scaled by 2^{p}");
            }
            Ok(())
        },
    );
    run.check(
        "blurred_peaks",
        6_000,
        || {
            (
                (18usize..36, 18usize..40),
                prop::collection::vec((0.0..1.0f64, 0.0..1.0f64, 0.6..1.0f64, 1.0..1.5f64), 1..7),
                40usize..=250,
                0.3..1.2f32,
                (-4.0..4.0f64, 0.0..3.0f64),
            )
        },
        |((w, h), bumps, steps, blur, (scale, floor)), o| {
            // Bumps far apart stay apart, whatever the scale of the energy, and there is nothing else.
            let mut at: Vec<(usize, usize, f64, f64)> = vec![];
            for (x, y, a, sd) in bumps {
                let (x, y) = (4 + (x * (*w - 8) as f64) as usize, 4 + (y * (*h - 8) as f64) as usize);
                if at.iter().all(|b| (b.0.abs_diff(x)).pow(2) + (b.1.abs_diff(y)).pow(2) >= 81) {
                    at.push((x, y, *a, *sd));
                }
            }
            let scale = 10f64.powf(*scale);
            let data: Vec<f64> = (0..w * h)
                .map(|i| {
                    let (x, y) = ((i % w) as f64, (i / w) as f64);
                    let e: f64 = at
                        .iter()
                        .map(|b| b.2 * (-((x - b.0 as f64).powi(2) + (y - b.1 as f64).powi(2)) / (2.0 * b.3 * b.3)).exp())
                        .sum();
                    (e + floor) * scale
                })
                .collect();
            let (map, count) = watershed(&data, *w, *h, *steps, Some(*blur)).map_err(|e| format!("{e:?}"))?;
            o.nt_if(at.len() > 1);
            need_eq!(count, at.len() + 1, "components and one for {} bumps at {at:?}", at.len());
            let own: BTreeSet<i32> = at.iter().map(|b| map[b.0 + b.1 * w]).collect();
            need_eq!(own, (1..count as i32).collect::<BTreeSet<_>>(), "components at the tops of {at:?}");
            for b in &at {
                for (dx, dy) in [(0i32, 1i32), (1, 0), (0, -1), (-1, 0)] {
                    let i = (b.0 as i32 + dx) as usize + (b.1 as i32 + dy) as usize * w;
                    need_eq!(map[i], map[b.0 + b.1 * w], "component next to the top at {}, {}", b.0, b.1);
                }
            }
            Ok(())
        },
    );
    run.check(
        "spectra_partition",
        20_000,
        || (spec(2, 14, 3, 18), 2usize..=200),
        |(s, steps), o| {
            let got = s.build().partition(*steps, None).map_err(|e| format!("{e:?}"))?;
            let Some(lv) = levels(&s.e, *steps) else {
                o.label("skipped");
                return Ok(());
            };
            check_partition(&s.e, s.nk(), s.nth(), &lv, &got.0, got.1, o)
        },
    );
}

pub fn c16(run: &mut Run) {
    run.rule(
        "Spectra with partition maps from the library and random maps. Non-trivial: at least two components \
         hold energy.",
    );
    run.check(
        "split",
        60_000,
        || {
            (spec(2, 12, 3, 16), 2usize..120, any::<bool>()).prop_flat_map(|(s, steps, own)| {
                let n = s.e.len();
                (Just(s), Just(steps), Just(own), prop::collection::vec(prop_oneof![20 => 0i32..6, 1 => -2i32..12], n), prop::option::of(0usize..9), 1usize..8)
            })
        },
        |(s, steps, own, random, limit, count), o| {
            let x = s.build();
            let parts = if *own {
                x.partition(*steps, None).map_err(|e| format!("{e:?}"))?
            } else {
                (random.clone(), *count)
            };
            let split = Spectra::split_from_components(&x, &parts, *limit);
            need_eq!(split.len(), limit.unwrap_or(parts.1), "number of spectra");
            let mut with_energy = 0;
            for (id, p) in split.iter().enumerate() {
                need_eq!(p.frequency, s.f, "frequencies of component {id}");
                need_eq!(p.direction_raw(), s.d, "directions of component {id}");
                need_eq!(format!("{:?}", p.dir_convention), format!("{:?}", x.dir_convention), "convention of component {id}");
                need_eq!(p.energy.len(), s.e.len(), "bins of component {id}");
                with_energy += p.energy.iter().any(|e| *e > 0.0) as u32;
                for i in 0..s.e.len() {
                    let want = if parts.0[i] == id as i32 { s.e[i] } else { 0.0 };
                    need_eq!(p.energy[i], want, "bin {i} of component {id}, mapped to {}", parts.0[i]);
                }
                let single = Spectra::from_component(&x, &parts, id as i32);
                need_eq!(single.energy, p.energy, "component {id} on its own");
            }
            o.nt_if(with_energy >= 2);
            if limit.is_none() {
                for i in 0..s.e.len() {
                    // a bin of no system, or of one beyond the count, is in none of the spectra
                    if !(0..parts.1 as i32).contains(&parts.0[i]) {
                        continue;
                    }
                    let sum: f64 = split.iter().map(|p| p.energy[i]).sum();
                    need_eq!(sum, s.e[i], "energy of bin {i} over all components");
                }
            }
            Ok(())
        },
    );
}

pub fn c20(run: &mut Run) {
    run.rule(
        "Spectra of 2-10 frequencies by 2-14 directions, images of 1 to 28 pixels, optional period limit and \
         exponent. Non-trivial: an image of at least 4 pixels with at least two bins within the limit.",
    );
    run.check(
        "nearest_bin",
        12_000,
        || {
            (
                prop_oneof![spec(2, 10, 2, 14), spec_any_dirs(8, 10)],
                1usize..28,
                prop::option::of(0.05..1.2f64),
                prop::option::of(0.3..3.0f64),
                prop::option::weighted(0.2, 0usize..1000),
            )
        },
        |(s, size, limit, exp, own), o| {
            let x = s.build();
            let longest = 1.0 / s.f[0];
            // The limit is the longest period shown, also when it is that of a bin
            let limit = limit.map(|l| own.map_or(l * longest, |i| 1.0 / s.f[i % s.nk()]));
            o.label_if(limit.is_some() && own.is_some(), "limit at a bin");
            let map = x.compute_cartesian_projection_map(*size, limit, *exp);
            need_eq!((map.size, map.indices.len()), (*size, size * size), "map size");
            let (thr, ex) = (limit.unwrap_or(longest), exp.unwrap_or(1.0));
            let half = (size / 2) as f64;
            let mut bins = vec![];
            for t in 0..s.nth() {
                let b = from_bearing(s.d[t], s.conv);
                for k in 0..s.nk() {
                    let p = 1.0 / s.f[k];
                    if p <= thr {
                        let r = half * (p / thr).powf(ex);
                        bins.push((k + t * s.nk(), half + r * b.sin(), half - r * b.cos()));
                    }
                }
            }
            o.nt_if(*size >= 4 && bins.len() >= 2);
            o.label_if(bins.is_empty(), "nothing within the limit");
            o.label_if(bins.len() < s.e.len() && !bins.is_empty(), "limit cuts");
            let target: Vec<f64> = (0..s.e.len()).map(|i| i as f64 + 0.5).collect();
            let image = x.project_cartesian_with_map(&target, &map);
            need_eq!(image.len(), size * size, "image size");
            let direct = x.project_cartesian(&target, *size, limit, *exp);
            for (i, idx) in map.indices.iter().enumerate() {
                let (px, py) = ((i % size) as f64, (i / size) as f64);
                match idx {
                    None => {
                        need!(image[i].is_nan() && direct[i].is_nan(), "empty pixel {i} holds {}", image[i]);
                        need!(bins.is_empty() || (px - half).hypot(py - half) > half, "pixel ({px}, {py}) inside the circle has no bin");
                    }
                    Some(b) => {
                        need_eq!((image[i], direct[i]), (target[*b], target[*b]), "pixel {i} of bin {b}");
                        let d = |q: &(usize, f64, f64)| (q.1 - px).hypot(q.2 - py);
                        let Some(own) = bins.iter().find(|q| q.0 == *b) else {
                            return Err(format!("pixel ({px}, {py}) shows bin {b}, which is beyond the period limit"));
                        };
                        let best = bins.iter().map(d).fold(f64::INFINITY, f64::min);
                        need!(d(own) <= best + 1e-6, "pixel ({px}, {py}) shows a bin {} away, the nearest is {best} away", d(own));
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn c36(run: &mut Run) {
    run.rule("Signals of up to 60 samples with repeated values, steps and random walks. Non-trivial: a peak is found.");
    run.check(
        "peaks",
        200_000,
        || {
            (
                prop_oneof![
                    long(prop::collection::vec(-10.0..10.0f64, 0..60), 200, 2000),
                    long(prop::collection::vec((-4i32..=4).prop_map(|v| v as f64), 0..60), 200, 2000),
                    long(prop::collection::vec(-1.0..1.0f64, 0..60), 200, 2000)
                        .prop_map(|v| v.iter().scan(0.0, |s, x| { *s += x; Some(*s) }).collect()),
                ],
                prop_oneof![4 => 0.01..5.0f64, 4 => (0i32..5).prop_map(|v| v as f64), 1 => (-14..-2i32).prop_map(|x| 10f64.powi(x))],
            )
        },
        |(v, delta), o| {
            let (mins, maxs) = detect_peaks(v, *delta);
            // Reference: find the first sample that falls more than delta below the highest one
            // since the last trough, then the first that rises more than delta above the lowest.
            let (mut want_min, mut want_max) = (vec![], vec![]);
            let (mut from, mut looking_up) = (0usize, true);
            loop {
                let seg = &v[from..];
                let mut ext = 0usize;
                let mut turn = None;
                for (i, x) in seg.iter().enumerate() {
                    let further = if looking_up { *x > seg[ext] } else { *x < seg[ext] };
                    if further {
                        ext = i;
                    }
                    let back = if looking_up { *x < seg[ext] - delta } else { *x > seg[ext] + delta };
                    if back {
                        turn = Some(i);
                        break;
                    }
                }
                let Some(t) = turn else { break };
                if looking_up { want_max.push(from + ext) } else { want_min.push(from + ext) }
                from += t;
                looking_up = !looking_up;
            }
            o.nt_if(!want_max.is_empty());
            o.label_if(!want_min.is_empty(), "trough");
            need_eq!((mins, maxs), (want_min, want_max), "(troughs, peaks)");
            Ok(())
        },
    );
}
