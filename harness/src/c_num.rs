//! Sequences, vectors and monotone interpolation.
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use proptest::prelude::*;
use surfrs::tools::interpolation::{circular_pchip_interpolate, PchipInterpolator};
use surfrs::tools::linspace::linspace;
use surfrs::tools::vector::*;

pub fn c08(run: &mut Run) {
    run.rule(
        "Sequences of 0 to 60 points over several decades taken from both ends in random order; arrays up to \
         80 items with repeated values and NaN. Non-trivial: at least two points or two items.",
    );
    run.check(
        "linspace",
        150_000,
        || (wide(), wide(), prop_oneof![100 => 0usize..60, 1 => 60usize..3000], prop::collection::vec(0u8..3, 0..70)),
        |(a, b, n, ops), o| {
            o.nt_if(*n >= 2 && !ops.is_empty());
            let want: Vec<f64> = (0..*n)
                .map(|i| if *n == 1 { *a } else { a + (b - a) * (i as f64 / (*n as f64 - 1.0)) })
                .collect();
            let tol = 1e-12 * (a.abs() + b.abs()) + 1e-300;
            let all: Vec<f64> = linspace(*a, *b, *n).collect();
            need_eq!(all.len(), *n, "number of points");
            for (g, w) in all.iter().zip(&want) {
                need!((g - w).abs() <= tol, "point {g}, expected {w}");
            }
            let mut it = linspace(*a, *b, *n);
            let (mut lo, mut hi) = (0usize, *n);
            for op in ops {
                need_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "size_hint");
                need_eq!(it.len(), hi - lo, "len");
                let (got, want) = match op {
                    0 => (it.next(), (lo < hi).then(|| { lo += 1; lo - 1 })),
                    1 => (it.next_back(), (lo < hi).then(|| { hi -= 1; hi })),
                    _ => (it.clone().next(), (lo < hi).then_some(lo)),
                };
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(i)) if g == all[i] => {}
                    (g, i) => return Err(format!("operation {op} gave {g:?}, expected point {i:?} of {all:?}")),
                }
            }
            let back: Vec<f64> = linspace(*a, *b, *n).rev().collect();
            need!(back.iter().eq(all.iter().rev()), "reversed sequence {back:?}");
            let single: Vec<f32> = linspace(*a as f32, *b as f32, *n).collect();
            need_eq!(single.len(), *n, "number of single precision points");
            for (g, w) in single.iter().zip(&want) {
                need!((*g as f64 - w).abs() <= 1e-5 * (a.abs() + b.abs()) + 1e-30, "single precision point {g}, expected {w}");
            }
            Ok(())
        },
    );
    run.check(
        "argsort",
        150_000,
        || long(prop::collection::vec(-20i32..20, 0..80), 200, 3000),
        |data, o| {
            o.nt_if(data.len() >= 2);
            let mut want: Vec<usize> = (0..data.len()).collect();
            want.sort_by_key(|i| (data[*i], *i));
            need_eq!(argsort(data), want, "argsort");
            let f: Vec<f64> = data.iter().map(|v| *v as f64 / 7.0).collect();
            need_eq!(argsort_partial(&f), want, "argsort_partial");
            Ok(())
        },
    );
    run.check(
        "differences",
        100_000,
        || long(prop::collection::vec(wide(), 2..60), 200, 3000),
        |data, o| {
            o.nt();
            let want: Vec<f64> = (0..data.len())
                .map(|i| if i == 0 { data[1] - data[0] } else { data[i] - data[i - 1] })
                .collect();
            need_eq!(diff(data), want, "diff");
            need_eq!(diff_abs(data), want.iter().map(|v| v.abs()).collect::<Vec<_>>(), "diff_abs");
            let ints: Vec<i64> = data.iter().map(|v| *v as i64).collect();
            need_eq!(
                diff(&ints),
                (0..ints.len()).map(|i| ints[i.max(1)] - ints[i.max(1) - 1]).collect::<Vec<_>>(),
                "integer diff"
            );
            Ok(())
        },
    );
    run.check(
        "pack_unpack",
        150_000,
        || (wide(), 1e-3..1e4f64, 1u8..=255, long(prop::collection::vec(0.0..=1.0f64, 1..40), 200, 3000)),
        |(min, span, count, fr), o| {
            o.nt();
            let max = min + span;
            let mut data: Vec<f64> = fr.iter().map(|f| (min + f * span).clamp(*min, max)).collect();
            data.push(*min);
            data.push(max);
            data.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let packed = bin(&data, min, &max, count);
            need_eq!(packed.len(), data.len(), "packed length");
            need_eq!(packed[0], 0, "packed minimum");
            need_eq!(*packed.last().unwrap(), *count, "packed maximum");
            need!(packed.windows(2).all(|w| w[0] <= w[1]), "packing is not monotone: {packed:?}");
            let out = unbin(&packed, min, &max, count);
            need_eq!(out.len(), data.len(), "unpacked length");
            let step = (max - min) / *count as f64;
            let eps = 1e-9 * (span + min.abs());
            for (v, u) in data.iter().zip(&out) {
                need!(*u <= v + eps && v - u <= step + eps, "{v} came back as {u} with step {step}");
            }
            need_eq!(bin(&out.iter().map(|v| (v + step / 4.0).min(max)).collect::<Vec<_>>(), min, &max, count), packed, "packing an unpacked array");
            Ok(())
        },
    );
    run.check(
        "extremes",
        150_000,
        || (long(prop::collection::vec(prop_oneof![6 => wide(), 1 => Just(f64::NAN)], 0..40), 200, 3000), wide()),
        |(data, fill), o| {
            let real: Vec<f64> = data.iter().copied().filter(|v| !v.is_nan()).collect();
            o.nt_if(real.len() >= 2 && real.len() < data.len());
            let want = (
                real.iter().copied().fold(f64::INFINITY, f64::min),
                real.iter().copied().fold(f64::NEG_INFINITY, f64::max),
            );
            need_eq!(min_max(data), want, "min_max");
            let mut filled = data.clone();
            need_eq!(min_max_fill(&mut filled, *fill), want, "min_max_fill");
            for (a, b) in data.iter().zip(&filled) {
                need!(if a.is_nan() { b == fill } else { a == b }, "{a} became {b}");
            }
            Ok(())
        },
    );
}

/// Strictly increasing knots and values with plateaus, steps, monotone runs and spikes.
fn knots(max: usize) -> BoxedStrategy<(Vec<f64>, Vec<f64>)> {
    prop_oneof![300 => 2..max, 1 => 40usize..150]
        .prop_flat_map(|n| {
            (
                -100.0..100.0f64,
                prop::collection::vec(
                    prop_oneof![2 => Just(1.0), 3 => 0.05..5.0f64, 1 => 0.001..0.05f64, 1 => 5.0..50.0f64],
                    n,
                ),
                prop_oneof![
                    prop::collection::vec(-10.0..10.0f64, n),
                    prop::collection::vec((-3i32..=3).prop_map(|v| v as f64), n),
                    // monotone with flats
                    prop::collection::vec(prop_oneof![1 => Just(0.0), 3 => 0.0..1.0f64, 1 => 0.0..100.0f64], n)
                        .prop_map(|d| d.iter().scan(0.0, |s, v| { *s += v; Some(*s) }).collect()),
                    prop::collection::vec(prop_oneof![1 => Just(0.0), 3 => -1.0..0.0f64], n)
                        .prop_map(|d| d.iter().scan(0.0, |s, v| { *s += v; Some(*s) }).collect()),
                ],
                prop_oneof![4 => Just(0), 1 => -10i32..=20],
            )
        })
        .prop_map(|(x0, dx, y, scale)| {
            // values of any size
            let y: Vec<f64> = y.into_iter().map(|v: f64| if scale == 0 { v } else { v * 10f64.powi(scale) }).collect();
            let x: Vec<f64> = dx.iter().scan(x0, |s, v| { *s += v; Some(*s) }).collect();
            (x, y)
        })
        .boxed()
}

/// Fritsch-Carlson slopes, as published: weighted harmonic mean inside, one-sided at the ends,
/// then the circle-of-radius-3 limiter from left to right.
pub fn fc_slopes(x: &[f64], y: &[f64]) -> Vec<f64> {
    let n = x.len();
    let h: Vec<f64> = x.windows(2).map(|w| w[1] - w[0]).collect();
    let d: Vec<f64> = (0..n - 1).map(|i| (y[i + 1] - y[i]) / h[i]).collect();
    let mut m = vec![0.0; n];
    m[0] = d[0];
    m[n - 1] = d[n - 2];
    for i in 1..n - 1 {
        if d[i - 1] * d[i] > 0.0 {
            let (w1, w2) = (2.0 * h[i] + h[i - 1], h[i] + 2.0 * h[i - 1]);
            m[i] = (w1 + w2) / (w1 / d[i - 1] + w2 / d[i]);
        }
    }
    if n > 2 {
        for i in 0..n - 1 {
            if d[i] == 0.0 {
                m[i] = 0.0;
                m[i + 1] = 0.0;
                continue;
            }
            let (a, b) = (m[i] / d[i], m[i + 1] / d[i]);
            let r = a.hypot(b);
            if r > 3.0 {
                m[i] *= 3.0 / r;
                m[i + 1] *= 3.0 / r;
            }
        }
    }
    m
}

pub fn fc_eval(x: &[f64], y: &[f64], m: &[f64], t: f64) -> f64 {
    let n = x.len();
    if t <= x[0] {
        return y[0];
    }
    if t >= x[n - 1] {
        return y[n - 1];
    }
    let k = (0..n - 1).rev().find(|k| x[*k] <= t).unwrap();
    let h = x[k + 1] - x[k];
    // Newton form of the cubic Hermite interpolant.
    let s = t - x[k];
    let d = (y[k + 1] - y[k]) / h;
    let c2 = (3.0 * d - 2.0 * m[k] - m[k + 1]) / h;
    let c3 = (m[k] + m[k + 1] - 2.0 * d) / (h * h);
    y[k] + s * (m[k] + s * (c2 + s * c3))
}

pub fn c09(run: &mut Run) {
    run.rule(
        "2 to 14 strictly increasing knots with spacings from 0.001 to 50, values with plateaus, steps, \
         spikes and monotone runs, probed at knots, inside every interval, and outside. Non-trivial: at least \
         three knots and values that are not all equal.",
    );
    run.check(
        "shape",
        150_000,
        || (knots(14), prop::collection::vec(0.0..1.0f64, 3..8)),
        |((x, y), fr), o| {
            let n = x.len();
            o.nt_if(n >= 3 && y.iter().any(|v| *v != y[0]));
            let scale = y.iter().fold(f64::MIN_POSITIVE, |a, v| a.max(v.abs()));
            let eps = 1e-9 * scale;
            let p = PchipInterpolator::new(x, y);
            for i in 0..n {
                need!(close(p.interpolate(x[i]), y[i], 1e-9, eps), "at knot {i}: {} instead of {}", p.interpolate(x[i]), y[i]);
            }
            need_eq!(p.interpolate(x[0] - 1.0), y[0], "left of the data");
            need_eq!(p.interpolate(x[n - 1] + 1e6), y[n - 1], "right of the data");
            let mut fr = fr.clone();
            fr.extend([0.0, 1e-6, 1.0 - 1e-6, 1.0]);
            fr.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for i in 0..n - 1 {
                let pts: Vec<f64> = fr.iter().map(|f| x[i] + f * (x[i + 1] - x[i])).collect();
                let v = p.interpolate_many(&pts);
                for (t, v) in pts.iter().zip(&v) {
                    need_eq!(p.interpolate(*t), *v, "interpolate_many at {t}");
                }
                let (lo, hi) = (y[i].min(y[i + 1]), y[i].max(y[i + 1]));
                for (j, val) in v.iter().enumerate() {
                    need!(*val >= lo - eps && *val <= hi + eps, "overshoot: {val} at {} is outside [{lo}, {hi}]", pts[j]);
                }
                for w in v.windows(2) {
                    let up = w[1] - w[0];
                    need!(
                        if y[i + 1] >= y[i] { up >= -eps } else { up <= eps },
                        "not monotone in interval {i}: {} then {}",
                        w[0],
                        w[1]
                    );
                }
            }
            Ok(())
        },
    );
    run.check(
        "against_fritsch_carlson",
        150_000,
        || (knots(14), prop::collection::vec(0.0..1.0f64, 1..6)),
        |((x, y), fr), o| {
            let n = x.len();
            o.nt_if(n >= 3 && y.iter().any(|v| *v != y[0]));
            let p = PchipInterpolator::new(x, y);
            let m = fc_slopes(x, y);
            let scale = y.iter().fold(f64::MIN_POSITIVE, |a, v| a.max(v.abs()));
            for i in 0..n - 1 {
                for f in fr {
                    let t = x[i] + f * (x[i + 1] - x[i]);
                    let want = fc_eval(x, y, &m, t);
                    let got = p.interpolate(t);
                    need!(close(got, want, 1e-7, 1e-7 * scale), "at {t}: {got}, Fritsch-Carlson {want}");
                }
            }
            Ok(())
        },
    );
    run.check(
        "symmetries",
        80_000,
        || (knots(10), 0.1..10.0f64, any::<bool>(), -20.0..20.0f64, -50.0..50.0f64, 0.2..5.0f64, prop::collection::vec(-0.1..1.1f64, 1..6)),
        |((x, y), a, neg, b, sh, sx, fr), o| {
            let n = x.len();
            o.nt_if(n >= 3 && y.iter().any(|v| *v != y[0]));
            let a = if *neg { -a } else { *a };
            let p = PchipInterpolator::new(x, y);
            let y2: Vec<f64> = y.iter().map(|v| a * v).collect();
            let q = PchipInterpolator::new(x, &y2);
            let x3: Vec<f64> = x.iter().map(|v| sx * v + sh).collect();
            let r = PchipInterpolator::new(&x3, y);
            let line: Vec<f64> = x.iter().map(|v| a * v + b).collect();
            let l = PchipInterpolator::new(x, &line);
            let scale = y.iter().fold(f64::MIN_POSITIVE, |a, v| a.max(v.abs()));
            let span = x[n - 1] - x[0];
            for f in fr {
                let t = x[0] + f * span;
                let v = p.interpolate(t);
                need!(close(q.interpolate(t), a * v, 1e-7, 1e-7 * scale * a.abs()), "scaled by {a}: {} instead of {}", q.interpolate(t), a * v);
                need!(close(r.interpolate(sx * t + sh), v, 1e-6, 1e-6 * scale), "shifted: {} instead of {v}", r.interpolate(sx * t + sh));
                let want = a * t.clamp(x[0], x[n - 1]) + b;
                need!(close(l.interpolate(t), want, 1e-7, 1e-6), "straight line at {t}: {} instead of {want}", l.interpolate(t));
            }
            Ok(())
        },
    );
}

/// Sorted directions within one turn, at least `gap` apart (also across the seam).
pub fn dirs(max: usize, gap: f64) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        3 => (0.0..1.0f64, prop::collection::vec(0.05..1.0f64, 1..max)).prop_map(move |(o, w)| {
            let n = w.len() as f64;
            let total: f64 = w.iter().sum();
            let free = 360.0 - gap * n;
            // the seam gap is the last one, split by o
            let last = gap + w[w.len() - 1] / total * free;
            let mut at = o * last * 0.999;
            let mut out = vec![at];
            for v in &w[..w.len() - 1] {
                at += gap + v / total * free;
                out.push(at);
            }
            out
        }),
        2 => (2..max, 0.0..1.0f64, any::<bool>()).prop_map(|(n, o, whole)| {
            let step = 360.0 / n as f64;
            let o = if whole { 0.0 } else { o * step * 0.999 };
            (0..n).map(|i| o + i as f64 * step).collect()
        }),
    ]
    .boxed()
}

pub fn c10(run: &mut Run) {
    run.rule(
        "1 to 16 sorted directions, evenly spaced or irregular, with any offset from north, and values of any \
         sign. Non-trivial: at least three directions and values that are not all equal.",
    );
    run.check(
        "circular",
        200_000,
        || {
            prop_oneof![200 => dirs(16, 0.5), 1 => dirs(120, 0.5)].prop_flat_map(|d: Vec<f64>| {
                let n = d.len();
                (
                    Just(d),
                    prop_oneof![
                        prop::collection::vec(-10.0..10.0f64, n),
                        prop::collection::vec((0i32..4).prop_map(|v| v as f64), n),
                    ],
                    prop_oneof![4 => Just(0), 1 => -10i32..=20],
                    prop::collection::vec(0.0..=360.0f64, 1..6),
                    0.0..360.0f64,
                )
            })
            .prop_map(|(d, v, scale, targets, rot)| {
                let v = v.into_iter().map(|v: f64| if scale == 0 { v } else { v * 10f64.powi(scale) }).collect::<Vec<f64>>();
                (d, v, targets, rot)
            })
        },
        |(d, v, targets, rot), o| {
            let n = d.len();
            o.nt_if(n >= 3 && v.iter().any(|x| *x != v[0]));
            let eps = 1e-8 * v.iter().fold(f64::MIN_POSITIVE, |a, x| a.max(x.abs()));
            for i in 0..n {
                let got = circular_pchip_interpolate(d, v, d[i]);
                need!((got - v[i]).abs() <= eps, "at {}: {got} instead of {}", d[i], v[i]);
            }
            let (a, b) = (circular_pchip_interpolate(d, v, 0.0), circular_pchip_interpolate(d, v, 360.0));
            need!((a - b).abs() <= eps, "north is {a} at 0 and {b} at 360");
            let mut turned: Vec<(f64, f64)> = d.iter().zip(v).map(|(d, v)| ((d + rot).rem_euclid(360.0), *v)).collect();
            turned.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let td: Vec<f64> = turned.iter().map(|t| t.0).collect();
            let tv: Vec<f64> = turned.iter().map(|t| t.1).collect();
            for t in targets {
                let got = circular_pchip_interpolate(d, v, *t);
                // the neighbours around the circle
                let before = (0..n).min_by(|i, j| (t - d[*i]).rem_euclid(360.0).partial_cmp(&(t - d[*j]).rem_euclid(360.0)).unwrap()).unwrap();
                let after = (before + 1) % n;
                o.label_if(after == 0, "across north");
                let (lo, hi) = (v[before].min(v[after]), v[before].max(v[after]));
                need!(got >= lo - eps && got <= hi + eps, "{got} at {t} is outside [{lo}, {hi}]");
                let same = circular_pchip_interpolate(&td, &tv, (t + rot).rem_euclid(360.0));
                need!((same - got).abs() <= eps * 100.0, "{got} at {t}, but {same} when everything is turned by {rot}");
                // against the reference on five turns
                let xs: Vec<f64> = (-2..=2).flat_map(|k| d.iter().map(move |x| x + 360.0 * k as f64)).collect();
                let ys: Vec<f64> = (0..5).flat_map(|_| v.iter().copied()).collect();
                let want = fc_eval(&xs, &ys, &fc_slopes(&xs, &ys), *t);
                need!((want - got).abs() <= eps * 100.0, "{got} at {t}, periodic Fritsch-Carlson {want}");
            }
            Ok(())
        },
    );
}
