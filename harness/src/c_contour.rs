//! Contours of grids and spectra.
use crate::c_spec::{convention, from_bearing, spec};
use crate::fw::*;
use crate::{need, need_eq};
use geojson::{Feature, GeoJson, Value};
use proptest::prelude::*;
use surfrs::tools::contour::{compute_contours, compute_latlng_gridded_contours};

type Rings = Vec<Vec<Vec<(f64, f64)>>>;

fn rings(f: &Feature) -> Result<Rings, String> {
    match f.geometry.as_ref().map(|g| &g.value) {
        Some(Value::MultiPolygon(p)) => Ok(p
            .iter()
            .map(|poly| poly.iter().map(|r| r.iter().map(|c| (c[0], c[1])).collect()).collect())
            .collect()),
        other => Err(format!("geometry {other:?}")),
    }
}

fn property(f: &Feature, name: &str) -> Option<f64> {
    f.properties.as_ref().and_then(|p| p.get(name)).and_then(|v| v.as_f64())
}

/// Even-odd rule over all rings.
fn inside(r: &Rings, x: f64, y: f64) -> bool {
    let mut hit = false;
    for ring in r.iter().flatten() {
        for w in ring.windows(2) {
            let ((x1, y1), (x2, y2)) = (w[0], w[1]);
            if (y1 > y) != (y2 > y) && x < x1 + (y - y1) / (y2 - y1) * (x2 - x1) {
                hit = !hit;
            }
        }
    }
    hit
}

/// Whether a vertex lies where the grid crosses the level: between two neighbouring cell centres,
/// or on the border beside a cell above the level.
fn on_level(data: &[f64], w: usize, h: usize, t: f64, x: f64, y: f64) -> bool {
    let at = |i: i64, j: i64| -> Option<f64> {
        (i >= 0 && j >= 0 && i < w as i64 && j < h as i64).then(|| data[j as usize * w + i as usize])
    };
    let scale = data.iter().fold(1e-9f64, |a, v| a.max(v.abs()));
    let half = |v: f64| {
        let c = (v - 0.5).round();
        ((v - 0.5 - c).abs() < 1e-9).then_some(c as i64)
    };
    let along = |c: f64, get: &dyn Fn(i64) -> Option<f64>| -> bool {
        let p = c - 0.5;
        // the two centres around the vertex; on a centre either side will do
        [p.floor() as i64, p.ceil() as i64 - 1].iter().any(|lo| match (get(*lo), get(lo + 1)) {
            (Some(a), Some(b)) => {
                let v = a + (b - a) * (p - *lo as f64);
                a.min(b) <= t + 1e-9 * scale && a.max(b) >= t - 1e-9 * scale && (v - t).abs() <= 1e-6 * (b - a).abs() + 1e-9 * scale
            }
            (Some(v), None) | (None, Some(v)) => v >= t && (p - *lo as f64 - 0.5).abs() < 1e-9,
            (None, None) => false,
        })
    };
    half(y).is_some_and(|j| along(x, &|i| at(i, j))) || half(x).is_some_and(|i| along(y, &|j| at(i, j)))
}

fn field(max_w: usize, max_h: usize) -> BoxedStrategy<(usize, usize, Vec<f64>)> {
    prop_oneof![300 => (2..=max_w, 2..=max_h), 1 => (20usize..60, 20usize..60)]
        .prop_flat_map(|(w, h)| {
            let n = w * h;
            (
                Just(w),
                Just(h),
                prop_oneof![
                    3 => prop::collection::vec(-10.0..10.0f64, n),
                    2 => prop::collection::vec((-2i32..=2).prop_map(|v| v as f64), n),
                    3 => (prop::collection::vec((0.0..1.0f64, 0.0..1.0f64, 0.3..3.0f64, -4.0..8.0f64), 1..4)).prop_map(move |hills| {
                        (0..n)
                            .map(|i| {
                                let (x, y) = ((i % w) as f64 / w as f64, (i / w) as f64 / h as f64);
                                hills.iter().map(|(a, b, s, z)| z * (-((x - a).powi(2) + (y - b).powi(2)) * 9.0 / s).exp()).sum()
                            })
                            .collect()
                    }),
                ],
            )
        })
        .boxed()
}

type NoTransform = fn(&Vec<f64>) -> Vec<f64>;
type NoLabel = fn(&usize, &f64) -> String;

fn same(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * scale.max(1.0)
}

fn same_shape(got: &Rings, raw: &Rings, to: impl Fn(f64, f64) -> (f64, f64), scale: f64) -> Result<(), String> {
    need_eq!(got.len(), raw.len(), "polygons");
    for (a, b) in got.iter().zip(raw) {
        need_eq!(a.len(), b.len(), "rings of a polygon");
        for (a, b) in a.iter().zip(b) {
            need_eq!(a.len(), b.len(), "vertices of a ring");
            for (p, q) in a.iter().zip(b) {
                let (x, y) = to(q.0, q.1);
                need!(same(p.0, x, scale) && same(p.1, y, scale), "grid point {q:?} became {p:?}, expected ({x}, {y})");
            }
        }
    }
    Ok(())
}

fn reference(data: &[f64], w: usize, h: usize, t: f64) -> Result<Rings, String> {
    let c = contour::ContourBuilder::new(w as u32, h as u32, true).contours(data, &[t]).map_err(|e| e.to_string())?;
    rings(&c[0].to_geojson())
}

/// What lies at place `p` along the cells of a contour grid, with the points in the middle of their cells.
fn at_point(v: &[f64], p: f64) -> f64 {
    let i = (p - 0.5).clamp(0.0, v.len() as f64 - 1.0);
    let k = (i.floor() as usize).min(v.len() - 2);
    v[k] + (v[k + 1] - v[k]) * (i - k as f64)
}

pub fn c21(run: &mut Run) {
    run.rule(
        "Grids of 2-16 by 2-16 values (some up to 60) with hills, noise and plateaus, none to 6 levels; geographic grids in both \
         longitude conventions with gaps, and full-circle grids of 3 to 2160 columns starting anywhere; spectra in all \
         conventions. Non-trivial: a level with at least one ring.",
    );
    run.check(
        "grid",
        40_000,
        || (field(16, 16), prop::collection::vec(-8.0..8.0f64, 0..6), 0.1..9.0f64, -50.0..50.0f64, any::<bool>(), any::<bool>()),
        |((w, h, data), levels, a, b, transformed, labelled), o| {
            let mut levels = levels.clone();
            levels.sort_by(|a, b| a.partial_cmp(b).unwrap());
            levels.dedup();
            let transform = |p: &Vec<f64>| vec![a * p[0] + b, b - a * p[1] + 0.1 * p[0]];
            let label = |i: &usize, t: &f64| format!("{i}: {t:.3}");
            let raw = compute_contours(&data, *w, *h, &levels, None::<NoTransform>, None::<NoLabel>).map_err(|_| "no contours")?;
            need_eq!(raw.len(), levels.len(), "contours");
            for (f, t) in raw.iter().zip(&levels) {
                need_eq!(property(f, "threshold"), Some(*t), "threshold");
                let r = rings(f)?;
                o.nt_if(!r.is_empty());
                o.label_if(r.iter().any(|p| p.len() > 1), "hole");
                o.label_if(r.len() > 1, "several polygons");
                for ring in r.iter().flatten() {
                    need!(ring.len() >= 4 && ring.first() == ring.last(), "a ring is not closed: {ring:?}");
                    for (x, y) in ring {
                        need!(on_level(data, *w, *h, *t, *x, *y), "({x}, {y}) is not on level {t}");
                    }
                }
                for (i, v) in data.iter().enumerate() {
                    if (v - t).abs() > 1e-6 {
                        let (x, y) = ((i % w) as f64 + 0.5, (i / w) as f64 + 0.5);
                        need_eq!(inside(&r, x, y + 1e-7), v > t, "cell ({x}, {y}) of value {v} inside level {t}");
                    }
                }
            }
            if *transformed {
                let got = if *labelled {
                    compute_contours(&data, *w, *h, &levels, Some(transform), Some(label))
                } else {
                    compute_contours(&data, *w, *h, &levels, Some(transform), None::<NoLabel>)
                }
                .map_err(|_| "no contours")?;
                need_eq!(got.len(), levels.len(), "contours");
                for (i, (f, q)) in got.iter().zip(&raw).enumerate() {
                    same_shape(&rings(f)?, &rings(q)?, |x, y| (a * x + b, b - a * y + 0.1 * x), 200.0)?;
                    need_eq!(property(f, "threshold"), Some(levels[i]), "threshold");
                    if levels.len() > 1 {
                        let want = (levels[i] - levels[0]) / (levels[levels.len() - 1] - levels[0]);
                        need_close("normalized level", property(f, "normalized").unwrap_or(f64::NAN), want, 1e-9, 1e-9)?;
                    }
                    let text = f.properties.as_ref().and_then(|p| p.get("label")).and_then(|v| v.as_str().map(str::to_string));
                    need_eq!(text, labelled.then(|| label(&i, &levels[i])), "label");
                }
            }
            Ok(())
        },
    );
    run.check(
        "geographic",
        20_000,
        || {
            (
                field(14, 12),
                prop_oneof![-180.0..150.0f64, 0.0..300.0f64, (0i32..40).prop_map(|v| v as f64)],
                prop_oneof![6 => 3.0..60.0f64, 3 => (3i32..40).prop_map(|v| v as f64), 2 => 60.0..300.0f64, 1 => 1e-4..0.1f64],
                -80.0..60.0f64,
                1.0..20.0f64,
                any::<bool>(),
                (prop::option::of(-9.0..0.0f64), prop::option::of(0.5..9.0f64), prop::option::of(prop_oneof![12 => 2usize..12, 1 => 0usize..2])),
                prop::collection::vec(prop_oneof![9 => Just(false), 1 => Just(true)], 14 * 12),
            )
        },
        |((w, h, data), west, width, south, height, southward, (lo, hi, count), gaps), o| {
            let east = west + width;
            let (lat0, lat1) = if *southward { (south + height, *south) } else { (*south, south + height) };
            if (width * *w as f64 / (*w - 1) as f64 - 360.0).abs() < 0.01 {
                o.label("skipped: full circle");
                return Ok(());
            }
            let lngs: Vec<f64> = (0..*w).map(|i| west + width * i as f64 / (*w - 1) as f64).collect();
            let lats: Vec<f64> = (0..*h).map(|j| lat0 + (lat1 - lat0) * j as f64 / (*h - 1) as f64).collect();
            let holes: Vec<f64> = data.iter().zip(gaps.iter().cycle()).map(|(v, g)| if *g { f64::NAN } else { *v }).collect();
            let real: Vec<f64> = holes.iter().copied().filter(|v| !v.is_nan()).collect();
            if real.is_empty() {
                return Ok(());
            }
            o.label_if(real.len() < data.len(), "gaps");
            let min = real.iter().copied().fold(f64::INFINITY, f64::min);
            let max = real.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let got = compute_latlng_gridded_contours(
                holes.clone(), *w, *h, *west, east, lat0, lat1, *lo, *hi, *count,
                Some(|i: &usize, t: &f64| format!("{i}/{t}")),
            )
            .map_err(|_| "no contours")?;
            let n = count.unwrap_or(20);
            need_eq!(got.len(), n, "levels");
            let filled: Vec<f64> = holes.iter().map(|v| if v.is_nan() { -99999.0 } else { *v }).collect();
            let (t0, t1) = (lo.unwrap_or(min), hi.unwrap_or(max));
            for (i, f) in got.iter().enumerate() {
                let want = t0 + (t1 - t0) * i as f64 / (n - 1).max(1) as f64;
                let t = property(f, "threshold").ok_or("no threshold")?;
                need_close("level", t, want, 1e-9, 1e-9)?;
                if n > 1 && (t1 - t0).abs() > 1e-6 {
                    need_close("normalized level", property(f, "normalized").unwrap_or(f64::NAN), i as f64 / (n - 1) as f64, 1e-6, 1e-6)?;
                }
                let text = f.properties.as_ref().and_then(|p| p.get("label")).and_then(|v| v.as_str().map(str::to_string));
                need_eq!(text, Some(format!("{i}/{t}")), "label");
                let r = rings(f)?;
                o.nt_if(!r.is_empty());
                same_shape(&r, &reference(&filled, *w, *h, t)?, |x, y| (at_point(&lngs, x), at_point(&lats, y)), 400.0)?;
            }
            Ok(())
        },
    );
    run.check(
        "full_circle",
        4_000,
        || {
            (
                2usize..4,
                // columns, and where the first of them lies
                prop_oneof![2 => Just(720usize), 1 => Just(1440), 1 => Just(360), 1 => Just(2160), 8 => 3usize..200],
                prop_oneof![3 => Just(0.0), 1 => Just(-180.0), 1 => -180.0..180.0f64],
                any::<bool>(),
                prop::collection::vec((0.0..1.0f64, 0.5..30.0f64, -4.0..8.0f64), 1..5),
                2usize..6,
                0.0..360.0f64,
            )
        },
        |(h, w, start, westward, hills, count, seam), o| {
            let (h, w) = (*h, *w);
            let step = if *westward { -360.0 } else { 360.0 } / w as f64;
            let lngs: Vec<f64> = (0..=w).map(|i| start + i as f64 * step).collect();
            let lats: Vec<f64> = (0..h).map(|j| 10.0 + 10.0 * j as f64 / (h - 1) as f64).collect();
            let value = |i: usize, j: usize| -> f64 {
                hills
                    .iter()
                    .map(|(c, s, z)| {
                        let s = s.max(180.0 / w as f64);
                        z * (-(circ_diff(lngs[i], c * 360.0 + seam) / (2.0 * s)).powi(2)).exp() * (1.0 + 0.3 * j as f64)
                    })
                    .sum()
            };
            let data: Vec<f64> = (0..w * h).map(|i| value(i % w, i / w)).collect();
            let got = compute_latlng_gridded_contours(
                data.clone(), w, h, lngs[0], lngs[w - 1], lats[0], lats[h - 1], None, None, Some(*count), None::<NoLabel>,
            )
            .map_err(|_| "no contours")?;
            need_eq!(got.len(), *count, "levels");
            // The first column is repeated a full turn on.
            let wide: Vec<f64> = (0..h).flat_map(|j| (0..=w).map(move |i| (i % w, j))).map(|(i, j)| data[j * w + i]).collect();
            for f in &got {
                let t = property(f, "threshold").ok_or("no threshold")?;
                let r = rings(f)?;
                o.nt_if(!r.is_empty());
                let want = reference(&wide, w + 1, h, t)?;
                o.label_if(want.iter().flatten().flatten().any(|p| p.0 > w as f64 - 1.0), "reaches the seam");
                same_shape(&r, &want, |x, y| (at_point(&lngs, x), at_point(&lats, y)), 400.0)?;
            }
            Ok(())
        },
    );
    run.check(
        "spectrum",
        20_000,
        || spec(2, 16, 2, 20),
        |s, o| {
            let max = s.e.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let x = s.build();
            let GeoJson::FeatureCollection(fc) = x.contoured().map_err(|_| "no contours")? else { return Err("not a collection".into()) };
            need_eq!(fc.features.len(), 10, "levels");
            for (i, f) in fc.features.iter().enumerate() {
                let t = property(f, "threshold").ok_or("no threshold")?;
                need_close("level", t, 0.1 + (max - 0.1) * i as f64 / 9.0, 1e-9, 1e-9)?;
                if (max - 0.1).abs() > 1e-6 {
                    need_close("normalized level", property(f, "normalized").unwrap_or(f64::NAN), i as f64 / 9.0, 1e-6, 1e-6)?;
                }
                let r = rings(f)?;
                o.nt_if(!r.is_empty());
                let want = reference(&s.e, s.nk(), s.nth(), t)?;
                need_eq!(r.len(), want.len(), "polygons");
                for (a, b) in r.iter().flatten().zip(want.iter().flatten()) {
                    need_eq!(a.len(), b.len(), "vertices of a ring");
                    for (p, q) in a.iter().zip(b) {
                        let period = 1.0 / at_point(&s.f, q.0);
                        let bearing = from_bearing(at_point(&s.d, q.1), s.conv).to_degrees();
                        need_close("period", p.0, period, 1e-9, 0.0)?;
                        need!(circ_diff(p.1, bearing) < 1e-6, "bearing {} in convention {:?}, expected {bearing}", p.1, convention(s.conv));
                    }
                }
            }
            Ok(())
        },
    );
}
