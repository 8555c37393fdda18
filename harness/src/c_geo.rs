//! Locations, sun events, model run dates, vector winds.
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use chrono::{DateTime, Duration, TimeZone, Utc};
use proptest::prelude::*;
use surfrs::location::{absolute_longitude, normalize_latitude, normalize_longitude, Location};
use surfrs::solar::calculate_solar_events;
use surfrs::tools::date::*;
use surfrs::tools::math::{f_eq, is_some_missing, scalar_from_uv};
use surfrs::units::UnitSystem;

fn lat() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => fl(-89.99, 90.0),
        2 => (-358i32..=360).prop_map(|i| i as f64 / 4.0),
        1 => Just(0.0),
        1 => -0.01..0.01f64,
    ]
    .boxed()
}

fn lon() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => fl(-180.0, 180.0),
        2 => (-720i32..=720).prop_map(|i| i as f64 / 4.0),
        1 => -0.01..0.01f64,
        1 => 179.99..180.0f64,
        1 => -180.0..-179.99f64,
    ]
    .boxed()
}

/// The same longitude on [0, 360).
fn lon_abs(l: f64) -> f64 {
    if l < 0.0 { l + 360.0 } else { l }
}

/// The same latitude in the grid convention that writes southern latitudes as lat + 180.
fn lat_abs(l: f64) -> f64 {
    if l < 0.0 { l + 180.0 } else { l }
}

/// Great-circle angle from the unit vectors.
fn central_angle(lat1: f64, lon1: f64, lat2: f64, lon2: f64) -> f64 {
    let v = |la: f64, lo: f64| {
        let (la, lo) = (la.to_radians(), lo.to_radians());
        [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()]
    };
    let (a, b) = (v(lat1, lon1), v(lat2, lon2));
    let c = [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ];
    let cross = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
    let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    cross.atan2(dot)
}

fn loc(la: f64, lo: f64) -> Location {
    Location::new(la, lo, "p".into())
}

pub fn c05(run: &mut Run) {
    run.rule(
        "Latitudes and longitudes over the whole globe in both longitude conventions and both latitude \
         conventions, with the meridian, antimeridian, equator and poles over-represented. Non-trivial: \
         a coordinate whose representation changes, two distinct points, or a point and box where the \
         longitude or latitude decides.",
    );
    run.check(
        "normalization",
        400_000,
        || (lat(), lon()),
        |(la, lo), o| {
            o.nt_if(*la < 0.0 || *lo < 0.0);
            let p = loc(*la, *lo);
            need!(close(p.absolute_longitude(), lon_abs(*lo), 0.0, 1e-9), "{lo}: absolute longitude {}", p.absolute_longitude());
            need!(close(absolute_longitude(*lo), lon_abs(*lo), 0.0, 1e-9), "{lo}: absolute_longitude {}", absolute_longitude(*lo));
            need!(close(p.absolute_latitude(), lat_abs(*la), 0.0, 1e-9), "{la}: absolute latitude {}", p.absolute_latitude());
            need!(close(p.relative_latitude(), *la, 0.0, 1e-9), "{la}: relative latitude {}", p.relative_latitude());
            need!(close(p.relative_longitude(), *lo, 0.0, 1e-9), "{lo}: relative longitude {}", p.relative_longitude());
            need!(close(normalize_latitude(*la), *la, 0.0, 1e-9), "{la}: normalize_latitude {}", normalize_latitude(*la));
            need!(close(normalize_longitude(*lo), *lo, 0.0, 1e-9), "{lo}: normalize_longitude {}", normalize_longitude(*lo));
            // and back from the absolute representation
            let q = loc(lat_abs(*la), lon_abs(*lo));
            need!(close(q.relative_latitude(), *la, 0.0, 1e-9), "{}: relative latitude {}", q.latitude, q.relative_latitude());
            need!(close(normalize_latitude(q.latitude), *la, 0.0, 1e-9), "{}: normalize_latitude {}", q.latitude, normalize_latitude(q.latitude));
            for got in [q.relative_longitude(), normalize_longitude(q.longitude)] {
                need!(circ_diff(got, *lo) < 1e-9, "{}: relative longitude {got}", q.longitude);
                need!((-180.0..=180.0).contains(&got), "{}: relative longitude {got}", q.longitude);
            }
            need!(close(q.absolute_longitude(), q.longitude, 0.0, 1e-9), "{}: absolute longitude {}", q.longitude, q.absolute_longitude());
            need!(close(q.absolute_latitude(), q.latitude, 0.0, 1e-9), "{}: absolute latitude {}", q.latitude, q.absolute_latitude());
            Ok(())
        },
    );
    run.check(
        "distance",
        300_000,
        || (lat(), lon(), lat(), lon(), lat(), lon(), any::<bool>(), 0..16u8),
        |(la1, lo1, la2, lo2, la3, lo3, metric, rep), o| {
            let unit = if *metric { UnitSystem::Metric } else { UnitSystem::English };
            let r = if *metric { 6371.0 } else { 3956.0 };
            let (a, b, c) = (loc(*la1, *lo1), loc(*la2, *lo2), loc(*la3, *lo3));
            let want = r * central_angle(*la1, *lo1, *la2, *lo2);
            let d = a.distance(&b, &unit);
            o.nt_if(want > 1.0);
            o.label_if(want > r * 3.0, "near antipodal");
            // Haversine loses digits close to the antipode.
            let tol = 1e-3;
            need!(close(d, want, 1e-6, tol), "distance {d}, great circle {want}");
            need!(close(b.distance(&a, &unit), d, 1e-9, 1e-6), "not symmetric: {d} and {}", b.distance(&a, &unit));
            need!(a.distance(&a, &unit).abs() < 1e-6, "distance to itself {}", a.distance(&a, &unit));
            let (ac, cb) = (a.distance(&c, &unit), c.distance(&b, &unit));
            need!(d <= ac + cb + 0.01, "triangle: {d} > {ac} + {cb}");
            let fix = |p: &Location, la_bit: bool, lo_bit: bool| {
                loc(
                    if la_bit { lat_abs(p.latitude) } else { p.latitude },
                    if lo_bit { lon_abs(p.longitude) } else { p.longitude },
                )
            };
            let (a2, b2) = (fix(&a, rep & 1 > 0, rep & 2 > 0), fix(&b, rep & 4 > 0, rep & 8 > 0));
            let d2 = a2.distance(&b2, &unit);
            need!(close(d2, d, 1e-9, 1e-3), "written as {a2:?} and {b2:?} the distance is {d2}, not {d}");
            Ok(())
        },
    );
    run.check(
        "within_bbox",
        400_000,
        || {
            // Quarter degrees keep every sum exact.
            let q = |lo: i32, hi: i32| (lo..=hi).prop_map(|i| i as f64 / 4.0);
            (
                q(-360, 360),
                q(-720, 1440),
                q(-720, 1440),
                prop_oneof![4 => q(1, 1439), 1 => Just(360.0), 1 => q(1440, 2000)],
                q(-359, 360),
                q(-359, 360),
                any::<bool>(),
                any::<bool>(),
                any::<bool>(),
            )
        },
        |(la, lo, west, width, b1, b2, wrap_east, grid_lat, place_lat), o| {
            let (south, north) = if b1 <= b2 { (*b1, *b2) } else { (*b2, *b1) };
            let mut east = west + width;
            // A box may also name its east edge on the other side of the meridian.
            if *wrap_east && *width < 360.0 {
                east -= 360.0;
                o.label("crossing");
            }
            let lng_in = *width >= 360.0 || (lo - west).rem_euclid(360.0) <= *width;
            let lat_in = south <= *la && *la <= north;
            o.nt();
            o.label_if(lng_in && lat_in, "inside");
            let (s, n) = if *grid_lat { (lat_abs(south), lat_abs(north)) } else { (south, north) };
            let bbox = (*west, s, east, n);
            let place = if *place_lat { lat_abs(*la) } else { *la };
            // 90 is the north pole in both ways of writing
            if (place == 90.0) != (*la == 90.0) || (s == 90.0) != (south == 90.0) || (n == 90.0) != (north == 90.0) {
                return Ok(());
            }
            let got = loc(place, *lo).within_bbox(&bbox);
            need_eq!(got, lng_in && lat_in, "({la}, {lo}) within {bbox:?}");
            Ok(())
        },
    );
    run.check(
        "box_edges",
        150_000,
        || {
            // Quarter degrees and powers of two keep every sum exact.
            let q = |lo: i32, hi: i32| (lo..=hi).prop_map(|i| i as f64 / 4.0);
            let off = (any::<bool>(), 2i32..=30).prop_map(|(s, e)| if s { 2f64.powi(-e) } else { -(2f64.powi(-e)) });
            (
                (q(-340, 300), q(1, 160), q(-720, 1440), q(1, 1439)),
                prop_oneof![1 => Just(0.0), 4 => off],
                0..4u8,
                (0..=100u32, -1i32..=1),
                (any::<bool>(), any::<bool>()),
            )
        },
        |((south, height, west, width), off, edge, (along, turn), (grid_lat, place_lat)), o| {
            let north = (south + height).min(89.0);
            if *south >= north {
                return Ok(());
            }
            let part = |span: f64| (span * 4.0 * *along as f64 / 100.0).round() / 4.0;
            let (la, lo, inward) = match edge {
                0 => (*south + off, west + part(*width), *off >= 0.0),
                1 => (north + off, west + part(*width), *off <= 0.0),
                2 => (*south + part(north - south), west + off, *off >= 0.0),
                _ => (*south + part(north - south), west + width + off, *off <= 0.0),
            };
            // A nudge off one edge must not leave the box by the other
            let fits = off.abs() <= if *edge < 2 { north - south } else { *width } && (*edge < 2 || off.abs() < 360.0 - width);
            if !fits {
                return Ok(());
            }
            o.nt_if(*off != 0.0);
            o.label_if(off.abs() < 1e-4, "within 0.0001 degrees of an edge");
            let bbox = (*west, if *grid_lat { lat_abs(*south) } else { *south }, west + width, if *grid_lat { lat_abs(north) } else { north });
            let place = loc(if *place_lat { lat_abs(la) } else { la }, lo + 360.0 * *turn as f64);
            let got = place.within_bbox(&bbox);
            need_eq!(got, inward, "({}, {}) within {bbox:?}", place.latitude, place.longitude);
            Ok(())
        },
    );
    run.check(
        "json",
        50_000,
        || (lat(), lon(), fl(-100.0, 9000.0), "\\PC{0,16}"),
        |(la, lo, el, name), o| {
            let mut p = Location::new(*la, *lo, name.clone());
            need_eq!(p.elevation, 0.0, "default elevation");
            p.elevation = *el;
            o.nt();
            let text = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            need!(close(v["latitude"].as_f64().unwrap_or(f64::NAN), *la, 1e-14, 0.0), "latitude in {text}");
            need!(close(v["longitude"].as_f64().unwrap_or(f64::NAN), *lo, 1e-14, 0.0), "longitude in {text}");
            need_eq!(v["name"].as_str(), Some(name.as_str()), "name in JSON");
            let q: Location = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            need!(
                q.name == p.name
                    && close(q.latitude, *la, 1e-14, 0.0)
                    && close(q.longitude, *lo, 1e-14, 0.0)
                    && close(q.elevation, *el, 1e-14, 0.0),
                "{p:?} came back as {q:?}"
            );
            Ok(())
        },
    );
}

/// Sunrise and sunset from the NOAA solar equations (Meeus, low accuracy), as unix seconds.
fn noaa_sun(lat: f64, lon: f64, y: i32, m: u32, d: u32) -> Option<(f64, f64)> {
    let midnight = Utc.with_ymd_and_hms(y, m, d, 0, 0, 0).unwrap().timestamp() as f64;
    let sun = |t: f64| {
        let jd = t / 86400.0 + 2440587.5;
        let c = (jd - 2451545.0) / 36525.0;
        let l0 = (280.46646 + c * (36000.76983 + 0.0003032 * c)).rem_euclid(360.0);
        let m = (357.52911 + c * (35999.05029 - 0.0001537 * c)).to_radians();
        let e = 0.016708634 - c * (0.000042037 + 0.0000001267 * c);
        let eq = m.sin() * (1.914602 - c * (0.004817 + 0.000014 * c))
            + (2.0 * m).sin() * (0.019993 - 0.000101 * c)
            + (3.0 * m).sin() * 0.000289;
        let lambda = (l0 + eq - 0.00569).to_radians();
        let eps = (23.439291 - 0.0130042 * c).to_radians();
        let decl = (eps.sin() * lambda.sin()).asin();
        let yv = (eps / 2.0).tan().powi(2);
        let l = l0.to_radians();
        let eot = yv * (2.0 * l).sin() - 2.0 * e * m.sin() + 4.0 * e * yv * m.sin() * (2.0 * l).cos()
            - 0.5 * yv * yv * (4.0 * l).sin()
            - 1.25 * e * e * (2.0 * m).sin();
        (decl, eot.to_degrees() * 240.0) // equation of time in seconds
    };
    let edge = |sign: f64| {
        let mut t = midnight + 43200.0 - lon * 240.0;
        for _ in 0..6 {
            let (decl, eot) = sun(t);
            let la = lat.to_radians();
            let cosw = ((-0.833f64).to_radians().sin() - la.sin() * decl.sin()) / (la.cos() * decl.cos());
            if cosw.abs() > 1.0 {
                return None;
            }
            t = midnight + 43200.0 - lon * 240.0 - eot + sign * cosw.acos().to_degrees() * 240.0;
        }
        Some(t)
    };
    Some((edge(-1.0)?, edge(1.0)?))
}

pub fn c06(run: &mut Run) {
    run.rule(
        "Locations between 60 S and 60 N, any longitude in both conventions, any instant from 1901 to 2099. \
         Every accepted location is non-trivial.",
    );
    run.assume("Times are compared to an independent NOAA solar model with a tolerance of 6 minutes; polar days are not checked.");
    run.check(
        "against_noaa",
        200_000,
        || (fl(-60.0, 60.0), lon().prop_filter("date line", |l| l.abs() < 180.0), instant(), any::<bool>(), any::<bool>()),
        |(la, lo, t, abs_lat, abs_lon), o| {
            let p = loc(
                if *abs_lat { lat_abs(*la) } else { *la },
                if *abs_lon { lon_abs(*lo) } else { *lo },
            );
            let ev = calculate_solar_events(&p, t).ok_or("no sun events")?;
            use chrono::Datelike;
            let (rise, set) = noaa_sun(*la, *lo, t.year(), t.month(), t.day()).ok_or("polar")?;
            o.nt();
            o.label_if(*la < 0.0, "southern");
            o.label_if(ev.sunset.date_naive() != t.date_naive(), "sunset on another UTC date");
            o.label_if(ev.sunrise.date_naive() != t.date_naive(), "sunrise on another UTC date");
            let dr = ev.sunrise.timestamp() as f64 - rise;
            let ds = ev.sunset.timestamp() as f64 - set;
            need!(dr.abs() < 360.0, "sunrise {} is {dr} s away from the reference", ev.sunrise);
            need!(ds.abs() < 360.0, "sunset {} is {ds} s away from the reference", ev.sunset);
            let same = calculate_solar_events(&loc(*la, *lo), t).ok_or("no sun events")?;
            need!(
                (same.sunrise - ev.sunrise).num_seconds().abs() <= 2 && (same.sunset - ev.sunset).num_seconds().abs() <= 2,
                "other longitude convention moves the sun"
            );
            let midnight = Utc.with_ymd_and_hms(t.year(), t.month(), t.day(), 0, 0, 0).unwrap();
            let day = calculate_solar_events(&p, &midnight).ok_or("no sun events")?;
            need_eq!((day.sunrise, day.sunset), (ev.sunrise, ev.sunset), "time of day changes the sun");
            Ok(())
        },
    );
    run.check(
        "impossible_places",
        20_000,
        || (270.1..1000.0f64, 540.1..2000.0f64, lat(), lon(), any::<bool>(), any::<bool>(), instant()),
        |(bad_lat, bad_lon, la, lo, which, neg, t), o| {
            o.nt();
            let s = if *neg { -1.0 } else { 1.0 };
            let p = if *which { loc(bad_lat * s, *lo) } else { loc(*la, bad_lon * s) };
            need!(calculate_solar_events(&p, t).is_none(), "sun events for {p:?}");
            Ok(())
        },
    );
}

fn utc(s: i64) -> DateTime<Utc> {
    Utc.timestamp_opt(s, 0).unwrap()
}

pub fn c07(run: &mut Run) {
    run.rule(
        "Instants from 1901 to 2099 down to nanoseconds with month, year and leap-day boundaries \
         over-represented, multiples 1 to 24, windows up to 40 days, now and then of years. Non-trivial: the result differs from \
         the input, or the window holds at least one run.",
    );
    run.check(
        "floor_to_hours",
        400_000,
        || (instant(), 1u32..=24),
        |(t, m), o| {
            let s = t.timestamp();
            let day = s.div_euclid(86400) * 86400;
            let want = utc(day + (s - day) / (*m as i64 * 3600) * (*m as i64 * 3600));
            let got = round_to_nearest_multiple_hour(t, *m);
            o.nt_if(got != *t);
            need_eq!(got, want, "{t} rounded to {m} hours");
            need_eq!(round_to_nearest_multiple_hour(&got, *m), got, "rounding twice");
            Ok(())
        },
    );
    run.check(
        "latest_runs",
        400_000,
        || instant(),
        |t, o| {
            o.nt();
            let s = t.timestamp();
            let floor = |s: i64, step: i64| utc(s.div_euclid(step) * step);
            o.label_if((s - 6 * 3600).div_euclid(86400) != s.div_euclid(86400), "previous day");
            need_eq!(closest_gfs_model_stations_datetime(t), floor(s - 6 * 3600, 6 * 3600), "stations run for {t}");
            need_eq!(closest_gfs_model_gridded_datetime(t), floor(s - 5 * 3600, 6 * 3600), "gridded run for {t}");
            need_eq!(closest_hourly_model_datetime(t), floor(s - 2 * 3600, 3600), "hourly run for {t}");
            Ok(())
        },
    );
    run.check(
        "run_window",
        60_000,
        || {
            (instant(), prop_oneof![
                120 => 0i64..40 * 86400,
                1 => 40i64 * 86400..1500 * 86400,
                80 => (0i64..160).prop_map(|n| n * 6 * 3600),
                40 => 0i64..6 * 3600,
                40 => -86400i64..0,
            ], any::<bool>())
        },
        |(t, len, aligned), o| {
            let start = if *aligned { utc(t.timestamp().div_euclid(21600) * 21600) } else { *t };
            let end = start + Duration::seconds(*len);
            let first = start.timestamp().div_euclid(21600) * 21600;
            let want: Vec<DateTime<Utc>> = (0..)
                .map(|i| utc(first + i * 21600))
                .take_while(|d| *d <= end)
                .collect();
            o.nt_if(!want.is_empty());
            o.label_if(want.last() == Some(&end), "ends on a run");
            let got = gfs_model_fmrc_datetimes((start, end));
            need_eq!(got, want, "runs from {start} to {end}");
            Ok(())
        },
    );
}

pub fn c35(run: &mut Run) {
    run.rule(
        "Vector components from 1e-4 to 1e4 in every quadrant and on the axes; sentinels and values near and \
         far from them. Non-trivial: a vector that is not zero, a value within 1 of the sentinel.",
    );
    run.check(
        "wind_from_components",
        400_000,
        || {
            let comp = || prop_oneof![
                4 => -60.0..60.0f64,
                2 => (-60i32..=60).prop_map(|v| v as f64),
                2 => wide().prop_map(|v| v.clamp(-1e4, 1e4)),
                1 => Just(0.0),
            ];
            (comp(), comp())
        },
        |(u, v), o| {
            let (speed, dir) = scalar_from_uv(*u, *v);
            need!(close(speed, u.hypot(*v), 1e-9, 1e-12), "speed of ({u}, {v}) is {speed}");
            need!((0..360).contains(&dir), "direction of ({u}, {v}) is {dir}");
            if u.hypot(*v) > 1e-9 {
                o.nt();
                o.label_if(*u == 0.0 || *v == 0.0, "on an axis");
                // A wind blowing towards (u, v) comes from the bearing of (-u, -v).
                let want = (-u).atan2(-v).to_degrees().rem_euclid(360.0);
                need!(circ_diff(dir as f64, want) < 1.0 + 1e-6, "direction of ({u}, {v}) is {dir}, expected {want}");
            }
            Ok(())
        },
    );
    run.check(
        "missing_values",
        200_000,
        || {
            (
                prop_oneof![Just(999.0), Just(99.0), Just(9999.0), Just(-9.0), Just(-9999.0), -1000.0..1000.0f64],
                prop_oneof![3 => -2.0..2.0f64, 2 => Just(0.0), 2 => -9e-6..9e-6f64, 2 => -1e-3..1e-3f64, 1 => -2000.0..2000.0f64],
            )
        },
        |(missing, off), o| {
            let v = missing + off;
            o.nt_if(off.abs() < 1.0);
            let delta = (v - missing).abs();
            if (delta - 1e-5).abs() < 1e-9 {
                return Ok(());
            }
            let same = delta < 1e-5;
            o.label_if(same, "missing");
            need_eq!(f_eq(v, *missing), same, "{v} equals {missing}");
            need_eq!(is_some_missing(v, *missing), if same { None } else { Some(v) }, "{v} with sentinel {missing}");
            Ok(())
        },
    );
}
