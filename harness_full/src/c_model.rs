//! C38 output times, C39 model addresses, C41 data requests, C43 grid queries, C44 point forecasts.
use crate::c_obs::{constraint, sources};
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use gribberish::message::{LatLngProjection, Message};
use gribberish::templates::product::tables::FixedSurfaceType;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::location::Location;
use surfrs::model::{
    GEFSWaveModel, GFSWaveModel, ModelDataSource, ModelTimeOutputResolution, NOAAModel, NWPSModel,
};
use surfrs::swell::Swell;
use surfrs::tools::contour::compute_latlng_gridded_contours;
use surfrs::tools::dap::{format_dap_constraints, format_dods_url, DapConstraint};
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

// ---- C38 -------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Res {
    Hourly,
    HourlyThen(usize),
    Three,
    ThreeThen(usize),
}

impl Res {
    fn real(&self) -> ModelTimeOutputResolution {
        match self {
            Res::Hourly => ModelTimeOutputResolution::Hourly,
            Res::HourlyThen(c) => ModelTimeOutputResolution::HybridHourlyThreeHourly(*c),
            Res::Three => ModelTimeOutputResolution::ThreeHourly,
            Res::ThreeThen(c) => ModelTimeOutputResolution::HybridThreeHourlySixHourly(*c),
        }
    }
    /// The hours of the outputs up to `last`, one by one.
    fn outputs(&self, last: usize) -> Vec<usize> {
        let mut out = vec![0];
        loop {
            let h = *out.last().unwrap();
            let next = h + match self {
                Res::Hourly => 1,
                Res::HourlyThen(c) => if h < *c { 1 } else { 3 },
                Res::Three => 3,
                Res::ThreeThen(c) => if h < *c { 3 } else { 6 },
            };
            if next > last {
                return out;
            }
            out.push(next);
        }
    }
}

fn res() -> BoxedStrategy<Res> {
    prop_oneof![
        1 => Just(Res::Hourly),
        3 => prop_oneof![Just(120usize), 0usize..400].prop_map(Res::HourlyThen),
        1 => Just(Res::Three),
        3 => prop_oneof![Just(80usize), 0usize..140].prop_map(|c| Res::ThreeThen(3 * c)),
    ]
    .boxed()
}

pub fn c38(run: &mut Run) {
    run.rule(
        "All four output patterns with any change-over hour, hours and indexes up to 1200. Non-trivial: hours on \
         both sides of the change-over.",
    );
    let mut all = vec![Res::Hourly, Res::Three];
    all.extend((0..=400).map(Res::HourlyThen));
    all.extend((0..=140).map(|c| Res::ThreeThen(3 * c)));
    run.enumerate("outputs_of_every_pattern", all, |r, o| {
        o.nt();
        let real = r.real();
        let out = r.outputs(1200);
        for (i, h) in out.iter().enumerate() {
            need_eq!(real.hour_for_index(i), *h, "hour of output {i} of {r:?}");
            need_eq!(real.index_for_hour(*h), i, "index of hour {h} of {r:?}");
        }
        for h in 0..=*out.last().unwrap() {
            let want = out.partition_point(|x| *x <= h) - 1;
            need_eq!(real.index_for_hour(h), want, "last output of {r:?} at or before hour {h}");
        }
        Ok(())
    });
    run.check(
        "ranges",
        60_000,
        || (res(), 0usize..500, 0usize..200),
        |(r, start, len), o| {
            let real = r.real();
            let end = start + len;
            let out = r.outputs(end);
            let at = |h: usize| out.partition_point(|x| *x <= h) - 1;
            let cut = match r {
                Res::HourlyThen(c) | Res::ThreeThen(c) => *c,
                _ => 0,
            };
            o.nt_if(*start < cut && cut < end);
            let want: Vec<usize> = (*start..=end).map(at).collect();
            need_eq!(real.indexes_for_hour_range(*start, end), want, "outputs for hours {start} to {end} of {r:?}");
            let want: Vec<usize> = out[at(*start)..=at(end)].to_vec();
            need_eq!(real.hours_for_hour_range(*start, end), want, "output hours from {start} to {end} of {r:?}");
            let all = r.outputs((end + 1) * 6);
            let want: Vec<usize> = all[*start..=end].to_vec();
            need_eq!(real.hours_for_index_range(*start, end), want, "hours of outputs {start} to {end} of {r:?}");
            let back: ModelTimeOutputResolution =
                serde_json::from_str(&serde_json::to_string(&real).unwrap()).map_err(|e| e.to_string())?;
            need_eq!(format!("{back:?}"), format!("{real:?}"), "from JSON");
            Ok(())
        },
    );
    run.check(
        "of_the_models",
        20_000,
        || (0usize..8, 0usize..1000),
        |(m, i), o| {
            o.nt();
            let (model, res) = model(*m);
            let out = res.outputs(6000);
            need_eq!(model.hour_for_index(*i), out[*i], "hour of output {i} of {}", model.id());
            need_eq!(model.index_for_hour(out[*i]), *i, "index of hour {} of {}", out[*i], model.id());
            need_eq!(model.index_for_hour(*i), out.partition_point(|x| x <= i) - 1, "hour {i} of {}", model.id());
            Ok(())
        },
    );
}

// ---- C39 -------------------------------------------------------------------------------

trait AnyModel {
    fn id(&self) -> &'static str;
    fn hour_for_index(&self, i: usize) -> usize;
    fn index_for_hour(&self, h: usize) -> usize;
    fn url(&self, s: &ModelDataSource, h: usize, d: Option<DateTime<Utc>>) -> String;
    fn idx(&self, s: &ModelDataSource, h: usize, d: Option<DateTime<Utc>>) -> String;
    fn run(&self, d: &DateTime<Utc>) -> DateTime<Utc>;
}

impl<M: NOAAModel> AnyModel for M {
    fn id(&self) -> &'static str {
        NOAAModel::id(self)
    }
    fn hour_for_index(&self, i: usize) -> usize {
        NOAAModel::hour_for_index(self, i)
    }
    fn index_for_hour(&self, h: usize) -> usize {
        NOAAModel::index_for_hour(self, h)
    }
    fn url(&self, s: &ModelDataSource, h: usize, d: Option<DateTime<Utc>>) -> String {
        self.create_url(s, h, d)
    }
    fn idx(&self, s: &ModelDataSource, h: usize, d: Option<DateTime<Utc>>) -> String {
        self.create_idx_url(s, h, d)
    }
    fn run(&self, d: &DateTime<Utc>) -> DateTime<Utc> {
        self.closest_model_run_date(d)
    }
}

const GRIDS: [&str; 8] = [
    "atlocn.0p16", "wcoast.0p16", "epacif.0p16", "global.0p16", "global.0p25", "mean.global.0p25",
    "spread.global.0p25", "box",
];

fn model(i: usize) -> (Box<dyn AnyModel>, Res) {
    let gfs = |m| (Box::new(m) as Box<dyn AnyModel>, Res::HourlyThen(120));
    let gefs = |m| (Box::new(m) as Box<dyn AnyModel>, Res::ThreeThen(240));
    match i {
        0 => gfs(GFSWaveModel::atlantic()),
        1 => gfs(GFSWaveModel::west_coast()),
        2 => gfs(GFSWaveModel::east_pacific()),
        3 => gfs(GFSWaveModel::global_16()),
        4 => gfs(GFSWaveModel::global_25()),
        5 => gefs(GEFSWaveModel::global_25_mean()),
        6 => gefs(GEFSWaveModel::global_25_spread()),
        _ => (Box::new(NWPSModel::boston()), Res::Hourly),
    }
}

/// The latest run, every six hours, that is at least five hours old.
fn latest_run(d: &DateTime<Utc>) -> DateTime<Utc> {
    let t = (*d - Duration::hours(5)).timestamp();
    Utc.timestamp_opt(t - t.rem_euclid(6 * 3600), 0).unwrap()
}

fn address(i: usize, source: usize, hour: usize, run: &DateTime<Utc>) -> Option<String> {
    let day = format!("{:04}{:02}{:02}", run.year(), run.month(), run.day());
    let h = format!("{:02}", run.hour());
    let grid = GRIDS[i];
    Some(match i {
        0..=4 => format!("{}/gfs.{day}/{h}/wave/gridded/gfswave.t{h}z.{grid}.f{hour:03}.grib2", sources()[source].1),
        5 | 6 => {
            let root = match source {
                0 => "https://noaa-gefs-pds.s3.amazonaws.com",
                2 => "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod",
                _ => return None,
            };
            format!("{root}/gefs.{day}/{h}/wave/gridded/gefs.wave.t{h}z.{grid}.f{hour:03}.grib2")
        }
        _ => format!(
            "https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.{day}/box/{h}/CG1/box_nwps_CG1_{day}_{h}00.grib2"
        ),
    })
}

pub fn c39(run: &mut Run) {
    run.rule(
        "Every model, source, output hour and instant, with month and year ends over-represented; source names in \
         any case. Non-trivial: an address whose run is on an earlier day than the instant; a known name.",
    );
    run.assume("The ensemble model is not published on the Google store, its address there is not checked.");
    run.check(
        "model_output",
        60_000,
        || (0usize..8, 0usize..3, 0usize..400, instant()),
        |(i, s, hour, date), o| {
            let (m, _) = model(*i);
            let want_run = latest_run(date);
            o.label_if(want_run.day() != date.day(), "run of the day before");
            o.nt();
            need_eq!(m.id(), GRIDS[*i], "grid");
            need_eq!(m.run(date), want_run, "run for {date}");
            let Some(want) = address(*i, *s, *hour, &want_run) else { return Ok(()) };
            let source = &sources()[*s].0;
            need_eq!(m.url(source, *hour, Some(*date)), want, "address for {date}");
            need_eq!(m.idx(source, *hour, Some(*date)), format!("{want}.idx"), "index for {date}");
            Ok(())
        },
    );
    run.check(
        "latest_output",
        4_000,
        || (0usize..8, 0usize..3, 0usize..400),
        |(i, s, hour), o| {
            o.nt();
            let (m, _) = model(*i);
            let before = latest_run(&Utc::now());
            let got = m.url(&sources()[*s].0, *hour, None);
            let after = latest_run(&Utc::now());
            let Some(a) = address(*i, *s, *hour, &before) else { return Ok(()) };
            let b = address(*i, *s, *hour, &after).unwrap();
            need!(got == a || got == b, "address without a date: got {got}, expected {a}");
            Ok(())
        },
    );
    run.check(
        "source_names",
        40_000,
        || {
            prop_oneof![
                3 => (0usize..8, any::<u32>(), "[ _a-f0-9-]{0,3}", "[ _a-f0-9-]{0,3}").prop_map(|(i, case, a, b)| {
                    let w = ["aws", "amazon", "gcp", "gcs", "google", "nomads", "noaa", "nodd"][i];
                    let w: String = w.chars().enumerate().map(|(k, c)| if case >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                    format!("{a}{w}{b}")
                }),
                1 => "[a-zA-Z ]{0,12}",
                1 => (0usize..3).prop_map(|i| sources()[i].2.to_string()),
            ]
        },
        |text, o| {
            let t = text.to_lowercase();
            let has = |w: &[&str]| w.iter().any(|w| t.contains(w));
            let hits = [has(&["aws", "amazon"]), has(&["gcp", "gcs", "google"]), has(&["nomads", "noaa"])];
            let got = ModelDataSource::try_from(text.as_str());
            match hits.iter().filter(|h| **h).count() {
                0 => need!(got.is_err(), "{text:?} is {got:?}"),
                1 => {
                    o.nt();
                    let want = &sources()[hits.iter().position(|h| *h).unwrap()].0;
                    need_eq!(got.ok(), Some(want.clone()), "{text:?}");
                }
                _ => {}
            }
            for (s, _, name) in sources() {
                let json = serde_json::to_string(&s).unwrap();
                need_eq!(json, format!("\"{name}\""), "JSON");
                need_eq!(serde_json::from_str::<ModelDataSource>(&json).ok(), Some(s.clone()), "from JSON");
                need_eq!(ModelDataSource::try_from(name).ok(), Some(s), "{name}");
            }
            Ok(())
        },
    );
}

// ---- C41 -------------------------------------------------------------------------------

pub fn c41(run: &mut Run) {
    run.rule(
        "Constraints with up to 3 ranges of any numbers, lists of up to 4, and constraint texts with up to 4 edits. \
         Non-trivial: at least one range; a text with a bracket.",
    );
    run.check(
        "print_and_read",
        100_000,
        || repeats(prop::collection::vec(constraint(), 0..5)),
        |cs, o| {
            o.nt_if(cs.iter().any(|c| !c.ranges.is_empty()));
            let real: Vec<DapConstraint> = cs.iter().map(|c| c.real()).collect();
            for (c, r) in cs.iter().zip(&real) {
                need_eq!(r.to_string(), c.text(), "text of {c:?}");
                let back: DapConstraint = c.text().parse()?;
                need_eq!((&back.var, &back.ranges), (&c.var, &c.ranges), "read from {}", c.text());
            }
            let all = cs.iter().map(|c| c.text()).collect::<Vec<_>>().join(",");
            need_eq!(format_dap_constraints(&real), all, "list");
            need_eq!(format_dods_url("https://x.org/d/44097h9999.nc", &real), format!("https://x.org/d/44097h9999.nc.dods?{all}"), "address");
            Ok(())
        },
    );
    run.check(
        "malformed",
        100_000,
        || {
            prop_oneof![
                1 => any::<String>(),
                2 => "[a-z0-9:\\[\\], -]{0,24}",
                4 => (constraint(), prop::collection::vec((0.0..1.0f64, 0u8..3, "[a-z0-9:\\[\\] -]"), 1..5)).prop_map(|(c, edits)| {
                    let mut t: Vec<char> = c.text().chars().collect();
                    for (at, kind, ch) in edits {
                        let i = (at * t.len() as f64) as usize;
                        let ch = ch.chars().next().unwrap();
                        match kind {
                            0 if !t.is_empty() => drop(t.remove(i)),
                            1 if !t.is_empty() => t[i] = ch,
                            _ => t.insert(i, ch),
                        }
                    }
                    t.into_iter().collect()
                }),
            ]
        },
        |text, o| {
            o.nt_if(text.contains('['));
            let Ok(c) = text.parse::<DapConstraint>() else {
                o.label("refused");
                return Ok(());
            };
            o.label("accepted");
            // Every range is three numbers.
            let parts: Vec<&str> = text.split('[').collect();
            need_eq!(c.ranges.len(), parts.len() - 1, "ranges of {text:?}");
            for (r, p) in c.ranges.iter().zip(&parts[1..]) {
                let n: Result<Vec<usize>, _> = p.replace(']', "").split(':').map(|x| x.parse::<usize>()).collect();
                need_eq!(n.ok(), Some(vec![r.0, r.1, r.2]), "range read from {p:?}");
            }
            let again: DapConstraint = c.to_string().parse()?;
            need_eq!((&again.var, &again.ranges), (&c.var, &c.ranges), "read from {}", c);
            Ok(())
        },
    );
    run.check(
        "ranges_of_the_wrong_length",
        30_000,
        || ("[a-z]{1,6}", repeats(prop::collection::vec(0usize..1000, 0..6))),
        |(var, n), o| {
            let text = format!("{var}[{}]", n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(":"));
            o.nt_if(n.len() != 3);
            need_eq!(text.parse::<DapConstraint>().is_ok(), n.len() == 3, "{text} is accepted");
            Ok(())
        },
    );
}

// ---- C43 -------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Grid {
    /// of the first cell
    lat: f64,
    lng: f64,
    /// between the cells
    dlat: f64,
    dlng: f64,
    rows: usize,
    cols: usize,
    data: Vec<f64>,
}

fn grid() -> BoxedStrategy<Grid> {
    let step = || prop_oneof![Just(0.25), Just(0.5), Just(1.0), Just(2.5), Just(1.0 / 6.0), 0.05..3.0f64];
    (prop_oneof![200 => 2usize..9, 1 => 40usize..80], prop_oneof![200 => 2usize..12, 1 => 40usize..90], step(), step(), any::<bool>(), any::<bool>())
        .prop_flat_map(|(rows, cols, dlat, dlng, down, whole)| {
            let (cols, dlng) = if whole { (12, 30.0) } else { (cols, dlng.min(350.0 / cols as f64)) };
            let dlat = dlat.min(170.0 / rows as f64);
            let height = dlat * (rows - 1) as f64;
            let width = dlng * (cols - 1) as f64;
            let lng = prop_oneof![
                3 => 0.0..(359.9 - width).max(0.1),
                2 => -180.0..(179.9 - width).max(-179.9),
                1 => Just(0.0),
            ];
            // heights and periods, and what other fields hold: currents, temperatures, pressures
            let data = (prop_oneof![6 => Just((0.0, 20.0)), 1 => Just((-30.0, 30.0)), 1 => Just((250.0, 310.0)), 1 => Just((95_000.0, 105_000.0)), 1 => Just((0.0, 1.0))])
                .prop_flat_map(move |(a, b)| {
                    prop::collection::vec(prop_oneof![18 => fl(a, b), 2 => Just(f64::NAN), 1 => Just(0.0)], rows * cols)
                });
            (-89.0..(89.0 - height), lng, data).prop_map(move |(south, lng, data)| Grid {
                lat: if down { south + height } else { south },
                lng,
                dlat: if down { -dlat } else { dlat },
                dlng,
                rows,
                cols,
                data,
            })
        })
        .boxed()
}

impl Grid {
    fn end(&self) -> (f64, f64) {
        (self.lat + self.dlat * (self.rows - 1) as f64, self.lng + self.dlng * (self.cols - 1) as f64)
    }
    fn message(&self) -> Message {
        Message {
            projection: Some(LatLngProjection {
                start: (self.lat, self.lng),
                end: self.end(),
                shape: (self.rows, self.cols),
            }),
            data: self.data.clone(),
            unit: "m".into(),
            abbrev: Some("HTSGW".into()),
            date: None,
            surface: (FixedSurfaceType::GroundOrWater, None),
        }
    }
    /// The place `y` rows and `x` columns from the first cell.
    fn place(&self, y: f64, x: f64, other_half: bool) -> Location {
        let mut lng = self.lng + self.dlng * x;
        if lng >= 360.0 {
            lng -= 360.0;
        }
        if other_half {
            lng = if lng < 0.0 { lng + 360.0 } else if lng > 180.0 { lng - 360.0 } else { lng };
        }
        let mut lat = self.lat + self.dlat * y;
        // the place in the other half of the world is also the one to write its latitude another way
        if other_half && lat < 0.0 && lat > -90.0 {
            lat += 180.0;
        }
        Location::new(lat, lng, "".into())
    }
    fn at(&self, row: usize, col: usize) -> f64 {
        self.data[row * self.cols + col]
    }
}

fn same(a: f64, b: f64) -> bool {
    close(a, b, 1e-6, 1e-6) || (a.is_nan() && b.is_nan())
}

/// A position along `n` cells: inside, near a cell, half way; never at the very ends.
fn along() -> BoxedStrategy<f64> {
    prop_oneof![4 => 0.001..0.999f64, 1 => Just(0.001), 1 => Just(0.999), 1 => Just(0.5)].boxed()
}

pub fn c43(run: &mut Run) {
    run.rule(
        "Regular grids of 2 to 8 rows and 2 to 12 columns, north to south and south to north, in both longitude \
         conventions, some across 180 degrees or around the globe, with missing cells; places inside, near and \
         outside them, in either convention. Non-trivial: a place inside the grid.",
    );
    run.assume("The decoding of GRIB2 bytes is the gribberish crate's: a stand-in hands regular grids to surfrs.");
    run.check(
        "nearest_cell",
        60_000,
        || (grid(), along(), along(), any::<bool>()),
        |(g, y, x, half), o| {
            o.nt();
            let (y, x) = (y * (g.rows - 1) as f64, x * (g.cols - 1) as f64);
            let p = g.place(y, x, *half);
            o.label_if(g.lng < 180.0 && g.end().1 > 180.0, "across 180 degrees");
            o.label_if(g.dlat < 0.0, "north to south");
            if (y.fract() - 0.5).abs() < 1e-6 || (x.fract() - 0.5).abs() < 1e-6 {
                return Ok(());
            }
            let got = GFSWaveModel::atlantic().query_location_data(&p, &g.message()).map_err(|e| e.to_string())?;
            let want = g.at(y.round() as usize, x.round() as usize);
            need!(same(got, want), "value at {p:?}: got {got}, expected {want} (row {y}, column {x})");
            Ok(())
        },
    );
    run.check(
        "interpolated",
        60_000,
        || (grid(), along(), along(), any::<bool>()),
        |(g, y, x, half), o| {
            o.nt();
            let (y, x) = (y * (g.rows - 1) as f64, x * (g.cols - 1) as f64);
            let p = g.place(y, x, *half);
            let (r, c) = (y.floor() as usize, x.floor() as usize);
            let (fy, fx) = (y.fract(), x.fract());
            let cells = [g.at(r, c), g.at(r, c + 1), g.at(r + 1, c), g.at(r + 1, c + 1)];
            let got = GFSWaveModel::atlantic().interp_location_data(&p, &g.message()).map_err(|e| e.to_string())?;
            if cells.iter().any(|v| v.is_nan()) || [fy, fx].iter().any(|f| *f < 1e-9 || *f > 1.0 - 1e-9) {
                o.label("beside a missing cell or on a line of cells");
                return Ok(());
            }
            let want = cells[0] * (1.0 - fy) * (1.0 - fx) + cells[1] * (1.0 - fy) * fx + cells[2] * fy * (1.0 - fx)
                + cells[3] * fy * fx;
            need!(close(got, want, 1e-6, 1e-6), "value at {p:?}: got {got}, expected {want} (row {y}, column {x})");
            Ok(())
        },
    );
    run.check(
        "on_a_cell",
        30_000,
        || (grid(), along(), along(), any::<bool>()),
        |(g, y, x, half), o| {
            // Steps that floats hold exactly, so that the place is the cell.
            let mut g = g.clone();
            g.lat = (g.lat * 4.0).round() / 4.0;
            g.lng = (g.lng * 4.0).round() / 4.0;
            g.dlat = 0.25f64.copysign(g.dlat);
            if g.dlng < 30.0 {
                g.dlng = 0.25;
            }
            let (r, c) = ((y * g.rows as f64) as usize, (x * g.cols as f64) as usize);
            let p = g.place(r as f64, c as f64, *half);
            if g.lat.abs() > 90.0 || g.end().0.abs() > 90.0 {
                return Ok(());
            }
            o.nt();
            o.label_if(r == 0 || c == 0 || r == g.rows - 1 || c == g.cols - 1, "on the edge");
            let m = GFSWaveModel::atlantic();
            let got = m.query_location_data(&p, &g.message()).map_err(|e| e.to_string())?;
            need!(same(got, g.at(r, c)), "value at {p:?}: got {got}, expected {}", g.at(r, c));
            let got = m.interp_location_data(&p, &g.message()).map_err(|e| e.to_string())?;
            need!(same(got, g.at(r, c)), "interpolated value at {p:?}: got {got}, expected {}", g.at(r, c));
            Ok(())
        },
    );
    run.check(
        "on_a_line_of_cells",
        30_000,
        || (grid(), along(), along(), any::<bool>(), any::<bool>(), 1u8..8),
        |(g, y, x, half, by_row, eighths), o| {
            // Between two cells of a row, or of a column: the other cells do not matter.
            let mut g = g.clone();
            g.lat = (g.lat * 4.0).round() / 4.0;
            g.lng = (g.lng * 4.0).round() / 4.0;
            g.dlat = 0.25f64.copysign(g.dlat);
            if g.dlng < 30.0 {
                g.dlng = 0.25;
            }
            let (rows, cols) = if *by_row { (g.rows, g.cols - 1) } else { (g.rows - 1, g.cols) };
            let (r, c) = ((y * rows as f64) as usize, (x * cols as f64) as usize);
            let f = *eighths as f64 / 8.0;
            let (dr, dc) = if *by_row { (0.0, f) } else { (f, 0.0) };
            let p = g.place(r as f64 + dr, c as f64 + dc, *half);
            if g.lat.abs() > 90.0 || g.end().0.abs() > 90.0 {
                return Ok(());
            }
            let (a, b) = (g.at(r, c), if *by_row { g.at(r, c + 1) } else { g.at(r + 1, c) });
            o.nt_if(!a.is_nan() && !b.is_nan());
            let got = GFSWaveModel::atlantic().interp_location_data(&p, &g.message()).map_err(|e| e.to_string())?;
            let want = a * (1.0 - f) + b * f;
            need!(
                (want.is_nan() && got.is_nan()) || close(got, want, 1e-6, 1e-6),
                "value at {p:?}: got {got}, expected {want}, {f} of the way from {a} to {b}"
            );
            Ok(())
        },
    );
    run.check(
        "within_a_tolerance",
        60_000,
        || (grid(), along(), along(), any::<bool>(), prop_oneof![2 => 0.01..4.0f64, 1 => 4.0..40.0f64]),
        |(g, y, x, half, tolerance), o| {
            let (y, x) = (y * (g.rows - 1) as f64, x * (g.cols - 1) as f64);
            let p = g.place(y, x, *half);
            let got = GFSWaveModel::atlantic().query_location_tolerance(&p, tolerance, &g.message()).map_err(|e| e.to_string())?;
            let mut want = vec![];
            for r in 0..g.rows {
                for c in 0..g.cols {
                    let dy = (g.lat + g.dlat * r as f64 - p.relative_latitude()).abs();
                    let dx = circ_diff(g.lng + g.dlng * c as f64, p.longitude);
                    if (dy - tolerance).abs() < 1e-6 || (dx - tolerance).abs() < 1e-6 {
                        return Ok(());
                    }
                    if dy <= *tolerance && dx <= *tolerance && !g.at(r, c).is_nan() {
                        want.push(g.at(r, c));
                    }
                }
            }
            o.nt_if(want.len() >= 2);
            o.label_if(p.relative_longitude().abs() + tolerance > 180.0, "around 180 degrees");
            need_eq!(got, want, "values within {tolerance} of {p:?}");
            Ok(())
        },
    );
    run.check(
        "a_cell_at_the_tolerance",
        20_000,
        || (grid(), along(), along(), any::<bool>(), 0u8..9),
        |(g, y, x, half, quarters), o| {
            // Steps and tolerances that floats hold exactly: a cell at the tolerance is no farther than it.
            let mut g = g.clone();
            g.lat = (g.lat * 4.0).round() / 4.0;
            g.lng = (g.lng * 4.0).round() / 4.0;
            g.dlat = 0.25f64.copysign(g.dlat);
            g.dlng = 0.25;
            let (r, c) = ((y * g.rows as f64) as usize, (x * g.cols as f64) as usize);
            if g.lat.abs() > 90.0 || g.end().0.abs() > 90.0 {
                return Ok(());
            }
            let p = g.place(r as f64, c as f64, *half);
            let n = *quarters as usize;
            let got = GFSWaveModel::atlantic().query_location_tolerance(&p, &(n as f64 * 0.25), &g.message()).map_err(|e| e.to_string())?;
            let want: Vec<f64> = (0..g.rows)
                .flat_map(|r2| (0..g.cols).map(move |c2| (r2, c2)))
                .filter(|(r2, c2)| r2.abs_diff(r) <= n && c2.abs_diff(c) <= n)
                .map(|(r2, c2)| g.at(r2, c2))
                .filter(|v| !v.is_nan())
                .collect();
            o.nt_if(want.len() >= 2);
            o.label_if(n == 0, "the cell alone");
            need_eq!(got, want, "values within {n} cells of {p:?}");
            Ok(())
        },
    );
    run.check(
        "outside",
        30_000,
        || (grid(), along(), along(), 0usize..4, 0.01..5.0f64),
        |(g, y, x, side, off), o| {
            let (mut y, mut x) = (y * (g.rows - 1) as f64, x * (g.cols - 1) as f64);
            match side {
                0 => y = -off,
                1 => y = (g.rows - 1) as f64 + off,
                2 => x = -off,
                _ => x = (g.cols - 1) as f64 + off,
            }
            let p = g.place(y, x, false);
            let beyond = (p.longitude - g.lng).rem_euclid(360.0) <= g.dlng * (g.cols - 1) as f64 + 1e-6;
            if p.latitude.abs() > 90.0 || (*side >= 2 && beyond) {
                return Ok(());
            }
            o.nt();
            let m = GFSWaveModel::atlantic();
            let msg = g.message();
            need!(m.query_location_data(&p, &msg).is_err(), "a value at {p:?}, outside the grid");
            need!(m.interp_location_data(&p, &msg).is_err(), "an interpolated value at {p:?}, outside the grid");
            need!(m.query_location_tolerance(&p, &1.0, &msg).is_err(), "values around {p:?}, outside the grid");
            Ok(())
        },
    );
    run.check(
        "contours",
        3_000,
        || {
            (
                grid(),
                (0usize..6, prop::option::of(system())),
                (prop::option::of(0.0..8.0f64), prop::option::of(8.5..30.0f64), prop::option::of(prop_oneof![6 => 2usize..9, 1 => 9usize..46])),
            )
        },
        |(g, (unit, system), (min, max, count)), o| {
            let mut m = g.message();
            m.unit = ["m", "ms-1", "K", "s", "", "Pa"][*unit].into();
            let from = [Unit::Meters, Unit::MetersPerSecond, Unit::Kelvin, Unit::Seconds, Unit::Unknown, Unit::Pascal][*unit].clone();
            let to = match (&from, system) {
                (Unit::Meters, Some(UnitSystem::English)) => Unit::Feet,
                (Unit::MetersPerSecond, Some(UnitSystem::English)) => Unit::MilesPerHour,
                (Unit::MetersPerSecond, Some(UnitSystem::Knots)) => Unit::Knots,
                (Unit::Kelvin, Some(UnitSystem::English)) => Unit::Fahrenheit,
                (Unit::Kelvin, Some(UnitSystem::Metric)) => Unit::Celsius,
                _ => from.clone(),
            };
            o.label_if(from != to, "converted");
            let data: Vec<f64> = g.data.iter().map(|v| from.convert(*v, &to)).collect();
            let label = if system.is_some() { to.abbreviation().to_string() } else { m.unit.clone() };
            let end = g.end();
            let want = compute_latlng_gridded_contours(
                data, g.cols, g.rows, g.lng, end.1, g.lat, end.0, *min, *max, *count,
                Some(|i: &usize, v: &f64| if i % 2 == 1 { format!("{:.0}{label}", v.round()) } else { String::new() }),
            );
            let got = GFSWaveModel::atlantic().contour_data(&m, *min, *max, *count, system.clone());
            match (got, want) {
                (Ok(a), Ok(b)) => {
                    o.nt_if(!b.is_empty());
                    need_eq!(a.len(), b.len(), "contours");
                    for (x, y) in a.iter().zip(&b) {
                        crate::c_obs::same_json("contour", &serde_json::to_value(x).unwrap(), &serde_json::to_value(y).unwrap())?;
                    }
                }
                (Err(_), Err(_)) => {}
                (a, b) => return Err(format!("contours {:?}, expected {:?}", a.is_ok(), b.is_ok())),
            }
            Ok(())
        },
    );
    run.check(
        "messages_without_a_grid",
        2_000,
        || (-90.0..90.0f64, -180.0..180.0f64),
        |(lat, lng), o| {
            o.nt();
            let msg = Message {
                projection: None,
                data: vec![],
                unit: "m".into(),
                abbrev: None,
                date: None,
                surface: (FixedSurfaceType::Missing, None),
            };
            let p = Location::new(*lat, *lng, "".into());
            let m = NWPSModel::boston();
            need!(m.query_location_data(&p, &msg).is_err(), "a value");
            need!(m.interp_location_data(&p, &msg).is_err(), "an interpolated value");
            need!(m.query_location_tolerance(&p, &1.0, &msg).is_err(), "values");
            need!(m.contour_data(&msg, None, None, None, None).is_err(), "contours");
            Ok(())
        },
    );
}

// ---- C44 -------------------------------------------------------------------------------

/// name, level
const FIELDS: [(&str, Option<u8>); 17] = [
    ("HTSGW", None), ("PERPW", None), ("DIRPW", None), ("WIND", None), ("WDIR", None),
    ("SWELL", Some(1)), ("SWPER", Some(1)), ("SWDIR", Some(1)),
    ("SWELL", Some(2)), ("SWPER", Some(2)), ("SWDIR", Some(2)),
    ("SWELL", Some(3)), ("SWPER", Some(3)), ("SWDIR", Some(3)),
    ("WVHGT", None), ("WVPER", None), ("WVDIR", None),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Point {
    grid: Grid,
    at: (f64, f64),
    tolerance: f64,
    date: DateTime<Utc>,
    /// of FIELDS: whether it is there, and its value on every cell of the grid (missing below 0)
    fields: Vec<(bool, Vec<f64>)>,
    order: u64,
    history: Vec<usize>,
}

fn point() -> BoxedStrategy<Point> {
    grid()
        .prop_flat_map(|g| {
            let n = g.rows * g.cols;
            let fields: Vec<BoxedStrategy<(bool, Vec<f64>)>> = FIELDS
                .iter()
                .enumerate()
                .map(|(i, (name, _))| {
                    let base = if name.contains("DIR") { fl(0.0, 359.0) } else { fl(0.1, 20.0) };
                    let spread = if name.contains("DIR") { 40.0 } else { 0.4 };
                    let dir = name.contains("DIR");
                    let values = prop_oneof![
                        20 => (base, prop::collection::vec(prop_oneof![9 => -spread..spread, 1 => Just(f64::NAN)], n)).prop_map(move |(b, d)| {
                            d.into_iter().map(|d: f64| if dir { (b + d).rem_euclid(360.0) } else { (b + d).max(0.05) }).collect::<Vec<f64>>()
                        }),
                        // missing everywhere, or a calm
                        1 => Just(vec![if *name == "WIND" { 0.0 } else { f64::NAN }; n]),
                        1 => Just(vec![f64::NAN; n]),
                    ];
                    (prop::bool::weighted(if i < 3 { 0.98 } else { 0.93 }), values).boxed()
                })
                .collect();
            (Just(g), (along(), along()), prop_oneof![0.05..3.0f64, Just(40.0)], hour(), fields, any::<u64>(), prop::collection::vec(0usize..4, 0..4))
        })
        .prop_map(|(grid, at, tolerance, date, fields, order, history)| Point { grid, at, tolerance, date, fields, order, history })
        .boxed()
}

fn same_swell(what: &str, s: &Swell, h: f64, t: f64, d: f64) -> Result<(), String> {
    let value = |n: &str, got: Option<f64>, want: f64| -> Result<(), String> {
        let got = got.ok_or_else(|| format!("{what}: no {n}"))?;
        need!(same(got, want), "{n} of {what}: got {got}, expected {want}");
        Ok(())
    };
    value("height", s.wave_height.value, h)?;
    value("period", s.period.value, t)?;
    need_eq!((&s.wave_height.unit, &s.period.unit), (&Unit::Meters, &Unit::Seconds), "units of {what}");
    let e = s.energy.as_ref().ok_or_else(|| format!("{what}: no energy"))?;
    value("energy", e.value, 1029.0 * 9.81 * 9.81 / (16.0 * std::f64::consts::PI) * h * h * t * t / 1000.0)?;
    if !d.is_nan() {
        let got = s.direction.value.as_ref().ok_or_else(|| format!("{what}: no direction"))?.degrees as f64;
        need!(circ_diff(got, d) <= 1.0 + 1e-6, "direction of {what}: got {got}, expected {d}");
    }
    Ok(())
}

pub fn c44(run: &mut Run) {
    run.rule(
        "Up to 17 fields on one grid in any order, each possibly absent or missing everywhere, directions that \
         straddle north, any place on the grid and tolerance. Non-trivial: a record with at least two components.",
    );
    run.assume("The decoding of GRIB2 bytes is the gribberish crate's: a stand-in hands regular grids to surfrs.");
    run.check(
        "point_forecast",
        40_000,
        point,
        |p, o| {
            let g = &p.grid;
            let place = g.place(p.at.0 * (g.rows - 1) as f64, p.at.1 * (g.cols - 1) as f64, false);
            // The cells around the place
            let mut cells = vec![];
            for r in 0..g.rows {
                for c in 0..g.cols {
                    let dy = (g.lat + g.dlat * r as f64 - place.relative_latitude()).abs();
                    let dx = circ_diff(g.lng + g.dlng * c as f64, place.longitude);
                    if (dy - p.tolerance).abs() < 1e-6 || (dx - p.tolerance).abs() < 1e-6 {
                        return Ok(());
                    }
                    if dy <= p.tolerance && dx <= p.tolerance {
                        cells.push(r * g.cols + c);
                    }
                }
            }
            let mut messages = vec![];
            let mut means: Vec<Option<f64>> = vec![];
            for ((name, level), (there, values)) in FIELDS.iter().zip(&p.fields) {
                if !there {
                    means.push(None);
                    continue;
                }
                let mut m = g.message();
                m.abbrev = Some(name.to_string());
                m.date = Some(p.date);
                m.data = values.clone();
                if let Some(l) = level {
                    // The sequence of the swells starts at one, or at zero, which may be left unsaid
                    let l = match p.order >> 40 & 3 {
                        0 if *l == 1 => None,
                        0 | 1 => Some(*l as f64 - 1.0),
                        _ => Some(*l as f64),
                    };
                    m.surface = (FixedSurfaceType::OrderedSequence, l);
                }
                messages.push(m);
                let v: Vec<f64> = cells.iter().map(|i| values[*i]).filter(|v| !v.is_nan()).collect();
                let n = v.len() as f64;
                means.push(Some(if name.contains("DIR") && !v.is_empty() {
                    let x: f64 = v.iter().map(|d| d.to_radians().cos()).sum();
                    let y: f64 = v.iter().map(|d| d.to_radians().sin()).sum();
                    o.label_if(v.iter().any(|d| *d < 90.0) && v.iter().any(|d| *d > 270.0), "directions across north");
                    y.atan2(x).to_degrees().rem_euclid(360.0)
                } else {
                    v.iter().sum::<f64>() / n
                }));
            }
            // A message that says nothing does not matter.
            let mut empty = g.message();
            empty.date = None;
            messages.push(empty);
            let n = messages.len();
            messages.rotate_left((p.order % n as u64) as usize);
            if p.order % 3 == 0 {
                messages.reverse();
            }
            let got = GFSWaveGribPointDataRecord::from_messages(&GFSWaveModel::global_25(), &messages, &place, p.tolerance);
            let (Some(h), Some(t), Some(d)) = (means[0], means[1], means[2]) else {
                need!(got.is_err(), "a record without height, period or direction");
                o.label("refused");
                return Ok(());
            };
            let r = got.map_err(|e| e.to_string())?;
            need_eq!(r.date, p.date, "date");
            same_swell("summary", &r.wave_summary, h, t, d)?;
            let wind = |i: usize| means[i].filter(|v| !v.is_nan());
            o.label_if(wind(4) != means[4], "wind missing around the place");
            match (wind(3), r.wind_speed.value) {
                (Some(a), Some(b)) => need!(same(b, a), "wind speed: got {b}, expected {a}"),
                (None, None) => {}
                (a, b) => return Err(format!("wind speed: got {b:?}, expected {a:?}")),
            }
            need_eq!(r.wind_speed.unit, Unit::MetersPerSecond, "unit of the wind");
            match (wind(4), &r.wind_direction.value) {
                (Some(a), Some(b)) => need!(
                    circ_diff(a, b.degrees as f64) <= 1.0 + 1e-6,
                    "wind direction: got {b:?}, expected {a}"
                ),
                (None, None) => {}
                (a, b) => return Err(format!("wind direction: got {b:?}, expected {a:?}")),
            }
            let mut want: Vec<(f64, f64, f64)> = means[5..]
                .chunks(3)
                .filter_map(|c| match (c[0], c[1], c[2]) {
                    (Some(h), Some(t), Some(d)) if !(h.is_nan() || t.is_nan() || d.is_nan()) => Some((h, t, d)),
                    _ => None,
                })
                .collect();
            o.nt_if(want.len() >= 2);
            o.label_if(want.len() == 4, "all components");
            want.sort_by(|a, b| b.0.total_cmp(&a.0));
            need_eq!(r.swell_components.len(), want.len(), "components");
            let tied = want.windows(2).any(|w| (w[0].0 - w[1].0).abs() < 1e-9);
            for (i, (s, (h, t, d))) in r.swell_components.iter().zip(&want).enumerate() {
                if !tied {
                    same_swell(&format!("component {i}"), s, *h, *t, *d)?;
                }
            }
            for w in r.swell_components.windows(2) {
                need!(w[0].wave_height.value >= w[1].wave_height.value, "components are not from the highest down");
            }
            // Units
            let mut c = r.clone();
            let mut speed = r.wind_speed.clone();
            let mut swells = vec![r.wave_summary.clone()];
            swells.extend(r.swell_components.iter().cloned());
            for s in &p.history {
                let s = &SYSTEMS[*s];
                c.to_units(s);
                speed.to_units(s);
                swells.iter_mut().for_each(|w| drop(w.to_units(s)));
            }
            let json = |v: &dyn erased::Json| v.json();
            crate::c_obs::same_json("converted wind", &json(&c.wind_speed), &json(&speed))?;
            crate::c_obs::same_json("converted summary", &json(&c.wave_summary), &json(&swells[0]))?;
            crate::c_obs::same_json("converted components", &json(&c.swell_components), &json(&swells[1..].to_vec()))?;
            let back: Result<GFSWaveGribPointDataRecord, _> = serde_json::from_str(&serde_json::to_string(&c).unwrap());
            crate::c_obs::same_json("record from JSON", &json(&back.map_err(|e| e.to_string())?), &json(&c))?;
            Ok(())
        },
    );
}

mod erased {
    pub trait Json {
        fn json(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> Json for T {
        fn json(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}
