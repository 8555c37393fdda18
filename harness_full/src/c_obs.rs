//! C37 buoy observations, C40 buoy stations, C42 observation data sets.
use crate::fw::*;
use crate::gens::*;
use crate::text::*;
use crate::{need, need_eq};
use chrono::{DateTime, Datelike, Timelike, Utc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use surfrs::buoy_station::{BuoyStation, BuoyStations, BuoyType};
use surfrs::data::latest_obs_data_record::{
    latest_obs_feature_collection, LatestObsDataRecord, LatestObsDataRecordCollection,
};
use surfrs::data::meteorological_data_record::{
    MeteorologicalDataRecord, MeteorologicalDataRecordCollection, StdmetDataRecordCollection,
};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::swden_wave_data_record::{SwdenWaveDataRecord, SwdenWaveDataRecordCollection};
use surfrs::dimensional_data::DimensionalData;
use surfrs::model::ModelDataSource;
use surfrs::station::Station;
use surfrs::swell::SwellProvider;
use surfrs::tools::dap::DapConstraint;
use surfrs::units::{Direction, Unit, UnitConvertible, UnitSystem};

// ---- C37 -------------------------------------------------------------------------------

/// field, name, unit, column of a meteorological row, column of a latest-observation row
const NUMBERS: [(&str, &str, Unit, usize, usize); 12] = [
    ("wind_speed", "wind speed", Unit::MetersPerSecond, 6, 9),
    ("wind_gust_speed", "wind gust speed", Unit::MetersPerSecond, 7, 10),
    ("wave_height", "wave height", Unit::Meters, 8, 11),
    ("dominant_wave_period", "dominant wave period", Unit::Seconds, 9, 12),
    ("average_wave_period", "average wave period", Unit::Seconds, 10, 13),
    ("air_pressure", "air pressure", Unit::HectaPascal, 12, 15),
    ("air_pressure_tendency", "air pressure tendency", Unit::HectaPascal, 17, 16),
    ("air_temperature", "air temperature", Unit::Celsius, 13, 17),
    ("water_temperature", "water temperature", Unit::Celsius, 14, 18),
    ("dewpoint_temperature", "dewpoint temperature", Unit::Celsius, 15, 19),
    ("visibility", "visibility", Unit::NauticalMiles, 16, 20),
    ("tide", "tide", Unit::Feet, 18, 21),
];
const BEARINGS: [(&str, &str, usize, usize); 2] =
    [("wind_direction", "wind direction", 5, 8), ("mean_wave_direction", "mean wave direction", 11, 14)];

macro_rules! numbers {
    ($r:expr) => {
        [
            &$r.wind_speed, &$r.wind_gust_speed, &$r.wave_height, &$r.dominant_wave_period,
            &$r.average_wave_period, &$r.air_pressure, &$r.air_pressure_tendency, &$r.air_temperature,
            &$r.water_temperature, &$r.dewpoint_temperature, &$r.visibility, &$r.tide,
        ]
    };
}
macro_rules! bearings {
    ($r:expr) => {
        [&$r.wind_direction, &$r.mean_wave_direction]
    };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ObsRow {
    station: (String, f64, f64),
    date: DateTime<Utc>,
    /// in the order of NUMBERS
    numbers: Vec<String>,
    bearings: Vec<String>,
}

fn obs_row() -> BoxedStrategy<ObsRow> {
    let n = || {
        prop_oneof![
            4 => number(-20, 40),
            2 => number(900, 1060),
            1 => (-99i32..99).prop_map(|v| format!("{:+.1}", v as f64 / 10.0)),
            2 => Just("MM".to_string()),
        ]
    };
    (
        (prop_oneof![2 => "[0-9A-Z]{4,6}", 1 => "[0-9a-zA-Z]{4,6}"], or_zero(-9000..=9000).prop_map(|v| v as f64 / 100.0), or_zero(-18000..=18000).prop_map(|v| v as f64 / 100.0)),
        minute(),
        prop::collection::vec(n(), 12),
        prop::collection::vec(prop_oneof![(0i32..=360).prop_map(|v| v.to_string()), bearing()], 2),
    )
        .prop_map(|(station, date, numbers, bearings)| ObsRow { station, date, numbers, bearings })
        .boxed()
}

impl ObsRow {
    fn met_tokens(&self) -> Vec<String> {
        let mut t = date_tokens(&self.date);
        t.resize(19, String::new());
        for (v, (_, _, _, c, _)) in self.numbers.iter().zip(NUMBERS) {
            t[c] = v.clone();
        }
        for (v, (_, _, c, _)) in self.bearings.iter().zip(BEARINGS) {
            t[c] = v.clone();
        }
        t
    }
    fn obs_tokens(&self) -> Vec<String> {
        let mut t = vec![self.station.0.clone(), format!("{:.3}", self.station.1), format!("{:.3}", self.station.2)];
        t.extend(date_tokens(&self.date));
        t.resize(22, String::new());
        for (v, (_, _, _, _, c)) in self.numbers.iter().zip(NUMBERS) {
            t[c] = v.clone();
        }
        for (v, (_, _, _, c)) in self.bearings.iter().zip(BEARINGS) {
            t[c] = v.clone();
        }
        t
    }
    /// As in the file; `metric` after conversion to the metric system, where only the tide changes.
    fn check(
        &self,
        date: &DateTime<Utc>,
        numbers: &[&DimensionalData<f64>; 12],
        bearings: &[&DimensionalData<Direction>; 2],
        metric: bool,
    ) -> Result<(), String> {
        need_eq!(*date, self.date, "date");
        for ((text, d), (field, name, unit, ..)) in self.numbers.iter().zip(numbers).zip(NUMBERS) {
            if metric && field == "tide" {
                need_eq!(d.unit, Unit::Meters, "unit of the tide");
                match (text.parse::<f64>(), d.value) {
                    (Ok(a), Some(b)) => need_close("tide in meters", b, a * 0.3048, 1e-3, 1e-9)?,
                    (Err(_), None) => {}
                    (a, b) => return Err(format!("tide: {a:?} read as {b:?}")),
                }
            } else {
                same_value(field, d, text, unit)?;
            }
            need_eq!(d.variable_name, name, "name of {field}");
        }
        for ((text, d), (field, name, ..)) in self.bearings.iter().zip(bearings).zip(BEARINGS) {
            same_bearing(field, d, text)?;
            need_eq!(d.variable_name, name, "name of {field}");
        }
        Ok(())
    }
}

fn break_row(date_at: usize, columns: usize) -> impl Fn(&mut Vec<String>, &Spoil) -> bool {
    move |t, s| {
        match s {
            Spoil::Date(i, alt) => spoil_date(&mut t[date_at..date_at + 5], *i, *alt),
            Spoil::Short(f) => t.truncate(1 + (f * (columns as f64 - 1.01)) as usize),
            Spoil::Words(w) => *t = w.clone(),
            Spoil::Value(..) => return false,
            Spoil::DropLast => t.truncate(columns - 1),
        }
        true
    }
}

fn same_record<T: Serialize>(what: &str, a: &T, b: &T) -> Result<(), String> {
    let (a, b) = (serde_json::to_value(a).unwrap(), serde_json::to_value(b).unwrap());
    same_json(what, &a, &b)
}

/// Equal, numbers up to the last digits.
pub fn same_json(what: &str, a: &serde_json::Value, b: &serde_json::Value) -> Result<(), String> {
    use serde_json::Value as V;
    match (a, b) {
        (V::Number(x), V::Number(y)) => {
            need!(close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-12, 1e-300), "{what}: got {x}, expected {y}")
        }
        (V::Array(x), V::Array(y)) => {
            need_eq!(x.len(), y.len(), "{what}: length");
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                same_json(&format!("{what}[{i}]"), p, q)?;
            }
        }
        (V::Object(x), V::Object(y)) => {
            let keys: Vec<&String> = x.keys().collect();
            let other: Vec<&String> = y.keys().collect();
            need_eq!(keys, other, "{what}: keys");
            for (k, p) in x {
                same_json(&format!("{what}.{k}"), p, &y[k])?;
            }
        }
        _ => need_eq!(a, b, "{what}"),
    }
    Ok(())
}

fn same_number(what: &str, a: &DimensionalData<f64>, b: &DimensionalData<f64>) -> Result<(), String> {
    need_eq!(a.unit, b.unit, "{what}: unit");
    match (a.value, b.value) {
        (Some(x), Some(y)) => need_close(what, x, y, 1e-9, 1e-9),
        (None, None) => Ok(()),
        (x, y) => Err(format!("{what}: got {x:?}, expected {y:?}")),
    }
}

fn same_direction(what: &str, a: &DimensionalData<Direction>, b: &DimensionalData<Direction>) -> Result<(), String> {
    need_eq!(a.unit, b.unit, "{what}: unit");
    need_eq!(a.variable_name, b.variable_name, "{what}: name");
    need_eq!(a.value.as_ref().map(|d| d.degrees), b.value.as_ref().map(|d| d.degrees), "{what}");
    Ok(())
}

/// Changing the units of a record is changing those of each of its measurements.
macro_rules! units_like_fields {
    ($r:expr, $history:expr) => {{
        let mut r = $r.clone();
        for s in $history {
            r.to_units(s);
        }
        for ((got, d), (field, ..)) in numbers!(r).iter().zip(numbers!($r)).zip(NUMBERS) {
            let mut d = d.clone();
            for s in $history {
                d.to_units(s);
            }
            same_number(field, got, &d)?;
            need_eq!(got.variable_name, d.variable_name, "name of {field}");
        }
        for ((got, d), (field, ..)) in bearings!(r).iter().zip(bearings!($r)).zip(BEARINGS) {
            same_direction(field, got, d)?;
        }
        need_eq!(r.date, $r.date, "date");
        r
    }};
}

macro_rules! summary_of {
    ($r:expr) => {{
        let s = $r.swell_data().map_err(|e| e.to_string())?;
        need_eq!(s.components.len(), 0, "components");
        need_eq!(s.summary.wave_height, $r.wave_height, "height of the summary");
        need_eq!(s.summary.period, $r.dominant_wave_period, "period of the summary");
        same_direction("direction of the summary", &s.summary.direction, &$r.mean_wave_direction)?;
    }};
}

pub fn c37(run: &mut Run) {
    run.rule(
        "Files of up to 12 lines mixing rows, comments, blank lines and malformed rows, with missing values in any \
         column, any spacing and both line ends; station lists that share some ids with the observations. \
         Non-trivial: at least two rows and one other line; a record with a missing and a present value; an \
         observation with a station.",
    );
    run.check(
        "meteorological_file",
        20_000,
        || (long(prop::collection::vec(longer_line(obs_row()), 0..12), 150, 1200), gaps(), any::<bool>()),
        |(lines, gaps, crlf), o| {
            let (text, want) = file(lines, gaps, *crlf, ObsRow::met_tokens, break_row(0, 19), o);
            o.nt_if(want.len() >= 2 && want.len() < lines.len());
            let mut c = MeteorologicalDataRecordCollection::from_data(&text);
            let got: Vec<MeteorologicalDataRecord> = c.records().collect();
            need_eq!(got.len(), want.len(), "records read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                w.check(&g.date, &numbers!(g), &bearings!(g), true).map_err(|e| format!("record {i}: {e}"))?;
            }
            Ok(())
        },
    );
    run.check(
        "latest_observation_file",
        20_000,
        || (long(prop::collection::vec(longer_line(obs_row()), 0..12), 150, 1200), gaps(), any::<bool>()),
        |(lines, gaps, crlf), o| {
            let (text, want) = file(lines, gaps, *crlf, ObsRow::obs_tokens, break_row(3, 22), o);
            o.nt_if(want.len() >= 2 && want.len() < lines.len());
            let mut c = LatestObsDataRecordCollection::from_data(&text);
            let got: Vec<LatestObsDataRecord> = c.records().collect();
            need_eq!(got.len(), want.len(), "records read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                w.check(&g.date, &numbers!(g), &bearings!(g), true).map_err(|e| format!("record {i}: {e}"))?;
                need_eq!((&g.station_id, g.latitude, g.longitude), (&w.station.0, w.station.1, w.station.2), "station {i}");
            }
            Ok(())
        },
    );
    run.check(
        "record",
        40_000,
        || (obs_row(), prop::option::of(0usize..22), repeats(prop::collection::vec(system(), 0..5)), later_columns()),
        |(row, cut, history, more), o| {
            let (a, b) = (row.met_tokens(), row.obs_tokens());
            let mut a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
            let mut b: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
            o.label_if(!more.is_empty(), "columns the format does not have");
            a.extend(more.iter().map(|s| s.as_str()));
            b.extend(more.iter().map(|s| s.as_str()));
            if let Some(n) = cut {
                b.truncate(*n);
                need!(LatestObsDataRecord::from_data_row(None, &b).is_err(), "{n} of 22 columns were accepted");
                if *n < 19 {
                    a.truncate(*n);
                    need!(MeteorologicalDataRecord::from_data_row(None, &a).is_err(), "{n} of 19 columns were accepted");
                }
                return Ok(());
            }
            let m = MeteorologicalDataRecord::from_data_row(None, &a).map_err(|e| e.to_string())?;
            let l = LatestObsDataRecord::from_data_row(None, &b).map_err(|e| e.to_string())?;
            row.check(&m.date, &numbers!(m), &bearings!(m), false)?;
            row.check(&l.date, &numbers!(l), &bearings!(l), false).map_err(|e| format!("latest observation: {e}"))?;
            let some = numbers!(m).iter().filter(|d| d.value.is_some()).count();
            o.nt_if(some > 0 && some < 12);
            o.label_if(history.len() > 1, "several unit systems");
            let m = units_like_fields!(m, history);
            let l = units_like_fields!(l, history);
            need_eq!((&l.station_id, l.latitude, l.longitude), (&row.station.0, row.station.1, row.station.2), "station");
            summary_of!(m);
            summary_of!(l);
            let s = l.station();
            need_eq!((&s.station_id, s.latitude, s.longitude), (&row.station.0, row.station.1, row.station.2), "station");

            // JSON
            let m2: MeteorologicalDataRecord =
                serde_json::from_str(&serde_json::to_string(&m).unwrap()).map_err(|e| e.to_string())?;
            same_record("meteorological record from JSON", &m2, &m)?;
            let l2: LatestObsDataRecord =
                serde_json::from_str(&serde_json::to_string(&l).unwrap()).map_err(|e| e.to_string())?;
            same_record("latest observation from JSON", &l2, &l)?;
            let json = serde_json::to_value(&m).unwrap();
            for (d, (field, ..)) in numbers!(m).iter().zip(NUMBERS) {
                match (json[field]["value"].as_f64(), d.value) {
                    (Some(x), Some(y)) => need_close(field, x, y, 1e-12, 1e-300)?,
                    (None, None) => need!(json[field]["value"].is_null(), "{field} in JSON: {}", json[field]),
                    (x, y) => return Err(format!("{field} in JSON: {x:?} for {y:?}")),
                }
            }

            // Maps by name
            let numbers: HashMap<String, DimensionalData<f64>> = m.clone().into();
            let texts: HashMap<String, Option<String>> = m.clone().into();
            let date = numbers.get("date").ok_or("no date in the map")?;
            need_eq!(date.value, Some(m.date.timestamp() as f64), "date in the map");
            for (d, (field, name, ..)) in numbers!(m).iter().zip(NUMBERS) {
                need_eq!(numbers.get(name), Some(*d), "{field} in the map");
                need_eq!(texts.get(name), Some(&d.value.map(|_| d.to_string())), "{field} in the map of texts");
            }
            for (d, (field, name, ..)) in bearings!(m).iter().zip(BEARINGS) {
                let got = numbers.get(name).ok_or_else(|| format!("no {field} in the map"))?;
                need_eq!(got.value, d.value.as_ref().map(|v| v.degrees as f64), "{field} in the map");
                need_eq!(texts.get(name), Some(&d.value.as_ref().map(|_| d.to_string())), "{field} in the map of texts");
            }
            Ok(())
        },
    );
    run.check(
        "stations_with_observations",
        20_000,
        || {
            (
                long(prop::collection::vec((0usize..8, obs_row()), 0..6), 150, 800),
                long(prop::collection::vec((0usize..8, prop_oneof![9 => -90.0..90.0f64, 1 => Just(0.0)], prop_oneof![9 => -180.0..180.0f64, 1 => Just(0.0)]), 0..6), 150, 300),
            )
        },
        |(obs, stations), o| {
            const IDS: [&str; 8] = ["44097", "44017", "44008", "44098", "4409", "440977", "BUZM3", "buzm3"];
            let records: Vec<LatestObsDataRecord> = obs
                .iter()
                .map(|(id, r)| {
                    let mut t = r.obs_tokens();
                    t[0] = IDS[*id].into();
                    LatestObsDataRecord::from_data_row(None, &t.iter().map(|s| s.as_str()).collect()).unwrap()
                })
                .collect();
            let stations: Vec<BuoyStation> =
                stations.iter().map(|(id, lat, lon)| BuoyStation::new(IDS[*id].into(), *lat, *lon)).collect();
            let fc = latest_obs_feature_collection(&stations, &records);
            need_eq!(fc.features.len(), stations.len(), "features");
            for (f, s) in fc.features.iter().zip(&stations) {
                need_eq!(f.geometry, s.as_feature().geometry, "geometry");
                let id = f.property("id").and_then(|v| v.as_str());
                need_eq!(id, Some(s.station_id.as_str()), "id");
                let got = f.property("latest_observations");
                let want = records.iter().filter(|r| r.station_id.eq_ignore_ascii_case(&s.station_id)).last();
                o.label_if(want.is_some_and(|r| r.station_id != s.station_id), "letters of another case");
                need_eq!(got.is_some(), want.is_some(), "observations of {}", s.station_id);
                let (Some(got), Some(want)) = (got, want) else { continue };
                o.nt();
                let all = serde_json::to_value(want).unwrap();
                let mut expect = serde_json::Map::new();
                for (k, v) in all.as_object().unwrap() {
                    if k == "date" || (v.is_object() && !v["value"].is_null()) {
                        expect.insert(k.clone(), v.clone());
                    }
                }
                o.label_if(expect.len() < 15, "missing measurement left out");
                same_json("observations", got, &serde_json::Value::Object(expect))?;
            }
            Ok(())
        },
    );
    run.check(
        "any_text",
        20_000,
        || {
            prop_oneof![
                2 => any::<String>(),
                2 => "[-0-9MN.:# \n\r\"]{0,300}",
                3 => (obs_row(), any::<bool>(), prop::collection::vec((0.0..1.0f64, any::<char>()), 1..8)).prop_map(|(r, met, edits)| {
                    let t = if met { r.met_tokens() } else { r.obs_tokens() };
                    let mut c: Vec<char> = t.join(" ").chars().collect();
                    for (at, ch) in edits {
                        let i = (at * c.len() as f64) as usize;
                        c[i] = ch;
                    }
                    c.into_iter().collect()
                }),
            ]
        },
        |text, o| {
            o.nt_if(text.split_whitespace().count() >= 10);
            let lines = text.split(['\n', '\r']).count();
            let mut a = MeteorologicalDataRecordCollection::from_data(text);
            let n = a.records().count();
            need!(n <= lines, "{n} records from {lines} lines");
            let mut b = LatestObsDataRecordCollection::from_data(text);
            let n = b.records().count();
            need!(n <= lines, "{n} latest observations from {lines} lines");
            Ok(())
        },
    );
}

// ---- C40 -------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    Number(u32),
    Words(Vec<Word>),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Word {
    Plain(String),
    Bracket(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StationSpec {
    id: String,
    lat: f64,
    lon: f64,
    elev: Option<f64>,
    parts: Vec<Part>,
    wide_dash: bool,
    gap: usize,
    owner: String,
    program: String,
    kind: usize,
    flags: [Option<bool>; 4],
}

const KINDS: [(&str, BuoyType, &str); 9] = [
    ("none", BuoyType::None, "None"),
    ("buoy", BuoyType::Buoy, "Buoy"),
    ("fixed", BuoyType::Fixed, "Fixed"),
    ("oilrig", BuoyType::OilRig, "Oil Rig"),
    ("dart", BuoyType::Dart, "Dart"),
    ("tao", BuoyType::Tao, "Tao"),
    ("usv", BuoyType::USV, "USV"),
    ("virtual", BuoyType::Virtual, "Virtual"),
    ("other", BuoyType::Other, "Other"),
];

impl StationSpec {
    fn raw_name(&self) -> String {
        let parts: Vec<String> = self
            .parts
            .iter()
            .map(|p| match p {
                Part::Number(n) => n.to_string(),
                Part::Words(w) => w
                    .iter()
                    .map(|w| match w {
                        Word::Plain(s) => s.clone(),
                        Word::Bracket(s) => format!("({s})"),
                    })
                    .collect::<Vec<_>>()
                    .join(&" ".repeat(self.gap)),
                Part::Empty => String::new(),
            })
            .collect();
        parts.join(if self.wide_dash { " - " } else { "-" })
    }
    fn name(&self) -> String {
        let words: Vec<String> = self
            .parts
            .iter()
            .flat_map(|p| match p {
                Part::Number(_) | Part::Empty => vec![],
                Part::Words(w) => w
                    .iter()
                    .filter_map(|w| match w {
                        Word::Plain(s) => Some(s.clone()),
                        Word::Bracket(_) => None,
                    })
                    .collect(),
            })
            .collect();
        words.join(" ")
    }
    fn active(&self) -> bool {
        self.flags.iter().any(|f| *f == Some(true))
    }
    fn xml(&self) -> String {
        let esc = |s: &str| {
            s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
        };
        let mut x = format!("  <station id=\"{}\" lat=\"{}\" lon=\"{}\"", esc(&self.id), self.lat, self.lon);
        if let Some(e) = self.elev {
            x += &format!(" elev=\"{e}\"");
        }
        x += &format!(
            " name=\"{}\" owner=\"{}\" pgm=\"{}\" type=\"{}\"",
            esc(&self.raw_name()),
            esc(&self.owner),
            esc(&self.program),
            KINDS[self.kind].0
        );
        for (f, n) in self.flags.iter().zip(["met", "currents", "waterquality", "dart"]) {
            if let Some(f) = f {
                x += &format!(" {n}=\"{}\"", if *f { "y" } else { "n" });
            }
        }
        x + "/>\n"
    }
    fn check(&self, s: &BuoyStation) -> Result<(), String> {
        need_eq!(s.station_id, self.id, "id");
        need_eq!(s.id(), self.id.as_str(), "id()");
        need_eq!((s.latitude, s.longitude), (self.lat, self.lon), "position of {}", self.id);
        need_eq!(s.elevation, self.elev.unwrap_or(0.0), "elevation of {}", self.id);
        need_eq!((&s.owner, &s.program), (&self.owner, &self.program), "owner and program of {}", self.id);
        need_eq!(s.buoy_type, KINDS[self.kind].1, "type of {}", self.id);
        let got = [s.has_meteorological_data, s.has_currents_data, s.has_water_quality_data, s.has_tsnuami_data];
        need_eq!(got, self.flags.map(|f| f == Some(true)), "flags of {}", self.id);
        need_eq!(s.is_active(), self.active(), "{} is active", self.id);
        need_eq!(s.raw_name, self.raw_name(), "raw name of {}", self.id);
        need_eq!(s.name(), self.name(), "name from {:?}", self.raw_name());
        let l = s.location();
        need_eq!((l.latitude, l.longitude, l.name), (self.lat, self.lon, self.name()), "location of {}", self.id);
        let f = s.as_feature();
        let g = serde_json::to_value(&f.geometry).unwrap();
        need_eq!(g["type"], "Point", "geometry");
        need_eq!(g["coordinates"], serde_json::json!([self.lon, self.lat]), "coordinates");
        need_eq!(f.property("id").and_then(|v| v.as_str()), Some(self.id.as_str()), "id of the feature");
        need_eq!(f.property("name").and_then(|v| v.as_str().map(String::from)), Some(self.name()), "name of the feature");
        need_eq!(f.property("isActive").and_then(|v| v.as_bool()), Some(self.active()), "isActive of the feature");
        need_eq!(f.property("type").and_then(|v| v.as_str()), Some(KINDS[self.kind].2), "type of the feature");
        Ok(())
    }
}

fn station_spec() -> BoxedStrategy<StationSpec> {
    let plain = || {
        prop_oneof![
            4 => "[A-Z][a-z]{1,7}",
            1 => "[A-Z]{1,3}[0-9]{1,3}",
            1 => "[0-9]{1,3}[A-Z]{2}",
            1 => "[A-Za-z.,'&/#<>]{1,6}".prop_filter("a number", |s| !s.starts_with('(')),
            1 => "[A-Za-z0-9]{1,3}[(][A-Za-z0-9]{0,3}[)]?[A-Za-z]?",
            1 => "[A-Za-z0-9]{0,3}[A-Za-z][)]",
            1 => Just("São".to_string()),
        ]
    };
    let word = move || prop_oneof![5 => plain().prop_map(Word::Plain), 1 => "[0-9A-Za-z]{1,5}( [0-9A-Za-z(]{1,5}){0,2}".prop_map(Word::Bracket)];
    let part = prop_oneof![
        1 => (0u32..9_999_999).prop_map(Part::Number),
        4 => prop::collection::vec(word(), 1..5).prop_map(Part::Words),
        1 => Just(Part::Empty),
    ];
    let gap = || prop_oneof![5 => Just(1usize), 1 => 2..4usize];
    let coord = |n: i32| {
        prop_oneof![
            3 => (-n * 1000..=n * 1000).prop_map(|v| v as f64 / 1000.0),
            1 => or_zero(-n..=n).prop_map(|v| v as f64),
        ]
    };
    let flag = || prop::option::weighted(0.85, prop::bool::weighted(0.35));
    (
        (prop_oneof!["[0-9A-Z]{4,5}", "[0-9a-z]{4,5}"], coord(90), coord(180), prop::option::of((-50i32..4000).prop_map(|v| v as f64 / 10.0))),
        (prop::collection::vec(part, 0..4), any::<bool>(), gap()),
        ("[A-Za-z&\"<>' ]{1,20}", "[A-Za-z/ ]{1,20}", 0usize..9),
        [flag(), flag(), flag(), flag()],
    )
        .prop_map(|((id, lat, lon, elev), (parts, wide_dash, gap), (owner, program, kind), flags)| StationSpec {
            id,
            lat,
            lon,
            elev,
            parts,
            wide_dash,
            gap,
            owner: owner.trim().into(),
            program: program.trim().into(),
            kind,
            flags,
        })
        .boxed()
}

pub fn sources() -> [(ModelDataSource, &'static str, &'static str); 3] {
    [
        (ModelDataSource::NODDAWS, "https://noaa-gfs-bdp-pds.s3.amazonaws.com", "noddaws"),
        (ModelDataSource::NODDGCP, "https://storage.googleapis.com/global-forecast-system", "noddgcp"),
        (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod", "nomads"),
    ]
}

pub fn c40(run: &mut Run) {
    run.rule(
        "Lists of up to 7 stations (plus the one of an observation) with and without each optional attribute, \
         names made of words, brackets and numbers between dashes, repeated ids. Non-trivial: two stations or \
         more; a name with a part left out.",
    );
    run.check(
        "station_list",
        20_000,
        || {
            (
                long(prop::collection::vec(station_spec(), 1..8), 150, 300),
                prop::collection::vec((0.0..1.0f64, 0.0..1.0f64), 0..2),
                any::<bool>(),
                0.0..1.0f64,
            )
        },
        |(specs, twins, comments, pick), o| {
            let mut specs = specs.clone();
            for (a, b) in twins {
                let (i, j) = ((a * specs.len() as f64) as usize, (b * specs.len() as f64) as usize);
                specs[i].id = specs[j].id.clone();
                o.label_if(i != j, "repeated id");
            }
            o.nt_if(specs.len() >= 2);
            let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
            xml += &format!("<stations created=\"2018-08-14T19:35:01UTC\" count=\"{}\">\n", specs.len());
            for s in &specs {
                if *comments {
                    xml += "<!--Site Elevation (elev attribute), when present, is in meters-->\n";
                }
                xml += &s.xml();
            }
            xml += "</stations>\n";
            let list = BuoyStations::from_raw_data(&xml);
            need_eq!(list.station_count, specs.len(), "count");
            need_eq!(list.stations.len(), specs.len(), "stations read from {xml}");
            for (g, w) in list.stations.iter().zip(&specs) {
                w.check(g)?;
            }
            // Lookup
            let id = &specs[(pick * specs.len() as f64) as usize].id;
            let first = specs.iter().find(|s| s.id == *id).unwrap();
            first.check(&list.find_station(id).ok_or_else(|| format!("{id} is not found"))?)?;
            for unknown in ["", "zz", &id.to_lowercase()[..], &id[1..], &format!("{id}0")] {
                let want = specs.iter().any(|s| s.id == unknown);
                need_eq!(list.find_station(unknown).is_some(), want, "lookup of {unknown:?}");
            }
            // Map and JSON
            let fc: geojson::FeatureCollection = list.clone().into();
            need_eq!(fc.features.len(), specs.len(), "features");
            for (f, s) in fc.features.iter().zip(&list.stations) {
                need_eq!(f, &s.as_feature(), "feature of {}", s.station_id);
            }
            let json = serde_json::to_string(&list).unwrap();
            let back: BuoyStations = serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
            need_eq!(back.station_count, list.station_count, "count from JSON");
            need_eq!(back.stations.len(), specs.len(), "stations from JSON");
            for (g, w) in back.stations.iter().zip(&specs) {
                w.check(g).map_err(|e| format!("from JSON: {e}"))?;
            }
            // Same station means same id
            let distinct: HashSet<&str> = specs.iter().map(|s| s.id.as_str()).collect();
            let set: HashSet<BuoyStation> = list.stations.iter().cloned().collect();
            need_eq!(set.len(), distinct.len(), "stations with different ids");
            for a in &list.stations {
                for b in &list.stations {
                    need_eq!(a == b, a.station_id == b.station_id, "{} is {}", a.station_id, b.station_id);
                }
            }
            let again = BuoyStations::from(list.stations.clone());
            need_eq!(again.station_count, specs.len(), "count of a list made from stations");
            Ok(())
        },
    );
    run.check(
        "name",
        60_000,
        station_spec,
        |s, o| {
            o.nt_if(s.parts.iter().any(|p| match p {
                Part::Number(_) | Part::Empty => true,
                Part::Words(w) => w.iter().any(|w| matches!(w, Word::Bracket(_))),
            }));
            let mut b = BuoyStation::new(s.id.clone(), s.lat, s.lon);
            b.raw_name = s.raw_name();
            need_eq!(b.name(), s.name(), "name from {:?}", b.raw_name);
            Ok(())
        },
    );
    run.check(
        "addresses",
        40_000,
        || (station_spec(), 0usize..3, instant(), repeats(prop::collection::vec(constraint(), 0..4))),
        |(s, source, date, constraints), o| {
            o.nt();
            let b = BuoyStation::new(s.id.clone(), s.lat, s.lon);
            let id = &s.id;
            let real = "https://www.ndbc.noaa.gov/data/realtime2";
            need_eq!(b.latest_obs_data_url(), format!("https://ndbc.noaa.gov/data/latest_obs/{id}.txt"), "latest observation");
            need_eq!(b.meteorological_data_url(), format!("{real}/{id}.txt"), "meteorology");
            need_eq!(b.wave_data_url(), format!("{real}/{id}.spec"), "wave summary");
            need_eq!(b.spectral_wave_data_url(), format!("{real}/{id}.data_spec"), "energy spectrum");
            need_eq!(b.mean_wave_direction_spectral_data_url(), format!("{real}/{id}.swdir"), "mean direction");
            need_eq!(b.principal_wave_direction_spectral_data_url(), format!("{real}/{id}.swdir2"), "principal direction");
            need_eq!(b.r1_spectral_data_url(), format!("{real}/{id}.swr1"), "r1");
            need_eq!(b.r2_spectral_data_url(), format!("{real}/{id}.swr2"), "r2");
            let dap = "https://dods.ndbc.noaa.gov/thredds/dodsC/data";
            let cs: Vec<DapConstraint> = constraints.iter().map(|c| c.real()).collect();
            let query = constraints.iter().map(|c| c.text()).collect::<Vec<_>>().join(",");
            for (name, letter, das, dds, dods) in [
                ("stdmet", 'h', b.stdmet_das_url(), b.stdmet_dds_url(), b.stdmet_dods_url(&cs)),
                ("swden", 'w', b.swden_das_url(), b.swden_dds_url(), b.swden_dods_url(&cs)),
            ] {
                let root = format!("{dap}/{name}/{id}/{id}{letter}9999.nc");
                need_eq!(das, format!("{root}.das"), "{name} attributes");
                need_eq!(dds, format!("{root}.dds"), "{name} structure");
                need_eq!(dods, format!("{root}.dods?{query}"), "{name} data");
            }
            let (source, root, _) = &sources()[*source];
            let run_dir = format!("gfs.{:04}{:02}{:02}/{:02}", date.year(), date.month(), date.day(), date.hour());
            let bulls = format!("{root}/{run_dir}/wave/station/bulls.t{:02}z", date.hour());
            need_eq!(b.gfswave_bulletin_data_url(source, date), format!("{bulls}/gfswave.{id}.cbull"), "bulletin");
            need_eq!(b.gfswave_spectral_data_url(source, date), format!("{bulls}/gfswave.{id}.spec"), "model spectrum");
            need_eq!(BuoyStation::gfswave_lsl_url(source, date), format!("{root}/{run_dir}/wave/station/ls-l"), "listing");
            need_eq!(BuoyStations::gfswave_stations_root_url(source, date), format!("{bulls}/"), "folder of the stations");
            need_eq!(BuoyStations::active_stations_url(), "https://www.ndbc.noaa.gov/activestations.xml", "stations");
            need_eq!(BuoyStations::latest_obs_url(), "https://www.ndbc.noaa.gov/data/latest_obs/latest_obs.txt", "latest observations");
            Ok(())
        },
    );
}

// ---- constraints (also C41) ------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Constraint {
    pub var: String,
    pub ranges: Vec<(usize, usize, usize)>,
}

impl Constraint {
    pub fn real(&self) -> DapConstraint {
        DapConstraint::new(self.var.clone(), self.ranges.clone())
    }
    pub fn text(&self) -> String {
        let mut t = self.var.clone();
        for (a, b, c) in &self.ranges {
            t += &format!("[{a}:{b}:{c}]");
        }
        t
    }
}

pub fn constraint() -> BoxedStrategy<Constraint> {
    let bound = || prop_oneof![5 => 0usize..10_000, 1 => any::<usize>()];
    ("[A-Za-z_][A-Za-z0-9_.]{0,15}", repeats(prop::collection::vec((bound(), bound(), bound()), 0..4)))
        .prop_map(|(var, ranges)| Constraint { var, ranges })
        .boxed()
}

// ---- C42 -------------------------------------------------------------------------------

/// variable, value that stands for a missing one, unit
const STDMET: [(&str, f64, Unit); 13] = [
    ("wind_dir", 999.0, Unit::Degrees),
    ("wind_spd", 99.0, Unit::MetersPerSecond),
    ("gust", 99.0, Unit::MetersPerSecond),
    ("wave_height", 99.0, Unit::Meters),
    ("dominant_wpd", 99.0, Unit::Seconds),
    ("average_wpd", 99.0, Unit::Seconds),
    ("mean_wave_dir", 999.0, Unit::Degrees),
    ("air_pressure", 9999.0, Unit::HectaPascal),
    ("air_temperature", 999.0, Unit::Celsius),
    ("sea_surface_temperature", 999.0, Unit::Celsius),
    ("dewpt_temperature", 999.0, Unit::Celsius),
    ("visibility", 99.0, Unit::NauticalMiles),
    ("water_level", 99.0, Unit::Feet),
];

pub fn c42(run: &mut Run) {
    run.rule(
        "Data sets of up to 12 times with any value missing; spectra of up to 12 times and 1 to 30 frequencies. \
         Non-trivial: at least two times; some but not all values missing.",
    );
    run.assume("The decoding of DODS bytes is the readap crate's: a stand-in hands the same variables to surfrs.");
    run.check(
        "standard_meteorology",
        20_000,
        || {
            let row = prop::collection::vec(
                prop_oneof![4 => fl(-20.0, 60.0).prop_map(Some), 1 => Just(Some(99.0)), 1 => Just(Some(999.0)), 2 => Just(None)],
                13,
            );
            (long(prop::collection::vec((instant(), row), 0..12), 150, 800), any::<bool>(), any::<u64>())
        },
        |(rows, place, order), o| {
            o.nt_if(rows.len() >= 2);
            let times: Vec<f64> = rows.iter().map(|r| r.0.timestamp() as f64).collect();
            let value = |r: &[Option<f64>], v: usize| -> Option<f64> {
                let (name, missing, unit) = &STDMET[v];
                let _ = name;
                r[v].map(|x| if *unit == Unit::Degrees { x.abs().trunc() * 6.0 % 361.0 } else { x })
                    .filter(|x| x != missing)
            };
            let mut vars: Vec<(&str, Vec<&str>, Vec<f64>)> = vec![("time", vec![], times)];
            let mut names = vec!["time"];
            if *place {
                vars.push(("latitude", vec![], vec![41.0]));
                vars.push(("longitude", vec![], vec![-71.0]));
                names.extend(["latitude", "longitude"]);
            }
            for (v, (name, missing, _)) in STDMET.iter().enumerate() {
                let data = rows.iter().map(|r| value(&r.1, v).unwrap_or(*missing)).collect();
                vars.push((name, names.clone(), data));
            }
            // The order of the variables in the file does not matter.
            let n = vars.len();
            vars.rotate_left((*order % n as u64) as usize);
            let bytes = readap::encode(&vars);
            let c = StdmetDataRecordCollection::from_data(&bytes);
            let got: Vec<MeteorologicalDataRecord> = c.records().collect();
            need_eq!(got.len(), rows.len(), "records");
            for (g, (date, r)) in got.iter().zip(rows) {
                need_eq!(g.date.timestamp(), date.timestamp(), "date");
                let fields = [
                    &g.wind_speed, &g.wind_gust_speed, &g.wave_height, &g.dominant_wave_period, &g.average_wave_period,
                    &g.air_pressure, &g.air_temperature, &g.water_temperature, &g.dewpoint_temperature, &g.visibility,
                    &g.tide,
                ];
                let at = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12];
                for (d, v) in fields.iter().zip(at) {
                    let want = value(r, v);
                    o.label_if(want.is_none(), "missing");
                    need_eq!(d.value, want, "{}", STDMET[v].0);
                    need_eq!(d.unit, STDMET[v].2, "unit of {}", STDMET[v].0);
                    need!(!d.variable_name.is_empty(), "{} has no name", STDMET[v].0);
                }
                for (d, v) in [(&g.wind_direction, 0), (&g.mean_wave_direction, 6)] {
                    need_eq!(d.value.as_ref().map(|x| x.degrees as f64), value(r, v), "{}", STDMET[v].0);
                    need_eq!(d.unit, Unit::Degrees, "unit of {}", STDMET[v].0);
                }
                need_eq!(g.air_pressure_tendency.value, None, "pressure tendency");
            }
            Ok(())
        },
    );
    run.check(
        "spectra",
        20_000,
        || {
            (prop_oneof![100 => 1usize..30, 1 => 47usize..100], 0usize..12).prop_flat_map(|(nf, nt)| {
                (
                    prop::collection::vec(0.02..0.5f64, nf),
                    long(prop::collection::vec((instant(), prop::collection::vec(prop::array::uniform5(prop_oneof![
                        20 => fl(0.0, 360.0),
                        1 => prop_oneof![Just(99.0), Just(999.0), Just(f64::NAN)],
                    ]), nf)), nt), 150, 200),
                    any::<u64>(),
                )
            })
        },
        |(freq, rows, order), o| {
            o.nt_if(rows.len() >= 2);
            let names = ["spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2"];
            let dims = vec!["time", "frequency", "latitude", "longitude"];
            let mut vars: Vec<(&str, Vec<&str>, Vec<f64>)> = vec![
                ("time", vec![], rows.iter().map(|r| r.0.timestamp() as f64).collect()),
                ("frequency", vec![], freq.clone()),
                ("latitude", vec![], vec![41.0]),
                ("longitude", vec![], vec![-71.0]),
            ];
            for (v, name) in names.iter().enumerate() {
                vars.push((name, dims.clone(), rows.iter().flat_map(|r| r.1.iter().map(move |x| x[v])).collect()));
            }
            let n = vars.len();
            vars.rotate_left((*order % n as u64) as usize);
            let bytes = readap::encode(&vars);
            let c = SwdenWaveDataRecordCollection::from_data(&bytes);
            let got: Vec<SwdenWaveDataRecord> = c.records().collect();
            need_eq!(got.len(), rows.len(), "records");
            for (i, (g, (date, r))) in got.iter().zip(rows).enumerate() {
                need_eq!(g.date.timestamp(), date.timestamp(), "date {i}");
                need_eq!(g.frequency, *freq, "frequencies {i}");
                let all = [
                    &g.energy_spectra, &g.mean_wave_direction, &g.primary_wave_direction, &g.first_polar_coefficient,
                    &g.second_polar_coefficient,
                ];
                for (v, a) in all.iter().enumerate() {
                    let want: Vec<f64> = r.iter().map(|x| x[v]).collect();
                    need!(
                        a.len() == want.len() && a.iter().zip(&want).all(|(a, w)| a == w || (a.is_nan() && w.is_nan())),
                        "{} of record {i}: got {a:?}, expected {want:?}", names[v]
                    );
                }
                if r.iter().flatten().any(|x| x.is_nan()) {
                    o.label("not a number");
                    continue;
                }
                let back: SwdenWaveDataRecord =
                    serde_json::from_str(&serde_json::to_string(g).unwrap()).map_err(|e| e.to_string())?;
                same_record("spectrum from JSON", &back, g)?;
            }
            Ok(())
        },
    );
    let _ = UnitSystem::Metric;
}
