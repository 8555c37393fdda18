//! Text and JSON formats: buoy rows, bulletins, model spectra, indexes, weather, tides, URLs.
use crate::c_spec::Spec;
use crate::c_waves::check_summary;
use crate::fw::*;
use crate::gens::*;
use crate::text::*;
use crate::{need, need_eq};
use chrono::{DateTime, Datelike, Duration, FixedOffset, TimeZone, Timelike, Utc};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::tidal_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::station::Station;
use surfrs::swell::{Swell, SwellProvider, SwellSummary};
use surfrs::tide_station::*;
use surfrs::tools::waves::{estimate_breaking_wave_height, track_partitions};
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitConvertible, UnitSystem};
use surfrs::weather::*;

// ---- NDBC wave summaries ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WaveRow {
    date: DateTime<Utc>,
    wvht: String,
    swh: String,
    swp: String,
    wwh: String,
    wwp: String,
    swd: String,
    wwd: String,
    steep: u8,
    apd: String,
    mwd: String,
}

const STEEP: [&str; 7] = ["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "NA", "N/A", "Average"];

impl WaveRow {
    fn tokens(&self) -> Vec<String> {
        let mut t = date_tokens(&self.date);
        for s in [&self.wvht, &self.swh, &self.swp, &self.wwh, &self.wwp, &self.swd, &self.wwd] {
            t.push(s.clone());
        }
        t.push(STEEP[self.steep as usize].into());
        t.push(self.apd.clone());
        t.push(self.mwd.clone());
        t
    }
    fn check(&self, r: &WaveDataRecord) -> Result<(), String> {
        need_eq!(r.date, self.date, "date");
        same_value("wave height", &r.wave_height, &self.wvht, Unit::Meters)?;
        same_value("swell height", &r.swell_wave_height, &self.swh, Unit::Meters)?;
        same_value("swell period", &r.swell_wave_period, &self.swp, Unit::Seconds)?;
        same_value("wind wave height", &r.wind_wave_height, &self.wwh, Unit::Meters)?;
        same_value("wind wave period", &r.wind_wave_period, &self.wwp, Unit::Seconds)?;
        same_value("average period", &r.average_wave_period, &self.apd, Unit::Seconds)?;
        same_bearing("swell direction", &r.swell_wave_direction, &self.swd)?;
        same_bearing("wind wave direction", &r.wind_wave_direction, &self.wwd)?;
        same_bearing("mean direction", &r.mean_wave_direction, &self.mwd)?;
        need_eq!(r.steepness.as_str(), ["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "NA", "NA", "AVERAGE"][self.steep as usize], "steepness");
        let s = r.swell_data().map_err(|e| e.to_string())?;
        need_eq!(s.components.len(), 2, "components");
        for (what, c, h, p, d) in [
            ("summary", &s.summary, &self.wvht, &self.apd, &self.mwd),
            ("swell", &s.components[0], &self.swh, &self.swp, &self.swd),
            ("wind waves", &s.components[1], &self.wwh, &self.wwp, &self.wwd),
        ] {
            same_value(&format!("{what}: height"), &c.wave_height, h, Unit::Meters)?;
            same_value(&format!("{what}: period"), &c.period, p, Unit::Seconds)?;
            same_bearing(&format!("{what}: direction"), &c.direction, d)?;
        }
        // in feet and back
        let mut f = r.clone();
        f.to_units(&UnitSystem::English);
        for (what, d, t) in [("wave height", &f.wave_height, &self.wvht), ("swell height", &f.swell_wave_height, &self.swh), ("wind wave height", &f.wind_wave_height, &self.wwh)] {
            need_eq!(d.unit, Unit::Feet, "{what} in English units");
            match (d.value, t.parse::<f64>()) {
                (Some(v), Ok(m)) => need_close(&format!("{what} in feet"), v, m / 0.3048, 1e-3, 1e-9)?,
                (None, Err(_)) => {}
                (v, _) => return Err(format!("{what} in feet is {v:?}")),
            }
        }
        same_value("period in English units", &f.average_wave_period, &self.apd, Unit::Seconds)
    }
}

fn wave_row() -> BoxedStrategy<WaveRow> {
    (
        minute(),
        (number(0, 20), number(0, 20), number(0, 30), number(0, 20), number(0, 30), number(0, 30)),
        (bearing(), bearing(), bearing()),
        0u8..7,
    )
        .prop_map(|(date, (wvht, swh, swp, wwh, wwp, apd), (swd, wwd, mwd), steep)| WaveRow {
            date, wvht, swh, swp, wwh, wwp, swd, wwd, steep, apd, mwd,
        })
        .boxed()
}

pub fn c25(run: &mut Run) {
    run.rule(
        "Files of up to 14 lines mixing rows, comments, blank lines and malformed rows, missing values in any \
         column, any spacing and both line ends. Non-trivial: at least two rows and one other line.",
    );
    run.check(
        "file",
        30_000,
        || (long(prop::collection::vec(longer_line(wave_row()), 0..14), 150, 1200), gaps(), any::<bool>()),
        |(lines, gaps, crlf), o| {
            let (text, want) = file(lines, gaps, *crlf, WaveRow::tokens, |t, s| {
                match s {
                    Spoil::Date(i, alt) => spoil_date(t, *i, *alt),
                    Spoil::Short(f) => t.truncate(1 + (f * 13.99) as usize),
                    Spoil::Words(w) => *t = w.clone(),
                    Spoil::Value(..) => return false,
                    Spoil::DropLast => t.truncate(14),
                }
                true
            }, o);
            o.nt_if(want.len() >= 2 && want.len() < lines.len());
            let mut c = WaveDataRecordCollection::from_data(&text);
            let got: Vec<WaveDataRecord> = c.records().collect();
            need_eq!(got.len(), want.len(), "records read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                w.check(g).map_err(|e| format!("record {i}: {e}"))?;
            }
            Ok(())
        },
    );
    run.check(
        "row",
        60_000,
        || (wave_row(), prop::option::of(0usize..15), later_columns()),
        |(row, cut, more), o| {
            o.nt();
            let t = row.tokens();
            let mut t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
            o.label_if(!more.is_empty(), "columns the format does not have");
            t.extend(more.iter().map(|s| s.as_str()));
            if let Some(n) = cut {
                t.truncate(*n);
                need!(WaveDataRecord::from_data_row(None, &t).is_err(), "{n} of 15 columns were accepted");
                return Ok(());
            }
            row.check(&WaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?)
        },
    );
}

// ---- NDBC spectra ----------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpecRow {
    date: DateTime<Utc>,
    sep: Option<String>,
    values: Vec<(String, String)>,
    brackets: bool,
}

impl SpecRow {
    fn tokens(&self) -> Vec<String> {
        let mut t = date_tokens(&self.date);
        t.extend(self.sep.clone());
        for (v, f) in &self.values {
            t.push(v.clone());
            t.push(if self.brackets { format!("({f})") } else { f.clone() });
        }
        t
    }
    fn check(&self, r: &SpectralWaveDataRecord) -> Result<(), String> {
        need_eq!(r.date, self.date, "date");
        let want = self.sep.as_ref().map(|s| s.parse::<f64>().unwrap_or(9.999));
        need_eq!(r.separation_frequency, want, "separation frequency {:?}", self.sep);
        let v: Vec<f64> = self.values.iter().map(|p| p.0.parse().unwrap()).collect();
        let f: Vec<f64> = self.values.iter().map(|p| p.1.parse().unwrap()).collect();
        need_eq!(r.value, v, "values");
        need_eq!(r.frequency, f, "frequencies");
        Ok(())
    }
}

fn spec_row() -> BoxedStrategy<SpecRow> {
    (
        minute(),
        prop::option::of(prop_oneof![3 => (0i32..9999).prop_map(|v| format!("{:.3}", v as f64 / 1000.0)), 1 => Just("MM".to_string())]),
        prop_oneof![60 => 1usize..12, 20 => 46usize..65, 1 => 65usize..300].prop_flat_map(|n| prop::collection::vec(
            (
                prop_oneof![3 => (0i32..99_999).prop_map(|v| format!("{:.3}", v as f64 / 1000.0)), 1 => (0i32..=999).prop_map(|v| format!("{v}.0"))],
                (20i32..600).prop_map(|v| format!("{:.3}", v as f64 / 1000.0)),
            ),
            n,
        )),
        prop_oneof![5 => Just(true), 1 => Just(false)],
    )
        .prop_map(|(date, sep, values, brackets)| SpecRow { date, sep, values, brackets })
        .boxed()
}

pub fn c26(run: &mut Run) {
    run.rule(
        "Files of up to 10 lines of 1 to 64 frequencies with or without a separation frequency, comments, blank \
         lines and malformed rows. Non-trivial: at least two rows and one other line.",
    );
    run.check(
        "file",
        20_000,
        || (long(prop::collection::vec(line(spec_row()), 0..10), 150, 300), gaps(), any::<bool>()),
        |(lines, gaps, crlf), o| {
            let (text, want) = file(lines, gaps, *crlf, SpecRow::tokens, |t, s| {
                match s {
                    Spoil::Date(i, alt) => spoil_date(t, *i, *alt),
                    Spoil::Short(f) => t.truncate(1 + (f * 3.99) as usize),
                    Spoil::Words(w) => *t = w.clone(),
                    Spoil::Value(f, w) => {
                        let start = 5 + (t.len() + 1) % 2;
                        let n = t.len() - start;
                        t[start + (f * n as f64) as usize] = w.clone();
                    }
                    Spoil::DropLast => {
                        let bracketed = t.last().is_some_and(|l| l.starts_with('('));
                        if !bracketed || t.len() < 9 {
                            return false;
                        }
                        t.pop();
                    }
                }
                true
            }, o);
            o.nt_if(want.len() >= 2 && want.len() < lines.len());
            o.label_if(want.iter().any(|r| r.sep.is_none()) && want.iter().any(|r| r.sep.is_some()), "both kinds");
            let mut c = SpectralWaveDataRecordCollection::from_data(&text);
            let got: Vec<SpectralWaveDataRecord> = c.records().collect();
            need_eq!(got.len(), want.len(), "records read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                w.check(g).map_err(|e| format!("record {i}: {e}"))?;
            }
            Ok(())
        },
    );
    run.check(
        "row",
        60_000,
        spec_row,
        |row, o| {
            o.nt();
            let t = row.tokens();
            let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
            row.check(&SpectralWaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?)
        },
    );
}

// ---- WAVEWATCH III bulletins -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BullRow {
    /// hours after the run's midnight
    hours: u32,
    height: u32,
    parts: Vec<(u32, u32, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bulletin {
    run: DateTime<Utc>,
    name: String,
    lat: i32,
    lon: i32,
    rows: Vec<Line<BullRow>>,
    footer: bool,
}

impl Bulletin {
    fn date(&self, r: &BullRow) -> DateTime<Utc> {
        let day = Utc.with_ymd_and_hms(self.run.year(), self.run.month(), self.run.day(), 0, 0, 0).unwrap();
        // the days a row can name: those of the run's month from the run on, then those of the next
        // month before the day of the run
        let days = (0..31)
            .take_while(|n| {
                let d = day + Duration::days(*n);
                d.month() == day.month() || (d.day() < day.day() && d.month0() == day.month() % 12)
            })
            .count() as u32;
        day + Duration::hours((r.hours % (days * 24)) as i64)
    }
    fn row_tokens(&self, r: &BullRow) -> Vec<String> {
        let d = self.date(r);
        let mut t = vec![format!("{:02}{:02}", d.day(), d.hour()), r.height.to_string()];
        for (h, p, d) in &r.parts {
            t.extend([h.to_string(), format!("{p:02}"), format!("{d:3}").trim().to_string()]);
        }
        t
    }
    fn head(&self, eol: &str) -> String {
        let deg = |v: i32, pos: char, neg: char| format!("{:.2}{}", v.abs() as f64 / 100.0, if v < 0 { neg } else { pos });
        format!(
            "Location : {:<10} ({}  {}){eol}Model    : spectral resolution for points{eol}Cycle    : {:04}{:02}{:02} {:2} UTC{eol}{eol}DDHH HS SS PP DDD SS PP DDD SS PP DDD{eol}-------------------------------------------------------------------{eol}",
            self.name,
            deg(self.lat, 'N', 'S'),
            deg(self.lon, 'E', 'W'),
            self.run.year(), self.run.month(), self.run.day(), self.run.hour()
        )
    }
}

fn bulletin() -> BoxedStrategy<Bulletin> {
    let row = (prop_oneof![3 => 0u32..16 * 24, 2 => 0u32..31 * 24], 0u32..60, prop_oneof![12 => prop::collection::vec((0u32..40, 2u32..26, 0u32..=360), 0..7), 1 => prop::collection::vec((0u32..40, 2u32..26, 0u32..=360), 7..15)])
        .prop_map(|(hours, height, parts)| BullRow { hours, height, parts })
        .boxed();
    // comments do not occur inside a bulletin
    let row = line(row).prop_filter("comment", |l| !matches!(l, Line::Comment(_)));
    let name = prop_oneof![8 => "[A-Z0-9_-]{1,10}", 1 => "[A-Z0-9_-]{1,5} [A-Z0-9.]{1,4}", 1 => "[A-Z]{1,3} {1,2}[A-Z0-9]{1,2} [A-Z]{1,2}"];
    (hour(), name, or_zero(-9000..=9000), or_zero(-18000..=18000), long(prop::collection::vec(row, 0..14), 100, 400), any::<bool>())
        .prop_map(|(run, name, lat, lon, rows, footer)| Bulletin { run, name, lat, lon, rows, footer })
        .boxed()
}

fn check_bull_row(b: &Bulletin, w: &BullRow, g: &ForecastCBulletinWaveRecord) -> Result<(), String> {
    need_eq!(g.date, b.date(w), "date in the run of {}", b.run);
    let m = |feet: u32| feet as f64 * 0.3048;
    need_eq!(g.significant_wave_height.unit, Unit::Meters, "height unit");
    need_close("height", g.significant_wave_height.value.ok_or("no height")?, m(w.height), 1e-3, 1e-9)?;
    need_eq!(g.swell_components.len(), w.parts.len(), "components");
    for (i, (c, (h, p, d))) in g.swell_components.iter().zip(&w.parts).enumerate() {
        need_eq!(c.wave_height.unit, Unit::Meters, "component {i}: height unit");
        need_close(&format!("component {i}: height"), c.wave_height.value.ok_or("no height")?, m(*h), 1e-3, 1e-9)?;
        need_eq!(c.period.value, Some(*p as f64), "component {i}: period");
        need_eq!(c.period.unit, Unit::Seconds, "component {i}: period unit");
        need_eq!(c.direction.value.as_ref().map(|d| d.degrees), Some(*d as i32), "component {i}: direction");
        let kj = 1029.0 * (9.81 * m(*h) * *p as f64).powi(2) / (16.0 * std::f64::consts::PI) / 1000.0;
        let e = c.energy.as_ref().ok_or("no energy")?;
        need_close(&format!("component {i}: energy"), e.value.ok_or("no energy")?, kj, 5e-3, 1e-9)?;
        need_eq!(e.unit, Unit::KiloJoules, "component {i}: energy unit");
    }
    match (g.swell_data(), w.parts.first()) {
        (Err(_), None) => {}
        (Ok(s), Some((_, p, d))) => {
            need_close("summary height", s.summary.wave_height.value.ok_or("no height")?, m(w.height), 1e-3, 1e-9)?;
            need_eq!(s.summary.period.value, Some(*p as f64), "summary period");
            need_eq!(s.summary.direction.value.map(|d| d.degrees), Some(*d as i32), "summary direction");
            need_eq!(s.components.len(), w.parts.len(), "summary components");
            for (a, b) in s.components.iter().zip(&g.swell_components) {
                need_eq!(format!("{a:?}"), format!("{b:?}"), "summary component");
            }
        }
        (r, _) => return Err(format!("swell data of {} components: {:?}", w.parts.len(), r.map(|s| s.components.len()).map_err(|e| e.to_string()))),
    }
    Ok(())
}

pub fn c27(run: &mut Run) {
    run.rule(
        "Bulletins of up to 14 lines for any run date, up to a month ahead (every day a row can name), with 0 to 14 components per row, \
         malformed rows and a footer. Non-trivial: at least two rows.",
    );
    run.check(
        "bulletin",
        30_000,
        || (bulletin(), gaps(), any::<bool>()),
        |(b, gaps, crlf), o| {
            let (body, want) = file(&b.rows, gaps, *crlf, |r| b.row_tokens(r), |t, s| {
                match s {
                    Spoil::Date(i, alt) => {
                        t[0] = match i {
                            0 => "3205".into(),
                            1 => "0024".into(),
                            2 => "1224".into(),
                            3 => if *alt { "1".into() } else { "12x1".into() },
                            4 => "xx12".into(),
                            5 => "½12".into(),
                            _ => "0012".into(),
                        }
                    }
                    Spoil::Short(_) => t.truncate(1),
                    Spoil::Words(w) => *t = w.clone(),
                    Spoil::Value(f, w) => {
                        if t.len() < 3 {
                            return false;
                        }
                        let n = t.len() - 2;
                        t[2 + (f * n as f64) as usize] = w.clone();
                    }
                    Spoil::DropLast => {
                        if t.len() < 3 {
                            return false;
                        }
                        t.pop();
                    }
                }
                true
            }, o);
            let eol = if *crlf { "\r\n" } else { "\n" };
            let mut text = b.head(eol) + &body;
            if b.footer {
                text.push_str(&format!("{eol}HH  = Hour of Day{eol}HS  = Total Significant Wave Height (feet){eol}DDD = Mean Direction of separate system (degrees,\"from\"){eol}"));
            }
            o.nt_if(want.len() >= 2);
            o.label_if(want.iter().any(|r| b.date(r).month() != b.run.month()), "next month");
            o.label_if(want.iter().any(|r| b.date(r).year() != b.run.year()), "next year");
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(&text);
            let (meta, records) = c.records().map_err(|e| e.to_string())?;
            need_eq!(meta.model_run_date, b.run, "run date");
            need_eq!(meta.location.name, b.name, "name");
            need_close("latitude", meta.location.latitude, b.lat as f64 / 100.0, 1e-12, 1e-12)?;
            need_close("longitude", meta.location.longitude, b.lon as f64 / 100.0, 1e-12, 1e-12)?;
            let got: Vec<ForecastCBulletinWaveRecord> = records.collect();
            need_eq!(got.len(), want.len(), "records read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                check_bull_row(b, w, g).map_err(|e| format!("record {i}: {e}"))?;
            }
            Ok(())
        },
    );
    run.check(
        "bad_header",
        20_000,
        || (bulletin(), 0u8..8),
        |(b, which), o| {
            o.nt();
            let good = b.head("\n");
            let bad = match which {
                0 => good.replacen("Location", "Place", 1),
                1 => good.replacen("Cycle", "Run", 1),
                2 => good.replacen('(', "[", 1),
                3 => good.lines().take(2).collect::<Vec<_>>().join("\n"),
                4 => String::new(),
                5 => good.replacen(" UTC", "", 1).replacen(&format!("{:04}{:02}{:02}", b.run.year(), b.run.month(), b.run.day()), "20231305", 1),
                6 => good.replacen(&format!("{:04}{:02}{:02}", b.run.year(), b.run.month(), b.run.day()), "20230229", 1),
                _ => good.replacen(&format!("{:02} UTC", b.run.hour()), "25 UTC", 1).replacen(&format!(" {} UTC", b.run.hour()), " 25 UTC", 1),
            };
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(&bad);
            let r = c.records().map(|(m, r)| (m, r.count()));
            need!(r.is_err(), "a bulletin headed {bad:?} was read as {:?}", r.ok());
            Ok(())
        },
    );
}

// ---- WAVEWATCH III spectra ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WwRecord {
    date: DateTime<Utc>,
    point: (i32, i32, i32, i32, i32, i32, i32),
    e: Vec<f64>,
    /// a token of the energies, or the date, or the point line that is spoiled
    bad: Option<(u8, f64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WwFile {
    f: Vec<f64>,
    /// compass bearings the waves go towards, whole degrees
    to: Vec<i32>,
    name: String,
    points: usize,
    records: Vec<WwRecord>,
}

/// Fortran E10.3
fn e10(v: f64) -> String {
    if v == 0.0 {
        return "0.000E+00".into();
    }
    let mut e = v.abs().log10().floor() as i32 + 1;
    let mut m = (v / 10f64.powi(e) * 1000.0).round() as i64;
    if m >= 1000 {
        e += 1;
        m = (v / 10f64.powi(e) * 1000.0).round() as i64;
    }
    format!("0.{m:03}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
}

fn through(v: f64) -> f64 {
    e10(v).parse().unwrap()
}

impl WwFile {
    fn text(&self) -> String {
        let row = |v: &[f64], per: usize| -> String {
            v.chunks(per).map(|c| c.iter().map(|x| format!("{:>10}", e10(*x))).collect::<Vec<_>>().join("") + "\n").collect()
        };
        let mut s = format!("'WAVEWATCH III SPECTRA'     {:2}    {:2}    {:2} 'spectral resolution for points'\n", self.f.len(), self.to.len(), self.points);
        s += &row(&self.f, 8);
        let rad: Vec<f64> = self.to.iter().map(|d| (*d as f64).to_radians()).collect();
        s += &row(&rad, 7);
        for r in &self.records {
            let kind = r.bad.map(|b| b.0);
            if let Some((0, at)) = r.bad {
                const BAD: [&str; 12] = [
                    "20231301 060000", "20230230 060000", "20230132 060000", "20230100 060000", "20230101 240000", "20230101 066000",
                    "20230101 06", "20230101", "", "'no date'", "2023O101 060000", "2023-01-01 06:00",
                ];
                s += BAD[(at * BAD.len() as f64) as usize];
                s += "\n";
            } else {
                let (d, t) = (r.date.date_naive(), r.date.time());
                s += &format!("{:04}{:02}{:02} {:02}{:02}00\n", d.year(), d.month(), d.day(), t.hour(), t.minute());
            }
            let p = r.point;
            let d = |v: i32, n: f64| v as f64 / n;
            if kind == Some(1) {
                s += "'broken'\n";
            } else {
                s += &format!(
                    "'{:<10}'{:7.2}{:7.2}{:10.1}{:7.2}{:6.1}{:7.2}{:6.1}\n",
                    self.name, d(p.0, 100.0), d(p.1, 100.0), d(p.2, 10.0), d(p.3, 100.0), d(p.4, 10.0), d(p.5, 100.0), d(p.6, 10.0)
                );
            }
            let mut body: Vec<String> = r.e.iter().map(|v| format!("{:>11}", e10(*v))).collect();
            if let Some((2, at)) = r.bad {
                let i = (at * body.len() as f64) as usize;
                body[i] = " **********".into();
            }
            s += &body.chunks(7).map(|c| c.join("") + "\n").collect::<String>();
        }
        s
    }
}

/// A model file of one point: frequencies, bearings gone to, time steps with energies.
pub fn ww_sea(f: &[f64], to: &[i32], steps: &[(DateTime<Utc>, Vec<f64>)]) -> String {
    let records = steps
        .iter()
        .map(|(date, e)| WwRecord { date: *date, point: (4100, -7100, 500, 500, 1800, 10, 900), e: e.iter().map(|v| if *v < 1e-37 { 0.0 } else { *v }).collect(), bad: None })
        .collect();
    WwFile { f: f.to_vec(), to: to.to_vec(), name: "44097".into(), points: 1, records }.text()
}

fn ww_file() -> BoxedStrategy<WwFile> {
    let dirs = (prop_oneof![80 => 0usize..8, 1 => 8usize..12], any::<bool>(), 0i32..360).prop_map(|(i, down, start)| {
        let n = [3, 4, 8, 9, 12, 18, 24, 36, 72, 90, 120, 180][i];
        let step = 360 / n;
        (0..n).map(|k| (start + if down { -k } else { k } * step).rem_euclid(360)).collect::<Vec<i32>>()
    });
    (prop_oneof![60 => crate::c_spec::freqs(3, 26), 1 => (27i32..=130, 0.03..0.045f64, 1.03..1.05f64).prop_map(|(n, f, x)| (0..n).map(|i| f * x.powi(i)).collect())], dirs, "[A-Z0-9_]{1,10}", prop_oneof![9 => 1usize..4, 1 => 4usize..300])
        .prop_flat_map(|(f, to, name, points)| {
            // the model keeps single precision
            let e = crate::c_spec::energies(f.len(), to.len())
                .prop_map(|e| e.into_iter().map(|v| if v < 1e-37 { 0.0 } else { v }).collect::<Vec<f64>>());
            let point = (or_zero(-9000..=9000), or_zero(-18000..=36000), or_zero(1..=60_000), or_zero(0..=6000), or_zero(0..=3600), or_zero(0..=400), or_zero(0..=3600));
            let rec = (minute(), point, e, prop_oneof![4 => Just(None), 1 => (0u8..3, 0.0..1.0f64).prop_map(Some)])
                .prop_map(|(date, point, e, bad)| WwRecord { date, point, e, bad });
            (Just(f), Just(to), Just(name), Just(points), long(prop::collection::vec(rec, 0..4), 200, 150))
        })
        .prop_map(|(f, to, name, points, records)| WwFile { f, to, name, points, records })
        .boxed()
}

pub fn c28(run: &mut Run) {
    run.rule(
        "Model output of up to 3 time steps for 3-26 (sometimes up to 130) frequencies and 3-36 (sometimes up to 180) directions in either order, with \
         unreadable dates, points and energies. Non-trivial: at least one record with energy.",
    );
    run.assume("Directions are whole degrees, as the records keep them.");
    run.check(
        "spectral_file",
        12_000,
        ww_file,
        |w, o| {
            let text = w.text();
            let want: Vec<&WwRecord> = w.records.iter().filter(|r| r.bad.is_none()).collect();
            o.nt_if(want.iter().any(|r| r.e.iter().any(|e| *e > 0.0)));
            o.label_if(want.len() >= 2, "several time steps");
            o.label_if(want.len() < w.records.len() && !want.is_empty(), "beside a malformed record");
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
            let (meta, records) = c.records().map_err(|e| e.to_string())?;
            need_eq!(meta.frequency, w.f.iter().map(|v| through(*v)).collect::<Vec<_>>(), "frequencies");
            need_eq!(meta.direction.len(), w.to.len(), "directions");
            need_eq!(meta.point_count, w.points, "points");
            let got: Vec<ForecastSpectralWaveDataRecord> = records.collect();
            need_eq!(got.len(), want.len(), "records");
            let reference = w.records.iter().find(|r| r.bad.is_none_or(|b| b.0 != 0)).map(|r| r.date);
            for (i, (g, r)) in got.iter().zip(&want).enumerate() {
                need_eq!(g.date, r.date, "date of record {i}");
                need_eq!(Some(g.reference_date), reference, "reference date of record {i}");
                let p = r.point;
                need_close("latitude", g.location.latitude, p.0 as f64 / 100.0, 1e-12, 0.0)?;
                need_close("longitude", g.location.longitude, p.1 as f64 / 100.0, 1e-12, 0.0)?;
                for (what, d, v, u) in [
                    ("depth", &g.depth, p.2 as f64 / 10.0, Unit::Meters),
                    ("wind speed", &g.wind_speed, p.3 as f64 / 100.0, Unit::MetersPerSecond),
                    ("current speed", &g.current_speed, p.5 as f64 / 100.0, Unit::MetersPerSecond),
                ] {
                    need_close(what, d.value.ok_or(format!("no {what}"))?, v, 1e-12, 0.0)?;
                    need_eq!(d.unit, u, "{what}: unit");
                }
                for (what, d, v) in [("wind direction", &g.wind_direction, p.4), ("current direction", &g.current_direction, p.6)] {
                    let deg = d.value.as_ref().ok_or(format!("no {what}"))?.degrees;
                    need!((deg as f64 - v as f64 / 10.0).abs() <= 0.5 + 1e-9, "{what}: {deg} instead of {}", v as f64 / 10.0);
                }
                need_eq!(g.spectra.frequency, meta.frequency, "frequencies of record {i}");
                let e: Vec<f64> = r.e.iter().map(|v| through(*v)).collect();
                need_eq!(g.spectra.energy, e, "energies of record {i}");
                // the bearing the waves come from is opposite to where they go
                for (t, deg) in w.to.iter().zip(g.spectra.direction_deg()) {
                    need!(circ_diff(deg, *t as f64 + 180.0) < 1e-6, "waves going towards {t} come from {deg}");
                }
            }
            Ok(())
        },
    );
    run.check(
        "swell_data",
        6_000,
        || ww_file().prop_filter("records", |w| !w.records.is_empty()),
        |w, o| {
            let mut w = w.clone();
            // the model's own order: anticlockwise from the first direction north of east
            let n = w.to.len() as i32;
            let first = w.to[0] % (360 / n);
            w.to = (0..n).map(|k| (90 - first - k * (360 / n)).rem_euclid(360)).collect();
            w.records.iter_mut().for_each(|r| r.bad = None);
            let text = w.text();
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
            let (_, records) = c.records().map_err(|e| e.to_string())?;
            for g in records {
                let got = g.swell_data().map_err(|e| e.to_string())?;
                // angles from east the waves go to
                let d: Vec<f64> = (0..n).map(|k| ((first + k * (360 / n)) as f64).to_radians()).collect();
                let s = Spec { f: g.spectra.frequency.clone(), d, e: g.spectra.energy.clone(), conv: 2 };
                let (map, count) = g.spectra.partition(100, None).map_err(|e| format!("{e:?}"))?;
                check_summary(&s, &map, count, &got, o)?;
            }
            Ok(())
        },
    );
    run.check(
        "bad_header",
        12_000,
        || (ww_file(), 0u8..5, 0.0..1.0f64),
        |(w, which, at), o| {
            o.nt();
            let good = w.text();
            let bad = match which {
                0 => good.replacen("'WAVEWATCH III SPECTRA'", "'SPECTRA'", 1),
                1 => good.replacen("'WAVEWATCH III SPECTRA'", "'WAVEWATCH III SPECTRA' x ", 1),
                2 => String::new(),
                3 => good.lines().take(1).collect::<Vec<_>>().join("\n"),
                _ => {
                    // cut inside the axes
                    let head = 1 + w.f.len().div_ceil(8) + w.to.len().div_ceil(7);
                    let n = 1 + (at * (head - 1) as f64) as usize;
                    good.lines().take(n.min(head - 1)).collect::<Vec<_>>().join("\n")
                }
            };
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&bad);
            need!(c.records().is_err(), "a file starting {:?} was read", bad.lines().next());
            Ok(())
        },
    );
}

// ---- GRIB indexes ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdxRow {
    index: usize,
    offset: usize,
    date: DateTime<Utc>,
    var: String,
    level: String,
    valid: String,
    /// further columns, such as the ensemble member
    more: Vec<String>,
    trailing: bool,
}

impl IdxRow {
    fn text(&self) -> String {
        let d = self.date;
        format!(
            "{}:{}:d={:04}{:02}{:02}{:02}:{}:{}:{}{}{}",
            self.index, self.offset, d.year(), d.month(), d.day(), d.hour(), self.var, self.level, self.valid,
            self.more.iter().map(|m| format!(":{m}")).collect::<String>(),
            if self.trailing { ":" } else { "" }
        )
    }
    fn check(&self, g: &GribIndexRecord) -> Result<(), String> {
        need_eq!((g.index, g.offset), (self.index, self.offset), "message and offset");
        need_eq!(g.reference_date, self.date, "reference date");
        need_eq!((&g.var, &g.level, &g.valid), (&self.var, &self.level, &self.valid), "variable, level, validity");
        Ok(())
    }
}

const VARIABLES: [&str; 14] =
    ["WIND", "WDIR", "UGRD", "VGRD", "HTSGW", "PERPW", "DIRPW", "WVHGT", "WVPER", "WVDIR", "SWELL", "SWPER", "SWDIR", "ICEC"];
const LEVELS: [&str; 12] = [
    "surface", "1 in sequence", "2 in sequence", "3 in sequence", "no level", "mean sea level", "10 m above ground", "2 m above ground",
    "500 mb", "0-0.1 m below ground", "entire atmosphere (considered as a single layer)", "reserved",
];
const VALIDITIES: [&str; 8] =
    ["anl", "1 hour fcst", "120 hour fcst", "384 hour fcst", "0-6 hour ave fcst", "0-1 day acc fcst", "5 min fcst", "missing"];

fn idx_row() -> BoxedStrategy<IdxRow> {
    let phrase = || "[A-Za-z0-9=(,)-]{1,10}( [A-Za-z0-9.>/()+%,_'\"-]{1,8}){0,3}";
    // what the services write, and anything else
    let level = prop_oneof![3 => phrase(), 1 => prop::sample::select(LEVELS.to_vec()).prop_map(str::to_string)];
    let valid = prop_oneof![3 => phrase(), 1 => prop::sample::select(VALIDITIES.to_vec()).prop_map(str::to_string)];
    let var = prop_oneof![3 => "[A-Z0-9_]{1,10}", 1 => prop::sample::select(VARIABLES.to_vec()).prop_map(str::to_string)];
    (1usize..100_000, prop_oneof![0usize..1_000_000_000, 4_000_000_000usize..9_000_000_000], hour(), var, level, valid, prop::collection::vec(prop_oneof!["ENS=(low-res ctl|[+-][0-9]{1,2})", phrase()], 0..3), any::<bool>())
        .prop_map(|(index, offset, date, var, level, valid, more, trailing)| IdxRow { index, offset, date, var, level, valid, more, trailing })
        .boxed()
}

pub fn c29(run: &mut Run) {
    run.rule(
        "Indexes of up to 16 lines with offsets beyond 4 GB, comments, blank and malformed lines. Non-trivial: \
         at least two messages.",
    );
    run.check(
        "index",
        40_000,
        || (long(prop::collection::vec(line(idx_row()), 0..16), 150, 1500), any::<bool>()),
        |(lines, crlf), o| {
            let eol = if *crlf { "\r\n" } else { "\n" };
            let mut text = String::new();
            let mut want = vec![];
            for l in lines {
                match l {
                    Line::Row(r) | Line::Longer(r, _) => {
                        text += &r.text();
                        want.push(r);
                    }
                    Line::Spoiled(r, s) => {
                        o.label("malformed line");
                        let t = r.text();
                        let mut p: Vec<String> = t.split(':').map(|s| s.to_string()).collect();
                        match s {
                            Spoil::Date(i, _) => {
                                p[2] = ["d=2023130100", "d=2023023000", "2023010100", "d=2023010125", "d=20230101", "d=", "d=20230101xx"][*i as usize].into()
                            }
                            Spoil::Short(f) => p.truncate(1 + (f * 4.99) as usize),
                            Spoil::Words(w) => p = vec![w.join(" ")],
                            Spoil::Value(f, w) => p[(*f * 2.0) as usize] = w.replace(':', "x"),
                            Spoil::DropLast => p.truncate(5),
                        }
                        if matches!(s, Spoil::Words(_)) {
                            p[0] = p[0].replace(':', " ");
                        }
                        text += &p.join(":");
                    }
                    Line::Comment(c) => text += &format!("#{c}"),
                    Line::Blank => {}
                }
                text += eol;
            }
            o.nt_if(want.len() >= 2);
            let mut c = GribIndexRecordCollection::from_data(&text);
            let got: Vec<GribIndexRecord> = c.records().collect();
            need_eq!(got.len(), want.len(), "messages read from {text:?}");
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                w.check(g).map_err(|e| format!("message {i}: {e}"))?;
            }
            Ok(())
        },
    );
}

// ---- NWS forecasts ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Period {
    start: DateTime<Utc>,
    minutes: i64,
    offset: i32,
    day: bool,
    temp: f64,
    dew: Option<f64>,
    humid: Option<f64>,
    rain: Option<f64>,
    wind: (u8, Option<u8>),
    dir: usize,
    trend: Option<String>,
    texts: (String, String, String),
}

impl Period {
    fn json(&self, i: usize) -> serde_json::Value {
        let zone = FixedOffset::east_opt(self.offset * 900).unwrap();
        let at = |m: i64| (self.start + Duration::minutes(m)).with_timezone(&zone).to_rfc3339();
        let wind = match self.wind {
            (a, Some(b)) => format!("{a} to {b} mph"),
            (a, None) => format!("{a} mph"),
        };
        serde_json::json!({
            "number": i + 1, "name": "Tonight", "startTime": at(0), "endTime": at(self.minutes), "isDaytime": self.day,
            "temperature": self.temp, "temperatureUnit": "F", "temperatureTrend": self.trend,
            "probabilityOfPrecipitation": {"unitCode": "wmoUnit:percent", "value": self.rain},
            "dewpoint": {"unitCode": "wmoUnit:degC", "value": self.dew},
            "relativeHumidity": {"unitCode": "wmoUnit:percent", "value": self.humid},
            "windSpeed": wind, "windDirection": if self.dir < 16 { COMPASS[self.dir] } else { "" },
            "icon": self.texts.0, "shortForecast": self.texts.1, "detailedForecast": self.texts.2,
        })
    }
}

fn period() -> BoxedStrategy<Period> {
    (
        (minute(), prop_oneof![6 => (1i64..13).prop_map(|h| 60 * h), 2 => 0i64..60, 2 => -3000i64..30_000], -48i32..=56, any::<bool>(), fl(-40.0, 120.0)),
        (prop::option::of(prop_oneof![8 => fl(-40.0, 35.0), 1 => Just(0.0)]), prop::option::of(prop_oneof![9 => 0u8..=100, 1 => 101u8..=130].prop_map(|v| v as f64)), prop::option::of((0u8..=100).prop_map(|v| v as f64))),
        ((0u8..80), prop::option::of(0u8..90), 0usize..17, prop::option::of("[a-z]{0,7}")),
        ("\\PC{0,12}", "\\PC{0,12}", "\\PC{0,20}"),
    )
        .prop_map(|((start, minutes, offset, day, temp), (dew, humid, rain), (w0, w1, dir, trend), texts)| Period {
            start, minutes, offset, day, temp, dew, humid, rain, wind: (w0, w1), dir, trend, texts,
        })
        .boxed()
}

fn weather_json(periods: &[Period]) -> serde_json::Value {
    serde_json::json!({
        "type": "Feature",
        "properties": {
            "units": "us", "forecastGenerator": "HourlyForecastGenerator",
            "generatedAt": "2024-09-14T18:15:07+00:00", "updateTime": "2024-09-14T16:53:19+00:00",
            "elevation": {"unitCode": "wmoUnit:m", "value": 0.0},
            "periods": periods.iter().enumerate().map(|(i, p)| p.json(i)).collect::<Vec<_>>(),
        }
    })
}

pub fn c30(run: &mut Run) {
    run.rule(
        "Forecasts of up to 6 periods with any zone offset, wind ranges, missing values and texts. \
         Non-trivial: at least two periods.",
    );
    run.check(
        "forecast",
        30_000,
        || (long(prop::collection::vec(period(), 0..6), 150, 400), any::<bool>()),
        |(periods, pretty), o| {
            let v = weather_json(periods);
            let text = if *pretty { serde_json::to_string_pretty(&v) } else { serde_json::to_string(&v) }.unwrap();
            o.nt_if(periods.len() >= 2);
            let c = NwsWeatherForecastDataRecordCollection::from_json(&text).map_err(|e| e.to_string())?;
            let got = c.records();
            need_eq!(got.len(), periods.len(), "periods");
            for (g, p) in got.iter().zip(periods) {
                need_eq!((g.start_time, g.end_time), (p.start, p.start + Duration::minutes(p.minutes)), "start and end");
                need_eq!(g.is_daytime, p.day, "daytime");
                let near = |a: Option<f64>, b: Option<f64>| match (a, b) {
                    (Some(a), Some(b)) => close(a, b, 1e-14, 0.0),
                    (a, b) => a == b,
                };
                need!(near(g.temperature.value, Some(p.temp)), "temperature {:?} instead of {}", g.temperature.value, p.temp);
                need_eq!(g.temperature.unit, Unit::Fahrenheit, "temperature unit");
                need!(near(g.dewpoint.value, p.dew), "dewpoint {:?} instead of {:?}", g.dewpoint.value, p.dew);
                need_eq!(g.dewpoint.unit, Unit::Celsius, "dewpoint unit");
                need!(near(g.humidity.value, p.humid), "humidity {:?} instead of {:?}", g.humidity.value, p.humid);
                need_eq!(g.humidity.unit, Unit::Percent, "humidity unit");
                need_eq!(g.wind_speed.value, Some(p.wind.0 as f64), "wind speed");
                need_eq!(g.wind_speed.unit, Unit::MilesPerHour, "wind speed unit");
                o.label_if(p.wind.1.is_some(), "wind range");
                o.label_if(p.dew.is_none() || p.humid.is_none() || p.rain.is_none(), "missing value");
                same_bearing("wind direction", &g.wind_direction, if p.dir < 16 { COMPASS[p.dir] } else { "" })?;
                need_eq!((&g.icon, &g.short_forecast, &g.detailed_forecast), (&p.texts.0, &p.texts.1, &p.texts.2), "texts");
            }
            Ok(())
        },
    );
    run.check(
        "malformed",
        20_000,
        || (repeats(prop::collection::vec(period(), 1..3)), 0u8..6, 0.0..1.0f64),
        |(periods, which, at), o| {
            o.nt();
            let mut v = weather_json(periods);
            let p = &mut v["properties"]["periods"][0];
            match which {
                0 => p["startTime"] = "yesterday".into(),
                1 => p["temperature"] = "warm".into(),
                2 => drop(p.as_object_mut().unwrap().remove("windSpeed")),
                3 => p["isDaytime"] = 3.into(),
                4 => drop(v.as_object_mut().unwrap().remove("properties")),
                _ => {
                    let t = serde_json::to_string(&v).unwrap();
                    let mut n = (at * t.len() as f64) as usize;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    need!(NwsWeatherForecastDataRecordCollection::from_json(&t[..n]).is_err(), "half a document was accepted");
                    return Ok(());
                }
            }
            let t = serde_json::to_string(&v).unwrap();
            need!(NwsWeatherForecastDataRecordCollection::from_json(&t).is_err(), "malformed forecast {which} was accepted");
            Ok(())
        },
    );
    run.check(
        "grid_point",
        20_000,
        || ("[A-Z]{3}", 0usize..400, 0usize..400),
        |(office, x, y), o| {
            o.nt();
            let text = serde_json::json!({"id": "x", "properties": {"gridId": office, "gridX": x, "gridY": y, "forecast": "u"}}).to_string();
            let g = NwsGridPointData::from_json(&text).map_err(|e| e.to_string())?;
            need_eq!((&g.properties.grid_id, g.properties.grid_x, g.properties.grid_y), (office, *x, *y), "office and grid cell");
            let again = NwsGridPointData::from_json(&serde_json::to_string(&g).unwrap()).map_err(|e| e.to_string())?;
            need_eq!(format!("{again:?}"), format!("{g:?}"), "through JSON");
            Ok(())
        },
    );
}

// ---- tides ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tide {
    date: DateTime<Utc>,
    value: i32,
    number: bool,
    kind: u8,
}

impl Tide {
    fn json(&self) -> serde_json::Value {
        let v = self.value as f64 / 1000.0;
        let mut j = serde_json::json!({"t": self.date.format("%Y-%m-%d %H:%M").to_string()});
        j["v"] = if self.number { v.into() } else { format!("{v:.3}").into() };
        match self.kind {
            1 => j["type"] = "H".into(),
            2 => j["type"] = "L".into(),
            _ => {}
        }
        j
    }
    fn check(&self, g: &TidalDataRecord) -> Result<(), String> {
        need_eq!(g.date, self.date, "time");
        need_close("level", g.value, self.value as f64 / 1000.0, 1e-14, 0.0)?;
        need_eq!(g.event, [None, Some(TidalEvent::High), Some(TidalEvent::Low)][self.kind as usize], "high or low");
        Ok(())
    }
}

fn tide() -> BoxedStrategy<Tide> {
    (minute(), prop_oneof![9 => or_zero(-20_000..=20_000), 1 => (-20i32..=20).prop_map(|v| v * 1000)], any::<bool>(), 0u8..3)
        .prop_map(|(date, value, number, kind)| Tide { date, value, number, kind })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TidePlace {
    id: String,
    name: String,
    state: String,
    reference: String,
    lat: i32,
    lng: i32,
}

fn tide_place() -> BoxedStrategy<TidePlace> {
    (prop_oneof![4 => "[0-9A-Z]{1,7}", 1 => "[0-9A-Za-c]{1,2}", 1 => "0{0,2}[1-3]"], "\\PC{0,14}", "[A-Z]{0,2}", "[0-9]{0,7}", or_zero(-90_000..=90_000), or_zero(-180_000..=180_000))
        .prop_map(|(id, name, state, reference, lat, lng)| TidePlace { id, name, state, reference, lat, lng })
        .boxed()
}

pub fn c31(run: &mut Run) {
    run.rule(
        "Predictions of up to 12 entries with levels as text or numbers, lists of up to 12 stations with \
         colliding ids, any names. Non-trivial: at least two entries.",
    );
    run.check(
        "predictions",
        40_000,
        || long(prop::collection::vec(tide(), 0..12), 150, 1200),
        |tides, o| {
            o.nt_if(tides.len() >= 2);
            o.label_if(tides.iter().any(|t| t.kind > 0), "high and low water");
            let text = serde_json::json!({"predictions": tides.iter().map(Tide::json).collect::<Vec<_>>()}).to_string();
            let c = TidalDataRecordCollection::from_json(&text).map_err(|e| e.to_string())?;
            need_eq!(c.records.len(), tides.len(), "entries");
            for (g, w) in c.records.iter().zip(tides) {
                w.check(g)?;
            }
            let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
            let again = TidalDataRecordCollection::from_json(&text).map_err(|e| e.to_string())?;
            need_eq!(again.records.len(), tides.len(), "entries through JSON");
            for (g, w) in again.records.iter().zip(tides) {
                w.check(g).map_err(|e| format!("through JSON: {e}"))?;
            }
            Ok(())
        },
    );
    run.check(
        "malformed",
        20_000,
        || {
            let time = prop_oneof![
                (0u32..24, 60u32..100).prop_map(|(h, m)| format!("2023-03-02 {h:02}:{m:02}")),
                (24u32..100, 0u32..60).prop_map(|(h, m)| format!("2023-03-02 {h:02}:{m:02}")),
                (1u32..13, 32u32..100).prop_map(|(m, d)| format!("2023-{m:02}-{d:02} 21:06")),
                prop::sample::select(vec!["2023-00-02 21:06", "2023-13-02 21:06", "2023-02-29 21:06", "2023-04-31 00:00", "2023-01-00 00:00", "", "21:06", "2023-03-02", "yesterday", "2023/03/02 21:06", "2023-03-02 21"]).prop_map(String::from),
            ];
            let level = prop::sample::select(vec!["high", "", "-", "1.2.3", "1,5", "1.0 ft", "--1", "N/A", "one"]).prop_map(String::from);
            let kind = prop::sample::select(vec!["X", "h", "l", "HH", "LL", "", "High", "Low", "H ", "null"]).prop_map(String::from);
            (tide(), 0u8..7, time, level, kind)
        },
        |(t, which, time, level, kind), o| {
            o.nt();
            let mut j = t.json();
            match which {
                0 | 1 => j["t"] = time.clone().into(),
                2 => j["v"] = level.clone().into(),
                3 => j["v"] = serde_json::Value::Null,
                4 => j["type"] = kind.clone().into(),
                5 => drop(j.as_object_mut().unwrap().remove("v")),
                _ => drop(j.as_object_mut().unwrap().remove("t")),
            }
            let text = serde_json::json!({ "predictions": [j] }).to_string();
            need!(TidalDataRecordCollection::from_json(&text).is_err(), "{text} was accepted");
            Ok(())
        },
    );
    run.check(
        "stations",
        30_000,
        || (long(prop::collection::vec(tide_place(), 0..12), 150, 800), any::<u16>(), "[0-9A-Z]{1,7}"),
        |(places, pick, other), o| {
            o.nt_if(places.len() >= 2);
            let coord = |v: i32| v as f64 / 1000.0;
            let json: Vec<_> = places
                .iter()
                .map(|p| serde_json::json!({"id": p.id, "name": p.name, "lat": coord(p.lat), "lng": coord(p.lng), "state": p.state, "reference_id": p.reference, "type": "R", "products": null}))
                .collect();
            let text = serde_json::json!({"count": places.len(), "units": null, "stations": json}).to_string();
            let s = TideStations::from_raw_data(&text);
            need_eq!((s.station_count, s.stations.len()), (places.len(), places.len()), "stations");
            for (g, p) in s.stations.iter().zip(places) {
                need_eq!((&g.station_id, &g.name, &g.state, &g.reference_id), (&p.id, &p.name, &p.state, &p.reference), "station");
                need_close("latitude", g.latitude, coord(p.lat), 1e-14, 0.0)?;
                need_close("longitude", g.longitude, coord(p.lng), 1e-14, 0.0)?;
                need_eq!((g.id(), Station::name(g)), (p.id.as_str(), p.name.clone()), "id and name");
                let l = g.location();
                need_eq!((l.latitude, l.longitude, &l.name), (g.latitude, g.longitude, &p.name), "location");
                let f = serde_json::to_value(g.as_feature()).map_err(|e| e.to_string())?;
                need_eq!(f["geometry"]["type"], "Point", "geometry");
                need_eq!(f["geometry"]["coordinates"], serde_json::json!([g.longitude, g.latitude]), "coordinates");
                need_eq!(f["properties"], serde_json::json!({"id": p.id, "name": p.name, "state": p.state}), "properties");
                let made = TideStation::new(&p.id, &Location::new(coord(p.lat), coord(p.lng), p.name.clone()), &p.state);
                need_eq!((&made.station_id, &made.name, &made.state, made.latitude, made.longitude), (&p.id, &p.name, &p.state, coord(p.lat), coord(p.lng)), "new station");
            }
            let wanted = if places.is_empty() || pick % 4 == 0 {
                other.clone()
            } else {
                let id = places[*pick as usize / 16 % places.len()].id.clone();
                // near misses: another case, padded, longer, shorter, with leading zeros
                match pick / 4 % 12 {
                    0 => id.to_lowercase(),
                    1 => format!(" {id}"),
                    2 => format!("{id} "),
                    3 => format!("{id}0"),
                    4 => id[..id.len() - 1].to_string(),
                    5 => format!("0{id}"),
                    _ => id,
                }
            };
            let found = s.find_station_by_id(&wanted);
            let want = places.iter().find(|p| p.id == wanted);
            o.label_if(want.is_some(), "found");
            need_eq!(found.as_ref().map(|f| (&f.station_id, &f.name)), want.map(|p| (&p.id, &p.name)), "station {wanted}");
            let list = TideStations::from_stations(s.stations.clone());
            need_eq!((list.station_count, list.stations.len()), (places.len(), places.len()), "stations in a list");
            let again = TideStations::from_raw_data(&serde_json::to_string(&s).map_err(|e| e.to_string())?);
            same_debug("stations through JSON", &again, &s)
        },
    );
}

// ---- anything through JSON ----------------------------------------------------------------------

/// Debug forms that differ at most in the last digits of numbers.
pub fn same_debug<T: Debug>(what: &str, a: &T, b: &T) -> Result<(), String> {
    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
    if a == b {
        return Ok(());
    }
    let split = |s: &str| -> Vec<String> {
        let mut out = vec![String::new()];
        let mut num = false;
        for c in s.chars() {
            let n = c.is_ascii_digit() || ((c == '.' || c == '-' || c == 'e' || c == 'E') && num) || (c == '-' && !num);
            if n != num {
                out.push(String::new());
                num = n;
            }
            out.last_mut().unwrap().push(c);
        }
        out
    };
    let (x, y) = (split(&a), split(&b));
    let equal = x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| {
            p == q || matches!((p.parse::<f64>(), q.parse::<f64>()), (Ok(u), Ok(v)) if p.contains(['.', 'e']) == q.contains(['.', 'e']) && close(u, v, 1e-14, 0.0))
        });
    need!(equal, "{what}: {a} instead of {b}");
    Ok(())
}

fn json_trip<T: Serialize + DeserializeOwned + Debug>(what: &str, v: &T) -> Result<(), String> {
    let text = serde_json::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{what}: {e} in {text}"))?;
    same_debug(&format!("{what} through JSON"), &back, v)
}

pub fn c33(run: &mut Run) {
    run.rule("Records of every kind read from generated files. Non-trivial: a record with a present and, where possible, a missing value.");
    run.check(
        "buoy_records",
        40_000,
        || (wave_row(), spec_row()),
        |(w, s), o| {
            o.nt();
            let (t, u) = (w.tokens(), s.tokens());
            let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
            let u: Vec<&str> = u.iter().map(|x| x.as_str()).collect();
            let r = WaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?;
            o.label_if(r.wave_height.value.is_none(), "missing value");
            json_trip("wave record", &r)?;
            json_trip("spectral record", &SpectralWaveDataRecord::from_data_row(None, &u).map_err(|e| e.to_string())?)?;
            json_trip("summary of a wave record", &r.swell_data().map_err(|e| e.to_string())?)?;
            let v = serde_json::to_value(&r).unwrap();
            need_eq!(v["wave_height"]["unit_label"], "m", "unit label in JSON");
            need_eq!(v["wave_height"]["value"].as_f64(), r.wave_height.value, "value in JSON");
            Ok(())
        },
    );
    run.check(
        "forecasts",
        8_000,
        || (bulletin(), ww_file(), prop::collection::vec(period(), 0..3)),
        |(b, w, p), o| {
            let rows: Vec<String> = b
                .rows
                .iter()
                .filter_map(|l| if let Line::Row(r) = l { Some(spaced(&b.row_tokens(r), &[0])) } else { None })
                .collect();
            let text = b.head("\n") + &rows.join("\n");
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(&text);
            let (meta, records) = c.records().map_err(|e| e.to_string())?;
            json_trip("bulletin metadata", &meta)?;
            for r in records {
                o.nt();
                json_trip("bulletin record", &r)?;
            }
            let text = w.text();
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
            let (meta, records) = c.records().map_err(|e| e.to_string())?;
            json_trip("spectral metadata", &meta)?;
            for r in records {
                o.nt();
                json_trip("spectral record", &r)?;
                json_trip("swell of a spectral record", &r.swell_data().map_err(|e| e.to_string())?)?;
            }
            let c = NwsWeatherForecastDataRecordCollection::from_json(&weather_json(p).to_string()).map_err(|e| e.to_string())?;
            json_trip("weather forecast", &c)?;
            for r in c.records() {
                json_trip("weather record", &r)?;
            }
            Ok(())
        },
    );
    run.check(
        "values",
        60_000,
        || (unit(), prop::option::of(wide()), -720i32..=720, system(), idx_row(), prop::option::of(any::<u16>()), 0u8..5),
        |(u, v, d, sys, idx, part, steep), o| {
            o.nt_if(v.is_some());
            json_trip("unit", u)?;
            json_trip("unit system", sys)?;
            json_trip("direction", &Direction::from_degrees(*d))?;
            json_trip("compass point", &CardinalDirection::from_degrees(d))?;
            let s = [Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA][*steep as usize].clone();
            json_trip("steepness", &s)?;
            need_eq!(s.to_string().parse::<Steepness>().ok(), Some(s), "steepness through text");
            let data = DimensionalData { value: *v, variable_name: "x".into(), unit: u.clone() };
            json_trip("measurement", &data)?;
            let swell = Swell::new(sys, v.unwrap_or(0.0), 8.5, Direction::from_degrees(*d), *v, v.map(|v| v * 2.0), part.map(|p| p as usize));
            json_trip("swell", &swell)?;
            json_trip("summary", &SwellSummary { summary: swell.clone(), components: vec![swell.clone(), swell] })?;
            let t = idx.text();
            let r = GribIndexRecord::from_data_row(None, &t.split(':').collect()).map_err(|e| e.to_string())?;
            json_trip("index entry", &r)
        },
    );
}

// ---- arbitrary text --------------------------------------------------------------------------

/// A mostly valid file with a few edits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit {
    at: f64,
    kind: u8,
    text: String,
}

fn edits() -> BoxedStrategy<Vec<Edit>> {
    prop::collection::vec(
        (0.0..1.0f64, 0u8..6, prop_oneof!["\\PC{0,6}", "[0-9 .:()\"'#-]{0,8}", Just("\n".to_string()), Just("\u{0}".to_string()), Just("NaN".to_string()), Just("1e400".to_string()), Just("99999999999999999999".to_string())])
            .prop_map(|(at, kind, text)| Edit { at, kind, text }),
        0..8,
    )
    .boxed()
}

fn apply(mut s: String, edits: &[Edit]) -> String {
    for e in edits {
        let pos = |f: f64, s: &str| {
            let mut n = (f * s.len() as f64) as usize;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            n
        };
        let at = pos(e.at, &s);
        match e.kind {
            0 => s.insert_str(at, &e.text),
            1 => s.truncate(at),
            2 => {
                // delete one character
                if at < s.len() {
                    s.remove(at);
                }
            }
            3 => {
                // replace the token around it
                let a = s[..at].rfind(char::is_whitespace).map_or(0, |i| i + s[i..].chars().next().unwrap().len_utf8());
                let b = s[at..].find(char::is_whitespace).map_or(s.len(), |i| at + i);
                s.replace_range(a..b, &e.text);
            }
            4 => {
                // drop the line around it
                let a = s[..at].rfind('\n').map_or(0, |i| i + 1);
                let b = s[at..].find('\n').map_or(s.len(), |i| at + i + 1);
                s.replace_range(a..b, "");
            }
            _ => {
                // repeat what follows
                let tail = s[at..].chars().take(200).collect::<String>();
                s.insert_str(at, &tail);
            }
        }
    }
    s
}

/// What a record gives for its swells, in both units.
fn swells<T: SwellProvider + UnitConvertible + Clone>(r: &T, o: &mut Obs) {
    let mut r = r.clone();
    for units in [UnitSystem::Metric, UnitSystem::English] {
        r.to_units(&units);
        if let Ok(s) = r.swell_data() {
            o.label_if(s.filtered_components().len() < s.components.len(), "mirror images left out");
            let now = Utc.with_ymd_and_hms(2023, 12, 31, 18, 0, 0).unwrap();
            let steps = [(now, s.components.clone()), (now + Duration::hours(1), s.components.clone())];
            track_partitions(&steps, 30.0, 1e6);
            for c in s.components.iter().chain([&s.summary]) {
                let _ = estimate_breaking_wave_height(c, 90.0, 0.02, 30.0);
                let _ = c.to_string();
            }
        } else {
            o.label("no swells");
        }
    }
}

/// A model file on a grid of any size, with words and extreme numbers among its values.
fn odd_file() -> BoxedStrategy<String> {
    let number = || {
        prop_oneof![
            12 => (0i32..2000).prop_map(|v| format!("{:.3E}", v as f64 / 1000.0)),
            2 => (0usize..12).prop_map(|i| ["NaN", "inf", "-inf", "-1.0E+00", "1e400", "1e-400", "0", "-0.0", "1E308", "***", "x", "9.99E+36"][i].to_string()),
        ]
    };
    let rising = |n: usize, odd: Option<(usize, String)>, from: f64, step: f64| {
        let mut v: Vec<String> = (0..n).map(|i| format!("{:.3E}", from + step * i as f64)).collect();
        if let Some((i, t)) = odd {
            if n > 0 {
                v[i % n] = t;
            }
        }
        v.join(" ")
    };
    (0usize..5, 0usize..6)
        .prop_flat_map(move |(nf, nd)| {
            let one = || prop_oneof![3 => Just(None), 1 => (0usize..6, number()).prop_map(Some), 1 => (0usize..6).prop_map(|i| Some((i, "1e400".to_string())))];
            (Just(nf), Just(nd), one(), one(), prop::collection::vec((prop::collection::vec(number(), nf * nd), prop::collection::vec(number(), 7)), 1..3))
        })
        .prop_map(move |(nf, nd, of, od, records)| {
            let mut t = format!("'WAVEWATCH III SPECTRA'     {nf}    {nd}     1 'spectral resolution for points'\n");
            t += &(rising(nf, of, 0.035, 0.01) + "\n");
            t += &(rising(nd, od, 0.1, 6.2 / nd.max(1) as f64) + "\n");
            for (i, (e, p)) in records.iter().enumerate() {
                t += &format!("20231230 {:02}0000\n'44097     '  {} {} {} {} {} {} {}\n", i, p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
                for l in e.chunks(7) {
                    t += &(l.join(" ") + "\n");
                }
            }
            t
        })
        .boxed()
}

fn feed(text: &str, o: &mut Obs) -> Result<(), String> {
    let lines = text.lines().count();
    let n = WaveDataRecordCollection::from_data(text).records().inspect(|r| swells(r, o)).count();
    need!(n <= lines + 1, "{n} wave records from {lines} lines");
    o.label_if(n > 0, "wave rows");
    let n = SpectralWaveDataRecordCollection::from_data(text).records().count();
    need!(n <= lines + 1, "{n} spectral records from {lines} lines");
    o.label_if(n > 0, "spectral rows");
    let n = GribIndexRecordCollection::from_data(text).records().count();
    need!(n <= lines + 1, "{n} messages from {lines} lines");
    o.label_if(n > 0, "index lines");
    if let Ok((_, r)) = ForecastCBulletinWaveRecordCollection::from_data(text).records() {
        let n = r.inspect(|r| swells(r, o)).count();
        need!(n <= lines + 1, "{n} bulletin records from {lines} lines");
        o.label_if(n > 0, "bulletin");
    }
    if let Ok((m, r)) = ForecastSpectralWaveDataRecordCollection::from_data(text).records() {
        let bins = m.frequency.len() * m.direction.len();
        let mut n = 0;
        for r in r {
            n += 1;
            need_eq!(r.spectra.energy.len(), bins, "energies of a model record");
            swells(&r, o);
            let s = &r.spectra;
            let _ = (s.direction_deg(), s.energy_indices(), s.period());
            let finite = |v: &[f64]| v.iter().all(|x| x.is_finite() && x.abs() < 1e30);
            if n <= 2 && s.nk() > 1 && s.nth() > 1 && finite(&s.energy) && finite(&s.frequency) && finite(&s.direction_deg()) {
                let _ = (s.energy_range(), s.dk(), s.dth(), s.mean_wave_direction_f(), s.mom_f(1), s.mom_d(1));
                let _ = (s.project_cartesian(&s.energy, 9, None, None), s.interp_energy(0.05, 1.0));
                let _ = s.interpolate_to_grid(&[0.04, 0.05, 0.08], &[0.0, 90.0, 180.0, 270.0]);
                o.label("a model record is regridded");
            }
        }
        need!(n <= lines + 1, "{n} model records from {lines} lines");
        o.label_if(n > 0, "model spectra");
    }
    o.label_if(TidalDataRecordCollection::from_json(text).is_ok(), "tides");
    o.label_if(NwsWeatherForecastDataRecordCollection::from_json(text).map(|c| c.records()).is_ok(), "weather");
    let _ = NwsGridPointData::from_json(text);
    for t in text.split_whitespace().take(40) {
        let _ = t.parse::<Direction>();
        let _ = t.parse::<CardinalDirection>();
        let _ = t.parse::<Steepness>();
        let _ = Unit::from(t);
        let _ = DimensionalData::<f64>::from_raw_data(t, "x".into(), Unit::Meters).to_string();
        let _ = DimensionalData::<Direction>::from_raw_data(t, "x".into(), Unit::Degrees).to_string();
    }
    for l in text.lines().take(20) {
        for sep in [" ", ":", ""] {
            let row: Vec<&str> = l.split(sep).collect();
            let _ = WaveDataRecord::from_data_row(None, &row);
            let _ = SpectralWaveDataRecord::from_data_row(None, &row);
            let _ = GribIndexRecord::from_data_row(None, &row);
            let _ = ForecastCBulletinWaveRecord::from_data_row(None, &row);
            let meta = ForecastCBulletinWaveRecordMetadata {
                location: Location::new(0.0, 0.0, "".into()),
                model_run_date: Utc.with_ymd_and_hms(2023, 12, 31, 18, 0, 0).unwrap(),
            };
            let _ = ForecastCBulletinWaveRecord::from_data_row(Some(&meta), &row);
        }
    }
    Ok(())
}

pub fn c32(run: &mut Run) {
    run.rule(
        "Any text, any tokens, and valid files of every format with up to 8 edits (inserted, deleted, replaced, \
         repeated or cut-off pieces), fed to every parser. Non-trivial: an edited file.",
    );
    run.check(
        "any_text",
        20_000,
        || prop_oneof!["\\PC{0,80}", "(\\PC{0,20}\n){0,6}", "([0-9A-Za-z:.()#'-]{0,10}[ \n]{0,2}){0,40}", any::<String>()],
        |text, o| {
            o.nt_if(!text.is_empty());
            feed(text, o)
        },
    );
    run.check(
        "edited_rows",
        12_000,
        || {
            (
                prop::collection::vec(wave_row(), 0..4),
                prop::collection::vec(spec_row(), 0..2),
                prop::collection::vec(idx_row(), 0..4),
                edits(),
            )
        },
        |(w, s, i, e), o| {
            let mut t = String::new();
            w.iter().for_each(|r| t += &(spaced(&r.tokens(), &[1]) + "\n"));
            s.iter().for_each(|r| t += &(spaced(&r.tokens(), &[1]) + "\n"));
            i.iter().for_each(|r| t += &(r.text() + "\n"));
            o.nt_if(!e.is_empty());
            feed(&apply(t, e), o)
        },
    );
    run.check(
        "edited_forecasts",
        8_000,
        || (bulletin(), ww_file(), any::<bool>(), edits()),
        |(b, w, which, e), o| {
            let rows: Vec<String> = b.rows.iter().filter_map(|l| if let Line::Row(r) = l { Some(spaced(&b.row_tokens(r), &[0])) } else { None }).collect();
            let t = if *which { b.head("\n") + &rows.join("\n") } else { w.text() };
            o.nt_if(!e.is_empty());
            feed(&apply(t, e), o)
        },
    );
    run.check("odd_model_files", 12_000, odd_file, |t, o| {
        o.nt();
        feed(t, o)
    });
    run.check(
        "edited_json",
        12_000,
        || (prop::collection::vec(tide(), 0..4), prop::collection::vec(period(), 0..2), any::<bool>(), edits()),
        |(t, p, which, e), o| {
            let text = if *which {
                serde_json::json!({"predictions": t.iter().map(Tide::json).collect::<Vec<_>>()}).to_string()
            } else {
                weather_json(p).to_string()
            };
            o.nt_if(!e.is_empty());
            feed(&apply(text, e), o)
        },
    );
}

// ---- request URLs --------------------------------------------------------------------------

pub fn c34(run: &mut Run) {
    run.rule("Any station, place, office, grid cell, window, datum, interval and unit system; every case is non-trivial.");
    run.check(
        "tides",
        60_000,
        || ("[0-9A-Z]{1,8}", instant(), 0i64..3_000_000, 0usize..6, 0usize..3, 0usize..2),
        |(id, start, len, datum, interval, units), o| {
            o.nt();
            let end = *start + Duration::seconds(*len);
            let d = [TideDatum::MHHW, TideDatum::MHW, TideDatum::MTL, TideDatum::MSL, TideDatum::MLW, TideDatum::MLLW];
            let i = [DataInterval::Default, DataInterval::Hourly, DataInterval::HiLo];
            let u = [UnitSystem::Metric, UnitSystem::English];
            let s = TideStation::new(id, &Location::new(41.0, -71.0, "x".into()), "RI");
            let url = s.tidal_data_url(start, &end, &d[*datum], &i[*interval], &u[*units]);
            let (base, query) = url.split_once('?').ok_or("no query")?;
            need_eq!(base, "https://api.tidesandcurrents.noaa.gov/api/prod/datagetter", "address");
            let mut got: Vec<(&str, &str)> = query.split('&').map(|p| p.split_once('=').unwrap_or((p, ""))).collect();
            got.sort();
            let stamp = |t: &DateTime<Utc>| format!("{:04}{:02}{:02}%20{:02}:{:02}", t.year(), t.month(), t.day(), t.hour(), t.minute());
            let (from, to) = (stamp(start), stamp(&end));
            let mut want = vec![
                ("begin_date", from.as_str()),
                ("end_date", to.as_str()),
                ("station", id.as_str()),
                ("product", "predictions"),
                ("datum", ["MHHW", "MHW", "MTL", "MSL", "MLW", "MLLW"][*datum]),
                ("interval", ["", "h", "hilo"][*interval]),
                ("units", ["metric", "english"][*units]),
                ("time_zone", "gmt"),
                ("application", "web_services"),
                ("format", "json"),
            ];
            want.sort();
            need_eq!(got, want, "query");
            let list = TideStations::tide_prediction_stations_url();
            let (base, query) = list.split_once('?').ok_or("no query of the station list")?;
            need_eq!(base, "https://api.tidesandcurrents.noaa.gov/mdapi/prod/webapi/stations.json", "address of the station list");
            need!(query.split('&').any(|p| p == "type=tidepredictions"), "stations with tide predictions: {query}");
            Ok(())
        },
    );
    run.check(
        "weather",
        60_000,
        || (fl(-90.0, 90.0), fl(-180.0, 360.0), "[A-Z]{3}", 0usize..500, 0usize..500, prop::bool::weighted(0.2)),
        |(lat, lon, office, x, y, plus_180), o| {
            o.nt();
            // A southern latitude may be written as itself plus 180
            let written = if *plus_180 && *lat < 0.0 && *lat > -90.0 { lat + 180.0 } else { *lat };
            let url = create_points_url(&Location::new(written, *lon, "x".into()));
            let point = url.strip_prefix("https://api.weather.gov/points/").ok_or(format!("address {url}"))?;
            let (a, b) = point.split_once(',').ok_or(format!("point {point}"))?;
            need_close("latitude", a.parse().unwrap_or(f64::NAN), *lat, 1e-12, 1e-10)?;
            // The service knows longitudes from -180 to 180
            need_close("longitude", b.parse().unwrap_or(f64::NAN), if *lon > 180.0 { lon - 360.0 } else { *lon }, 1e-12, 1e-10)?;
            let grid = format!("https://api.weather.gov/gridpoints/{office}/{x},{y}");
            need_eq!(create_gridpoints_url(office, x, y), grid, "grid point");
            need_eq!(create_forecast_url(office, x, y), format!("{grid}/forecast"), "forecast");
            need_eq!(create_hourly_forecast_url(office, x, y), format!("{grid}/forecast/hourly"), "hourly forecast");
            Ok(())
        },
    );
}

// ---- records in other units ---------------------------------------------------------------------

/// One record before and after it was switched to a unit system: measurements are the same quantity
/// in the unit of the system, everything else is as it was. Returns how many measurements changed.
fn switched(what: &str, a: &serde_json::Value, b: &serde_json::Value, s: &UnitSystem) -> Result<usize, String> {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            need_eq!(x.keys().collect::<Vec<_>>(), y.keys().collect::<Vec<_>>(), "{what}: fields");
            if x.contains_key("unit_label") && (x["value"].is_number() || x["value"].is_null()) {
                let d = |v: &serde_json::Value| serde_json::from_value::<DimensionalData<f64>>(v.clone()).map_err(|e| format!("{what}: {e}"));
                let (p, q) = (d(a)?, d(b)?);
                crate::c_units::same_quantity(what, &p, &q, s)?;
                need_eq!(y["unit_label"], q.unit.abbreviation(), "{what}: unit label");
                return Ok((p.unit != q.unit && p.value.is_some()) as usize);
            }
            let mut n = 0;
            for (k, v) in x {
                n += switched(&format!("{what}, {k}"), v, &y[k], s)?;
            }
            Ok(n)
        }
        (Array(x), Array(y)) => {
            need_eq!(x.len(), y.len(), "{what}: entries");
            let mut n = 0;
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                n += switched(&format!("{what} {i}"), v, w, s)?;
            }
            Ok(n)
        }
        _ => {
            need_eq!(b, a, "{what}");
            Ok(0)
        }
    }
}

/// Each measurement of a record has a name of its own, in words of its field.
fn named(what: &str, record: &impl Serialize, o: &mut Obs) -> Result<(), String> {
    let v = serde_json::to_value(record).map_err(|e| e.to_string())?;
    let mut seen = std::collections::BTreeMap::new();
    for (field, d) in v.as_object().ok_or(format!("{what} is no object"))? {
        let Some(name) = d.get("unit_label").and(d["variable_name"].as_str()) else { continue };
        o.nt();
        let words: Vec<&str> = field.split('_').collect();
        need!(
            !name.is_empty() && name.split(' ').all(|w| words.contains(&w)),
            "{what}: {field} is named {name:?}"
        );
        if let Some(other) = seen.insert(name.to_string(), field.clone()) {
            return Err(format!("{what}: {field} and {other} are both named {name:?}"));
        }
    }
    Ok(())
}

/// Switches a record through unit systems; its swell data go along or stay what they are.
fn through_units<T>(what: &str, r: &T, history: &[UnitSystem], o: &mut Obs) -> Result<(), String>
where
    T: Serialize + Clone + UnitConvertible + SwellProvider,
{
    let json = |v: &T| serde_json::to_value(v).map_err(|e| e.to_string());
    let metric = |v: &T| -> Result<Option<serde_json::Value>, String> {
        let Ok(mut s) = v.swell_data() else { return Ok(None) };
        s.to_units(&UnitSystem::Metric);
        serde_json::to_value(&s).map(Some).map_err(|e| e.to_string())
    };
    let mut now = r.clone();
    let mut swell = metric(r)?;
    for s in history {
        let before = json(&now)?;
        now.to_units(s);
        o.nt_if(switched(what, &before, &json(&now)?, s)? > 0);
        let next = metric(&now)?;
        match (&swell, &next) {
            (Some(a), Some(b)) => drop(switched(&format!("swell of {what} in {s:?}"), a, b, &UnitSystem::Metric)?),
            (a, b) => need_eq!(a.is_some(), b.is_some(), "{what}: swell data in {s:?}"),
        }
        let once = json(&now)?;
        now.to_units(s);
        need_eq!(json(&now)?, once, "{what}: switched twice to {s:?}");
        swell = next;
    }
    Ok(())
}

pub fn c45(run: &mut Run) {
    run.rule(
        "Records of buoy summaries, bulletins and model spectra read from generated text and switched through up to \
         5 unit systems. Non-trivial: a present measurement whose unit changes.",
    );
    let history = || repeats(prop::collection::vec(system(), 1..=5));
    run.check("buoy_summaries", 12_000, move || (wave_row(), history()), |(w, h), o| {
        let t = w.tokens();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        let r = WaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?;
        through_units("wave record", &r, h, o)
    });
    run.check("bulletins", 3_000, move || (bulletin(), history()), |(b, h), o| {
        let rows: Vec<String> = b
            .rows
            .iter()
            .filter_map(|l| if let Line::Row(r) = l { Some(spaced(&b.row_tokens(r), &[0])) } else { None })
            .collect();
        let text = b.head("\n") + &rows.join("\n");
        let mut c = ForecastCBulletinWaveRecordCollection::from_data(&text);
        let (_, records) = c.records().map_err(|e| e.to_string())?;
        for r in records {
            through_units("bulletin record", &r, h, o)?;
        }
        Ok(())
    });
    run.check("model_spectra", 2_000, move || (ww_file(), history()), |(w, h), o| {
        let text = w.text();
        let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
        let (_, records) = c.records().map_err(|e| e.to_string())?;
        for r in records {
            through_units("spectral record", &r, h, o)?;
        }
        Ok(())
    });
    run.check("names", 1_500, || (wave_row(), bulletin(), ww_file(), prop::collection::vec(period(), 0..3)), |(w, b, f, p), o| {
        let t = w.tokens();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        named("wave record", &WaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?, o)?;
        let rows: Vec<String> = b
            .rows
            .iter()
            .filter_map(|l| if let Line::Row(r) = l { Some(spaced(&b.row_tokens(r), &[0])) } else { None })
            .collect();
        let text = b.head("\n") + &rows.join("\n");
        let mut c = ForecastCBulletinWaveRecordCollection::from_data(&text);
        for r in c.records().map_err(|e| e.to_string())?.1 {
            named("bulletin record", &r, o)?;
            for s in &r.swell_components {
                named("swell of a bulletin", s, o)?;
            }
        }
        let text = f.text();
        let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
        for r in c.records().map_err(|e| e.to_string())?.1 {
            named("spectral record", &r, o)?;
        }
        let c = NwsWeatherForecastDataRecordCollection::from_json(&weather_json(p).to_string()).map_err(|e| e.to_string())?;
        for r in c.records() {
            named("weather record", &r, o)?;
        }
        Ok(())
    });
    run.check("buoy_spectra", 6_000, move || (spec_row(), history()), |(w, h), o| {
        o.nt();
        let t = w.tokens();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        let r = SpectralWaveDataRecord::from_data_row(None, &t).map_err(|e| e.to_string())?;
        let before = serde_json::to_value(&r).map_err(|e| e.to_string())?;
        let mut now = r.clone();
        for s in h {
            now.to_units(s);
            switched("spectral record", &before, &serde_json::to_value(&now).map_err(|e| e.to_string())?, s)?;
        }
        Ok(())
    });
}
