//! C46: from the sea through every source to its swells.
use crate::c_data::ww_sea;
use crate::c_spec::convention;
use crate::fw::*;
use crate::gens::*;
use crate::need;
use chrono::{DateTime, Datelike, Duration, Timelike, Utc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecordCollection;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellProvider, SwellSummary};
use surfrs::tools::waves::track_partitions;

/// A swell of the sea: height, frequency bin of its peak, bearing it comes from, width.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wave {
    hs: f64,
    k: usize,
    from: f64,
    wide: f64,
    s: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sea {
    f: Vec<f64>,
    nth: usize,
    waves: Vec<Wave>,
}

impl Sea {
    fn nk(&self) -> usize {
        self.f.len()
    }
    /// Trapezoid widths of the frequency bins.
    fn df(&self) -> Vec<f64> {
        let n = self.nk();
        (0..n)
            .map(|k| {
                let up = if k + 1 < n { self.f[k + 1] } else { self.f[k] };
                let down = if k > 0 { self.f[k - 1] } else { self.f[k] };
                (up - down) / 2.0
            })
            .collect()
    }
    /// The share of a wave's energy at a frequency bin, per Hz.
    fn shape(&self, w: &Wave) -> Vec<f64> {
        let raw: Vec<f64> = (0..self.nk()).map(|k| (-((k as f64 - w.k as f64) / w.wide).powi(2)).exp()).collect();
        let sum: f64 = raw.iter().zip(self.df()).map(|(e, d)| e * d).sum();
        raw.iter().map(|e| e / sum).collect()
    }
    /// Energies [direction][frequency] for waves coming from the bearings, in degrees.
    fn energy(&self, from: &[f64]) -> Vec<f64> {
        let dth = 2.0 * PI / from.len() as f64;
        let mut e = vec![0.0; from.len() * self.nk()];
        for w in &self.waves {
            let f = self.shape(w);
            let d: Vec<f64> = from.iter().map(|b| ((b - w.from).to_radians() / 2.0).cos().abs().powi(2 * w.s)).collect();
            let sum: f64 = d.iter().sum::<f64>() * dth;
            for (t, d) in d.iter().enumerate() {
                for (k, f) in f.iter().enumerate() {
                    e[t * self.nk() + k] += w.hs.powi(2) / 16.0 * f * d / sum;
                }
            }
        }
        e
    }
    fn period(&self, w: &Wave) -> f64 {
        1.0 / self.f[w.k]
    }
    /// Highest energy of each wave on its own.
    fn peaks(&self) -> Vec<f64> {
        self.waves
            .iter()
            .map(|w| {
                let one = Sea { waves: vec![w.clone()], ..self.clone() };
                one.energy(&bearings(36)).into_iter().fold(0.0, f64::max)
            })
            .collect()
    }
}

fn bearings(n: usize) -> Vec<f64> {
    (0..n).map(|t| t as f64 * 360.0 / n as f64).collect()
}

/// Waves that stand apart: in frequency by so many bins, or (when allowed) in direction.
fn sea(apart: usize, by_direction: bool, s: std::ops::Range<i32>) -> BoxedStrategy<Sea> {
    let wave = (fl(0.5, 6.0), 5usize..24, 0.0..360.0f64, 1.2..1.8f64, s)
        .prop_map(|(hs, k, from, wide, s)| Wave { hs, k, from, wide, s });
    (0.03..0.04f64, 1.06..1.08f64, prop_oneof![Just(24usize), Just(36)], prop::collection::vec(wave, 1..=4))
        .prop_map(move |(f0, x, nth, waves)| {
            let mut kept: Vec<Wave> = vec![];
            for w in waves {
                let clear = |o: &Wave| {
                    w.k.abs_diff(o.k) >= apart || by_direction && circ_diff(w.from, o.from) >= 110.0
                };
                if kept.iter().all(clear) {
                    kept.push(w);
                }
            }
            let mut sea = Sea { f: (0..32).map(|i| f0 * f64::powi(x, i)).collect(), nth, waves: kept };
            // none is drowned by the strongest
            let p = sea.peaks();
            let top = p.iter().copied().fold(0.0, f64::max);
            let mut keep = p.iter().map(|p| *p >= 0.15 * top);
            sea.waves.retain(|_| keep.next().unwrap());
            sea
        })
        .boxed()
}

/// Which component each wave of the sea came back as.
fn found(what: &str, sea: &Sea, got: &SwellSummary, tol: f64, deg: f64) -> Result<Vec<Swell>, String> {
    let total = sea.waves.iter().map(|w| w.hs.powi(2)).sum::<f64>();
    let h = |s: &Swell| s.wave_height.value.unwrap_or(f64::NAN);
    let listed = || {
        got.components
            .iter()
            .map(|c| format!("{:.2} m {:.2} s {}", h(c), c.period.value.unwrap_or(f64::NAN), c.direction.value.as_ref().map_or(-1, |d| d.degrees)))
            .collect::<Vec<_>>()
            .join("; ")
    };
    need_close(&format!("{what}: height of the sea"), h(&got.summary), total.sqrt(), tol, 0.0)?;
    let mut rest = got.components.clone();
    let mut out = vec![];
    for w in &sea.waves {
        let like = |c: &Swell| {
            close(h(c), w.hs, tol, 0.0)
                && close(c.period.value.unwrap_or(f64::NAN), sea.period(w), 6e-3, 0.0)
                && c.direction.value.as_ref().is_some_and(|d| circ_diff(d.degrees as f64, w.from) <= deg)
        };
        let i = rest
            .iter()
            .position(like)
            .ok_or(format!("{what}: the swell of {:.2} m, {:.2} s from {:.0} is not among {}", w.hs, sea.period(w), w.from, listed()))?;
        out.push(rest.remove(i));
    }
    let extra: f64 = rest.iter().map(|c| h(c).powi(2)).sum();
    need!(extra <= tol * total, "{what}: components besides the {} swells: {}", sea.waves.len(), listed());
    Ok(out)
}

/// The five files of a buoy: energy, mean and principal directions, first and second coefficients.
fn buoy_files(sea: &Sea, date: &DateTime<Utc>) -> [String; 5] {
    let shapes: Vec<Vec<f64>> = sea.waves.iter().map(|w| sea.shape(w).iter().map(|f| f * w.hs.powi(2) / 16.0).collect()).collect();
    let mut rows = vec![vec![]; 5];
    for k in 0..sea.nk() {
        let e: f64 = shapes.iter().map(|s| s[k]).sum();
        let main = (0..sea.waves.len()).max_by(|a, b| shapes[*a][k].total_cmp(&shapes[*b][k])).unwrap();
        let w = &sea.waves[main];
        let s = w.s as f64;
        let v = [e, w.from, w.from, s / (s + 1.0), s * (s - 1.0) / ((s + 1.0) * (s + 2.0))];
        for (row, v) in rows.iter_mut().zip(v) {
            row.push(format!("{v:.5} ({:.6})", sea.f[k]));
        }
    }
    let stamp = format!("{:04} {:02} {:02} {:02} {:02}", date.year(), date.month(), date.day(), date.hour(), date.minute());
    let mut i = 0;
    rows.iter().map(|r| {
        i += 1;
        let sep = if i == 1 { " 9.999" } else { "" };
        format!("#YY  MM DD hh mm\n{stamp}{sep} {}\n", r.join(" "))
    }).collect::<Vec<_>>().try_into().unwrap()
}

pub fn c46(run: &mut Run) {
    run.rule(
        "Seas of 1 to 4 swells apart in frequency or direction, 0.5 to 6 m, from any bearing, given as a spectrum in each \
         convention, as a model file and as the five files of a buoy, and over up to 6 steps of time. Non-trivial: at least two swells.",
    );
    run.assume("Swells stand apart by at least 8 bins of frequency or 110 degrees, none weaker at its peak than 15% of the strongest.");
    run.check("spectra", 10_000, || (sea(8, true, 12..37), 0u8..3, 0usize..36), |(sea, conv, shift), o| {
        o.nt_if(sea.waves.len() >= 2);
        let n = sea.nth;
        let raw: Vec<f64> = (0..n).map(|t| ((t + shift) % n) as f64 * 360.0 / n as f64).collect();
        let mut raw = raw;
        raw.sort_by(|a, b| a.total_cmp(b));
        // bearings the waves come from
        let from: Vec<f64> = raw
            .iter()
            .map(|d| match conv {
                0 => *d,
                1 => d + 180.0,
                _ => 270.0 - d,
            })
            .collect();
        let s = Spectra::new(sea.f.clone(), raw.iter().map(|d| d.to_radians()).collect(), sea.energy(&from), convention(*conv));
        let parts = s.partition(100, None).map_err(|e| format!("{e:?}"))?;
        let got = s.swell_data(None, None, None, &parts).map_err(|e| e.to_string())?;
        found("spectrum", sea, &got, 0.04, 5.0)?;
        Ok(())
    });
    run.check("model_file", 4_000, || (sea(8, true, 12..37), minute(), 0i32..36), |(sea, date, start), o| {
        o.nt_if(sea.waves.len() >= 2);
        let n = sea.nth as i32;
        // as the model lists them: anticlockwise from a direction north of east, in bearings gone to
        let to: Vec<i32> = (0..n).map(|t| (90 - start % (360 / n) - t * (360 / n)).rem_euclid(360)).collect();
        let from: Vec<f64> = to.iter().map(|d| *d as f64 + 180.0).collect();
        let text = ww_sea(&sea.f, &to, &[(*date, sea.energy(&from))]);
        let mut c = ForecastSpectralWaveDataRecordCollection::from_data(&text);
        let (_, records) = c.records().map_err(|e| e.to_string())?;
        let r: Vec<_> = records.collect();
        need!(r.len() == 1, "{} records", r.len());
        found("model file", sea, &r[0].swell_data().map_err(|e| e.to_string())?, 0.08, 5.0)?;
        Ok(())
    });
    run.check("buoy_files", 4_000, || (sea(10, false, 1..3), minute()), |(sea, date), o| {
        o.nt_if(sea.waves.len() >= 2);
        let files = buoy_files(sea, date);
        let mut read = files.iter().map(|t| -> Result<SpectralWaveDataRecord, String> {
            let mut c = SpectralWaveDataRecordCollection::from_data(t);
            let r: Vec<_> = c.records().collect();
            need!(r.len() == 1, "{} records in {t}", r.len());
            Ok(r[0].clone())
        }).collect::<Result<Vec<_>, _>>()?.into_iter();
        let mut next = || read.next().unwrap();
        let dirs: Vec<f64> = bearings(sea.nth).iter().map(|d| d.to_radians()).collect();
        let r = DirectionalSpectralWaveDataRecord::from_data_records(&dirs, next(), next(), next(), next(), next());
        need!(r.date == *date, "date {} instead of {date}", r.date);
        found("buoy files", sea, &r.swell_data().map_err(|e| e.to_string())?, 0.08, 8.0)?;
        Ok(())
    });
    run.check(
        "over_time",
        3_000,
        || (sea(8, true, 12..37), minute(), prop::collection::vec(prop::collection::vec(0.75..1.3f64, 4), 2..=6)),
        |(sea, start, gains), o| {
            o.nt_if(sea.waves.len() >= 2);
            // the same swells, growing and falling
            let from = bearings(sea.nth);
            let mut steps = vec![];
            let mut want = vec![];
            for (i, g) in gains.iter().enumerate() {
                let mut now = sea.clone();
                now.waves.iter_mut().zip(g).for_each(|(w, g)| w.hs *= g);
                let s = Spectra::new(now.f.clone(), from.iter().map(|d| d.to_radians()).collect(), now.energy(&from), convention(0));
                let parts = s.partition(100, None).map_err(|e| format!("{e:?}"))?;
                let got = s.swell_data(None, None, None, &parts).map_err(|e| e.to_string())?;
                let like = found(&format!("step {i}"), &now, &got, 0.05, 5.0)?;
                o.label_if(like.len() >= 2 && i > 0, "several swells over time");
                want.push(like.iter().map(|c| got.components.iter().position(|x| x.partition == c.partition).unwrap()).collect::<Vec<_>>());
                steps.push((*start + Duration::hours(i as i64), got.components));
            }
            let tracked = track_partitions(&steps, 30.0, 1e6);
            for w in 0..sea.waves.len() {
                let ids: Vec<Option<usize>> = tracked.iter().zip(&want).map(|(t, at)| t[at[w]].partition).collect();
                need!(ids.windows(2).all(|p| p[0] == p[1] && p[0].is_some()), "the swell from {:.0} is numbered {ids:?} over time", sea.waves[w].from);
            }
            Ok(())
        },
    );
}
