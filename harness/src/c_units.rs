//! Units, dimensional data and compass directions.
use crate::fw::*;
use crate::gens::*;
use crate::{need, need_eq};
use proptest::prelude::*;
use std::str::FromStr;
use surfrs::dimensional_data::DimensionalData;
use surfrs::data::parseable_data_record::DataRecordParsingError;
use surfrs::swell::{Swell, SwellProviderError, SwellSummary};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{CardinalDirection, Direction, Unit, UnitConvertible, UnitSystem};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dim {
    Length,
    Speed,
    Temp,
    Pressure,
    Other,
}

/// (dimension, scale to SI, offset to SI): si = value * scale + offset
fn physics(u: &Unit) -> (Dim, f64, f64) {
    match u {
        Unit::Millimeters => (Dim::Length, 0.001, 0.0),
        Unit::Meters => (Dim::Length, 1.0, 0.0),
        Unit::Inches => (Dim::Length, 0.0254, 0.0),
        Unit::Feet => (Dim::Length, 0.3048, 0.0),
        Unit::NauticalMiles => (Dim::Length, 1852.0, 0.0),
        Unit::MetersPerSecond => (Dim::Speed, 1.0, 0.0),
        Unit::MilesPerHour => (Dim::Speed, 0.44704, 0.0),
        Unit::Knots => (Dim::Speed, 1852.0 / 3600.0, 0.0),
        Unit::Celsius => (Dim::Temp, 1.0, 273.15),
        Unit::Kelvin => (Dim::Temp, 1.0, 0.0),
        Unit::Fahrenheit => (Dim::Temp, 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        Unit::Pascal => (Dim::Pressure, 1.0, 0.0),
        Unit::HectaPascal => (Dim::Pressure, 100.0, 0.0),
        Unit::InchesMercury => (Dim::Pressure, 3386.389, 0.0),
        _ => (Dim::Other, 1.0, 0.0),
    }
}

/// Pairs the library converts between (in both directions).
fn supported(a: &Unit, b: &Unit) -> bool {
    use Unit::*;
    let pairs = [
        (Millimeters, Meters),
        (Millimeters, Inches),
        (Meters, Feet),
        (Inches, Feet),
        (MetersPerSecond, MilesPerHour),
        (MetersPerSecond, Knots),
        (MilesPerHour, Knots),
        (Celsius, Fahrenheit),
        (Celsius, Kelvin),
        (Fahrenheit, Kelvin),
        (Pascal, HectaPascal),
        (HectaPascal, InchesMercury),
    ];
    pairs
        .iter()
        .any(|(x, y)| (x == a && y == b) || (x == b && y == a))
}

fn physical(value: f64, from: &Unit, to: &Unit) -> f64 {
    let (_, s, o) = physics(from);
    let (_, s2, o2) = physics(to);
    (value * s + o - o2) / s2
}

/// Tolerance for a converted value: a tenth of a percent; temperatures to a hundredth of a degree.
fn near_physical(got: f64, value: f64, from: &Unit, to: &Unit) -> bool {
    let want = physical(value, from, to);
    if physics(from).0 == Dim::Temp {
        close(got, want, 1e-9, 0.01)
    } else {
        close(got, want, 1e-3, 1e-12)
    }
}

fn expected_unit(u: &Unit, s: &UnitSystem) -> Unit {
    use UnitSystem::*;
    match (u, s) {
        (Unit::Millimeters | Unit::Inches, Metric) => Unit::Millimeters,
        (Unit::Millimeters | Unit::Inches, English) => Unit::Inches,
        (Unit::Meters | Unit::Feet, Metric) => Unit::Meters,
        (Unit::Meters | Unit::Feet, English) => Unit::Feet,
        (Unit::MetersPerSecond | Unit::MilesPerHour | Unit::Knots, Metric) => Unit::MetersPerSecond,
        (Unit::MetersPerSecond | Unit::MilesPerHour | Unit::Knots, English) => Unit::MilesPerHour,
        (Unit::MetersPerSecond | Unit::MilesPerHour | Unit::Knots, Knots) => Unit::Knots,
        (Unit::Celsius | Unit::Fahrenheit | Unit::Kelvin, Metric) => Unit::Celsius,
        (Unit::Celsius | Unit::Fahrenheit | Unit::Kelvin, English) => Unit::Fahrenheit,
        (Unit::Celsius | Unit::Fahrenheit | Unit::Kelvin, Kelvin) => Unit::Kelvin,
        (Unit::HectaPascal | Unit::InchesMercury, Metric) => Unit::HectaPascal,
        (Unit::HectaPascal | Unit::InchesMercury, English) => Unit::InchesMercury,
        (u, _) => u.clone(),
    }
}

pub fn same_quantity(
    what: &str,
    before: &DimensionalData<f64>,
    after: &DimensionalData<f64>,
    s: &UnitSystem,
) -> Result<(), String> {
    need_eq!(after.unit, expected_unit(&before.unit, s), "{what}: unit of {:?} in {s:?}", before.unit);
    need_eq!(after.variable_name, before.variable_name, "{what}: variable name");
    match (before.value, after.value) {
        (None, None) => Ok(()),
        (Some(b), Some(a)) => {
            need!(
                near_physical(a, b, &before.unit, &after.unit),
                "{what}: {b} {:?} became {a} {:?}, expected {}",
                before.unit,
                after.unit,
                physical(b, &before.unit, &after.unit)
            );
            Ok(())
        }
        (b, a) => Err(format!("{what}: value {b:?} became {a:?}")),
    }
}

fn dd_eq(what: &str, a: &DimensionalData<f64>, b: &DimensionalData<f64>) -> Result<(), String> {
    need_eq!(a, b, "{what}");
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.rule(
        "Values over 12 decades and both signs, all 400 ordered unit pairs, all unit systems and \
         sequences of up to 8 system changes. A case is non-trivial when a value actually changes unit.",
    );
    run.check(
        "convert_physical",
        120_000,
        || (unit(), unit(), wide()),
        |(a, b, v), o| {
            let got = a.convert(*v, b);
            let (da, db) = (physics(a).0, physics(b).0);
            if supported(a, b) {
                o.nt();
                o.label("supported");
                need!(
                    near_physical(got, *v, a, b),
                    "{v} {a:?} converted to {b:?} is {got}, expected {}",
                    physical(*v, a, b)
                );
                let back = b.convert(got, a);
                let tol = if da == Dim::Temp { 0.01 } else { 1e-12 };
                need!(
                    close(back, *v, if da == Dim::Temp { 1e-9 } else { 1e-3 }, tol),
                    "{v} {a:?} to {b:?} and back is {back}"
                );
            } else if da != db || da == Dim::Other || a == b {
                o.label("unrelated");
                need!(got == *v, "{v} {a:?} has no conversion to {b:?} but became {got}");
            } else {
                // Related but without a documented conversion: either left alone or right.
                o.label("indirect");
                need!(
                    got == *v || near_physical(got, *v, a, b),
                    "{v} {a:?} converted to {b:?} is {got}"
                );
            }
            Ok(())
        },
    );
    run.check(
        "system_history",
        60_000,
        || {
            (
                prop::option::weighted(0.9, wide()),
                unit(),
                "[a-z ]{0,12}",
                repeats(prop::collection::vec(system(), 1..8)),
            )
        },
        |(v, u, name, hist), o| {
            let mut d = DimensionalData::<f64> {
                value: *v,
                variable_name: name.clone(),
                unit: u.clone(),
            };
            for s in hist {
                let before = d.clone();
                let target = u.convert_system(s);
                need_eq!(target, expected_unit(u, s), "{u:?} in {s:?}");
                d.to_units(s);
                o.nt_if(before.unit != d.unit && v.is_some());
                same_quantity("to_units", &before, &d, s)?;
                let once = d.clone();
                d.to_units(s);
                dd_eq("to_units twice", &d, &once)?;
            }
            Ok(())
        },
    );
    run.check(
        "integers_and_directions",
        30_000,
        || (-100_000i64..100_000, unit(), system(), 0i32..=360),
        |(v, u, s, deg), o| {
            let mut d = DimensionalData::<i64> {
                value: Some(*v),
                variable_name: "x".into(),
                unit: u.clone(),
            };
            d.to_units(s);
            need_eq!(d.unit, expected_unit(u, s), "integer unit");
            let want = physical(*v as f64, u, &d.unit);
            o.nt_if(d.unit != *u);
            let got = d.value.ok_or("integer value vanished")? as f64;
            need!(
                (got - want).abs() <= 1.02 + want.abs() * 1e-3,
                "{v} {u:?} became {got} {:?}, expected {want}",
                d.unit
            );
            let mut dir = DimensionalData {
                value: Some(Direction::from_degrees(*deg)),
                variable_name: "dir".into(),
                unit: Unit::Degrees,
            };
            dir.to_units(s);
            need_eq!(dir.value.as_ref().map(|d| d.degrees), Some(*deg), "direction");
            need_eq!(dir.unit, Unit::Degrees, "direction unit");
            Ok(())
        },
    );
    run.check(
        "swell_summaries",
        20_000,
        || {
            (
                (fl(0.0, 15.0), fl(1.0, 25.0), 0i32..360),
                repeats(prop::collection::vec((fl(0.0, 15.0), fl(1.0, 25.0), 0i32..360), 0..12)),
                any::<u16>(),
                prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
                repeats(prop::collection::vec(system(), 1..5)),
            )
        },
        |(all, parts, metric, gone, hist), o| {
            o.label_if(parts.is_empty(), "no components");
            // one system for all of them, or one for each
            let mixed = metric & 0x8000 != 0;
            o.label_if(mixed, "mixed units");
            let mk = |(i, (h, p, d)): (usize, &(f64, f64, i32))| {
                let sys = if metric >> (if mixed { i } else { 0 }) & 1 == 1 { UnitSystem::Metric } else { UnitSystem::English };
                let lacks = |bit: usize| gone >> ((i * 5 + bit) % 64) & 1 == 1;
                let mut x = Swell::new(
                    &sys,
                    *h,
                    *p,
                    Direction::from_degrees(*d),
                    (!lacks(0)).then_some(h * 2.0),
                    (!lacks(1)).then_some(h * p),
                    Some(1),
                );
                if lacks(2) {
                    x.wave_height.value = None;
                }
                if lacks(3) {
                    x.period.value = None;
                }
                if lacks(4) {
                    x.direction.value = None;
                }
                x
            };
            let mut s = SwellSummary {
                summary: mk((0, all)),
                components: parts.iter().enumerate().map(mk).collect(),
            };
            for sys in hist {
                let before = s.clone();
                s.to_units(sys);
                need_eq!(s.components.len(), before.components.len(), "component count");
                let all = |x: &SwellSummary| {
                    std::iter::once(x.summary.clone())
                        .chain(x.components.iter().cloned())
                        .collect::<Vec<_>>()
                };
                for (i, (b, a)) in all(&before).iter().zip(all(&s).iter()).enumerate() {
                    o.nt_if(a.wave_height.unit != b.wave_height.unit);
                    same_quantity(&format!("wave height {i}"), &b.wave_height, &a.wave_height, sys)?;
                    dd_eq("period", &a.period, &b.period)?;
                    need_eq!(
                        a.direction.value.as_ref().map(|d| d.degrees),
                        b.direction.value.as_ref().map(|d| d.degrees),
                        "direction"
                    );
                    need_eq!(a.energy, b.energy, "energy");
                    need_eq!(a.spectral_density, b.spectral_density, "spectral density");
                    need_eq!(a.partition, b.partition, "partition");
                }
            }
            Ok(())
        },
    );
}

/// Spellings the data feeds use besides the printed label.
const SPELLINGS: [(Unit, &str); 19] = [
    (Unit::Millimeters, "mm millimeters millimeter"),
    (Unit::Meters, "m meters meter wmoUnit:m"),
    (Unit::MetersPerSecond, "m/s mps ms-1 meterspersecond meterpersecond"),
    (Unit::Celsius, "°C degCelsius degreeCelsius degreesCelsius wmoUnit:degC"),
    (Unit::Pascal, "pa pascals pascal"),
    (Unit::HectaPascal, "hpa hectapascals hectapascal"),
    (Unit::Inches, "in inches inch"),
    (Unit::Feet, "ft feet foot"),
    (Unit::MilesPerHour, "mph m/h mh-1 milesperhour"),
    (Unit::Fahrenheit, "°F F degFahrenheit degreesFahrenheit degreeFahrenheit"),
    (Unit::InchesMercury, "inHg"),
    (Unit::Knots, "kt kts knots knot"),
    (Unit::Kelvin, "K kelvin"),
    (Unit::MetersSquaredPerHertz, "m^2/Hz m²/Hz m2Hz-1 meterssquaredperhertz"),
    (Unit::NauticalMiles, "nmi nauticalmiles nauticalmile"),
    (Unit::Degrees, "° deg degs degrees degree"),
    (Unit::Seconds, "s second seconds"),
    (Unit::Percent, "% percent percentage wmoUnit:percent"),
    (Unit::KiloJoules, "kJ kilojoules kilojoule"),
];

pub fn c02(run: &mut Run) {
    run.rule(
        "All 20 units with random letter case and padding, foreign labels, finite values in text and \
         number form. Non-trivial: a label other than the plain one, or a value that is present.",
    );
    let cased = |s: String, mask: u32| -> String {
        s.chars()
            .enumerate()
            .map(|(i, c)| if mask >> (i % 32) & 1 == 1 { c.to_uppercase().to_string() } else { c.to_string() })
            .collect()
    };
    run.check(
        "labels_parse_back",
        20_000,
        || (unit(), any::<u32>(), "[ \t]{0,3}", "[ \t]{0,3}"),
        move |(u, mask, pre, post), o| {
            let label = u.abbreviation();
            need_eq!(u.to_string(), label, "printed unit");
            // Upper-casing must be reversible for the label to stay the same label.
            let text = format!("{pre}{}{post}", cased(label.to_string(), *mask));
            o.nt_if(!label.is_empty());
            let got = Unit::from(text.as_str());
            need_eq!(got, *u, "unit parsed from {text:?}");
            let json = serde_json::to_string(u).map_err(|e| e.to_string())?;
            let back: Unit = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            need_eq!(back, *u, "unit through JSON");
            Ok(())
        },
    );
    run.enumerate("names_and_spellings", 0..20usize, |i, o| {
        o.nt();
        let u = &UNITS[*i];
        let name = u.name();
        need!(
            Unit::from(name) == *u || Unit::from(name.replace(' ', "").as_str()) == *u,
            "{u:?} calls itself {name:?}, which names another unit"
        );
        for (v, spellings) in SPELLINGS {
            for s in spellings.split(' ').filter(|_| v == *u) {
                for t in [s.to_string(), s.to_uppercase(), format!(" {s}\t")] {
                    need_eq!(Unit::from(t.as_str()), *u, "unit parsed from {t:?}");
                }
            }
        }
        for s in [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin] {
            let json = serde_json::to_value(&s).map_err(|e| e.to_string())?;
            need_eq!(Some(s.to_string()), json.as_str().map(|j| j.to_lowercase()), "printed unit system");
        }
        Ok(())
    });
    run.check(
        "foreign_labels",
        10_000,
        || "[a-z/%°0-9 ]{0,6}[#!?][a-z/%°0-9 ]{0,6}",
        |s, o| {
            o.nt();
            need_eq!(Unit::from(s.as_str()), Unit::Unknown, "unit parsed from {s:?}");
            Ok(())
        },
    );
    run.check(
        "dimensional_values",
        40_000,
        || {
            (
                prop_oneof![
                    8 => wide().prop_map(|v| format!("{v}")),
                    3 => (-9999i32..9999, 0usize..4).prop_map(|(v, p)| format!("{:.*}", p, v as f64 / 100.0)),
                    2 => Just("MM".to_string()),
                    1 => "[A-Z-]{0,4}",
                ],
                unit(),
                "[a-z ]{0,12}",
            )
        },
        |(raw, u, name), o| {
            let d = DimensionalData::<f64>::from_raw_data(raw, name.clone(), u.clone());
            let want: Option<f64> = raw.parse().ok();
            let finite = want.map_or(true, |v| v.is_finite());
            need!(
                match (want, d.value) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()),
                    _ => false,
                },
                "{raw:?} parsed as {:?}",
                d.value
            );
            need_eq!(d.variable_name, *name, "variable name");
            need_eq!(d.unit, *u, "unit");
            need_eq!(d.unit_label(), u.abbreviation(), "unit label");
            let text = d.to_string();
            match want {
                None => {
                    o.label("missing");
                    need_eq!(text, "N/A".to_string(), "printed missing value");
                    need!(d.try_string().is_none(), "try_string of a missing value");
                    need!(d.get_value().is_nan(), "get_value of a missing value");
                    need!(d.get_value_opt().is_none(), "get_value_opt of a missing value");
                }
                Some(v) => {
                    o.nt();
                    o.label("present");
                    let want = if *u == Unit::Degrees {
                        format!("{v:.1}")
                    } else {
                        format!("{v:.1} {}", u.abbreviation())
                    };
                    need_eq!(text, want, "printed value");
                    need_eq!(d.try_string(), Some(text.clone()), "try_string");
                    need!(d.get_value() == v || v.is_nan(), "get_value");
                }
            }
            if finite {
                let json = serde_json::to_value(&d).map_err(|e| e.to_string())?;
                need_eq!(json["unit_label"].as_str(), Some(u.abbreviation()), "unit_label in JSON");
                let back: DimensionalData<f64> =
                    serde_json::from_str(&json.to_string()).map_err(|e| e.to_string())?;
                need_eq!(back.unit, d.unit, "unit through JSON");
                need_eq!(back.variable_name, d.variable_name, "name through JSON");
                match (d.value, back.value) {
                    (None, None) => {}
                    (Some(a), Some(b)) if close(a, b, 1e-14, 0.0) => {}
                    (a, b) => return Err(format!("value {a:?} through JSON became {b:?}")),
                }
            }
            Ok(())
        },
    );
    run.check(
        "printed_swells",
        30_000,
        || {
            let v = || prop::option::weighted(0.9, fl(0.0, 40.0));
            (v(), v(), prop::option::weighted(0.9, -360i32..=720), any::<bool>(), any::<f32>(), "[ -~]{0,12}")
        },
        |(h, p, deg, english, single, words), o| {
            let sys = if *english { UnitSystem::English } else { UnitSystem::Metric };
            let mut s = Swell::new(&sys, 0.0, 0.0, Direction::from_degrees(0), None, None, None);
            s.wave_height.value = *h;
            s.period.value = *p;
            s.direction.value = deg.map(Direction::from_degrees);
            let show = |v: &Option<f64>, u: &str| v.map_or("N/A".to_string(), |v| format!("{v:.1} {u}"));
            let want = format!(
                "{} @ {} {}",
                show(h, if *english { "ft" } else { "m" }),
                show(p, "s"),
                s.direction.value.as_ref().map_or("N/A".to_string(), |d| d.to_string())
            );
            o.nt_if(h.is_some() && p.is_some() && deg.is_some());
            need_eq!(s.to_string(), want, "printed swell");
            need_eq!(s.direction.get_value_opt().map(|d| d.degrees), deg.map(|d| Direction::from_degrees(d).degrees), "direction");
            match deg {
                Some(_) => need_eq!(Some(s.direction.get_value().degrees), s.direction.value.as_ref().map(|d| d.degrees), "direction"),
                None => need_eq!(s.direction.get_value().cardinal_direction().clone(), CardinalDirection::Invalid, "missing direction"),
            }
            // single precision
            let d = DimensionalData::<f32> { value: Some(*single), variable_name: "x".into(), unit: Unit::Meters };
            need!(d.get_value() == *single || single.is_nan(), "{single} is given as {}", d.get_value());
            need_eq!(d.get_value_opt().map(f32::to_bits), Some(single.to_bits()), "single precision value");
            let d = DimensionalData::<f32> { value: None, ..d };
            need!(d.get_value().is_nan() && d.get_value_opt().is_none() && d.try_string().is_none(), "missing single precision value");
            // what went wrong is in the message
            for e in [
                SwellProviderError::InsufficientData(words.clone()).to_string(),
                SwellProviderError::SwellPartitionError(words.clone()).to_string(),
                DataRecordParsingError::ParseFailure(words.clone()).to_string(),
                DataRecordParsingError::KeyMissing(words.clone()).to_string(),
            ] {
                need!(e.contains(words.as_str()) && e.len() > words.len(), "message {e:?} does not say {words:?}");
            }
            Ok(())
        },
    );
    run.check(
        "numbers_as_text_or_number",
        30_000,
        || (wide(), any::<i64>(), any::<bool>(), "[a-z,]{1,4}", 0u8..6),
        |(v, i, text, junk, kind), o| {
            let (json, want) = match kind {
                0 => (format!("{i}"), Some(*i as f64)),
                1 => (format!("\"{i}\""), Some(*i as f64)),
                2 => (format!("\"{v}{junk}\""), format!("{v}{junk}").parse().ok()),
                3 => ((if *text { "null" } else { "[1.5]" }).to_string(), None),
                _ if *text => (format!("\"{v}\""), Some(*v)),
                _ => (format!("{v:?}"), Some(*v)),
            };
            o.nt_if(want.is_some());
            let mut d = serde_json::Deserializer::from_str(&json);
            let got = surfrs::tools::serde::f64_from_str(&mut d).ok();
            need!(
                match (got, want) {
                    (Some(a), Some(b)) => close(a, b, 1e-14, 0.0) || a.is_nan() && b.is_nan(),
                    (None, None) => true,
                    _ => false,
                },
                "{json} is read as {got:?}"
            );
            Ok(())
        },
    );
    run.enumerate(
        "directions_as_data",
        -1..=361i32,
        |deg, o| {
            o.nt();
            let d = DimensionalData::<Direction>::from_raw_data(&deg.to_string(), "wave direction".into(), Unit::Degrees);
            need_eq!(d.value.as_ref().map(|v| v.degrees), Some(*deg), "direction parsed");
            need_eq!(d.get_value().degrees, *deg, "direction value");
            let f: DimensionalData<f64> = d.clone().into();
            need_eq!(f.value, Some(*deg as f64), "direction as a number");
            need_eq!(f.unit, Unit::Degrees, "unit as a number");
            need_eq!(f.variable_name, "wave direction".to_string(), "name as a number");
            let json = serde_json::to_string(&d).map_err(|e| e.to_string())?;
            let back: DimensionalData<Direction> = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            need_eq!(back.value.as_ref().map(|v| v.degrees), Some(*deg), "direction through JSON");
            need_eq!(
                back.value.as_ref().map(|v| v.cardinal_direction().clone()),
                d.value.as_ref().map(|v| v.cardinal_direction().clone()),
                "cardinal through JSON"
            );
            Ok(())
        },
    );
}

const ROSE: [(CardinalDirection, &str); 16] = [
    (CardinalDirection::North, "n"),
    (CardinalDirection::NorthNorthEast, "nne"),
    (CardinalDirection::NorthEast, "ne"),
    (CardinalDirection::EastNorthEast, "ene"),
    (CardinalDirection::East, "e"),
    (CardinalDirection::EastSouthEast, "ese"),
    (CardinalDirection::SouthEast, "se"),
    (CardinalDirection::SouthSouthEast, "sse"),
    (CardinalDirection::South, "s"),
    (CardinalDirection::SouthSouthWest, "ssw"),
    (CardinalDirection::SouthWest, "sw"),
    (CardinalDirection::WestSouthWest, "wsw"),
    (CardinalDirection::West, "w"),
    (CardinalDirection::WestNorthWest, "wnw"),
    (CardinalDirection::NorthWest, "nw"),
    (CardinalDirection::NorthNorthWest, "nnw"),
];

fn nearest_point(deg: i32) -> usize {
    (0..16)
        .min_by(|a, b| {
            circ_diff(deg as f64, *a as f64 * 22.5)
                .partial_cmp(&circ_diff(deg as f64, *b as f64 * 22.5))
                .unwrap()
        })
        .unwrap()
}

pub fn c03(run: &mut Run) {
    run.rule(
        "Every whole degree in -720..=1080, every ordered pair of whole degrees in 0..=360, all 16 \
         compass names in random case, random radians and random text. Non-trivial: a valid bearing or name.",
    );
    run.enumerate("sectors", -720..=1080i32, |deg, o| {
        let d = Direction::from_degrees(*deg);
        need_eq!(d.degrees, *deg, "degrees");
        if (0..=360).contains(deg) {
            o.nt();
            let (want, name) = &ROSE[nearest_point(*deg)];
            need_eq!(*d.cardinal_direction(), *want, "compass point of {deg}");
            need_eq!(CardinalDirection::from_degrees(deg), *want, "compass point of {deg}");
            need_eq!(d.to_string(), format!("{deg}° {name}"), "printed direction");
            need!(
                close(d.radian(), *deg as f64 * std::f64::consts::PI / 180.0, 1e-12, 1e-12),
                "{deg} in radians is {}",
                d.radian()
            );
            let r = Direction::from_radians(d.radian());
            need_eq!(r.degrees, *deg, "degrees from radians");
            need_eq!(*r.cardinal_direction(), *want, "compass point from radians");
            let parsed = Direction::from_str(&deg.to_string()).map_err(|_| "integer text rejected")?;
            need_eq!(parsed.degrees, *deg, "parsed degrees");
            need_eq!(*parsed.cardinal_direction(), *want, "parsed compass point");
            let inv = d.invert();
            need!(circ_diff(inv.degrees as f64, *deg as f64) == 180.0, "{deg} inverted is {}", inv.degrees);
            need!((0..360).contains(&inv.degrees), "{deg} inverted is {}", inv.degrees);
            need_eq!(*inv.cardinal_direction(), ROSE[nearest_point(inv.degrees)].0, "inverted compass point");
            need_eq!(inv.invert().degrees, deg % 360, "inverted twice");
            let mut f = d.clone();
            f.flip();
            need_eq!(f.degrees, inv.degrees, "flip and invert");
            need_eq!(*f.cardinal_direction(), *inv.cardinal_direction(), "flip and invert");
        } else {
            need_eq!(*d.cardinal_direction(), CardinalDirection::Invalid, "compass point of {deg}");
        }
        Ok(())
    });
    run.enumerate(
        "opposites",
        (0..=360i32).flat_map(|a| (0..=360i32).map(move |b| (a, b))),
        |(a, b), o| {
            let (x, y) = (Direction::from_degrees(*a), Direction::from_degrees(*b));
            let want = circ_diff(*a as f64, *b as f64) >= 170.0;
            o.nt_if(want);
            need_eq!(x.is_opposite(&y), want, "{a} opposite {b}");
            Ok(())
        },
    );
    run.enumerate("names", 0..16usize, |i, o| {
        o.nt();
        let (c, name) = &ROSE[*i];
        need_eq!(c.to_string(), name.to_string(), "printed name");
        let deg = c.to_degrees();
        // exact for the points on a whole degree, the nearest whole degrees for the others
        let off = circ_diff(deg as f64, *i as f64 * 22.5);
        need!(off == 0.0 || (i % 2 == 1 && off <= 0.5), "{name} is {deg} degrees");
        need_eq!(CardinalDirection::from_degrees(&deg), *c, "compass point of {name}'s own bearing");
        need_eq!(Direction::from_cardinal_direction(c.clone()).degrees, deg, "from_cardinal_direction");
        for mask in 0..8u32 {
            let text: String = name
                .chars()
                .enumerate()
                .map(|(i, ch)| if mask >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch })
                .collect();
            let p = CardinalDirection::from_str(&text).map_err(|_| format!("{text} rejected"))?;
            need_eq!(p, *c, "{text}");
            let d = Direction::from_str(&text).map_err(|_| format!("{text} rejected"))?;
            need_eq!(d.degrees, deg, "degrees of {text}");
            need_eq!(*d.cardinal_direction(), *c, "compass point of {text}");
        }
        Ok(())
    });
    run.check(
        "radians",
        20_000,
        || prop_oneof![3 => 0.0..6.2831853f64, 1 => -6.2831853..0.0f64, 1 => 6.2831853..12.0f64],
        |r, o| {
            let want = r.to_degrees();
            let d = Direction::from_radians(*r);
            o.nt();
            need!(
                circ_diff(d.degrees as f64, want) <= 0.5 + 1e-9,
                "{r} rad ({want} degrees) became {}",
                d.degrees
            );
            if !(0.0..6.2831853).contains(r) {
                o.label("beyond a turn");
                return Ok(());
            }
            need_eq!(*d.cardinal_direction(), ROSE[nearest_point(d.degrees)].0, "compass point");
            Ok(())
        },
    );
    run.check(
        "text",
        20_000,
        || prop_oneof!["[NESWnesw]{1,4}", "[0-9]{1,3}", "[ -~]{0,6}", "-?[0-9]{1,4}[.][0-9]"],
        |s, o| {
            let name = ROSE.iter().find(|(_, n)| n.eq_ignore_ascii_case(s));
            let number = s.parse::<i32>().ok();
            match (name, number, Direction::from_str(s)) {
                (Some((c, _)), _, Ok(d)) => {
                    o.nt();
                    need_eq!(*d.cardinal_direction(), *c, "{s}")
                }
                (None, Some(n), Ok(d)) => {
                    o.nt();
                    need_eq!(d.degrees, n, "{s}")
                }
                (None, None, Err(_)) => {}
                (_, _, Ok(d)) => return Err(format!("{s:?} accepted as {}", d.degrees)),
                (_, _, Err(_)) => return Err(format!("{s:?} rejected")),
            }
            need_eq!(CardinalDirection::from_str(s).is_ok(), name.is_some(), "compass name {s:?}");
            Ok(())
        },
    );
    run.check(
        "conventions",
        40_000,
        || (fl(0.0, 360.0), 0..3usize),
        |(dir, c), o| {
            // A wave going along the unit vector (east, north) comes from the bearing of (-east, -north).
            o.nt();
            let conv = [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met];
            let conv = &conv[*c];
            let (east, north) = match conv {
                DirectionConvention::From => (-dir.to_radians().sin(), -dir.to_radians().cos()),
                DirectionConvention::Towards => (dir.to_radians().sin(), dir.to_radians().cos()),
                DirectionConvention::Met => (dir.to_radians().cos(), dir.to_radians().sin()),
            };
            let want = (-east).atan2(-north).to_degrees().rem_euclid(360.0);
            let got = conv.normalize(*dir);
            need!(circ_diff(got, want) < 1e-6, "{conv:?} {dir} normalized to {got}, expected {want}");
            need!((0.0..=360.0).contains(&got), "{conv:?} {dir} normalized to {got}");
            if !matches!(conv, DirectionConvention::From) {
                need!(got < 360.0, "{conv:?} {dir} normalized to {got}");
            }
            Ok(())
        },
    );
}
