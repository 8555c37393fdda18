//! Shared strategies.
use chrono::{DateTime, TimeZone, Utc};
use proptest::prelude::*;
use surfrs::units::{Unit, UnitSystem};

/// Now and then an entry twice in a row.
pub fn repeats<T: Clone + std::fmt::Debug + 'static>(s: impl Strategy<Value = Vec<T>> + 'static) -> BoxedStrategy<Vec<T>> {
    (s, prop::option::weighted(0.06, any::<prop::sample::Index>()))
        .prop_map(|(mut v, at)| {
            if let (Some(at), false) = (at, v.is_empty()) {
                let i = at.index(v.len());
                v.insert(i, v[i].clone());
            }
            v
        })
        .boxed()
}

/// Now and then (once in `rare` cases) a list of up to `max` entries, far longer than `s` makes, once in twenty of
/// these up to ten times as many; now and then an entry twice in a row.
pub fn long<T: Clone + std::fmt::Debug + 'static>(
    s: impl Strategy<Value = Vec<T>> + 'static,
    rare: u32,
    max: usize,
) -> BoxedStrategy<Vec<T>> {
    (repeats(s), prop_oneof![20 * (rare - 1) => Just(0usize), 19 => 0..=max, 1 => 0..=10 * max])
        .prop_map(|(v, n)| if v.is_empty() || n <= v.len() { v } else { v.iter().cloned().cycle().take(n).collect() })
        .boxed()
}

/// A whole number of a range, now and then the one that is easily taken for nothing.
pub fn or_zero(r: std::ops::RangeInclusive<i32>) -> BoxedStrategy<i32> {
    prop_oneof![9 => r, 1 => Just(0)].boxed()
}

/// A float in [lo, hi]: uniform, on a 0.01 grid, whole, or one of the ends.
pub fn fl(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        4 => lo..=hi,
        2 => ((lo * 100.0).ceil() as i64..=(hi * 100.0).floor() as i64).prop_map(|i| i as f64 / 100.0),
        2 => (lo.ceil() as i64..=(hi.floor() as i64).max(lo.ceil() as i64)).prop_map(move |i| (i as f64).clamp(lo, hi)),
        1 => Just(lo),
        1 => Just(hi),
    ]
    .boxed()
}

/// A float whose magnitude varies over many decades.
pub fn wide() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => (-6.0..6.0f64, any::<bool>()).prop_map(|(e, s)| {
            let v = 10f64.powf(e);
            if s { -v } else { v }
        }),
        3 => -1000.0..1000.0f64,
        1 => (-100i32..100).prop_map(|v| v as f64),
        1 => Just(0.0),
    ]
    .boxed()
}

/// A UTC instant between 1901 and 2099, with month ends, year ends and leap days over-represented.
pub fn instant() -> BoxedStrategy<DateTime<Utc>> {
    prop_oneof![
        3 => (-2_177_452_800i64..4_070_908_800).prop_map(|t| Utc.timestamp_opt(t, 0).unwrap()),
        2 => (-2_177_452_800i64..4_070_908_800, 0u32..1_000_000_000)
            .prop_map(|(t, n)| Utc.timestamp_opt(t, n).unwrap()),
        2 => (1901i32..2099, 1u32..=12, 0i64..172_800).prop_map(|(y, m, s)| {
            // around a month boundary
            Utc.with_ymd_and_hms(y, m, 1, 0, 0, 0).unwrap() + chrono::Duration::seconds(s - 86_400)
        }),
        1 => (1901i32..2099, 0i64..172_800).prop_map(|(y, s)| {
            Utc.with_ymd_and_hms(y, 3, 1, 0, 0, 0).unwrap() + chrono::Duration::seconds(s - 86_400)
        }),
        1 => (1901i32..2099, 0i64..172_800).prop_map(|(y, s)| {
            Utc.with_ymd_and_hms(y, 1, 1, 0, 0, 0).unwrap() + chrono::Duration::seconds(s - 86_400)
        }),
    ]
    .boxed()
}

/// An instant on a whole minute.
pub fn minute() -> BoxedStrategy<DateTime<Utc>> {
    instant()
        .prop_map(|d| Utc.timestamp_opt(d.timestamp().div_euclid(60) * 60, 0).unwrap())
        .boxed()
}

/// An instant on a whole hour.
pub fn hour() -> BoxedStrategy<DateTime<Utc>> {
    instant()
        .prop_map(|d| Utc.timestamp_opt(d.timestamp().div_euclid(3600) * 3600, 0).unwrap())
        .boxed()
}

pub const UNITS: [Unit; 20] = [
    Unit::Millimeters,
    Unit::Meters,
    Unit::MetersPerSecond,
    Unit::Celsius,
    Unit::Pascal,
    Unit::HectaPascal,
    Unit::Inches,
    Unit::Feet,
    Unit::MilesPerHour,
    Unit::Fahrenheit,
    Unit::InchesMercury,
    Unit::Knots,
    Unit::Kelvin,
    Unit::MetersSquaredPerHertz,
    Unit::NauticalMiles,
    Unit::Degrees,
    Unit::Seconds,
    Unit::Percent,
    Unit::KiloJoules,
    Unit::Unknown,
];

pub const SYSTEMS: [UnitSystem; 4] = [
    UnitSystem::Metric,
    UnitSystem::English,
    UnitSystem::Knots,
    UnitSystem::Kelvin,
];

pub fn unit() -> BoxedStrategy<Unit> {
    (0..UNITS.len()).prop_map(|i| UNITS[i].clone()).boxed()
}

pub fn system() -> BoxedStrategy<UnitSystem> {
    (0..SYSTEMS.len()).prop_map(|i| SYSTEMS[i].clone()).boxed()
}
