//! Generators and comparisons for line oriented text formats.
use crate::fw::*;
use crate::{need, need_eq};
use chrono::{DateTime, Datelike, Timelike, Utc};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::{Direction, Unit};

/// Tokens separated by one or more blanks.
pub fn spaced(tokens: &[String], gaps: &[u8]) -> String {
    let mut out = String::new();
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let n = gaps.get(i % gaps.len().max(1)).copied().unwrap_or(0) % 4;
            out.push_str(&" ".repeat(1 + n as usize));
        }
        out.push_str(t);
    }
    out
}

pub fn gaps() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![0]), 2 => prop::collection::vec(0u8..4, 1..8)].boxed()
}

/// A number as printed in a fixed column, or a marker for a missing one.
pub fn number(lo: i32, hi: i32) -> BoxedStrategy<String> {
    prop_oneof![
        5 => (lo * 10..=hi * 10).prop_map(|v| format!("{:.1}", v as f64 / 10.0)),
        2 => (lo * 100..=hi * 100).prop_map(|v| format!("{:.2}", v as f64 / 100.0)),
        2 => (lo..=hi).prop_map(|v| v.to_string()),
        2 => Just("MM".to_string()),
        1 => Just("-".to_string()),
        // numbers that stand for nothing elsewhere
        1 => prop::sample::select(vec!["0", "0.0", "99", "99.0", "99.00", "999", "999.0", "9999.0"]).prop_map(String::from),
    ]
    .boxed()
}

pub const COMPASS: [&str; 16] =
    ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"];

pub fn bearing() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0usize..16).prop_map(|i| COMPASS[i].to_string()),
        4 => (0i32..=360).prop_map(|v| v.to_string()),
        1 => Just("MM".to_string()),
        1 => Just("-".to_string()),
    ]
    .boxed()
}

/// The value read from a column equals the text, or is missing.
pub fn same_value(what: &str, d: &DimensionalData<f64>, text: &str, unit: Unit) -> Result<(), String> {
    need_eq!(d.value, text.parse::<f64>().ok(), "{what} read from {text:?}");
    need_eq!(d.unit, unit, "{what}: unit");
    Ok(())
}

pub fn same_bearing(what: &str, d: &DimensionalData<Direction>, text: &str) -> Result<(), String> {
    need_eq!(d.unit, Unit::Degrees, "{what}: unit");
    match (&d.value, COMPASS.iter().position(|c| *c == text), text.parse::<i32>()) {
        (Some(v), Some(i), _) => {
            let off = (v.degrees as f64 - i as f64 * 22.5).abs();
            need!(off == 0.0 || (i % 2 == 1 && off <= 0.5), "{what}: {text} is {} degrees", v.degrees);
            need_eq!(v.cardinal_direction().to_string().to_uppercase(), text, "{what}: compass point");
        }
        (Some(v), None, Ok(n)) => need_eq!(v.degrees, n, "{what} read from {text}"),
        (None, None, Err(_)) => {}
        (v, ..) => return Err(format!("{what} read from {text:?} is {v:?}")),
    }
    Ok(())
}

pub fn date_tokens(d: &DateTime<Utc>) -> Vec<String> {
    vec![
        format!("{:04}", d.year()),
        format!("{:02}", d.month()),
        format!("{:02}", d.day()),
        format!("{:02}", d.hour()),
        format!("{:02}", d.minute()),
    ]
}

/// What spoils a row.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spoil {
    /// token `.0` of the date becomes impossible
    Date(u8, bool),
    /// only this share of the tokens is left
    Short(f64),
    Words(Vec<String>),
    /// one value is replaced by a word
    Value(f64, String),
    DropLast,
}

pub fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[A-Za-z/()*:;_-]{1,8}",
        1 => Just("é°~½".to_string()),
        1 => Just("1.2.3".to_string()),
        1 => Just("--5".to_string()),
        1 => "\"?[A-Za-z0-9]{0,3}\"",
        1 => "\"[A-Za-z0-9]{0,3}",
    ]
    .prop_filter("numbers", |w| !w.starts_with('#') && w.parse::<f64>().is_err())
    .boxed()
}

pub fn spoil() -> BoxedStrategy<Spoil> {
    prop_oneof![
        3 => (0u8..7, any::<bool>()).prop_map(|(a, b)| Spoil::Date(a, b)),
        2 => (0.0..1.0f64).prop_map(Spoil::Short),
        1 => prop::collection::vec(word(), 1..24).prop_map(Spoil::Words),
        2 => (0.0..1.0f64, word()).prop_map(|(a, b)| Spoil::Value(a, b)),
        1 => Just(Spoil::DropLast),
    ]
    .boxed()
}

/// Breaks the date in the first five tokens.
pub fn spoil_date(t: &mut [String], which: u8, alt: bool) {
    let set = |t: &mut [String], i: usize, v: &str| t[i] = v.to_string();
    match which {
        0 => set(t, 0, if alt { "MM" } else { "20x2" }),
        1 => set(t, 1, if alt { "13" } else { "00" }),
        2 => set(t, 2, if alt { "32" } else { "00" }),
        3 => set(t, 3, if alt { "24" } else { "99" }),
        4 => set(t, 4, if alt { "60" } else { "4m" }),
        5 => {
            set(t, 1, "02");
            set(t, 2, "30");
        }
        _ => {
            set(t, 0, "2023");
            set(t, 1, if alt { "02" } else { "11" });
            set(t, 2, if alt { "29" } else { "31" });
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Line<T> {
    Row(T),
    /// a row with more columns than the format has
    Longer(T, Vec<String>),
    Spoiled(T, Spoil),
    Comment(String),
    Blank,
}

pub fn line<T: Clone + Debug + 'static>(row: BoxedStrategy<T>) -> BoxedStrategy<Line<T>> {
    prop_oneof![
        6 => row.clone().prop_map(Line::Row),
        2 => (row, spoil()).prop_map(|(r, s)| Line::Spoiled(r, s)),
        1 => "[A-Za-z0-9 .()_-]{0,40}".prop_map(Line::Comment),
        1 => Just(Line::Blank),
    ]
    .boxed()
}

/// As `line`, for formats where a row may have columns that are not known yet.
pub fn longer_line<T: Clone + Debug + 'static>(row: BoxedStrategy<T>) -> BoxedStrategy<Line<T>> {
    prop_oneof![
        9 => line(row.clone()),
        1 => (row, later_columns()).prop_map(|(r, more)| Line::Longer(r, more)),
    ]
    .boxed()
}

/// Columns behind those of the format: mostly none.
pub fn later_columns() -> BoxedStrategy<Vec<String>> {
    let column = prop_oneof![2 => "[0-9]{1,3}", 1 => "[0-9]{1,2}\\.[0-9]", 1 => Just("MM".to_string()), 1 => "[A-Z]{1,4}"];
    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(column, 1..4)].boxed()
}

/// The file, and the rows that are to be read from it.
pub fn file<'a, T>(
    lines: &'a [Line<T>],
    gaps: &[u8],
    crlf: bool,
    tokens: impl Fn(&T) -> Vec<String>,
    break_row: impl Fn(&mut Vec<String>, &Spoil) -> bool,
    o: &mut Obs,
) -> (String, Vec<&'a T>) {
    let eol = if crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut rows = vec![];
    let mut last_bad = false;
    for l in lines {
        match l {
            Line::Row(r) => {
                text.push_str(&spaced(&tokens(r), gaps));
                rows.push(r);
                o.label_if(last_bad, "row after a malformed one");
                last_bad = false;
            }
            Line::Longer(r, more) => {
                let mut t = tokens(r);
                t.extend(more.iter().cloned());
                text.push_str(&spaced(&t, gaps));
                rows.push(r);
                o.label("columns the format does not have");
                last_bad = false;
            }
            Line::Spoiled(r, s) => {
                let mut t = tokens(r);
                if !break_row(&mut t, s) {
                    continue;
                }
                last_bad = true;
                o.label("malformed row");
                text.push_str(&spaced(&t, gaps));
            }
            Line::Comment(c) => text.push_str(&format!("#{c}")),
            Line::Blank => {}
        }
        text.push_str(eol);
    }
    (text, rows)
}

