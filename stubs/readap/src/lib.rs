//! Stand-in for the parts of the readap crate that surfrs uses: the bytes of a data set are
//! a text the harness writes (`encode`) instead of DODS.
//!
//! variable <name> <coordinate names...>
//! values <numbers...>

use std::convert::TryFrom;

#[derive(Debug, Clone)]
pub struct Error(pub String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DataValue {
    Float64(f64),
    Int32(i32),
}

impl TryFrom<DataValue> for f64 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<f64, Error> {
        Ok(match v {
            DataValue::Float64(f) => f,
            DataValue::Int32(i) => i as f64,
        })
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum DataArray {
    Float64(Vec<f64>),
}

impl TryFrom<DataArray> for Vec<f64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Vec<f64>, Error> {
        let DataArray::Float64(v) = v;
        Ok(v)
    }
}

impl TryFrom<DataArray> for Vec<i64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Vec<i64>, Error> {
        let DataArray::Float64(v) = v;
        Ok(v.into_iter().map(|f| f as i64).collect())
    }
}

#[derive(Debug, Clone)]
struct Variable {
    name: String,
    coords: Vec<String>,
    values: Vec<f64>,
}

#[derive(Debug, Clone)]
pub struct DodsDataset<'a> {
    variables: Vec<Variable>,
    #[allow(dead_code)]
    bytes: &'a [u8],
}

/// The bytes of a data set with these variables (name, coordinate names, values).
pub fn encode(variables: &[(&str, Vec<&str>, Vec<f64>)]) -> Vec<u8> {
    let mut out = String::new();
    for (name, coords, values) in variables {
        out += &format!("variable {name} {}\nvalues", coords.join(" "));
        for v in values {
            out += &format!(" {v:?}");
        }
        out += "\n";
    }
    out.into_bytes()
}

impl<'a> DodsDataset<'a> {
    pub fn from_bytes(bytes: &'a [u8]) -> Result<Self, Error> {
        let text = std::str::from_utf8(bytes).map_err(|e| Error(e.to_string()))?;
        let mut variables: Vec<Variable> = vec![];
        for line in text.lines() {
            let mut words = line.split_whitespace();
            match words.next() {
                Some("variable") => variables.push(Variable {
                    name: words.next().ok_or_else(|| Error("no name".into()))?.to_string(),
                    coords: words.map(|w| w.to_string()).collect(),
                    values: vec![],
                }),
                Some("values") => {
                    let v = variables.last_mut().ok_or_else(|| Error("no variable".into()))?;
                    for w in words {
                        v.values.push(w.parse().map_err(|_| Error(format!("not a number: {w}")))?);
                    }
                }
                _ => return Err(Error("not a data set".into())),
            }
        }
        Ok(DodsDataset { variables, bytes })
    }

    fn variable(&self, name: &str) -> Result<&Variable, Error> {
        self.variables
            .iter()
            .find(|v| v.name == name)
            .ok_or_else(|| Error(format!("no variable {name}")))
    }

    pub fn variable_coords(&self, name: &str) -> Result<Vec<(String, DataArray)>, Error> {
        self.variable(name)?
            .coords
            .iter()
            .map(|c| Ok((c.clone(), DataArray::Float64(self.variable(c)?.values.clone()))))
            .collect()
    }

    pub fn variable_data_iter(&self, name: &str) -> Result<Box<dyn Iterator<Item = DataValue> + '_>, Error> {
        Ok(Box::new(self.variable(name)?.values.iter().map(|v| DataValue::Float64(*v))))
    }
}
