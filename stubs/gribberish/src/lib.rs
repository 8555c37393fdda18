//! Stand-in for the parts of the gribberish crate that surfrs uses: a message is a regular
//! latitude/longitude grid that the harness fills in, instead of one decoded from GRIB2 bytes.

/// The value of an `Option`, or return the error from the calling function.
#[macro_export]
macro_rules! unwrap_or_return {
    ($value:expr, $error:expr) => {
        match $value {
            Some(v) => v,
            None => return Err($error),
        }
    };
}

pub mod error {
    #[derive(Debug, Clone)]
    pub enum GribberishError {
        MessageError(String),
    }

    impl std::fmt::Display for GribberishError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                GribberishError::MessageError(m) => write!(f, "message error: {m}"),
            }
        }
    }

    impl std::error::Error for GribberishError {}
}

pub mod templates {
    pub mod product {
        pub mod tables {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum FixedSurfaceType {
                GroundOrWater,
                OrderedSequence,
                Missing,
            }
        }
    }
}

pub mod message {
    use crate::error::GribberishError;
    use crate::templates::product::tables::FixedSurfaceType;
    use chrono::{DateTime, Utc};

    /// A regular grid from `start` to `end` (latitude, longitude), both cells included.
    #[derive(Debug, Clone)]
    pub struct LatLngProjection {
        pub start: (f64, f64),
        pub end: (f64, f64),
        pub shape: (usize, usize),
    }

    fn axis(a: f64, b: f64, n: usize) -> Vec<f64> {
        (0..n)
            .map(|i| if n > 1 { a + (b - a) * i as f64 / (n - 1) as f64 } else { a })
            .collect()
    }

    impl LatLngProjection {
        /// The latitudes of the rows and the longitudes of the columns.
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) {
            (axis(self.start.0, self.end.0, self.shape.0), axis(self.start.1, self.end.1, self.shape.1))
        }
        pub fn latlng_start(&self) -> (f64, f64) {
            self.start
        }
        pub fn latlng_end(&self) -> (f64, f64) {
            self.end
        }
        /// (west, south, east, north)
        pub fn bbox(&self) -> (f64, f64, f64, f64) {
            (self.start.1, self.start.0.min(self.end.0), self.end.1, self.start.0.max(self.end.0))
        }
    }

    #[derive(Debug, Clone)]
    pub struct Message {
        pub projection: Option<LatLngProjection>,
        pub data: Vec<f64>,
        pub unit: String,
        pub abbrev: Option<String>,
        pub date: Option<DateTime<Utc>>,
        pub surface: (FixedSurfaceType, Option<f64>),
    }

    fn lacking(what: &str) -> GribberishError {
        GribberishError::MessageError(format!("no {what}"))
    }

    impl Message {
        pub fn latlng_projector(&self) -> Result<LatLngProjection, GribberishError> {
            self.projection.clone().ok_or_else(|| lacking("projection"))
        }
        /// (rows, columns)
        pub fn grid_dimensions(&self) -> Result<(usize, usize), GribberishError> {
            Ok(self.latlng_projector()?.shape)
        }
        pub fn data(&self) -> Result<Vec<f64>, GribberishError> {
            Ok(self.data.clone())
        }
        pub fn unit(&self) -> Result<String, GribberishError> {
            Ok(self.unit.clone())
        }
        pub fn variable_abbrev(&self) -> Result<String, GribberishError> {
            self.abbrev.clone().ok_or_else(|| lacking("abbreviation"))
        }
        pub fn forecast_date(&self) -> Result<DateTime<Utc>, GribberishError> {
            self.date.ok_or_else(|| lacking("date"))
        }
        pub fn first_fixed_surface(&self) -> Result<(FixedSurfaceType, Option<f64>), GribberishError> {
            Ok(self.surface)
        }
    }
}
