//! The checks of the modules that need gribberish or readap, built against stand-ins for these
//! two crates (../../stubs). Kept apart so that the other checks do not depend on them.
mod c_model;
mod c_obs;
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gens.rs"]
#[allow(dead_code)]
mod gens;
#[path = "../../harness/src/text.rs"]
mod text;

use fw::Run;
#[global_allocator]
static ALLOCATOR: fw::Counting = fw::Counting;

fn table() -> Vec<(&'static str, fn(&mut Run))> {
    vec![
        ("C37", c_obs::c37), ("C40", c_obs::c40), ("C42", c_obs::c42),
        ("C38", c_model::c38), ("C39", c_model::c39), ("C41", c_model::c41), ("C43", c_model::c43),
        ("C44", c_model::c44),
    ]
}

fn main() {
    fw::drive(table());
}
