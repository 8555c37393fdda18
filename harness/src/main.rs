mod c_contour;
mod c_data;
mod c_geo;
mod c_num;
mod c_spec;
mod c_units;
mod c_waves;
mod c_whole;
mod fw;
mod gens;
mod text;

use fw::Run;
#[global_allocator]
static ALLOCATOR: fw::Counting = fw::Counting;

fn table() -> Vec<(&'static str, fn(&mut Run))> {
    vec![
        ("C01", c_units::c01), ("C02", c_units::c02), ("C03", c_units::c03),
        ("C05", c_geo::c05), ("C06", c_geo::c06), ("C07", c_geo::c07),
        ("C08", c_num::c08), ("C09", c_num::c09), ("C10", c_num::c10),
        ("C11", c_spec::c11), ("C12", c_spec::c12), ("C13", c_spec::c13), ("C14", c_spec::c14),
        ("C15", c_spec::c15), ("C16", c_spec::c16), ("C20", c_spec::c20), ("C36", c_spec::c36),
        ("C17", c_waves::c17), ("C18", c_waves::c18), ("C19", c_waves::c19),
        ("C21", c_contour::c21),
        ("C22", c_waves::c22), ("C23", c_waves::c23), ("C24", c_waves::c24),
        ("C25", c_data::c25), ("C26", c_data::c26), ("C27", c_data::c27), ("C28", c_data::c28),
        ("C29", c_data::c29), ("C30", c_data::c30), ("C31", c_data::c31), ("C32", c_data::c32),
        ("C33", c_data::c33), ("C34", c_data::c34), ("C45", c_data::c45), ("C46", c_whole::c46),
        ("C35", c_geo::c35),
    ]
}

fn main() {
    fw::drive(table());
}
