//! C09 (offset tables partition the input) and C16 (list limits and fallible collections).

use mc::engine::{args, run};

mod interleave;
mod limits;
mod tables;

fn main() {
    let a = args();
    mc::model::self_check();
    let units = match a.prop.as_str() {
        "C09" => tables::units(),
        "C16" => limits::units(),
        x => panic!("no such property here: {x}"),
    };
    run(a, units)
}
