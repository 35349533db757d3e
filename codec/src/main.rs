//! Codec properties over the registry of library and derived types.

use mc::codec;
use mc::engine::{args, run};
use mc::ops::Ops;

mod histories;
mod interleave;

include!("../gen/all.rs");

/// All shards in the generator's order.
fn zoo() -> &'static [Ops] {
    let mut all: Vec<&(usize, Ops)> = SHARDS.iter().flat_map(|s| s.iter()).collect();
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| x.1).collect::<Vec<Ops>>().leak()
}

fn main() {
    let a = args();
    if let Some(c) = &a.child {
        histories::child(c);
    }
    mc::model::self_check();
    let r = zoo();
    let mut units = match a.prop.as_str() {
        "C01" => codec::c01(r),
        "C02" => codec::c02(r),
        "C03" => codec::c03(r),
        "C04" => codec::c04(r),
        "C05" => codec::c05(r),
        "C06" => codec::c06(r),
        "C07" => codec::c07(r),
        "C10" => codec::c10(r),
        "C17" => codec::full(r, |s| s.has_legacy(), false),
        "C19" => codec::full(r, |s| s.has_collections(), true),
        x => panic!("no such property here: {x}"),
    };
    units.extend(histories::units(&a.prop));
    run(a, units)
}
