//! C08: derived codecs against the schema of their definition. C15: union selectors.

use mc::codec::{bounds_of, c08_both, c08_decode, c08_encode};
use mc::engine::{args, run, Tier, Unit};
use mc::ops::Ops;

mod selectors;

include!("../gen/all.rs");

fn registry() -> Vec<(u8, &'static Ops)> {
    let mut all: Vec<&'static (usize, u8, Ops)> = SHARDS.iter().flat_map(|s| s.iter()).collect();
    all.sort_by_key(|x| x.0);
    all.into_iter().map(|x| (x.1, &x.2)).collect()
}

fn main() {
    let a = args();
    mc::model::self_check();
    let r = registry();
    let units: Vec<Unit> = match a.prop.as_str() {
        "C08" => {
            let tier = a.tier;
            let b = move |s: &mc::model::Schema| bounds_of(s, tier == Tier::Thorough);
            r.into_iter()
                .map(|(side, o)| {
                    Unit::new(o.name, move |t| {
                        let s = (o.schema)();
                        match side {
                            0 => c08_both(t, o, &s, &b(&s)),
                            1 => c08_encode(t, o, &s),
                            _ => c08_decode(t, o, &s, &b(&s)),
                        }
                    })
                })
                .collect()
        }
        "C15" => selectors::units(r.into_iter().map(|x| x.1).collect()),
        x => panic!("no such property here: {x}"),
    };
    run(a, units)
}
