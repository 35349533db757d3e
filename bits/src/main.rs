//! C11, C12, C13, C14, C18: bitfields.

use mc::engine::{args, run, Tier};

mod c11;
mod c12;
mod c13;
mod c14;
mod c18;
#[path = "../gen/caps.rs"]
mod caps;
mod field;

/// The two independent halves of the model agree.
fn self_check() {
    use field::*;
    for k in [Kind::List(9), Kind::List(10), Kind::Vect(0), Kind::Vect(8), Kind::Vect(9), Kind::Dyn] {
        for l in k.lengths(10) {
            for m in all_bits(l) {
                assert_eq!(meaning(k, &encoding(k, &m)), Some(m));
            }
        }
        for x in 0..=0xffffu16 {
            let b = x.to_le_bytes();
            for b in [&b[..], &b[..1]] {
                if let Some(m) = meaning(k, b) {
                    assert_eq!(encoding(k, &m), b);
                    assert!(k.allows(m.len()));
                }
            }
        }
    }
}

fn main() {
    let a = args();
    self_check();
    let thorough = a.tier == Tier::Thorough;
    let units = match a.prop.as_str() {
        "C11" => c11::units(thorough),
        "C12" => c12::units(thorough),
        "C13" => c13::units(thorough),
        "C14" => c14::units(thorough),
        "C18" => c18::units(thorough),
        x => panic!("no such property here: {x}"),
    };
    run(a, units)
}
