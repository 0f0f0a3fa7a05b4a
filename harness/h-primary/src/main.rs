mod c07;
mod n01;
#[allow(dead_code)]
#[path = "../../../crates-src/node/manager/epoch_votes.rs"]
mod epoch_votes;

use tn_primary::verif::{c01, c02, c03, c05, c06, c09};

fn main() {
    vcore::main(&[
        ("C01", c01::RULE, c01::check),
        ("C02", c02::RULE, c02::check),
        ("C03", c03::RULE, c03::check),
        ("C05", c05::RULE, c05::check),
        ("C06", c06::RULE, c06::check),
        ("C09", c09::RULE, c09::check),
        ("C07", c07::RULE, c07::check),
        ("N01", n01::RULE, n01::check),
    ]);
}
