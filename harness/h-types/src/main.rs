use h_types::*;

fn main() {
    vcore::main(&[
        ("C04", c04::RULE, c04::check),
        ("C08", c08::RULE, c08::check),
        ("E01", e01::RULE, e01::check),
        ("E02", e02::RULE, e02::check),
        ("E03", e03::RULE, e03::check),
        ("G01", g01::RULE, g01::check),
    ]);
}
