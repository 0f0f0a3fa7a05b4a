mod s01;
mod s02;
mod s03;
mod s03chain;
mod s04;
mod s05;
mod s05disk;
mod s06;
mod s07;
mod s08;
mod world;

fn main() {
    vcore::main(&[
        ("S01", s01::RULE, s01::check),
        ("S02", s02::RULE, s02::check),
        ("S03", s03::RULE, s03::check),
        ("S04", s04::RULE, s04::check),
        ("S05", s05::RULE, s05::check),
        ("S06", s06::RULE, s06::check),
        ("S07", s07::RULE, s07::check),
        ("S08", s08::RULE, s08::check),
    ]);
}
