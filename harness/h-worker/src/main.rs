mod fetch;
mod serve;
mod streams;
mod w01;
mod w02;
#[allow(dead_code)]
#[path = "../../h-storage/src/world.rs"]
mod world;

fn main() {
    vcore::main(&[("W01", w01::RULE, w01::check), ("W02", w02::RULE, w02::check)]);
}
