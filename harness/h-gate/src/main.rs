use worker_gateway::verif;

fn main() {
    vcore::main(&[("P01", verif::RULE, verif::check)]);
}
