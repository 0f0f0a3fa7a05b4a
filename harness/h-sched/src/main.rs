mod chan;
mod model;
mod sched;
mod tasks;

const RULE: &str = "a case with at least one notification, message or task end that somebody was waiting for";

fn t01(c: &mut vcore::Check) {
    model::check(c);
    chan::check(c);
    tasks::check(c);
    sched::check(c);
    c.assume("tokio's channels and shuttle's scheduler behave as documented; interleavings are explored at lock operations (shuttle) and by real threads");
}

fn main() {
    vcore::main(&[("T01", RULE, t01)]);
}
