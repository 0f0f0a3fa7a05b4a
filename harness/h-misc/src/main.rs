mod m01;
mod scrape;

fn main() {
    vcore::main(&[("M01", m01::RULE, m01::check)]);
}
