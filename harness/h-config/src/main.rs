mod files;
mod keyfile;
mod limits;
mod retrying;

const RULE: &str = "settings that differ from the defaults, a file that is damaged or interrupted, or an operation that fails at least once";

fn k01(c: &mut vcore::Check) {
    files::check(c);
    limits::check(c);
    retrying::check(c);
    keyfile::check(c);
    c.assume("serde_yaml, serde_json and the ciphers of the RustCrypto crates behave as documented");
}

fn main() {
    vcore::main(&[("K01", RULE, k01)]);
}
