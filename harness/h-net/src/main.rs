use tn_network_libp2p::{verif_kad, verif_peers};

fn main() {
    vcore::main(&[("N02", verif_peers::RULE, verif_peers::check), ("N03", verif_kad::RULE, verif_kad::check)]);
}
