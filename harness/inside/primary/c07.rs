//! C07: votes on epoch records as they come from the network.

use super::{
    c01::Params,
    c02::{bus, config},
    handler::{gossip_in, message, Net},
};

use crate::network::verif::epoch_vote;
pub use crate::network::verif::epoch_vote_in as gossip;
use std::collections::BTreeSet;
use tn_storage::{consensus::ConsensusChain, mem_db::MemDatabase};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// Votes are passed on exactly if a member cast them on the stored record, each once.
fn votes(g: &mut G) -> R {
    let com = committee(g, 4, 7, 0);
    let rec = EpochRecord {
        epoch: 0,
        committee: com.members.iter().map(|k| k.pk()).collect(),
        next_committee: com.members.iter().map(|k| k.pk()).collect(),
        final_state: num_hash(g),
        ..Default::default()
    };
    let stored = g.chance(7, 8);
    let certified = stored && g.chance(1, 8);
    let dir = Scratch::new();
    block_on(async {
        let cc = ConsensusChain::new(dir.path().to_path_buf(), com.committee.clone()).map_err(s("open"))?;
        if stored {
            cc.epochs().save_record(rec.clone()).await.map_err(s("save"))?;
        }
        if certified {
            let sigs: Vec<_> = com.members.iter().map(|k| rec.sign_vote(*k).signature).collect();
            let signature = BlsAggregateSignature::aggregate(&sigs, true).unwrap().to_signature();
            let signed_authorities = (0..com.n() as u32).collect();
            let c = EpochCertificate { epoch_hash: rec.digest(), signature, signed_authorities };
            cc.epochs().save_certificate(rec.digest(), c).await.map_err(s("save"))?;
        }
        let cb = bus();
        let cfg = config(&com, Params { gc_depth: 50, window: 60, bad: 33 }, MemDatabase::default(), 0)?;
        let net = Net::new(cfg, &cb, cc.clone());
        let mut rx = cb.app().subscribe_new_epoch_votes();
        let mut done = BTreeSet::new();
        for _ in 0..g.urange(3, 12) {
            let k = com.members[g.usize(com.n())];
            let mut v = rec.sign_vote(k);
            let kind = *g.pick(&["right", "right", "forged", "other record", "stranger", "other epoch", "wrong topic"]);
            match kind {
                "forged" => v.signature = rec.sign_vote(com.outsider(g)).signature,
                "other record" => {
                    let mut r = rec.clone();
                    r.final_state.number ^= 1;
                    v = r.sign_vote(k);
                }
                "stranger" => v = rec.sign_vote(com.outsider(g)),
                "other epoch" => v.epoch = 1 + g.below(3) as Epoch,
                _ => {}
            }
            g.class(kind);
            let topic = if kind == "wrong topic" { "tn-primary" } else { "tn-epoch-vote" };
            let res = gossip_in(&net, &message(&net, topic, epoch_vote(v))).await;
            let mut got = vec![];
            while let Ok(v) = rx.try_recv() {
                got.push(v);
            }
            let fresh = !done.contains(&k.pk());
            let want = kind == "right" && stored && !certified && fresh;
            if want {
                done.insert(k.pk());
                ensure_eq!(got, vec![v], "the first vote of a member on the record");
                ensure!(res.is_ok(), "a right vote is refused: {res:?}");
            } else {
                ensure!(got.is_empty(), "passed on: {kind}, record stored {stored}, certified {certified}, first {fresh}: {got:?}");
            }
            let blame = kind == "wrong topic"
                || (stored && !certified && (kind == "other record" || kind == "stranger" || (kind == "forged" && fresh)));
            if blame {
                ensure!(res.is_err(), "taken without an error: {kind}");
            }
        }
        g.nontrivial_if(done.len() > 1);
        Ok(())
    })
}

pub fn check(c: &mut Check) {
    c.sub("gossip", Budget::new(400, 40).thorough(10_000, 600), votes);
}
