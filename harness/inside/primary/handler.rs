//! The handler of network messages and what it needs.

use crate::{
    error::PrimaryNetworkResult,
    network::{handler::RequestHandler, verif::process_gossip},
    state_sync::StateSynchronizer, ConsensusBus,
};
use tn_config::ConsensusConfig;
use tn_network_libp2p::{GossipMessage, TopicHash};
use tn_storage::{consensus::ConsensusChain, mem_db::MemDatabase};
use tn_types::{Database, TaskManager};

pub struct Net<DB = MemDatabase> {
    pub handler: RequestHandler<DB>,
    pub sync: StateSynchronizer<DB>,
    pub cfg: ConsensusConfig<DB>,
    pub tasks: TaskManager,
}

impl<DB: Database> Net<DB> {
    pub fn new(cfg: ConsensusConfig<DB>, cb: &ConsensusBus, cc: ConsensusChain) -> Self {
        let tasks = TaskManager::default();
        let sync = StateSynchronizer::new(cfg.clone(), cb.clone(), tasks.get_spawner());
        let handler = RequestHandler::new(cfg.clone(), cb.app().clone(), sync.clone(), cc);
        Self { handler, sync, cfg, tasks }
    }
}

pub fn message(net: &Net, topic: &str, data: Vec<u8>) -> GossipMessage {
    let topic = TopicHash::from_raw(format!("{topic}-{}", net.cfg.chain_id()));
    GossipMessage { source: None, data, sequence_number: None, topic }
}

pub async fn gossip_in(net: &Net, m: &GossipMessage) -> PrimaryNetworkResult<()> {
    process_gossip(&net.handler, m).await
}

/// A runtime whose clock runs only when nothing else is to be done.
pub fn paused<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(f)
}
