//! Stand-in for reth-chainspec: a chain spec is its genesis.
use alloy::genesis::Genesis;

#[derive(Clone, Debug, Default)]
pub struct ChainSpec {
    pub genesis: Genesis,
}
impl From<Genesis> for ChainSpec {
    fn from(genesis: Genesis) -> Self {
        Self { genesis }
    }
}
impl ChainSpec {
    pub fn genesis(&self) -> &Genesis {
        &self.genesis
    }
    pub fn chain_id(&self) -> u64 {
        self.genesis.config.chain_id
    }
}
