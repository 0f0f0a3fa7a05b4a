//! Stand-in for the names of reth-primitives that the consensus crates use. Where reth's own type is an
//! alias of alloy's, so is this one.

use alloy::{
    consensus::Header,
    eips::BlockNumHash,
    primitives::{BlockHash, B256},
};
use std::sync::OnceLock;

pub type TransactionSigned = alloy::consensus::EthereumTxEnvelope<alloy::consensus::TxEip4844>;
pub type Transaction = alloy::consensus::EthereumTypedTransaction<alloy::consensus::TxEip4844>;
pub type PooledTransaction =
    alloy::consensus::EthereumTxEnvelope<alloy::consensus::TxEip4844WithSidecar>;
pub type BlockBody = alloy::consensus::BlockBody<TransactionSigned>;
pub type Block = alloy::consensus::Block<TransactionSigned>;
pub use alloy::consensus::transaction::Recovered;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Account;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct EthPrimitives;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Receipt;
#[derive(Clone, Debug, Default)]
pub struct SealedBlock(pub Block, pub BlockHash);
#[derive(Clone, Debug, Default)]
pub struct RecoveredBlock(pub Block);
pub trait NodePrimitives {}

/// A header with its (lazily computed) hash, as reth's.
#[derive(Clone, Debug)]
pub struct SealedHeader {
    hash: OnceLock<BlockHash>,
    header: Header,
}

impl SealedHeader {
    pub fn new(header: Header, hash: BlockHash) -> Self {
        let cell = OnceLock::new();
        let _ = cell.set(hash);
        Self { hash: cell, header }
    }
    pub fn seal_slow(header: Header) -> Self {
        let hash = header.hash_slow();
        Self::new(header, hash)
    }
    pub fn hash(&self) -> B256 {
        *self.hash.get_or_init(|| self.header.hash_slow())
    }
    pub fn hash_ref(&self) -> &B256 {
        self.hash.get_or_init(|| self.header.hash_slow())
    }
    pub fn header(&self) -> &Header {
        &self.header
    }
    pub fn into_header(self) -> Header {
        self.header
    }
    pub fn unseal(self) -> Header {
        self.header
    }
    pub fn clone_header(&self) -> Header {
        self.header.clone()
    }
    pub fn num_hash(&self) -> BlockNumHash {
        BlockNumHash::new(self.header.number, self.hash())
    }
}

impl Default for SealedHeader {
    fn default() -> Self {
        Self::seal_slow(Header::default())
    }
}
impl PartialEq for SealedHeader {
    fn eq(&self, o: &Self) -> bool {
        self.hash() == o.hash()
    }
}
impl Eq for SealedHeader {}
impl std::hash::Hash for SealedHeader {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.hash_ref().hash(state)
    }
}
impl std::ops::Deref for SealedHeader {
    type Target = Header;
    fn deref(&self) -> &Header {
        &self.header
    }
}

#[derive(serde::Serialize, serde::Deserialize)]
#[serde(rename = "SealedHeader")]
struct SealedHeaderRepr {
    hash: BlockHash,
    header: Header,
}
impl serde::Serialize for SealedHeader {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        SealedHeaderRepr { hash: self.hash(), header: self.header.clone() }.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for SealedHeader {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let r = SealedHeaderRepr::deserialize(d)?;
        Ok(Self::new(r.header, r.hash))
    }
}
