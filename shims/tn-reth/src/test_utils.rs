//! The fixtures of tn-reth's `test_utils`.
use crate::RethChainSpec;
use alloy::{
    consensus::{SignableTransaction as _, TxEip1559},
    eips::Encodable2718 as _,
    primitives::{keccak256, Address, Bytes, Signature, TxKind, B256, U256},
};
use rand::{rngs::StdRng, Rng, SeedableRng as _};
use secp256k1::{Keypair, Message, SECP256K1};
use std::sync::Arc;
use tn_types::{test_genesis, Batch, ExecHeader, TransactionSigned, WorkerId};

#[derive(Clone, Copy, Debug)]
pub struct TransactionFactory {
    keypair: Keypair,
    nonce: u64,
}

impl Default for TransactionFactory {
    fn default() -> Self {
        Self::new()
    }
}

impl TransactionFactory {
    pub fn new() -> Self {
        Self::new_random_from_seed(&mut StdRng::from_seed([0; 32]))
    }
    pub fn new_random_from_seed<R: Rng + ?Sized>(rand: &mut R) -> Self {
        let mut secret = [0u8; 32];
        loop {
            rand.fill(&mut secret);
            if let Ok(keypair) = Keypair::from_seckey_byte_array(SECP256K1, secret) {
                return Self { keypair, nonce: 0 };
            }
        }
    }
    pub fn new_random() -> Self {
        Self::new_random_from_seed(&mut StdRng::from_os_rng())
    }
    pub fn address(&self) -> Address {
        let hash = keccak256(&self.keypair.public_key().serialize_uncompressed()[1..]);
        Address::from_slice(&hash[12..])
    }
    pub fn set_nonce(&mut self, nonce: u64) {
        self.nonce = nonce;
    }
    pub fn sign_hash(&self, hash: B256) -> Signature {
        let sig = SECP256K1.sign_ecdsa_recoverable(Message::from_digest(hash.0), &self.keypair.secret_key());
        let (id, data) = sig.serialize_compact();
        Signature::new(
            U256::from_be_slice(&data[..32]),
            U256::from_be_slice(&data[32..64]),
            i32::from(id) != 0,
        )
    }
    pub fn create_eip1559_encoded(
        &mut self,
        chain: Arc<RethChainSpec>,
        gas_limit: Option<u64>,
        gas_price: u128,
        to: Option<Address>,
        value: U256,
        input: Bytes,
    ) -> Vec<u8> {
        self.create_eip1559(chain, gas_limit, gas_price, to, value, input).encoded_2718()
    }
    pub fn create_eip1559(
        &mut self,
        chain: Arc<RethChainSpec>,
        gas_limit: Option<u64>,
        gas_price: u128,
        to: Option<Address>,
        value: U256,
        input: Bytes,
    ) -> TransactionSigned {
        let tx = TxEip1559 {
            chain_id: chain.chain_id(),
            nonce: self.nonce,
            max_priority_fee_per_gas: 0,
            max_fee_per_gas: gas_price,
            gas_limit: gas_limit.unwrap_or(1_000_000),
            to: to.map_or(TxKind::Create, TxKind::Call),
            value,
            input,
            access_list: Default::default(),
        };
        let signature = self.sign_hash(tx.signature_hash());
        self.nonce += 1;
        tx.into_signed(signature).into()
    }
}

pub fn transaction(chain: Arc<RethChainSpec>) -> Vec<u8> {
    TransactionFactory::new_random().create_eip1559_encoded(
        chain,
        None,
        100_000,
        Some(Address::ZERO),
        U256::from(10).pow(U256::from(18)),
        Bytes::new(),
    )
}

pub fn fixture_batch_with_transactions(number_of_transactions: u32) -> Batch {
    let chain: Arc<RethChainSpec> = Arc::new(test_genesis().into());
    let transactions = (0..number_of_transactions).map(|_| transaction(chain.clone())).collect();
    Batch { transactions, beneficiary: Address::random(), ..Default::default() }
}

pub fn batch(chain: Arc<RethChainSpec>) -> Batch {
    let transactions = vec![transaction(chain.clone()), transaction(chain)];
    Batch { transactions, ..Default::default() }
}

pub fn batches(chain: Arc<RethChainSpec>, num_of_batches: usize) -> Vec<Batch> {
    (1..num_of_batches + 1).map(|i| batch_with_transactions(chain.clone(), i, 0)).collect()
}

pub fn batch_with_transactions(
    chain: Arc<RethChainSpec>,
    num_of_transactions: usize,
    worker_id: WorkerId,
) -> Batch {
    let transactions = (0..num_of_transactions).map(|_| transaction(chain.clone())).collect();
    Batch::new_for_test(transactions, ExecHeader::default(), worker_id, 0)
}
