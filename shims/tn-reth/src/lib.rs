//! Stand-in for the few names of tn-reth that the consensus-side crates use: recovering a raw transaction
//! (reth's own definition over alloy's types), a pool that records what it is given, and the fixtures of
//! the `test-utils` modules. Files of the real tn-reth that need no reth are compiled in by path.
#![allow(missing_docs)]

use alloy::{consensus::transaction::SignerRecoverable as _, eips::Decodable2718 as _};
use std::sync::{Arc, Mutex};
use tn_types::{TaskSpawner, TransactionSigned};

pub use reth_chainspec::ChainSpec as RethChainSpec;
pub use reth_primitives::Recovered;

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
pub struct TnRethError(pub &'static str);

pub fn recover_raw_transaction(tx: &[u8]) -> Result<Recovered<TransactionSigned>, TnRethError> {
    if tx.is_empty() {
        return Err(TnRethError("empty transaction data"));
    }
    let tx = TransactionSigned::decode_2718_exact(tx)
        .map_err(|_| TnRethError("failed to decode signed transaction"))?;
    let signer =
        tx.recover_signer().map_err(|_| TnRethError("invalid transaction signature"))?;
    Ok(Recovered::new_unchecked(tx, signer))
}

pub fn recover_signed_transaction(tx: &[u8]) -> Result<TransactionSigned, TnRethError> {
    Ok(recover_raw_transaction(tx)?.into_inner())
}

#[derive(Clone, Debug)]
pub struct RethEnv {
    pub task_spawner: TaskSpawner,
}
impl RethEnv {
    pub fn get_task_spawner(&self) -> &TaskSpawner {
        &self.task_spawner
    }
}

/// Records the transactions it is handed.
#[derive(Clone, Debug, Default)]
pub struct WorkerTxPool {
    pub added: Arc<Mutex<Vec<Recovered<TransactionSigned>>>>,
}
impl WorkerTxPool {
    pub async fn add_recovered_transaction_external(
        &self,
        recovered: Recovered<TransactionSigned>,
    ) -> Result<(), TnRethError> {
        self.added.lock().unwrap().push(recovered);
        Ok(())
    }
}

pub mod test_utils;
