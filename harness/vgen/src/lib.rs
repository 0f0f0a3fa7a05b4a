//! Generators of the consensus types, shared by the harnesses.

use indexmap::IndexMap;
use rand::SeedableRng;
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{Arc, OnceLock},
};
use tn_types::*;
use vcore::G;

mod torsion;
pub use torsion::{off_group_key, off_group_sig};

/// One deterministic key.
#[derive(Clone, Debug)]
pub struct Key(pub Arc<BlsKeypair>);

impl BlsSigner for Key {
    fn request_signature_direct(&self, msg: &[u8]) -> BlsSignature {
        self.0.sign(msg)
    }
    fn public_key(&self) -> BlsPublicKey {
        *self.0.public()
    }
}

impl Key {
    pub fn pk(&self) -> BlsPublicKey {
        *self.0.public()
    }
    pub fn id(&self) -> AuthorityIdentifier {
        self.pk().into()
    }
}

pub const KEYS: usize = 64;

/// The pool of keys the checks use.
pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(0x7e1c);
        (0..KEYS).map(|_| Key(Arc::new(BlsKeypair::generate(&mut rng)))).collect()
    })
}

/// A key by its public key.
pub fn key_of(pk: &BlsPublicKey) -> &'static Key {
    static M: OnceLock<BTreeMap<BlsPublicKey, usize>> = OnceLock::new();
    let m = M.get_or_init(|| keys().iter().enumerate().map(|(i, k)| (k.pk(), i)).collect());
    &keys()[m[pk]]
}

/// The execution address the checks give to key `i`.
pub fn addr_of(i: usize) -> Address {
    Address::with_last_byte(i as u8 + 1)
}

/// A committee and the keys of its members, in the order of the keys.
#[derive(Clone, Debug)]
pub struct Com {
    pub committee: Committee,
    /// sorted by public key
    pub members: Vec<&'static Key>,
}

impl Com {
    pub fn of(idx: &[usize], epoch: Epoch) -> Self {
        let mut b = CommitteeBuilder::new(epoch);
        for i in idx {
            b.add_authority(keys()[*i].pk(), addr_of(*i));
        }
        let committee = b.build();
        let mut members: Vec<_> = idx.iter().map(|i| &keys()[*i]).collect();
        members.sort_by_key(|k| k.pk());
        members.dedup_by_key(|k| k.pk());
        Self { committee, members }
    }
    pub fn n(&self) -> usize {
        self.members.len()
    }
    pub fn quorum(&self) -> usize {
        // more than two thirds
        2 * self.n() / 3 + 1
    }
    /// some key outside the committee
    pub fn outsider(&self, g: &mut G) -> &'static Key {
        let out: Vec<_> = keys().iter().filter(|k| !self.members.iter().any(|m| m.pk() == k.pk())).collect();
        out[g.usize(out.len())]
    }
    /// members in the order of their identities
    pub fn by_id(&self) -> Vec<&'static Key> {
        let mut v = self.members.clone();
        v.sort_by_key(|k| k.id());
        v
    }
}

/// `n` distinct key indexes.
pub fn distinct(g: &mut G, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..KEYS).collect();
    for i in 0..n {
        let j = i + g.usize(KEYS - i);
        p.swap(i, j);
    }
    p.truncate(n);
    p
}

/// A committee of lo..=hi members.
pub fn committee(g: &mut G, lo: usize, hi: usize, epoch: Epoch) -> Com {
    let n = g.urange(lo, hi);
    let idx = distinct(g, n);
    Com::of(&idx, epoch)
}

/// Epoch numbers, small ones and edges.
pub fn epoch(g: &mut G) -> Epoch {
    match g.below(4) {
        0 => 0,
        1 => 1,
        2 => g.num32().min(u32::MAX - 4),
        _ => g.below(1000) as u32,
    }
}

pub fn b256(g: &mut G) -> B256 {
    B256::from(g.arr32())
}

pub fn address(g: &mut G) -> Address {
    Address::from_slice(&g.blob(20))
}

pub fn header_digest(g: &mut G) -> HeaderDigest {
    HeaderDigest::new(g.arr32())
}

/// A well-formed signature, of arbitrary content.
pub fn some_sig(g: &mut G) -> BlsSignature {
    static S: OnceLock<Vec<BlsSignature>> = OnceLock::new();
    let s = S.get_or_init(|| keys().iter().map(|k| k.0.sign(b"some signature")).collect());
    if g.chance(1, 8) {
        BlsSignature::default()
    } else {
        s[g.usize(KEYS)]
    }
}

pub fn num_hash(g: &mut G) -> BlockNumHash {
    BlockNumHash { number: g.num(), hash: b256(g) }
}

/// A header with arbitrary content in every field.
pub fn any_header(g: &mut G) -> Header {
    let author = if g.bool() { keys()[g.usize(KEYS)].id() } else { AuthorityIdentifier::from_bytes(g.arr32()) };
    let payload: IndexMap<BlockHash, WorkerId> =
        g.vec(0, 14, 3, |g| (b256(g), g.weighted(&[4, 1, 1]) as u16 * 7)).into_iter().collect();
    let parents: BTreeSet<HeaderDigest> = g.vec(0, 12, 4, header_digest).into_iter().collect();
    HeaderBuilder::default()
        .author(author)
        .round(g.num32())
        .epoch(g.num32())
        .created_at(g.num())
        .payload(payload)
        .parents(parents)
        .latest_execution_block(num_hash(g))
        .seed_signature(some_sig(g))
        .build()
}

/// A header that is well-formed for the committee.
pub fn valid_header(g: &mut G, c: &Com) -> Header {
    let author = c.members[g.usize(c.n())].id();
    let payload: IndexMap<BlockHash, WorkerId> =
        g.vec(0, MAX_HEADER_NUM_OF_BATCHES, 3, |g| (b256(g), 0)).into_iter().collect();
    let parents: BTreeSet<HeaderDigest> = g.vec(0, c.n(), 4, header_digest).into_iter().collect();
    HeaderBuilder::default()
        .author(author)
        .round(g.range(1, 1000) as u32)
        .epoch(c.committee.epoch())
        .created_at(g.below(1 << 40))
        .payload(payload)
        .parents(parents)
        .latest_execution_block(num_hash(g))
        .seed_signature(some_sig(g))
        .build()
}

/// A batch with arbitrary content.
pub fn any_batch(g: &mut G) -> Batch {
    Batch {
        transactions: g.vec(0, 8, 2, |g| {
            let n = g.usize(200);
            g.bytes(n)
        }),
        epoch: g.num32(),
        beneficiary: address(g),
        base_fee_per_gas: g.num(),
        worker_id: g.below(65536) as u16,
        received_at: None,
    }
}

/// Genuine votes of the given members for the header.
pub fn votes<'a>(
    header: &Header,
    signers: impl IntoIterator<Item = &'a &'static Key>,
) -> Vec<(AuthorityIdentifier, BlsSignature)> {
    signers
        .into_iter()
        .map(|k| {
            let v = Vote::new(header, k.id(), *k);
            (v.author, v.signature)
        })
        .collect()
}

/// A certificate for the header without genuine signatures: for checks in which signatures play no part.
pub fn cheap_cert(c: &Com, header: Header) -> Certificate {
    let mut cert = Certificate::new_unsigned_for_test(&c.committee, header, vec![]).expect("certificate");
    cert.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(BlsSignature::default()));
    cert
}

/// Digest of anything that has one.
pub fn hd(c: &Certificate) -> HeaderDigest {
    c.digest()
}

/// One current-thread runtime per worker thread.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    thread_local! {
        static RT: tokio::runtime::Runtime =
            tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    }
    RT.with(|rt| rt.block_on(f))
}
