//! Access to what is private to the network part.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub, clippy::all)]

use super::{handler::RequestHandler, message::PrimaryGossip};
use crate::error::PrimaryNetworkResult;
use tn_network_libp2p::{read_frame, GossipMessage, PrimarySyncRequest, SyncFrame};
use tn_types::{encode, try_decode, BlsPublicKey, Certificate, Database, EpochVote, Header};

pub async fn process_gossip<DB: Database>(h: &RequestHandler<DB>, m: &GossipMessage) -> PrimaryNetworkResult<()> {
    h.process_gossip(m).await
}

pub fn epoch_vote(v: EpochVote) -> Vec<u8> {
    encode(&PrimaryGossip::EpochVote(Box::new(v)))
}

pub fn epoch_vote_in(m: &[u8]) -> Option<EpochVote> {
    match try_decode(m) {
        Ok(PrimaryGossip::EpochVote(v)) => Some(*v),
        _ => None,
    }
}

/// Certificates as a peer sends them, and as they are read on the other side.
pub async fn stream(certs: impl IntoIterator<Item = PrimaryNetworkResult<Certificate>>) -> Result<Vec<Certificate>, String> {
    let mut wire = vec![];
    let long = std::time::Duration::from_secs(1);
    super::sync_codec::send_sync_certificates_over_stream(&mut wire, certs, long).await.map_err(|e| format!("send: {e}"))?;
    let mut wire = futures::io::Cursor::new(wire);
    let max = super::sync_codec::MAX_SYNC_CERT_FRAME_SIZE;
    let ack = read_frame::<_, PrimarySyncRequest>(&mut wire, &mut vec![], &mut vec![], max).await.map_err(|e| format!("first frame: {e}"))?;
    if !matches!(ack, SyncFrame::Ack) {
        return Err(format!("first frame: {ack:?}"));
    }
    super::sync_codec::read_sync_certificates(&mut wire).await.map_err(|e| format!("receive: {e}"))
}

pub async fn vote<DB: Database>(h: &RequestHandler<DB>, peer: BlsPublicKey, header: Header, parents: Vec<Certificate>) -> PrimaryNetworkResult<super::PrimaryResponse> {
    h.vote(peer, header, parents).await
}

/// The codecs of the sync streams.
pub mod codec {
    use super::super::sync_codec as c;
    use crate::error::PrimaryNetworkError;
    use futures::{AsyncRead, AsyncWrite};
    use std::time::Duration;
    use tn_types::{BlsPublicKey, Certificate};

    pub const PACK_FRAME: usize = c::MAX_SYNC_PACK_FRAME_SIZE;
    pub const CERT_FRAME: usize = c::MAX_SYNC_CERT_FRAME_SIZE;

    pub async fn write_pack<R: tokio::io::AsyncRead + Unpin + Send, S: AsyncWrite + Unpin + Send>(r: &mut R, s: &mut S, t: Duration) -> std::io::Result<()> {
        c::write_pack_data_frames(r, s, t).await
    }

    pub fn pack_reader<S: AsyncRead + Unpin + Send + 'static>(s: S) -> impl tokio::io::AsyncRead + Unpin + Send {
        c::sync_pack_reader(s)
    }

    pub async fn write_output<S: AsyncWrite + Unpin + Send>(s: &mut S, b: Option<Vec<u8>>, t: Duration, peer: BlsPublicKey) -> Result<(), String> {
        c::send_sync_consensus_output_over_stream(s, b, t, peer, 7).await.map_err(|e| e.to_string())
    }

    /// `None` stands for a certificate that cannot be had.
    pub async fn write_certs<S: AsyncWrite + Unpin + Send>(s: &mut S, certs: impl IntoIterator<Item = Option<Certificate>>, t: Duration) -> Result<(), String> {
        let certs = certs.into_iter().map(|c| c.ok_or_else(|| PrimaryNetworkError::Internal("none".into())));
        c::send_sync_certificates_over_stream(s, certs, t).await.map_err(|e| e.to_string())
    }

    pub async fn read_certs<S: AsyncRead + Unpin + Send>(s: &mut S) -> std::io::Result<Vec<Certificate>> {
        c::read_sync_certificates(s).await
    }
}
