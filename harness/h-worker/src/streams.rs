//! libp2p streams without a network: a real `Swarm` over a transport made of in-memory pipes opens one
//! substream to a peer played by the harness, which gets the other end.

use futures::{future::Ready, StreamExt as _};
use libp2p::{
    core::{
        muxing::{StreamMuxer, StreamMuxerBox, StreamMuxerEvent},
        transport::{DialOpts, ListenerId, TransportError, TransportEvent},
        upgrade::ReadyUpgrade,
        Endpoint, Transport,
    },
    swarm::{
        handler::{ConnectionEvent, FullyNegotiatedOutbound},
        ConnectionDenied, ConnectionHandler, ConnectionHandlerEvent, ConnectionId, FromSwarm, NetworkBehaviour, SubstreamProtocol, Swarm,
        SwarmEvent, THandler, THandlerInEvent, THandlerOutEvent, ToSwarm,
    },
    Multiaddr, PeerId, Stream, StreamProtocol,
};
use std::{
    convert::Infallible,
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tokio::io::DuplexStream;
use tokio_util::compat::{Compat, TokioAsyncReadCompatExt as _};

/// The end of the peer.
pub type Remote = multistream_select::Negotiated<Compat<DuplexStream>>;

const PROTOCOL: StreamProtocol = StreamProtocol::new("/verif");

/// Gives out one substream.
struct Pipe(Option<DuplexStream>);
impl StreamMuxer for Pipe {
    type Substream = Compat<DuplexStream>;
    type Error = io::Error;
    fn poll_inbound(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Self::Substream>> {
        Poll::Pending
    }
    fn poll_outbound(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Self::Substream>> {
        match self.0.take() {
            Some(d) => Poll::Ready(Ok(d.compat())),
            None => Poll::Pending,
        }
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<StreamMuxerEvent>> {
        Poll::Pending
    }
}

struct Wire(PeerId, Option<DuplexStream>);
impl Transport for Wire {
    type Output = (PeerId, StreamMuxerBox);
    type Error = io::Error;
    type ListenerUpgrade = Ready<io::Result<Self::Output>>;
    type Dial = Ready<io::Result<Self::Output>>;
    fn listen_on(&mut self, _: ListenerId, a: Multiaddr) -> Result<(), TransportError<io::Error>> {
        Err(TransportError::MultiaddrNotSupported(a))
    }
    fn remove_listener(&mut self, _: ListenerId) -> bool {
        false
    }
    fn dial(&mut self, _: Multiaddr, _: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        Ok(futures::future::ready(Ok((self.0, StreamMuxerBox::new(Pipe(self.1.take()))))))
    }
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<TransportEvent<Self::ListenerUpgrade, io::Error>> {
        Poll::Pending
    }
}

#[derive(Default)]
struct Opener {
    asked: bool,
    got: Option<Stream>,
}
impl ConnectionHandler for Opener {
    type FromBehaviour = Infallible;
    type ToBehaviour = Stream;
    type InboundProtocol = ReadyUpgrade<StreamProtocol>;
    type OutboundProtocol = ReadyUpgrade<StreamProtocol>;
    type InboundOpenInfo = ();
    type OutboundOpenInfo = ();
    fn listen_protocol(&self) -> SubstreamProtocol<Self::InboundProtocol> {
        SubstreamProtocol::new(ReadyUpgrade::new(PROTOCOL), ())
    }
    fn connection_keep_alive(&self) -> bool {
        true
    }
    fn on_behaviour_event(&mut self, e: Infallible) {
        match e {}
    }
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<ConnectionHandlerEvent<Self::OutboundProtocol, (), Stream>> {
        if !self.asked {
            self.asked = true;
            return Poll::Ready(ConnectionHandlerEvent::OutboundSubstreamRequest {
                protocol: SubstreamProtocol::new(ReadyUpgrade::new(PROTOCOL), ()),
            });
        }
        match self.got.take() {
            Some(s) => Poll::Ready(ConnectionHandlerEvent::NotifyBehaviour(s)),
            None => Poll::Pending,
        }
    }
    fn on_connection_event(&mut self, e: ConnectionEvent<Self::InboundProtocol, Self::OutboundProtocol>) {
        if let ConnectionEvent::FullyNegotiatedOutbound(FullyNegotiatedOutbound { protocol, .. }) = e {
            self.got = Some(protocol);
        }
    }
}

#[derive(Default)]
struct Open(Option<Stream>);
impl NetworkBehaviour for Open {
    type ConnectionHandler = Opener;
    type ToSwarm = Stream;
    fn handle_established_inbound_connection(
        &mut self,
        _: ConnectionId,
        _: PeerId,
        _: &Multiaddr,
        _: &Multiaddr,
    ) -> Result<THandler<Self>, ConnectionDenied> {
        Ok(Opener::default())
    }
    fn handle_established_outbound_connection(
        &mut self,
        _: ConnectionId,
        _: PeerId,
        _: &Multiaddr,
        _: Endpoint,
        _: libp2p::core::transport::PortUse,
    ) -> Result<THandler<Self>, ConnectionDenied> {
        Ok(Opener::default())
    }
    fn on_swarm_event(&mut self, _: FromSwarm<'_>) {}
    fn on_connection_handler_event(&mut self, _: PeerId, _: ConnectionId, s: THandlerOutEvent<Self>) {
        self.0 = Some(s);
    }
    fn poll(&mut self, _: &mut Context<'_>) -> Poll<ToSwarm<Stream, THandlerInEvent<Self>>> {
        match self.0.take() {
            Some(s) => Poll::Ready(ToSwarm::GenerateEvent(s)),
            None => Poll::Pending,
        }
    }
}

/// A stream of the code under test and the peer's end of it. `buffer` bytes fit in between each way.
pub async fn pair(buffer: usize) -> Result<(Stream, Remote), String> {
    let (ours, theirs) = tokio::io::duplex(buffer);
    let (me, peer) = (id(1), id(2));
    let mut swarm = Swarm::new(Wire(peer, Some(ours)).boxed(), Open::default(), me, libp2p::swarm::Config::without_executor());
    let addr: Multiaddr = "/memory/1".parse().map_err(|e| format!("{e}"))?;
    swarm
        .dial(libp2p::swarm::dial_opts::DialOpts::peer_id(peer).addresses(vec![addr]).build())
        .map_err(|e| format!("dial: {e}"))?;
    let stream = async {
        loop {
            match swarm.select_next_some().await {
                SwarmEvent::Behaviour(s) => return Ok(s),
                SwarmEvent::OutgoingConnectionError { error, .. } => return Err(format!("connect: {error}")),
                _ => {}
            }
        }
    };
    let remote = async {
        multistream_select::listener_select_proto(theirs.compat(), ["/verif"]).await.map(|(_, s)| s).map_err(|e| format!("negotiate: {e}"))
    };
    let (s, r) = futures::try_join!(stream, remote)?;
    Ok((s, r))
}

fn id(n: u8) -> PeerId {
    let mut b = [n; 32];
    libp2p::identity::Keypair::ed25519_from_bytes(&mut b).expect("key").public().to_peer_id()
}
