//! N01: messages, frames and sync streams.

use futures::{AsyncRead, AsyncReadExt as _, AsyncWrite};
use libp2p::{request_response::Codec as _, StreamProtocol};
use std::{
    future::Future,
    io,
    pin::{pin, Pin},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll},
    time::Duration,
};
use tn_network_libp2p::{
    decode_message, encode_message, read_frame, write_frame, DenyReason, PeerExchangeMap, PrimarySyncRequest, SyncFrame, SyncFrameError, TNCodec,
    TNMessage,
};
use tn_primary::{network::verif::codec, verif::handler::paused};
use tn_types::*;
use tokio::{io::AsyncReadExt as _, time::Instant};
use tokio_util::compat::TokioAsyncReadCompatExt as _;
use vcore::{ensure, ensure_eq, no_panic, Budget, Check, G, R};
use vgen::{any_header, cheap_cert, Com};

pub const RULE: &str = "more than one message, a cut, a split within a prefix, or bytes that differ from what a writer makes";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ending {
    /// the stream is closed
    Closed,
    /// nothing comes any more
    Silent,
    /// the connection breaks
    Broken,
}

/// How bytes come: in pieces of these sizes over and over, with or without pauses.
#[derive(Clone, Debug)]
pub struct Pieces(pub Vec<usize>, pub bool);

pub fn pieces(g: &mut G) -> Pieces {
    let v = match g.weighted(&[2, 2, 3]) {
        0 => vec![usize::MAX],
        1 => vec![1],
        _ => g.vec(1, 5, 2, |g| g.urange(1, 40)),
    };
    Pieces(v, g.bool())
}

/// The end of a stream that is read.
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    turn: usize,
    how: Pieces,
    ending: Ending,
    paused: bool,
    taken: Arc<AtomicUsize>,
    starved: Arc<AtomicBool>,
}

impl Source {
    pub fn new(data: Vec<u8>, how: Pieces, ending: Ending) -> Self {
        Self { data, pos: 0, turn: 0, how, ending, paused: false, taken: Default::default(), starved: Default::default() }
    }
    pub fn taken(&self) -> usize {
        self.pos
    }
    pub fn starved(&self) -> Arc<AtomicBool> {
        self.starved.clone()
    }
    pub fn counter(&self) -> Arc<AtomicUsize> {
        self.taken.clone()
    }
}

impl AsyncRead for Source {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.how.1 && !self.paused {
            self.paused = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.paused = false;
        let piece = self.how.0[self.turn % self.how.0.len()];
        self.turn += 1;
        let n = piece.min(buf.len()).min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            return match self.ending {
                Ending::Closed => Poll::Ready(Ok(0)),
                Ending::Broken => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                Ending::Silent => {
                    self.starved.store(true, Ordering::SeqCst);
                    Poll::Pending
                }
            };
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.taken.store(self.pos, Ordering::SeqCst);
        Poll::Ready(Ok(n))
    }
}

/// The end of a stream that is written.
pub struct Sink {
    pub data: Arc<Mutex<Vec<u8>>>,
    turn: usize,
    how: Pieces,
    paused: bool,
    /// breaks after so many bytes
    breaks: usize,
}

impl Sink {
    pub fn new(how: Pieces, breaks: usize) -> Self {
        Self { data: Default::default(), turn: 0, how, paused: false, breaks }
    }
}

impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.how.1 && !self.paused {
            self.paused = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.paused = false;
        let piece = self.how.0[self.turn % self.how.0.len()];
        self.turn += 1;
        let breaks = self.breaks;
        let mut d = self.data.lock().unwrap();
        let n = piece.min(buf.len()).min(breaks - d.len());
        if n == 0 && !buf.is_empty() {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        d.extend(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Polls to the end, or until nothing comes any more.
pub fn drive<F: Future>(f: F, starved: Option<Arc<AtomicBool>>) -> Result<Option<F::Output>, String> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(futures::task::noop_waker_ref());
    for _ in 0..10_000_000u64 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Ok(Some(x));
        }
        if starved.as_ref().is_some_and(|s| s.load(Ordering::SeqCst)) {
            return Ok(None);
        }
    }
    Err("it never ends".into())
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Msg {
    Nothing,
    Bytes(Vec<u8>),
    Text(String, Option<u64>),
    Pairs(std::collections::BTreeMap<u16, Vec<u8>>),
    Frame(SyncFrame<PrimarySyncRequest>),
}

pub fn msg(g: &mut G) -> Msg {
    let size = |g: &mut G| match g.weighted(&[6, 3, 1]) {
        0 => g.usize(40),
        1 => g.usize(5_000),
        _ => g.urange(60_000, 150_000),
    };
    match g.weighted(&[1, 5, 2, 2, 3]) {
        0 => Msg::Nothing,
        1 => {
            let n = size(g);
            Msg::Bytes(if g.bool() { vec![g.u8(); n] } else { noise(g.raw(), n) })
        }
        2 => Msg::Text("x".repeat(size(g)), if g.bool() { Some(g.num()) } else { None }),
        3 => Msg::Pairs(g.vec(0, 9, 3, |g| (g.num() as u16, g.blob(30))).into_iter().collect()),
        _ => Msg::Frame(frame(g)),
    }
}

pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 40) as u8
        })
        .collect()
}

fn frame(g: &mut G) -> SyncFrame<PrimarySyncRequest> {
    match g.below(7) {
        0 => SyncFrame::Ack,
        1 => SyncFrame::Deny(if g.bool() { DenyReason::AtCapacity } else { DenyReason::Unavailable }),
        2 => SyncFrame::End,
        3 => SyncFrame::Err(if g.bool() { SyncFrameError::Internal } else { SyncFrameError::Malformed }),
        4 => SyncFrame::Req(match g.below(4) {
            0 => PrimarySyncRequest::EpochPack { epoch: g.num32() },
            1 => PrimarySyncRequest::MissingCertificates {
                exclusive_lower_bound: g.num32(),
                skip_rounds: g.vec(0, 4, 2, |g| (AuthorityIdentifier::from_bytes(g.arr32()), g.blob(20))),
            },
            2 => PrimarySyncRequest::EpochPackPartial { epoch: g.num32(), last_consensus_number: g.num() },
            _ => PrimarySyncRequest::ConsensusOutput { number: g.num() },
        }),
        _ => SyncFrame::Data(g.blob(300)),
    }
}

fn ending(g: &mut G) -> Ending {
    *g.pick(&[Ending::Closed, Ending::Silent, Ending::Broken])
}

/// Room in a buffer that got so many bytes.
fn room(have: usize) -> usize {
    2 * have + 32 * 1024
}

/// Messages one after the other, however they are split, and cut anywhere.
pub fn messages(g: &mut G) -> R {
    let msgs = g.vec(1, 6, 2, msg);
    let sizes: Vec<usize> = msgs.iter().map(encoded_len).collect();
    let limit = |g: &mut G| match g.weighted(&[3, 2]) {
        0 => 200_000,
        // around the size of one of them
        _ => (sizes[g.usize(sizes.len())] + g.usize(3)).saturating_sub(1),
    };
    let (wmax, rmax) = (limit(g), limit(g));
    let (wp, rp) = (pieces(g), pieces(g));
    let end = ending(g);
    let cut = if g.bool() { Some(g.raw()) } else { None };
    g.note(|| format!("sizes {sizes:?}, written up to {wmax} in {wp:?}, read up to {rmax} in {rp:?}, cut {}, then {end:?}", cut.is_some()));
    g.nontrivial_if(msgs.len() > 1 || cut.is_some());
    let mut sink = Sink::new(wp, usize::MAX);
    let out = sink.data.clone();
    let (mut a, mut b) = (vec![1; g.usize(9)], vec![2; g.usize(9)]);
    let mut sent = vec![];
    for (m, n) in msgs.iter().zip(&sizes) {
        let before = out.lock().unwrap().len();
        let r = drive(encode_message(&mut sink, m, &mut a, &mut b, wmax), None)?.ok_or("writing")?;
        let after = out.lock().unwrap().len();
        ensure_eq!(r.is_ok(), *n <= wmax, "a message of {n} is written with a limit of {wmax}");
        if r.is_ok() {
            sent.push((m.clone(), *n, after));
        } else {
            ensure_eq!(before, after, "something of a message above the limit is written");
        }
    }
    let mut data = out.lock().unwrap().clone();
    if let Some(c) = cut {
        data.truncate(c as usize % (data.len() + 1));
    }
    let all = data.len();
    let mut src = Source::new(data, rp, end);
    let starved = src.starved();
    let (mut a, mut b) = (vec![3; g.usize(9)], vec![4; g.usize(9)]);
    let (mut start, mut most) = (0, 0);
    for (i, (m, n, stop)) in sent.iter().enumerate() {
        most = most.max(*n);
        let r = drive(decode_message::<_, Msg>(&mut src, &mut a, &mut b, rmax), Some(starved.clone()))?;
        ensure!(a.capacity() <= room(rmax.min(most)) && b.capacity() <= room(all), "buffers of {} and {} bytes", a.capacity(), b.capacity());
        if all < start + 4 || *n <= rmax && all < *stop {
            // cut off within this one
            return match (end, r) {
                (Ending::Silent, None) => Ok(()),
                (Ending::Closed | Ending::Broken, Some(Err(_))) => Ok(()),
                (_, r) => Err(format!("message {i} is cut off and read as {}", vcore::clip(&format!("{r:?}"), 100))),
            };
        }
        let r = r.ok_or_else(|| format!("message {i} is all there and is waited for"))?;
        if *n > rmax {
            ensure!(r.is_err(), "message {i} of {n} is read with a limit of {rmax}");
            ensure_eq!(src.taken(), start + 4, "read of a message above the limit");
            g.class("above the limit");
            return Ok(());
        }
        let got = r.map_err(|e| format!("message {i}: {e}"))?;
        ensure!(got == *m, "message {i} is read as another one");
        ensure_eq!(src.taken(), *stop, "bytes read for message {i}");
        start = *stop;
    }
    let r = drive(decode_message::<_, Msg>(&mut src, &mut a, &mut b, rmax), Some(starved))?;
    ensure!(matches!((end, &r), (Ending::Silent, None) | (Ending::Closed | Ending::Broken, Some(Err(_)))), "out of nothing: {r:?}");
    Ok(())
}

fn encoded_len(m: &Msg) -> usize {
    encode(m).len()
}

/// Bytes made up by someone, against the definition of the format.
pub fn hostile(g: &mut G) -> R {
    let m = msg(g);
    let mut sink = Sink::new(Pieces(vec![usize::MAX], false), usize::MAX);
    drive(encode_message(&mut sink, &m, &mut vec![], &mut vec![], usize::MAX >> 1), None)?.ok_or("writing")?.map_err(|e| e.to_string())?;
    let good = sink.data.lock().unwrap().clone();
    let plain = encode(&m);
    let max = match g.weighted(&[4, 2]) {
        0 => 1 << 20,
        _ => plain.len() + g.usize(50),
    };
    let mut data = good.clone();
    let mut kinds = vec![];
    for _ in 0..g.urange(1, 3) {
        let k = g.below(9);
        kinds.push(k);
        match k {
            // another announced size
            0 | 1 => {
                let at = 4 * k as usize;
                if data.len() >= at + 4 {
                    let old = u32::from_le_bytes(data[at..at + 4].try_into().unwrap());
                    let new = match g.below(4) {
                        0 => g.num32(),
                        1 => old.wrapping_add(1),
                        2 => old.wrapping_sub(1),
                        _ => old.wrapping_add(g.num32()),
                    };
                    data[at..at + 4].copy_from_slice(&new.to_le_bytes());
                }
            }
            2 => {
                for _ in 0..g.urange(1, 3) {
                    if !data.is_empty() {
                        let i = g.usize(data.len());
                        data[i] ^= 1 << g.below(8);
                    }
                }
            }
            3 => {
                let n = g.usize(data.len() + 1);
                data.truncate(n);
            }
            4 => {
                let n = g.usize(20);
                data.extend(g.bytes(n));
            }
            // a body that grows: much more, or a bit more, than is announced
            5 => {
                let more = *g.pick(&[1usize, 100, 1 << 20, 1 << 23]);
                let mut p = plain.clone();
                p.extend(vec![0u8; more]);
                let body = squeeze(&p);
                let shown = if g.bool() { plain.len() } else { g.usize(p.len() + 1) };
                data = [&(shown as u32).to_le_bytes()[..], &(body.len() as u32).to_le_bytes()[..], &body].concat();
            }
            // a longer value in front of its end
            6 => {
                let mut p = plain.clone();
                let n = g.urange(1, 9);
                p.extend(g.bytes(n));
                let body = squeeze(&p);
                data = [&(p.len() as u32).to_le_bytes()[..], &(body.len() as u32).to_le_bytes()[..], &body].concat();
            }
            // other content
            7 => {
                let p = g.blob(60);
                let body = squeeze(&p);
                data = [&(p.len() as u32).to_le_bytes()[..], &(body.len() as u32).to_le_bytes()[..], &body].concat();
            }
            _ => {
                let n = g.usize(60);
                data = g.bytes(n);
            }
        }
    }
    let how = pieces(g);
    let end = ending(g);
    g.note(|| format!("a message of {} bytes altered by {kinds:?}, limit {max}, {} bytes {how:?} {end:?}, starting {:?}", plain.len(), data.len(), &data[..data.len().min(24)]));
    g.nontrivial_if(data != good);
    // what it is by definition: the message, and how much is read of it at most
    let (due, most): (Result<Msg, bool>, usize) = (|| {
        let Some(l) = data.get(..4) else { return (Err(true), 4) };
        let l = u32::from_le_bytes(l.try_into().unwrap()) as usize;
        if l > max {
            return (Err(false), 4);
        }
        let Some(c) = data.get(4..8) else { return (Err(true), 8) };
        let c = u32::from_le_bytes(c.try_into().unwrap()) as usize;
        if c > 32 + l + l / 6 {
            return (Err(false), 8);
        }
        let Some(body) = data.get(8..8 + c) else { return (Err(true), 8 + c) };
        let plain = stretch(body, l);
        (plain.filter(|p| p.len() == l).and_then(|p| try_decode(&p).ok()).ok_or(false), 8 + c)
    })();
    let total = data.len();
    let mut src = Source::new(data, how, end);
    let starved = src.starved();
    let (mut a, mut b) = (vec![], vec![]);
    let r = no_panic(|| drive(decode_message::<_, Msg>(&mut src, &mut a, &mut b, max), Some(starved)))??;
    ensure!(src.taken() <= most, "{} bytes are read of {most}", src.taken());
    ensure!(b.capacity() <= room(src.taken()), "a buffer of {} for {} bytes", b.capacity(), src.taken());
    ensure!(a.capacity() <= room(max), "a buffer of {} for a limit of {max}", a.capacity());
    match (due, r) {
        // not all there
        (Err(true), None) => ensure!(end == Ending::Silent && src.taken() == total, "waits for more than was announced"),
        (Err(true), Some(r)) => ensure!(end != Ending::Silent && r.is_err(), "a part is read as a message"),
        (Err(false), Some(Err(_))) => {
            g.class("refused");
        }
        (Err(false), r) => return Err(format!("what is no message is {}", if r.is_none() { "waited for" } else { "taken" })),
        (Ok(_), None) => return Err("a message that is all there is waited for".into()),
        (Ok(m), Some(r)) => {
            let r = r.map_err(|e| format!("a message is refused: {e}"))?;
            ensure!(m == r, "a message is read as another one");
            g.class("read");
        }
    }
    Ok(())
}

fn squeeze(p: &[u8]) -> Vec<u8> {
    use std::io::Write as _;
    let mut v = vec![];
    let mut e = snap::write::FrameEncoder::new(&mut v);
    e.write_all(p).expect("compress");
    e.flush().expect("compress");
    drop(e);
    v
}

/// The first `n` bytes of a compressed body, if there are so many.
fn stretch(body: &[u8], n: usize) -> Option<Vec<u8>> {
    use std::io::Read as _;
    let mut d = snap::read::FrameDecoder::new(body);
    let mut v = vec![0; n];
    d.read_exact(&mut v).ok().map(|_| v)
}

/// A message of the request protocol.
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Wrapped(Msg);
impl From<PeerExchangeMap> for Wrapped {
    fn from(_: PeerExchangeMap) -> Self {
        Wrapped(Msg::Nothing)
    }
}
impl TNMessage for Wrapped {
    fn peer_exchange_msg(&self) -> Option<PeerExchangeMap> {
        None
    }
}

/// One codec for many requests and answers, good and bad: none leaves a trace in the next one.
fn requests(g: &mut G) -> R {
    let max = *g.pick(&[100usize, 5_000, 200_000]);
    let fresh = || TNCodec::<Wrapped, Wrapped>::new(max);
    let mut kept = fresh();
    let proto = StreamProtocol::new("/verif");
    let n = g.urange(2, 8);
    let mut log = vec![];
    for _ in 0..n {
        if g.chance(1, 5) {
            kept = kept.clone();
        }
        let m = Wrapped(msg(g));
        let size = encode(&m).len();
        let (req, how) = (g.bool(), pieces(g));
        let breaks = if g.chance(1, 4) { g.usize(size + 8) } else { usize::MAX };
        let write = |c: &mut TNCodec<Wrapped, Wrapped>| -> Result<(bool, Vec<u8>), String> {
            let mut sink = Sink::new(how.clone(), breaks);
            let out = sink.data.clone();
            let f = async {
                match req {
                    true => c.write_request(&proto, &mut sink, m.clone()).await,
                    false => c.write_response(&proto, &mut sink, m.clone()).await,
                }
            };
            let ok = drive(f, None)?.ok_or("writing")?.is_ok();
            let data = out.lock().unwrap().clone();
            Ok((ok, data))
        };
        let (ok, mut wire) = write(&mut kept)?;
        ensure!((ok, &wire) == { let w = write(&mut fresh())?; (w.0, &w.1.clone()) }, "a message is written in another way by a codec used before");
        if size > max {
            ensure!(!ok && wire.is_empty(), "a message of {size} is written with a limit of {max}");
        } else if breaks == usize::MAX {
            ensure!(ok, "a message of {size} is not written with a limit of {max}");
        }
        // altered or not on the way
        match g.weighted(&[4, 2, 1]) {
            1 if !wire.is_empty() => {
                let i = g.usize(wire.len().min(40));
                wire[i] ^= 1 << g.below(8);
            }
            2 if !wire.is_empty() => {
                let i = g.usize(wire.len());
                wire.truncate(i);
            }
            _ => (),
        }
        let (req, how) = (g.bool(), pieces(g));
        let read = |c: &mut TNCodec<Wrapped, Wrapped>| -> Result<Result<Wrapped, String>, String> {
            let mut src = Source::new(wire.clone(), how.clone(), Ending::Closed);
            let f = async {
                match req {
                    true => c.read_request(&proto, &mut src).await,
                    false => c.read_response(&proto, &mut src).await,
                }
            };
            Ok(drive(f, None)?.ok_or("reading")?.map_err(|e| e.to_string()))
        };
        let (x, y) = (read(&mut kept)?, read(&mut fresh())?);
        ensure!(x == y, "a codec used before reads {} and a new one {}", vcore::clip(&format!("{x:?}"), 100), vcore::clip(&format!("{y:?}"), 100));
        log.push(format!("{size}/{ok}/{}", x.is_ok()));
        if x.is_ok() && log.len() > 1 {
            g.class("read by a codec used before");
        }
    }
    g.note(|| format!("limit {max}: {}", log.join(" ")));
    g.nontrivial();
    Ok(())
}

type Frame = SyncFrame<PrimarySyncRequest>;

/// A frame as it is on the wire.
fn wire(f: &Frame) -> Vec<u8> {
    let mut sink = Sink::new(Pieces(vec![usize::MAX], false), usize::MAX);
    drive(write_frame(&mut sink, f, &mut vec![], &mut vec![], 1 << 30), None).expect("ends").expect("ready").expect("written");
    let d = sink.data.lock().unwrap().clone();
    d
}

/// All frames of what was written, up to the limit of a frame.
fn frames(data: &[u8], max: usize) -> Result<Vec<Frame>, String> {
    let mut src = Source::new(data.to_vec(), Pieces(vec![usize::MAX], false), Ending::Closed);
    let mut v = vec![];
    while src.taken() < data.len() {
        let f = drive(read_frame::<_, PrimarySyncRequest>(&mut src, &mut vec![], &mut vec![], max), None)?.ok_or("reading")?;
        v.push(f.map_err(|e| format!("frame {}: {e}", v.len()))?);
    }
    Ok(v)
}

const LONG: Duration = Duration::from_secs(100);
/// how long a frame is waited for
const FRAME_TIME: Duration = Duration::from_secs(10);
const CHUNK: usize = 256 * 1024;

fn some_len(g: &mut G) -> usize {
    match g.weighted(&[2, 3, 3, 1]) {
        0 => g.usize(3),
        1 => g.usize(3_000),
        2 => CHUNK * g.urange(1, 2) + g.usize(5) - 2,
        _ => g.usize(4 * CHUNK),
    }
}

/// A reader that gives what a file gives: pieces of any size, and maybe an error in the end.
struct Pieced(Vec<u8>, usize, Pieces, bool);
impl tokio::io::AsyncRead for Pieced {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let piece = self.2 .0[self.1 % self.2 .0.len()].saturating_mul(1000);
        self.1 += 1;
        let n = piece.min(buf.remaining()).min(self.0.len());
        if n == 0 && self.3 {
            return Poll::Ready(Err(io::Error::other("disk")));
        }
        let rest = self.0.split_off(n);
        buf.put_slice(&self.0);
        self.0 = rest;
        Poll::Ready(Ok(()))
    }
}

/// A pack in frames: all of it is read, or an error follows on a part of it.
fn packs(g: &mut G) -> R {
    let n = some_len(g);
    let data = if g.bool() { vec![g.u8(); n] } else { noise(g.raw(), n) };
    let file = pieces(g);
    let fails = g.chance(1, 5);
    let output = g.chance(1, 3);
    let mut written = Sink::new(pieces(g), usize::MAX);
    if written.how.0.iter().all(|p| *p < 40) {
        written.how.0.push(5_000);
    }
    let out = written.data.clone();
    let peer = vgen::keys()[0].pk();
    let first = usize::from(output);
    if output {
        let none = g.chance(1, 4);
        paused(codec::write_output(&mut written, (!none).then(|| data.clone()), LONG, peer))?;
        let fs = frames(&out.lock().unwrap(), codec::PACK_FRAME)?;
        if none {
            ensure_eq!(fs, vec![SyncFrame::Deny(DenyReason::Unavailable)], "an output that cannot be had");
            g.class("denied");
            return Ok(());
        }
        ensure_eq!(fs.first(), Some(&SyncFrame::Ack), "first frame of an output");
    } else {
        let mut src = Pieced(data.clone(), 0, file.clone(), fails);
        let r = paused(codec::write_pack(&mut src, &mut written, LONG));
        ensure_eq!(r.is_err(), fails, "a pack is written");
    }
    let fails = fails && !output;
    let bytes = out.lock().unwrap().clone();
    let fs = frames(&bytes, codec::PACK_FRAME)?;
    let mut body = vec![];
    for f in &fs[first..] {
        match f {
            SyncFrame::Data(d) => body.extend(d),
            f => ensure_eq!(f, &SyncFrame::End, "frame of a pack"),
        }
    }
    let ends = fs.iter().filter(|f| matches!(f, SyncFrame::End)).count();
    ensure!(!fails || ends == 0, "a pack that cannot be read to its end is ended");
    ensure!(fails || ends == 1 && fs.last() == Some(&SyncFrame::End), "the end of a pack");
    if fails {
        ensure!(data.starts_with(&body), "a pack that cannot be read to its end is altered");
    } else {
        ensure!(body == data, "a pack is altered");
    }
    // the other side
    let rest: Vec<u8> = fs[..first].iter().map(|f| wire(f).len()).sum::<usize>().pipe(|n| bytes[n..].to_vec());
    let mut pack: Vec<Vec<u8>> = fs[first..].iter().map(wire).collect();
    ensure!(pack.concat() == rest, "frames are written in more than one way");
    let end = ending(g);
    // what happens on the way: nothing, a cut, another frame in some place
    let what = g.weighted(&[3, 3, 3]);
    let mut left = body.clone();
    let mut whole = !fails;
    match what {
        1 => {
            let at = g.usize(rest.len() + 1);
            let mut b = vec![];
            let (mut used, mut sure) = (0, 0);
            for (f, w) in fs[first..].iter().zip(&pack) {
                if used + w.len() > at {
                    b.push(w[..at - used].to_vec());
                    used = at;
                    break;
                }
                used += w.len();
                b.push(w.clone());
                if let SyncFrame::Data(d) = f {
                    sure += d.len();
                }
            }
            whole &= used == rest.len();
            left.truncate(sure);
            pack = b;
        }
        2 => {
            let f = match g.below(4) {
                0 => SyncFrame::Err(if g.bool() { SyncFrameError::Internal } else { SyncFrameError::Malformed }),
                1 => SyncFrame::Ack,
                2 => SyncFrame::Deny(DenyReason::AtCapacity),
                _ => SyncFrame::Req(PrimarySyncRequest::EpochPack { epoch: 1 }),
            };
            let at = g.usize(pack.len() + 1);
            let sure: usize = fs[first..first + at].iter().map(|f| if let SyncFrame::Data(d) = f { d.len() } else { 0 }).sum();
            // after the end nobody reads it
            if at < pack.len() || fails {
                whole = false;
                left.truncate(sure);
            }
            pack.insert(at, wire(&f));
        }
        _ => (),
    }
    let how = {
        let mut p = pieces(g);
        p.0.iter_mut().for_each(|x| *x = x.saturating_mul(if n > 20_000 { 1_000 } else { 1 }));
        p
    };
    g.note(|| format!("{n} bytes as {}, file {file:?} fails {fails}, on the way {what}, then {end:?}, read {how:?}; whole {whole}, sure {}", if output { "output" } else { "pack" }, left.len()));
    g.nontrivial_if(n > CHUNK || !whole);
    let src = Source::new(pack.concat(), how, end);
    let sized = g.urange(1, 70_000);
    let (got, err, took) = paused(async {
        let mut r = codec::pack_reader(src);
        let start = Instant::now();
        let (mut got, mut buf): (Vec<u8>, _) = (vec![], vec![0; sized]);
        loop {
            match r.read(&mut buf).await {
                Ok(0) => return (got, None, start.elapsed()),
                Ok(n) => got.extend(&buf[..n]),
                Err(e) => return (got, Some(e), start.elapsed()),
            }
        }
    });
    ensure!(got == left, "{} bytes are read of {} that came", got.len(), left.len());
    ensure_eq!(err.is_none(), whole, "the end is that of the whole pack (error {err:?})");
    let limit = FRAME_TIME + Duration::from_millis(5);
    ensure!(took <= limit, "it takes {took:?}");
    if let Some(e) = err {
        let waits = what != 2 && end == Ending::Silent;
        ensure_eq!(took >= FRAME_TIME, waits, "time until an error ({took:?}, {e})");
        ensure_eq!(e.kind() == io::ErrorKind::TimedOut, waits, "error {e:?}");
    }
    Ok(())
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for usize {}

/// Both ends at once, each as slow as it likes: a peer that keeps going gets everything, one that stops is
/// left after the time for one frame.
fn paces(g: &mut G) -> R {
    let count = g.urange(1, 4);
    let n = CHUNK * (count - 1) + g.urange(1, CHUNK);
    let data = noise(g.raw(), n);
    let buffer = *g.pick(&[1_000usize, 70_000, CHUNK, 1 << 20]);
    let patience = Duration::from_millis(*g.pick(&[500u64, 5_000, 20_000]));
    // pauses of the reader before some frames
    let naps: Vec<Duration> = (0..count + 1)
        .map(|_| match g.weighted(&[3, 2, 1]) {
            0 => Duration::ZERO,
            1 => patience * g.urange(1, 9) as u32 / 30,
            _ => patience + Duration::from_millis(g.urange(1, 3_000) as u64),
        })
        .collect();
    let output = g.chance(1, 3);
    let total: Duration = naps.iter().sum();
    // with hardly any room on the way, a frame is written once it is read
    let late = buffer == 1_000 && naps[..count - 1].iter().any(|n| *n > patience);
    g.note(|| format!("{count} frames, buffer {buffer}, patience {patience:?}, naps {naps:?}"));
    g.nontrivial_if(naps.iter().any(|n| !n.is_zero()));
    let pack = data.clone();
    let (sent, took, got) = paused(async move {
        let (near, far) = tokio::io::duplex(buffer);
        let (mut near, mut far) = (near.compat(), far.compat());
        let start = Instant::now();
        let writer = tokio::spawn(async move {
            let r = if output {
                codec::write_output(&mut near, Some(pack), patience, vgen::keys()[0].pk()).await
            } else {
                codec::write_pack(&mut io::Cursor::new(pack), &mut near, patience).await.map_err(|e| e.to_string())
            };
            (r, start.elapsed())
        });
        let mut got = vec![];
        let mut last = Ok(());
        for nap in naps {
            tokio::time::sleep(nap).await;
            let mut ends = false;
            loop {
                match read_frame::<_, PrimarySyncRequest>(&mut far, &mut vec![], &mut vec![], codec::PACK_FRAME).await {
                    Ok(SyncFrame::Ack) => continue,
                    Ok(SyncFrame::Data(d)) => got.extend(d),
                    Ok(SyncFrame::End) => ends = true,
                    Ok(f) => last = Err(format!("{f:?}")),
                    Err(e) => last = Err(e.to_string()),
                }
                break;
            }
            if ends || last.is_err() {
                break;
            }
        }
        let (r, took) = writer.await.expect("writer");
        // nothing is left behind for a stream that was given up
        let mut more = vec![];
        let _ = far.read_to_end(&mut more).await;
        (r, took, (got, last, more.len()))
    });
    let (got, last, more) = got;
    ensure!(data.starts_with(&got), "what is read is not what was written");
    if sent.is_ok() {
        ensure!(got == data && last.is_ok() && more == 0, "all was sent, and {} of {n} bytes are read, then {last:?} and {more} more", got.len());
    }
    g.class(if sent.is_ok() { "sent" } else { "given up" });
    let _ = took;
    ensure!(sent.is_ok() || total >= patience, "a peer that is fast enough is left: {sent:?}");
    ensure!(sent.is_err() || !late, "a peer that is too slow gets everything");
    Ok(())
}

/// A peer that reads for a while and then no more: the writer leaves after its patience, not before.
fn stops(g: &mut G) -> R {
    let patience = Duration::from_millis(*g.pick(&[300u64, 5_000, 60_000]));
    let taken = g.usize(3 * CHUNK);
    let kind = g.below(3);
    let seed = g.raw();
    g.note(|| format!("patience {patience:?}, kind {kind}, {taken} bytes are read"));
    g.nontrivial();
    let (r, took) = paused(async move {
        let (near, mut far) = tokio::io::duplex(20_000);
        let mut near = near.compat();
        let data = noise(seed, 4 * CHUNK);
        let reader = tokio::spawn(async move {
            let mut b = vec![0; taken];
            let _ = far.read_exact(&mut b).await;
            std::future::pending::<()>().await;
        });
        let start = Instant::now();
        let all = async {
            match kind {
                0 => codec::write_pack(&mut io::Cursor::new(data), &mut near, patience).await.map_err(|e| e.to_string()),
                1 => codec::write_output(&mut near, Some(data), patience, vgen::keys()[0].pk()).await,
                _ => codec::write_certs(&mut near, (0..8).map(|i| Some(big_cert(seed, i, 4_500))), patience).await,
            }
        };
        let r = tokio::time::timeout(patience * 3, all).await;
        reader.abort();
        (r, start.elapsed())
    });
    match r {
        Err(_) => Err("a peer that stops reading is waited for without end".into()),
        Ok(Ok(())) => Err("sent to a peer that stopped reading".into()),
        Ok(Err(e)) => {
            ensure!(took >= patience, "a peer is left after {took:?}, with a patience of {patience:?}: {e}");
            ensure!(took < patience + patience / 2, "a peer is left after {took:?} only");
            Ok(())
        }
    }
}

fn com() -> &'static Com {
    static C: std::sync::OnceLock<Com> = std::sync::OnceLock::new();
    C.get_or_init(|| Com::of(&[0, 1, 2, 3], 0))
}

/// A certificate made big by parents nobody looks at.
fn big_cert(seed: u64, i: usize, parents: usize) -> Certificate {
    let bytes = noise(seed ^ i as u64, 32 * parents);
    let h = HeaderBuilder::default()
        .author(com().members[0].id())
        .round(i as u32 + 1)
        .epoch(0)
        .created_at(seed)
        .payload(Default::default())
        .parents(bytes.chunks(32).map(|c| HeaderDigest::new(c.try_into().expect("32"))).collect())
        .build();
    cheap_cert(com(), h)
}

fn some_certs(g: &mut G) -> Vec<Certificate> {
    let heavy = g.chance(1, 3);
    let n = g.usize(if heavy { 9 } else { 20 });
    (0..n)
        .map(|i| match heavy {
            true => {
                let p = *g.pick(&[100usize, 2_000, 4_000, 8_000]) + g.usize(50);
                big_cert(g.raw(), i, p)
            }
            false => cheap_cert(com(), any_header(g)),
        })
        .collect()
}

fn blobs(c: &[Certificate]) -> Vec<Vec<u8>> {
    c.iter().map(encode).collect()
}

/// Certificates in frames: the same ones in the same order, or an error.
fn certificates(g: &mut G) -> R {
    let certs = some_certs(g);
    let missing = if g.chance(1, 5) { Some(g.usize(certs.len() + 1)) } else { None };
    let mut items: Vec<Option<Certificate>> = certs.iter().cloned().map(Some).collect();
    if let Some(at) = missing {
        items.insert(at, None);
    }
    let mut sink = Sink::new(Pieces(vec![usize::MAX], g.bool()), usize::MAX);
    let out = sink.data.clone();
    let r = paused(codec::write_certs(&mut sink, items, LONG));
    ensure_eq!(r.is_err(), missing.is_some(), "certificates are written: {r:?}");
    let bytes = out.lock().unwrap().clone();
    let fs = frames(&bytes, codec::CERT_FRAME)?;
    ensure_eq!(fs.first(), Some(&SyncFrame::Ack), "first frame");
    ensure_eq!(fs.iter().any(|f| *f == SyncFrame::End), missing.is_none(), "an end is written");
    let sent: Vec<(Vec<u8>, Vec<Certificate>)> = fs[1..]
        .iter()
        .filter_map(|f| match f {
            SyncFrame::Data(d) => Some(try_decode(d).map(|c| (wire(f), c)).map_err(|e| e.to_string())),
            _ => None,
        })
        .collect::<Result<_, _>>()?;
    let flat: Vec<Certificate> = sent.iter().flat_map(|(_, c)| c.clone()).collect();
    match missing {
        None => ensure!(blobs(&flat) == blobs(&certs), "other certificates are written"),
        Some(at) => ensure!(blobs(&certs[..at]).starts_with(&blobs(&flat)), "other certificates are written before one that is missing"),
    }
    // the other side; something may go wrong on the way
    let mut stream: Vec<Vec<u8>> = fs[1..].iter().map(wire).collect();
    let end = ending(g);
    let mut fine = missing.is_none();
    let mut waits = !fine && end == Ending::Silent;
    let what = g.weighted(&[4, 3, 3, 2]);
    match what {
        1 => {
            let all: usize = stream.iter().map(Vec::len).sum();
            if all > 0 {
                let at = g.usize(all);
                stream = vec![stream.concat()[..at].to_vec()];
            }
            fine = false;
            waits = end == Ending::Silent;
        }
        2 => {
            let f = match g.below(5) {
                0 => SyncFrame::Err(SyncFrameError::Internal),
                1 => SyncFrame::Ack,
                2 => SyncFrame::Deny(DenyReason::Unavailable),
                3 => SyncFrame::Req(PrimarySyncRequest::EpochPack { epoch: 1 }),
                // no certificates
                _ => {
                    let mut d = encode(&vec![big_cert(1, 1, 2)]);
                    match g.below(3) {
                        0 => d.push(0),
                        1 => d.truncate(d.len() - 1),
                        _ => d = noise(g.raw(), 30),
                    }
                    SyncFrame::Data(d)
                }
            };
            let at = g.usize(stream.len() + 1);
            if at < stream.len() || missing.is_some() {
                fine = false;
                waits = false;
            }
            stream.insert(at, wire(&f));
        }
        // other batches of the same
        3 if fine => {
            stream.clear();
            let mut left = &certs[..];
            while !left.is_empty() {
                let mut k = g.urange(0, left.len().min(3));
                while k > 1 && encode(&left[..k].to_vec()).len() > codec::CERT_FRAME - 100 {
                    k -= 1;
                }
                stream.push(wire(&SyncFrame::Data(encode(&left[..k].to_vec()))));
                left = &left[k.max(usize::from(stream.len() > 40))..];
            }
            stream.push(wire(&SyncFrame::End));
        }
        _ => (),
    }
    let sizes: Vec<usize> = sent.iter().map(|(w, _)| w.len()).collect();
    g.note(|| format!("{} certificates in frames of {sizes:?}, missing {missing:?}, on the way {what}, {end:?}", certs.len()));
    g.nontrivial_if(sizes.len() > 1 || !fine || what == 3);
    let big = stream.iter().map(Vec::len).sum::<usize>() > 20_000;
    let mut how = pieces(g);
    if big {
        how.0.iter_mut().for_each(|x| *x = x.saturating_mul(1_000));
    }
    let src = Source::new(stream.concat(), how, end);
    let (r, took) = paused(async {
        let start = Instant::now();
        let mut src = src;
        (codec::read_certs(&mut src).await, start.elapsed())
    });
    ensure!(took <= FRAME_TIME + Duration::from_millis(5), "it takes {took:?}");
    match r {
        Ok(c) => {
            ensure!(fine, "{} certificates are taken for all", c.len());
            ensure!(blobs(&c) == blobs(&certs), "other certificates are read");
        }
        Err(e) => {
            ensure!(!fine, "certificates are refused: {e}");
            ensure_eq!(took >= FRAME_TIME, waits, "time until an error ({took:?}: {e})");
        }
    }
    Ok(())
}

/// More certificates than one answer holds: it ends once it is full, and is taken like that; a longer one is
/// refused before all of it is kept.
fn capped(g: &mut G) -> R {
    const CAP: usize = 64 << 20;
    let parents = g.urange(5_000, 7_900);
    let one = big_cert(7, 1, parents);
    let size = encode(&one).len();
    let due = CAP.div_ceil(size);
    let more = g.usize(3);
    let offered = due + more;
    g.note(|| format!("{offered} certificates of {size} bytes"));
    g.nontrivial();
    let mut asked = 0;
    let mut sink = Sink::new(Pieces(vec![usize::MAX], false), usize::MAX);
    let out = sink.data.clone();
    let items = (0..offered).map(|_| {
        asked += 1;
        Some(one.clone())
    });
    paused(codec::write_certs(&mut sink, items, LONG))?;
    ensure!(asked <= due + 1, "{asked} certificates are read for an answer of {due}");
    let bytes = std::mem::take(&mut *out.lock().unwrap());
    let fs = frames(&bytes, codec::CERT_FRAME)?;
    drop(bytes);
    let mut stream: Vec<Vec<u8>> = fs[1..].iter().map(wire).collect();
    drop(fs);
    let src = Source::new(stream.concat(), Pieces(vec![1 << 20], false), Ending::Closed);
    let r = paused(async { codec::read_certs(&mut { src }).await }).map_err(|e| format!("a full answer is refused: {e}"))?;
    ensure_eq!(r.len(), due, "certificates of a full answer");
    ensure!(r.iter().all(|c| encode(c).len() == size), "other certificates");
    drop(r);
    // a peer that goes on
    let last = stream.pop().expect("end");
    let f = stream[0].clone();
    let extra = g.urange(8, 80);
    stream.extend(std::iter::repeat_n(f, extra));
    stream.push(last);
    let src = Source::new(stream.concat(), Pieces(vec![1 << 20], false), Ending::Closed);
    let counter = src.counter();
    let r = paused(async { codec::read_certs(&mut { src }).await });
    ensure!(r.is_err(), "an answer of {} frames is taken", stream.len());
    let read = counter.load(Ordering::SeqCst);
    ensure!(read <= CAP + 5 * codec::CERT_FRAME, "{read} bytes of an answer are read that holds {CAP} at most");
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("libp2p and its streams deliver bytes in order; snap compresses and restores what it is given");
    c.sub("messages", Budget::new(100_000, 60).thorough(600_000, 900), messages);
    c.sub("hostile", Budget::new(150_000, 60).thorough(1_500_000, 900), hostile);
    c.sub("requests", Budget::new(20_000, 60).thorough(100_000, 900), requests);
    c.sub("packs", Budget::new(8_000, 60).thorough(100_000, 900), packs);
    c.sub("paces", Budget::new(4_000, 40).thorough(10_000, 600), paces);
    c.sub("stops", Budget::new(1_000, 40).thorough(4_000, 600), stops);
    c.sub("certificates", Budget::new(8_000, 60).thorough(100_000, 900), certificates);
    c.sub("capped", Budget::new(12, 60).threads(4).thorough(80, 600), capped);
}
