//! One library `Connection` over an AF_UNIX stream, with observation points on every side of it.

use std::marker::PhantomData;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use protosocket::{
    Connection, ConnectionBindings, DeserializeError, Deserializer, MessageReactor, ReactorStatus,
    Serializer,
};
use protosocket_messagepack::{
    ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer,
};
use protosocket_prost::ProstSerializer;
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;

use crate::rt::{self, read_some, round, rounds, write_some, Counted, ReadEnd};
use crate::runner::{violation, Fail, R};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum CodecKind {
    /// The harness' own length-prefixed frames: [kind u8][len u32 BE][body].
    Frame,
    Prost,
    MsgPack,
}

/// What the harness' deserializer says it still needs.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Hint {
    Total,
    Remaining,
    One,
}

pub const NORMAL: u8 = 0xA0;
pub const SKIP: u8 = 0xA1;

#[derive(Default)]
pub struct Probe {
    pub max_decode_len: AtomicUsize,
    pub encodes: AtomicUsize,
}

// ------------------------------------------------------------------------------------------ codecs

pub struct FrameDe {
    hint: Hint,
}
impl Deserializer for FrameDe {
    type Message = Vec<u8>;
    fn decode(&mut self, buffer: impl bytes::Buf) -> Result<(usize, Vec<u8>), DeserializeError> {
        let b = buffer.chunk();
        let incomplete = |total: usize| {
            Err(DeserializeError::IncompleteBuffer {
                next_message_size: match self.hint {
                    Hint::Total => total,
                    Hint::Remaining => total - b.len(),
                    Hint::One => 1,
                },
            })
        };
        if b.is_empty() {
            return incomplete(5);
        }
        if b[0] != NORMAL && b[0] != SKIP {
            return Err(DeserializeError::InvalidBuffer);
        }
        if b.len() < 5 {
            return incomplete(5);
        }
        let total = 5 + u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
        if b[0] == SKIP {
            return Err(DeserializeError::SkipMessage { distance: total });
        }
        if b.len() < total {
            return incomplete(total);
        }
        Ok((total, b[5..total].to_vec()))
    }
}

pub struct RawSe;
impl Serializer for RawSe {
    type Message = Vec<u8>;
    fn encode(&mut self, m: Vec<u8>, buffer: &mut Vec<u8>) {
        buffer.extend_from_slice(&m);
    }
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct PMsg {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(bytes = "vec", tag = "2")]
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MMsg {
    pub id: u64,
    pub data: String,
}

pub trait Codec: 'static + Sized {
    type In: Send + 'static;
    type Out: Send + 'static;
    type De: Deserializer<Message = Self::In> + 'static;
    type Se: Serializer<Message = Self::Out> + 'static;
    fn de(hint: Hint) -> Self::De;
    fn se() -> Self::Se;
    fn out(idx: usize, total: usize) -> Self::Out;
    fn canon(m: Self::In) -> Vec<u8>;
}

pub struct FrameCodec;
impl Codec for FrameCodec {
    type In = Vec<u8>;
    type Out = Vec<u8>;
    type De = FrameDe;
    type Se = RawSe;
    fn de(hint: Hint) -> FrameDe {
        FrameDe { hint }
    }
    fn se() -> RawSe {
        RawSe
    }
    fn out(idx: usize, total: usize) -> Vec<u8> {
        wire_of(CodecKind::Frame, idx, total)
    }
    fn canon(m: Vec<u8>) -> Vec<u8> {
        m
    }
}

pub struct ProstCodec;
impl Codec for ProstCodec {
    type In = PMsg;
    type Out = PMsg;
    type De = ProstSerializer<PMsg, PMsg>;
    type Se = ProstSerializer<PMsg, PMsg>;
    fn de(_: Hint) -> Self::De {
        Default::default()
    }
    fn se() -> Self::Se {
        Default::default()
    }
    fn out(idx: usize, total: usize) -> PMsg {
        prost_msg(idx, total)
    }
    fn canon(m: PMsg) -> Vec<u8> {
        [&m.id.to_be_bytes()[..], &m.data].concat()
    }
}

pub struct MsgPackCodec;
impl Codec for MsgPackCodec {
    type In = MMsg;
    type Out = MMsg;
    type De = ProtosocketMessagePackDeserializer<MMsg>;
    type Se = ProtosocketMessagePackSerializer<MMsg>;
    fn de(_: Hint) -> Self::De {
        Default::default()
    }
    fn se() -> Self::Se {
        Default::default()
    }
    fn out(idx: usize, total: usize) -> MMsg {
        msgpack_msg(idx, total)
    }
    fn canon(m: MMsg) -> Vec<u8> {
        [&m.id.to_be_bytes()[..], m.data.as_bytes()].concat()
    }
}

// ------------------------------------------------ reference encodings, independent of the library

pub fn body(idx: usize, len: usize) -> Vec<u8> {
    let mut x = (idx as u32).wrapping_mul(2654435761).wrapping_add(12345);
    (0..len)
        .map(|i| {
            if i % 4 == 0 {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            }
            (x >> (8 * (i % 4))) as u8 ^ (i >> 8) as u8
        })
        .collect()
}

fn text(idx: usize, len: usize) -> String {
    body(idx, len).into_iter().map(|b| (b' ' + b % 94) as char).collect()
}

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        if v < 0x80 {
            out.push(v as u8);
            return out;
        }
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
}

pub fn prost_body(m: &PMsg) -> Vec<u8> {
    let mut out = vec![];
    if m.id != 0 {
        out.push(0x08);
        out.extend(varint(m.id));
    }
    if !m.data.is_empty() {
        out.push(0x12);
        out.extend(varint(m.data.len() as u64));
        out.extend_from_slice(&m.data);
    }
    out
}

fn prost_len(idx: usize, data: usize) -> usize {
    let id = if idx == 0 { 0 } else { 1 + varint(idx as u64).len() };
    let d = if data == 0 { 0 } else { 1 + varint(data as u64).len() + data };
    varint((id + d) as u64).len() + id + d
}

fn msgpack_len(idx: usize, data: usize) -> usize {
    let i = match idx {
        0..=127 => 1,
        128..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    };
    let s = match data {
        0..=31 => 1,
        32..=255 => 2,
        256..=65535 => 3,
        _ => 5,
    };
    5 + 1 + i + s + data
}

/// Largest data length whose encoding is at most `total` (0 if none).
fn fit(total: usize, len: impl Fn(usize) -> usize) -> usize {
    let (mut lo, mut hi) = (0usize, total);
    while lo < hi {
        let mid = (lo + hi).div_ceil(2);
        if len(mid) <= total {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    lo
}

pub fn prost_msg(idx: usize, total: usize) -> PMsg {
    let n = fit(total, |d| prost_len(idx, d));
    PMsg { id: idx as u64, data: body(idx, n) }
}

pub fn msgpack_msg(idx: usize, total: usize) -> MMsg {
    let n = fit(total, |d| msgpack_len(idx, d));
    MMsg { id: idx as u64, data: text(idx, n) }
}

pub fn msgpack_payload(m: &MMsg) -> Vec<u8> {
    let mut out = vec![0x92];
    match m.id {
        0..=127 => out.push(m.id as u8),
        128..=255 => out.extend([0xcc, m.id as u8]),
        256..=65535 => {
            out.push(0xcd);
            out.extend((m.id as u16).to_be_bytes());
        }
        0x10000..=0xffffffff => {
            out.push(0xce);
            out.extend((m.id as u32).to_be_bytes());
        }
        _ => {
            out.push(0xcf);
            out.extend(m.id.to_be_bytes());
        }
    }
    let n = m.data.len();
    match n {
        0..=31 => out.push(0xa0 | n as u8),
        32..=255 => out.extend([0xd9, n as u8]),
        256..=65535 => {
            out.push(0xda);
            out.extend((n as u16).to_be_bytes());
        }
        _ => {
            out.push(0xdb);
            out.extend((n as u32).to_be_bytes());
        }
    }
    out.extend_from_slice(m.data.as_bytes());
    out
}

/// The wire bytes of message `idx` of about (at most, if attainable) `total` bytes.
pub fn wire_of(codec: CodecKind, idx: usize, total: usize) -> Vec<u8> {
    match codec {
        CodecKind::Frame => {
            if total == 0 {
                return vec![];
            }
            let len = total.saturating_sub(5);
            let mut out = vec![NORMAL];
            out.extend((len as u32).to_be_bytes());
            out.extend(body(idx, len));
            out
        }
        CodecKind::Prost => {
            let b = prost_body(&prost_msg(idx, total));
            let mut out = varint(b.len() as u64);
            out.extend(b);
            out
        }
        CodecKind::MsgPack => {
            let p = msgpack_payload(&msgpack_msg(idx, total));
            let mut out = vec![0xce];
            out.extend((p.len() as u32).to_be_bytes());
            out.extend(p);
            out
        }
    }
}

pub fn skip_wire(idx: usize, total: usize) -> Vec<u8> {
    let mut w = wire_of(CodecKind::Frame, idx, total.max(5));
    w[0] = SKIP;
    w
}

/// What the reactor must see for message `idx`.
pub fn canon_of(codec: CodecKind, idx: usize, total: usize) -> Vec<u8> {
    match codec {
        CodecKind::Frame => body(idx, total.saturating_sub(5)),
        CodecKind::Prost => ProstCodec::canon(prost_msg(idx, total)),
        CodecKind::MsgPack => MsgPackCodec::canon(msgpack_msg(idx, total)),
    }
}

// ------------------------------------------------------------------------------ reference parser

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Tail {
    /// More bytes could complete the next message.
    NeedMore,
    /// No continuation is valid.
    Invalid,
}

#[derive(Debug)]
pub enum Parsed {
    Msg { len: usize, canon: Vec<u8> },
    Skip { len: usize },
    /// Incomplete; `announced` is the full length if it is already known.
    Incomplete { announced: Option<u128> },
    Invalid,
}

pub fn parse_one(codec: CodecKind, b: &[u8]) -> Parsed {
    use prost::Message;
    match codec {
        CodecKind::Frame => {
            if b.is_empty() {
                return Parsed::Incomplete { announced: None };
            }
            if b[0] != NORMAL && b[0] != SKIP {
                return Parsed::Invalid;
            }
            if b.len() < 5 {
                return Parsed::Incomplete { announced: None };
            }
            let total = 5 + u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
            if b.len() < total {
                return Parsed::Incomplete { announced: Some(total as u128) };
            }
            if b[0] == SKIP {
                Parsed::Skip { len: total }
            } else {
                Parsed::Msg { len: total, canon: b[5..total].to_vec() }
            }
        }
        CodecKind::Prost => {
            let mut v: u128 = 0;
            for i in 0..10 {
                let Some(&x) = b.get(i) else {
                    return Parsed::Incomplete { announced: None };
                };
                v |= ((x & 0x7f) as u128) << (7 * i);
                if x & 0x80 == 0 {
                    if v > u64::MAX as u128 {
                        return Parsed::Invalid;
                    }
                    let head = i + 1;
                    let total = head as u128 + v;
                    if (b.len() as u128) < total {
                        return Parsed::Incomplete { announced: Some(total) };
                    }
                    let total = total as usize;
                    return match PMsg::decode(&b[head..total]) {
                        Ok(m) => Parsed::Msg { len: total, canon: ProstCodec::canon(m) },
                        Err(_) => Parsed::Invalid,
                    };
                }
            }
            Parsed::Invalid
        }
        CodecKind::MsgPack => {
            if b.len() < 5 {
                return Parsed::Incomplete { announced: None };
            }
            if b[0] != 0xce {
                return Parsed::Invalid;
            }
            let total = 5 + u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
            if b.len() < total {
                return Parsed::Incomplete { announced: Some(total as u128) };
            }
            let mut cur = std::io::Cursor::new(&b[5..total]);
            match rmp_serde::decode::from_read::<_, MMsg>(&mut cur) {
                Ok(m) if cur.position() as usize == total - 5 => {
                    Parsed::Msg { len: total, canon: MsgPackCodec::canon(m) }
                }
                _ => Parsed::Invalid,
            }
        }
    }
}

// ------------------------------------------------------------------------------------- bindings

pub struct ProbedDe<D> {
    inner: D,
    probe: Arc<Probe>,
}
impl<D: Deserializer> Deserializer for ProbedDe<D> {
    type Message = D::Message;
    fn decode(&mut self, buffer: impl bytes::Buf) -> Result<(usize, D::Message), DeserializeError> {
        self.probe.max_decode_len.fetch_max(buffer.remaining(), Ordering::Relaxed);
        self.inner.decode(buffer)
    }
}
pub struct ProbedSe<S> {
    inner: S,
    probe: Arc<Probe>,
}
impl<S: Serializer> Serializer for ProbedSe<S> {
    type Message = S::Message;
    fn encode(&mut self, m: S::Message, buffer: &mut Vec<u8>) {
        self.probe.encodes.fetch_add(1, Ordering::Relaxed);
        self.inner.encode(m, buffer)
    }
}

#[derive(Default)]
pub struct ReactorProbe {
    pub delivered: Mutex<Vec<Vec<u8>>>,
    pub drops: AtomicUsize,
    pub disconnect_at: AtomicUsize, // 0 = never; n = ask to disconnect once n messages were delivered
    pub ask_now: AtomicBool, // ask to disconnect at the next call, with or without messages
    pub asked: AtomicBool,
    pub calls_after_ask: AtomicUsize,
}

pub struct Collect<C> {
    probe: Arc<ReactorProbe>,
    _c: PhantomData<fn() -> C>,
}
impl<C: Codec> MessageReactor for Collect<C> {
    type Inbound = C::In;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = C::In>) -> ReactorStatus {
        if self.probe.asked.load(Ordering::Relaxed) {
            self.probe.calls_after_ask.fetch_add(1, Ordering::Relaxed);
        }
        let mut d = self.probe.delivered.lock().unwrap();
        d.extend(messages.into_iter().map(C::canon));
        let at = self.probe.disconnect_at.load(Ordering::Relaxed);
        if at != 0 && d.len() >= at || self.probe.ask_now.load(Ordering::Relaxed) {
            self.probe.asked.store(true, Ordering::Relaxed);
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}
impl<C> Drop for Collect<C> {
    fn drop(&mut self) {
        self.probe.drops.fetch_add(1, Ordering::Relaxed);
    }
}

pub struct B<C>(PhantomData<C>);
impl<C: Codec> ConnectionBindings for B<C> {
    type Deserializer = ProbedDe<C::De>;
    type Serializer = ProbedSe<C::Se>;
    type Reactor = Collect<C>;
}

// ----------------------------------------------------------------------------------------- link

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum SendResult {
    Sent,
    Full,
    Closed,
}

pub trait OutPort {
    fn try_send(&self, idx: usize, total: usize) -> SendResult;
    fn is_closed(&self) -> bool;
}
struct Port<C: Codec>(mpsc::Sender<C::Out>);
impl<C: Codec> OutPort for Port<C> {
    fn try_send(&self, idx: usize, total: usize) -> SendResult {
        match self.0.try_reserve() {
            Ok(permit) => {
                permit.send(C::out(idx, total));
                SendResult::Sent
            }
            Err(mpsc::error::TrySendError::Full(())) => SendResult::Full,
            Err(mpsc::error::TrySendError::Closed(())) => SendResult::Closed,
        }
    }
    fn is_closed(&self) -> bool {
        self.0.is_closed()
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Setup {
    pub codec: CodecKind,
    pub max_buffer: usize,
    pub max_queued: usize,
    /// 0: the kernel's default
    pub sndbuf: usize,
    pub hint: Hint,
}

pub struct Link {
    pub setup: Setup,
    pub peer: Option<UnixStream>,
    pub polls: Arc<AtomicU64>,
    pub reactor: Arc<ReactorProbe>,
    pub probe: Arc<Probe>,
    pub out: Option<Box<dyn OutPort>>,
    pub handle: tokio::task::JoinHandle<()>,
    /// everything the peer has read so far
    pub received: Vec<u8>,
    pub end: ReadEnd,
}

pub fn link(setup: &Setup) -> R<Link> {
    match setup.codec {
        CodecKind::Frame => link_with::<FrameCodec>(setup),
        CodecKind::Prost => link_with::<ProstCodec>(setup),
        CodecKind::MsgPack => link_with::<MsgPackCodec>(setup),
    }
}

fn link_with<C: Codec>(setup: &Setup) -> R<Link> {
    let (stream, peer) = rt::unix_pair((setup.sndbuf > 0).then_some(setup.sndbuf))?;
    let probe = Arc::new(Probe::default());
    let reactor = Arc::new(ReactorProbe::default());
    let (tx, rx) = mpsc::channel(setup.max_queued);
    let conn = Connection::<B<C>>::new(
        stream,
        ([127, 0, 0, 1], 1).into(),
        ProbedDe { inner: C::de(setup.hint), probe: probe.clone() },
        ProbedSe { inner: C::se(), probe: probe.clone() },
        setup.max_buffer,
        setup.max_queued,
        rx,
        Collect { probe: reactor.clone(), _c: PhantomData },
    );
    let polls = Arc::new(AtomicU64::new(0));
    let conn = Counted { inner: conn, polls: polls.clone() };
    // a connection must not rely on the cooperative budget of tokio's own tasks: other executors have none
    let handle = if (setup.max_buffer ^ setup.max_queued) & 1 == 1 { tokio::spawn(tokio::task::unconstrained(conn)) } else { tokio::spawn(conn) };
    Ok(Link {
        setup: setup.clone(),
        peer: Some(peer),
        polls,
        reactor,
        probe,
        out: Some(Box::new(Port::<C>(tx))),
        handle,
        received: vec![],
        end: ReadEnd::Open,
    })
}

pub const QUIET_ROUNDS: usize = 6;
pub const MAX_ROUNDS: usize = 200_000;

impl Link {
    pub fn polls(&self) -> u64 {
        self.polls.load(Ordering::Relaxed)
    }

    /// Run until the connection has not been polled for several full driver turns.
    pub async fn settle(&self) -> R {
        let mut quiet = 0;
        let mut last = self.polls();
        for _ in 0..MAX_ROUNDS {
            round().await;
            let now = self.polls();
            if now == last {
                quiet += 1;
                if quiet >= QUIET_ROUNDS {
                    return Ok(());
                }
            } else {
                last = now;
                quiet = 0;
            }
        }
        violation(format!(
            "the connection kept waking itself for {MAX_ROUNDS} executor rounds without any outside event"
        ))
    }

    pub fn finished(&self) -> bool {
        self.handle.is_finished()
    }

    /// The connection task must not have panicked.
    pub async fn join(self) -> R<bool> {
        if !self.handle.is_finished() {
            self.handle.abort();
            let _ = self.handle.await;
            return Ok(false);
        }
        match self.handle.await {
            Ok(()) => Ok(true),
            Err(e) if e.is_panic() => violation("the connection task panicked"),
            Err(_) => Ok(true),
        }
    }

    pub fn delivered(&self) -> Vec<Vec<u8>> {
        self.reactor.delivered.lock().unwrap().clone()
    }
    pub fn delivered_len(&self) -> usize {
        self.reactor.delivered.lock().unwrap().len()
    }

    /// Peer writes what the kernel takes; None if the connection is gone.
    pub fn peer_write(&mut self, data: &[u8]) -> Option<usize> {
        write_some(self.peer.as_mut().expect("peer open"), data)
    }

    pub fn peer_read(&mut self, max: usize) -> usize {
        let before = self.received.len();
        if self.end == ReadEnd::Open {
            if let Some(p) = self.peer.as_mut() {
                self.end = read_some(p, max, &mut self.received);
            }
        }
        self.received.len() - before
    }

    /// Peer writes all of `data`, letting the connection run whenever the kernel is full. Ok(false): the
    /// connection ended before everything was taken.
    pub async fn peer_write_all(&mut self, data: &[u8]) -> R<bool> {
        let mut at = 0;
        while at < data.len() {
            match self.peer_write(&data[at..]) {
                None => return Ok(false),
                Some(0) => {
                    self.settle().await?;
                    match self.peer_write(&data[at..]) {
                        None => return Ok(false),
                        Some(0) => {
                            if self.finished() {
                                return Ok(false);
                            }
                            return violation(format!(
                                "inbound stall: the connection is idle but has stopped reading; {} bytes of the peer's stream cannot be written (after {at})",
                                data.len() - at
                            ));
                        }
                        Some(n) => at += n,
                    }
                }
                Some(n) => at += n,
            }
        }
        Ok(true)
    }

    pub fn send(&self, idx: usize, total: usize) -> SendResult {
        self.out.as_ref().expect("sender open").try_send(idx, total)
    }

    pub async fn settle_rounds(&self, n: usize) {
        rounds(n).await
    }

    pub fn show(&self) -> String {
        format!(
            "polls={} delivered={} received={}B encodes={} finished={} end={:?}",
            self.polls(),
            self.delivered_len(),
            self.received.len(),
            self.probe.encodes.load(Ordering::Relaxed),
            self.finished(),
            self.end
        )
    }
}

/// Compare delivered messages with the expected ones, tersely.
pub fn compare(what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let show = |m: Option<&Vec<u8>>| match m {
        None => "nothing".to_string(),
        Some(m) => format!("{}B {:02x?}", m.len(), &m[..m.len().min(12)]),
    };
    violation(format!(
        "{what}: delivered {} messages, expected {}; first difference at #{at}: got {}, want {}",
        got.len(),
        want.len(),
        show(got.get(at)),
        show(want.get(at))
    ))
}

pub fn compare_prefix(what: &str, got: &[Vec<u8>], want: &[Vec<u8>]) -> R {
    if got.len() <= want.len() {
        compare(what, got, &want[..got.len()])
    } else {
        compare(what, got, want)
    }
}

pub fn compare_bytes(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    violation(format!(
        "{what}: {} bytes on the wire, expected {}; first difference at byte {at}: got {:02x?} want {:02x?}",
        got.len(),
        want.len(),
        &got[at..got.len().min(at + 8)],
        &want[at..want.len().min(at + 8)]
    ))
}

pub fn harness<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Harness(s.into()))
}
