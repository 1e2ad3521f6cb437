//! C23: the limits set on an entry point are the limits of the connections it creates. C32: it does not hold back
//! messages. C03 on the endpoints.

use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use prost::Message as _;
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_prost::ClientRegistry;
use protosocket_rpc::client::{connect, Configuration, UnaryCompletion};
use protosocket_rpc::server::SocketRpcServer;
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;

use crate::check;
use crate::rpc::*;
use crate::rt::{block_on, rounds, wait_for, ReadEnd};
use crate::runner::{violation, Ctx, Fail, Property, Suite, Tier, R};
use crate::server::{self, body, Plan};

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "a case is one of the four entry points and a pattern of messages that leave it one at a time, each after the peer has received the one before, with or without messages from the peer in between, repeated on one connection and timed next to the same pattern on a pair of plain sockets; non-trivial: two messages leave without a message from the peer in between",
        suites: vec![Box::new(Suite { name: "delay", strategy: delay_strategy, run: delay_run, quick: 3_000, thorough: 60_000, workers: 4 })],
    },
    Property {
        id: "C23",
        rule: "a case is one of the four entry points and a sequence of limit changes, new connections and probes of any earlier connection (messages just within or beyond its maximum in either direction; how many messages it accepts for a peer that does not read); non-trivial: a connection was probed after the limits had been changed again, or two connections have different limits; large: the same with maximum lengths of 1 to 48 MiB and messages of that length (non-trivial: any probe); queues: the same with queues of up to 1000 messages (non-trivial: as for limits)",
        suites: vec![
            Box::new(Suite { name: "limits", strategy: strategy, run: run, quick: 60_000, thorough: 1_000_000, workers: W }),
            Box::new(Suite { name: "large", strategy: large_strategy, run: run, quick: 160, thorough: 4_000, workers: W }),
            Box::new(Suite { name: "queues", strategy: queues_strategy, run: run, quick: 1_200, thorough: 8_000, workers: W }),
        ],
    }]
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Entry {
    MessageServer,
    RpcServer,
    Registry,
    RpcClient,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    SetMax(usize),
    SetQueue(usize),
    Connect,
    /// `conn`, how far below the maximum
    InOk(u8, u16),
    OutOk(u8, u16),
    /// `conn`, how far above the maximum
    InTooLong(u8, u32),
    OutTooLong(u8, u16),
    Queue(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    entry: Entry,
    first_max: usize,
    first_queue: usize,
    steps: Vec<Step>,
    /// ordinary socket buffers instead of small ones
    #[serde(default)]
    large: bool,
}

fn large_strategy(_: Tier) -> BoxedStrategy<Case> {
    const M: usize = 1 << 20;
    // around the library's own defaults and increments, and anything else
    let max = || {
        prop_oneof![
            3 => (prop::sample::select(vec![2 * M, 4 * M, 8 * M, 16 * M, 32 * M]), 0usize..7).prop_map(|(b, d)| b + d - 3),
            2 => M..20 * M,
            2 => 20 * M..48 * M,
        ]
    };
    let probe = prop_oneof![
        3 => (any::<u8>(), 0u16..4).prop_map(|(c, d)| Step::InOk(c, d)),
        3 => (any::<u8>(), 0u16..4).prop_map(|(c, d)| Step::OutOk(c, d)),
        1 => (any::<u8>(), prop_oneof![1u32..5, 1u32..100_000_000]).prop_map(|(c, d)| Step::InTooLong(c, d)),
        1 => (any::<u8>(), 1u16..5).prop_map(|(c, d)| Step::OutTooLong(c, d)),
        2 => max().prop_map(Step::SetMax),
        2 => Just(Step::Connect),
    ];
    (prop::sample::select(vec![Entry::MessageServer, Entry::RpcServer, Entry::Registry, Entry::RpcClient]), max(), 1usize..10, vec(probe, 1..8))
        .prop_map(|(entry, first_max, first_queue, mut steps)| {
            steps.insert(0, Step::Connect);
            Case { entry, first_max, first_queue, steps, large: true }
        })
        .boxed()
}

/// Queue lengths on both sides of every default of the library.
fn queues_strategy(_: Tier) -> BoxedStrategy<Case> {
    let max = || 40_000usize..60_000;
    let queue = || prop_oneof![1 => 1usize..10, 1 => 10usize..100, 2 => 100usize..300, 3 => 500usize..1_000];
    let step = prop_oneof![
        1 => max().prop_map(Step::SetMax),
        3 => queue().prop_map(Step::SetQueue),
        4 => Just(Step::Connect),
        1 => (any::<u8>(), 0u16..4).prop_map(|(c, d)| Step::OutOk(c, d)),
        4 => any::<u8>().prop_map(Step::Queue),
    ];
    (prop::sample::select(vec![Entry::MessageServer, Entry::RpcServer, Entry::RpcServer, Entry::Registry, Entry::RpcClient]), max(), queue(), vec(step, 1..7))
        .prop_map(|(entry, first_max, first_queue, mut steps)| {
            steps.insert(0, Step::Connect);
            Case { entry, first_max, first_queue, steps, large: false }
        })
        .boxed()
}

fn strategy(_: Tier) -> BoxedStrategy<Case> {
    let max = || prop_oneof![4 => 200usize..5_000, 1 => 5_000usize..40_000, 2 => 40_000usize..60_000];
    let queue = || prop_oneof![6 => 1usize..10, 1 => 20usize..40];
    let below = || prop_oneof![2 => 0u16..4, 1 => 0u16..150];
    let step = prop_oneof![
        4 => max().prop_map(Step::SetMax),
        3 => queue().prop_map(Step::SetQueue),
        5 => Just(Step::Connect),
        4 => (any::<u8>(), below()).prop_map(|(c, d)| Step::InOk(c, d)),
        4 => (any::<u8>(), below()).prop_map(|(c, d)| Step::OutOk(c, d)),
        2 => (any::<u8>(), prop_oneof![2 => 1u32..5, 2 => 5u32..5_000, 1 => 5_000u32..50_000_000]).prop_map(|(c, d)| Step::InTooLong(c, d)),
        2 => (any::<u8>(), prop_oneof![2 => 1u16..5, 1 => 5u16..40_000]).prop_map(|(c, d)| Step::OutTooLong(c, d)),
        2 => any::<u8>().prop_map(Step::Queue),
    ];
    (
        prop::sample::select(vec![Entry::MessageServer, Entry::RpcServer, Entry::Registry, Entry::RpcClient]),
        max(),
        queue(),
        vec(step, 1..16),
    )
        .prop_map(|(entry, first_max, first_queue, mut steps)| {
            steps.insert(0, Step::Connect);
            Case { entry, first_max, first_queue, steps, large: false }
        })
        .boxed()
}

#[derive(Clone, PartialEq, prost::Message)]
struct Blob {
    #[prost(bytes, tag = "1")]
    data: Vec<u8>,
}

type Log<M> = Arc<Mutex<Vec<M>>>;

struct LogReactor<M>(Log<M>);
impl<M: Send + 'static> MessageReactor for LogReactor<M> {
    type Inbound = M;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = M>) -> ReactorStatus {
        self.0.lock().unwrap().extend(messages);
        ReactorStatus::Continue
    }
}

struct Bindings;
impl ConnectionBindings for Bindings {
    type Deserializer = RCodec;
    type Serializer = RCodec;
    type Reactor = LogReactor<RMsg>;
}

#[derive(Clone, Default)]
struct Connector(#[allow(clippy::type_complexity)] Arc<Mutex<Vec<Option<(mpsc::Sender<RMsg>, Log<RMsg>)>>>>);
impl ServerConnector for Connector {
    type Bindings = Bindings;
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn new_reactor(&self, outbound: mpsc::Sender<RMsg>) -> LogReactor<RMsg> {
        let log = Log::default();
        self.0.lock().unwrap().push(Some((outbound, log.clone())));
        LogReactor(log)
    }
}

/// A server that can be reconfigured while it runs.
fn spawn_shared<S: Future + Unpin + Send + 'static>(s: S) -> Arc<Mutex<S>> {
    let s = Arc::new(Mutex::new(s));
    let s2 = s.clone();
    tokio::spawn(futures::future::poll_fn(move |cx| {
        let mut s = s2.lock().unwrap();
        Pin::new(&mut *s).poll(cx).map(|_| ())
    }));
    s
}

enum Driver {
    Message(Arc<Mutex<ProtosocketServer<Connector>>>, Connector, std::net::SocketAddr),
    Rpc(Arc<Mutex<SocketRpcServer<server::Script>>>, Arc<Mutex<server::Shared>>, std::net::SocketAddr),
    Registry(ClientRegistry),
    Client(Configuration),
}

enum Handle {
    Message(mpsc::Sender<RMsg>, Log<RMsg>),
    Rpc,
    Registry(mpsc::Sender<Blob>, Log<Blob>),
    Client(crate::client::Client, Vec<UnaryCompletion<RMsg, RMsg>>),
}

struct Conn {
    peer: Peer,
    handle: Handle,
    max: usize,
    queue: usize,
    dead: bool,
}

/// A Blob whose encoding with its length prefix has `total` bytes, or the next possible length in direction `up`.
fn blob(total: usize, up: bool) -> Blob {
    let varint = |n: usize| prost::length_delimiter_len(n);
    let encoded = |n: usize| {
        let inner = if n == 0 { 0 } else { 1 + varint(n) + n };
        varint(inner) + inner
    };
    let mut n = total.saturating_sub(14);
    while encoded(n) < total {
        n += 1;
    }
    if !up && encoded(n) > total {
        n -= 1;
    }
    Blob { data: vec![7; n] }
}

fn rmsg(id: u64, total: usize) -> RMsg {
    RMsg { id, code: NORMAL, body: vec![9; total - HEADER] }
}

struct World {
    d: Driver,
    conns: Vec<Conn>,
    next_id: u64,
    serial: u32,
    large: bool,
}

impl World {
    fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }

    async fn connect(&mut self, max: usize, queue: usize) -> R {
        let h = |e: String| Fail::Harness(e);
        let accept = |l: std::net::TcpListener| async move {
            let s = wait_for(|| "the harness' own accept".into(), || match l.accept() {
                Ok((s, _)) => Ok(Some(s)),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
                Err(e) => Err(Fail::Harness(format!("accept: {e}"))),
            })
            .await?;
            Peer::new(s)
        };
        let (peer, handle) = match &self.d {
            Driver::Message(_, c, addr) => {
                let peer = if self.large { dial(*addr)? } else { dial_small(*addr)? };
                let n = self.conns.len();
                let (sender, log) = wait_for(|| "a connection was not accepted".into(), || Ok(c.0.lock().unwrap().get_mut(n).and_then(Option::take))).await?;
                (peer, Handle::Message(sender, log))
            }
            Driver::Rpc(_, sh, addr) => {
                let peer = if self.large { dial(*addr)? } else { dial_small(*addr)? };
                let n = self.conns.len();
                wait_for(|| "a connection was not accepted".into(), || Ok((sh.lock().unwrap().services > n).then_some(()))).await?;
                (peer, Handle::Rpc)
            }
            Driver::Registry(r) => {
                let (l, addr) = if self.large { listen()? } else { listen_small()? };
                let log = Log::default();
                let sender = r
                    .register_client::<Blob, Blob, _>(addr.to_string(), LogReactor(log.clone()))
                    .await
                    .map_err(|e| h(format!("register: {e}")))?;
                (accept(l).await?, Handle::Registry(sender, log))
            }
            Driver::Client(cfg) => {
                let (l, addr) = if self.large { listen()? } else { listen_small()? };
                let (client, conn) = connect::<RCodec, RCodec>(addr, cfg).await.map_err(|e| h(format!("connect: {e}")))?;
                tokio::spawn(conn);
                (accept(l).await?, Handle::Client(client, vec![]))
            }
        };
        self.conns.push(Conn { peer, handle, max, queue, dead: false });
        Ok(())
    }

    /// A message for the library's side with `total` bytes on the wire, and a test whether it was delivered.
    async fn inbound(&mut self, i: usize, total: usize, up: bool, header_only: bool) -> R {
        let id = self.id();
        self.serial += 1;
        let serial = self.serial;
        let c = &mut self.conns[i];
        let (bytes, actual) = match &c.handle {
            Handle::Registry(..) => {
                let b = if header_only {
                    let mut v = vec![];
                    prost::encode_length_delimiter(total, &mut v).expect("vec");
                    v.extend([10, 0]);
                    v
                } else {
                    blob(total, up).encode_length_delimited_to_vec()
                };
                (b.clone(), b.len())
            }
            Handle::Rpc | Handle::Message(..) | Handle::Client(..) => {
                if header_only {
                    let mut v = ((total - 4) as u32).to_be_bytes().to_vec();
                    v.extend(id.to_be_bytes());
                    v.push(NORMAL);
                    (v.clone(), v.len())
                } else {
                    let m = RMsg { id, code: NORMAL, body: body(serial, 0, total - HEADER - 8) };
                    (frame(m.id, m.code, &m.body), total)
                }
            }
        };
        if let (Handle::Client(client, calls), false) = (&mut c.handle, header_only) {
            // a response needs a call
            let u = client.send_unary(RMsg { id, code: NORMAL, body: vec![] }).await.map_err(|e| Fail::Violation(format!("a call could not be sent: {e}")))?;
            calls.push(u);
        }
        let before = match &c.handle {
            Handle::Message(_, l) => l.lock().unwrap().len(),
            Handle::Registry(_, l) => l.lock().unwrap().len(),
            _ => 0,
        };
        // in two pieces, so that the announced length counts
        let split = if header_only { bytes.len() } else { bytes.len().min(14) };
        let mut at = 0;
        for (k, end) in [split, bytes.len()].into_iter().enumerate() {
            let peer = &mut c.peer;
            wait_for(|| "the connection stopped reading".into(), || {
                if at < end {
                    match peer.write(&bytes[at..end]) {
                        Some(n) => at += n,
                        None if header_only => return Ok(Some(())),
                        None => return violation(format!("the connection was closed although a message of {actual} bytes is within its maximum")),
                    }
                }
                Ok((at == end).then_some(()))
            })
            .await?;
            if k == 0 {
                rounds(4).await;
            }
        }
        if header_only {
            let max = c.max;
            let peer = &mut c.peer;
            wait_for(|| format!("a message of {total} bytes was announced and the connection (maximum {max}) is still open"), || {
                peer.pump();
                Ok((peer.end != ReadEnd::Open).then_some(()))
            })
            .await?;
            c.dead = true;
            return Ok(());
        }
        let max = c.max;
        let what = || format!("a message of {actual} bytes was not received on a connection with maximum {max}");
        let closed = |p: &mut Peer| -> R {
            p.pump();
            check!(p.end == ReadEnd::Open, "the connection (maximum {max}) was closed by a message of {actual} bytes");
            Ok(())
        };
        match &mut c.handle {
            Handle::Message(_, l) => {
                let (l, peer) = (l.clone(), &mut c.peer);
                wait_for(what, || {
                    closed(peer)?;
                    Ok((l.lock().unwrap().len() > before).then_some(()))
                })
                .await
            }
            Handle::Registry(_, l) => {
                let (l, peer) = (l.clone(), &mut c.peer);
                wait_for(what, || {
                    closed(peer)?;
                    Ok((l.lock().unwrap().len() > before).then_some(()))
                })
                .await
            }
            Handle::Rpc => {
                let Driver::Rpc(_, sh, _) = &self.d else { unreachable!() };
                let (sh, peer) = (sh.clone(), &mut c.peer);
                wait_for(what, || {
                    closed(peer)?;
                    Ok(sh.lock().unwrap().started.iter().any(|(_, m)| m.id == id).then_some(()))
                })
                .await
            }
            Handle::Client(_, calls) => {
                let mut u = calls.pop().expect("pushed above");
                let peer = &mut c.peer;
                let waker = futures::task::noop_waker();
                wait_for(what, || {
                    closed(peer)?;
                    let mut cx = std::task::Context::from_waker(&waker);
                    match Pin::new(&mut u).poll(&mut cx) {
                        Poll::Pending => Ok(None),
                        Poll::Ready(Ok(_)) => Ok(Some(())),
                        Poll::Ready(Err(e)) => violation(format!("a call failed with {e} on a response of {actual} bytes with maximum {max}")),
                    }
                })
                .await
            }
        }
    }

    /// The library's side sends a message of `total` bytes.
    async fn outbound(&mut self, i: usize, total: usize, up: bool) -> R<usize> {
        let id = self.id();
        self.serial += 1;
        let serial = self.serial;
        let c = &mut self.conns[i];
        let gone = || Fail::Violation("a healthy connection does not accept messages".into());
        match &mut c.handle {
            Handle::Message(s, _) => {
                s.send(rmsg(id, total)).await.map_err(|_| gone())?;
                Ok(total)
            }
            Handle::Registry(s, _) => {
                let b = blob(total, up);
                let n = b.encode_length_delimited_to_vec().len();
                s.send(b).await.map_err(|_| gone())?;
                Ok(n)
            }
            Handle::Client(client, calls) => {
                let u = client.send_unary(rmsg(id, total)).await.map_err(|_| gone())?;
                calls.push(u);
                Ok(total)
            }
            Handle::Rpc => {
                let Driver::Rpc(_, sh, _) = &self.d else { unreachable!() };
                sh.lock().unwrap().plan(serial, Plan::UnaryNow, total - HEADER - 8);
                let f = frame(id, NORMAL, &body(serial, 0, 0));
                if c.peer.write(&f) != Some(f.len()) {
                    return Err(Fail::Violation("a healthy connection does not accept a small request".into()));
                }
                Ok(total)
            }
        }
    }

    async fn out_ok(&mut self, i: usize, total: usize) -> R {
        self.conns[i].peer.pump();
        let before = self.conns[i].peer.raw.len();
        let n = self.outbound(i, total, false).await?;
        let c = &mut self.conns[i];
        let max = c.max;
        wait_for(|| format!("a message of {n} bytes was not sent on a connection with maximum {max}"), || {
            c.peer.pump();
            check!(c.peer.end == ReadEnd::Open, "the connection (maximum {max}) was closed instead of sending a message of {n} bytes");
            Ok((c.peer.raw.len() >= before + n).then_some(()))
        })
        .await?;
        Ok(())
    }

    async fn out_too_long(&mut self, i: usize, total: usize) -> R {
        self.conns[i].peer.pump();
        let before = self.conns[i].peer.raw.len();
        let n = self.outbound(i, total, true).await?;
        let c = &mut self.conns[i];
        let max = c.max;
        wait_for(|| format!("a message of {n} bytes was accepted for sending and the connection (maximum {max}) is still open"), || {
            c.peer.pump();
            Ok((c.peer.end != ReadEnd::Open).then_some(()))
        })
        .await?;
        check!(c.peer.raw.len() == before, "{} bytes were sent of a message of {n} bytes although the maximum is {max}", c.peer.raw.len() - before);
        c.dead = true;
        Ok(())
    }

    /// How many messages are accepted for a peer that does not read: at least the queue length, and not more than
    /// four times that beyond what the operating system takes.
    async fn queue(&mut self, i: usize) -> R<()> {
        let len = self.conns[i].max;
        let q = self.conns[i].queue;
        // let what is under way arrive first
        rounds(10).await;
        self.conns[i].peer.pump();
        let id0 = self.next_id;
        self.next_id += 20_000;
        self.serial += 1;
        let serial = self.serial;
        // what a socket pair with small windows takes, generously
        let os = 3_000_000 / len + 8;
        let limit = 4 * q + os;
        let offer = limit + 2 * 256 + 40;
        let c = &mut self.conns[i];
        let mut accepted = 0usize;
        let mut calls = vec![];
        match &mut c.handle {
            Handle::Message(s, _) => {
                check!(s.max_capacity() == q, "a queue of {q} was configured, the connection was given one of {}", s.max_capacity());
                fill(&mut accepted, offer, || s.try_send(rmsg(id0, len)).is_ok()).await;
            }
            Handle::Registry(s, _) => {
                check!(s.max_capacity() == q, "a queue of {q} was configured, the connection was given one of {}", s.max_capacity());
                fill(&mut accepted, offer, || s.try_send(blob(len, false)).is_ok()).await;
            }
            Handle::Client(client, _) => {
                let mut k = 0;
                let mut burst = None;
                let waker = futures::task::noop_waker();
                fill(&mut accepted, offer, || {
                    k += 1;
                    let mut f = Box::pin(tokio::task::unconstrained(client.send_unary(rmsg(id0 + k, len))));
                    let mut cx = std::task::Context::from_waker(&waker);
                    match f.as_mut().poll(&mut cx) {
                        Poll::Ready(Ok(u)) => {
                            calls.push(u);
                            true
                        }
                        _ => {
                            burst.get_or_insert(k - 1);
                            false
                        }
                    }
                })
                .await;
                // the connection does not get to run during the first burst
                let burst = burst.unwrap_or(k) as usize;
                check!(burst == q, "a queue of {q} was configured, but {burst} calls were accepted at once");
            }
            Handle::Rpc => {
                let Driver::Rpc(_, sh, _) = &self.d else { unreachable!() };
                sh.lock().unwrap().plan(serial, Plan::StreamLater, len - HEADER - 8);
                let f = frame(id0, NORMAL, &body(serial, 0, 0));
                if c.peer.write(&f) != Some(f.len()) {
                    return violation("a healthy connection does not accept a small request");
                }
                let sh2 = sh.clone();
                wait_for(|| "a request was not served".into(), || Ok(sh2.lock().unwrap().has(serial).then_some(()))).await?;
                sh.lock().unwrap().produce_raw(serial, id0, offer, len - HEADER - 8);
                let mut last = usize::MAX;
                let mut same = 0;
                while same < 12 {
                    rounds(4).await;
                    let left = sh.lock().unwrap().left(serial);
                    same = if left == last { same + 1 } else { 0 };
                    last = left;
                }
                accepted = offer - last;
            }
        }
        c.dead = true;
        drop(calls);
        check!(accepted >= q, "only {accepted} messages of {len} bytes were accepted where a queue of {q} is configured");
        check!(accepted <= limit, "{accepted} messages of {len} bytes were accepted for a peer that does not read, where a queue of {q} is configured");
        Ok(())
    }
}

/// Offer messages until nothing is accepted over many rounds.
async fn fill(accepted: &mut usize, offer: usize, mut one: impl FnMut() -> bool) {
    let mut idle = 0;
    while *accepted < offer && idle < 40 {
        if one() {
            *accepted += 1;
            idle = 0;
        } else {
            idle += 1;
            rounds(3).await;
        }
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> R {
    block_on(go(c, ctx))
}

async fn go(c: &Case, ctx: &mut Ctx) -> R {
    let (mut max, mut queue) = (c.first_max, c.first_queue);
    let h = |e: String| Fail::Harness(e);
    let mut d = match c.entry {
        Entry::MessageServer => {
            let addr = free_addr()?;
            let conn = Connector::default();
            let s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), conn.clone()).await.map_err(|e| h(format!("listen: {e}")))?;
            Driver::Message(spawn_shared(s), conn, addr)
        }
        Entry::RpcServer => {
            let addr = free_addr()?;
            let sh = server::new_shared();
            let s = SocketRpcServer::new(addr, server::Script(sh.clone())).await.map_err(|e| h(format!("listen: {e}")))?;
            Driver::Rpc(spawn_shared(s), sh, addr)
        }
        Entry::Registry => Driver::Registry(ClientRegistry::new(tokio::runtime::Handle::current())),
        Entry::RpcClient => Driver::Client(Configuration::default()),
    };
    let set_max = |d: &mut Driver, n: usize| match d {
        Driver::Message(s, ..) => s.lock().unwrap().set_max_buffer_length(n),
        Driver::Rpc(s, ..) => s.lock().unwrap().set_max_buffer_length(n),
        Driver::Registry(r) => r.set_max_read_buffer_length(n),
        Driver::Client(c) => c.max_buffer_length(n),
    };
    let set_queue = |d: &mut Driver, n: usize| match d {
        Driver::Message(s, ..) => s.lock().unwrap().set_max_queued_outbound_messages(n),
        Driver::Rpc(s, ..) => s.lock().unwrap().set_max_queued_outbound_messages(n),
        Driver::Registry(r) => r.set_max_queued_outbound_messages(n),
        Driver::Client(c) => c.max_queued_outbound_messages(n),
    };
    set_max(&mut d, max);
    set_queue(&mut d, queue);
    let mut w = World { d, conns: vec![], next_id: 0, serial: 0, large: c.large };
    ctx.label(match c.entry {
        Entry::MessageServer => "message server",
        Entry::RpcServer => "rpc server",
        Entry::Registry => "client registry",
        Entry::RpcClient => "rpc client",
    });
    for s in &c.steps {
        let pick = |w: &World, n: u8| -> Option<usize> {
            let v: Vec<usize> = (0..w.conns.len()).filter(|i| !w.conns[*i].dead).collect();
            (!v.is_empty()).then(|| v[n as usize % v.len()])
        };
        let mut probed = None;
        match s {
            Step::SetMax(n) => {
                max = *n;
                set_max(&mut w.d, max);
            }
            Step::SetQueue(n) => {
                queue = *n;
                set_queue(&mut w.d, queue);
            }
            Step::Connect => w.connect(max, queue).await?,
            Step::InOk(n, below) => {
                if let Some(i) = pick(&w, *n) {
                    let total = w.conns[i].max - *below as usize;
                    w.inbound(i, total, false, false).await?;
                    probed = Some(i);
                }
            }
            Step::OutOk(n, below) => {
                if let Some(i) = pick(&w, *n) {
                    let total = w.conns[i].max - *below as usize;
                    w.out_ok(i, total).await?;
                    probed = Some(i);
                }
            }
            Step::InTooLong(n, above) => {
                if let Some(i) = pick(&w, *n) {
                    let total = w.conns[i].max + *above as usize;
                    w.inbound(i, total, true, true).await?;
                    probed = Some(i);
                }
            }
            Step::OutTooLong(n, above) => {
                if let Some(i) = pick(&w, *n) {
                    let total = w.conns[i].max + *above as usize;
                    w.out_too_long(i, total).await?;
                    probed = Some(i);
                }
            }
            Step::Queue(n) => {
                if let Some(i) = pick(&w, *n) {
                    w.queue(i).await?;
                    ctx.label("queue probed");
                    probed = Some(i);
                }
            }
        }
        if let Some(i) = probed {
            let old = w.conns[i].max != max || w.conns[i].queue != queue;
            ctx.label_if(old, "probed after the limits changed");
            ctx.nontrivial |= c.large || old || w.conns.iter().any(|o| o.max != w.conns[i].max);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------- C03 on the endpoints

#[derive(Debug, Clone, Serialize, Deserialize)]
enum FlushOp {
    Connect,
    Send { conn: u8, len: u32 },
    Read { conn: u8, max: u32 },
    Rounds(u8),
    /// drop the last sender
    Drop(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FlushCase {
    entry: Entry,
    queue: usize,
    ops: Vec<FlushOp>,
}

pub fn flush_strategy(_: Tier) -> BoxedStrategy<FlushCase> {
    let len = || prop_oneof![3 => 0u32..200, 2 => 200u32..20_000, 2 => 20_000u32..300_000];
    let op = prop_oneof![
        2 => Just(FlushOp::Connect),
        9 => (any::<u8>(), len()).prop_map(|(conn, len)| FlushOp::Send { conn, len }),
        2 => (any::<u8>(), prop_oneof![1u32..100, 1u32..100_000]).prop_map(|(conn, max)| FlushOp::Read { conn, max }),
        3 => (1u8..12).prop_map(FlushOp::Rounds),
        2 => any::<u8>().prop_map(FlushOp::Drop),
    ];
    (prop::sample::select(vec![Entry::MessageServer, Entry::Registry, Entry::RpcClient]), prop_oneof![3 => 1usize..6, 1 => 6usize..40], vec(op, 1..30))
        .prop_map(|(entry, queue, mut ops)| {
            ops.insert(0, FlushOp::Connect);
            FlushCase { entry, queue, ops }
        })
        .boxed()
}

pub fn flush_run(c: &FlushCase, ctx: &mut Ctx) -> R {
    block_on(flush_go(c, ctx))
}

enum Sender {
    Message(mpsc::Sender<RMsg>),
    Registry(mpsc::Sender<Blob>),
    Client(crate::client::Client, Vec<UnaryCompletion<RMsg, RMsg>>),
}

struct Flushed {
    peer: Peer,
    sender: Option<Sender>,
    expect: Vec<u8>,
    /// whether its reactor was dropped, where that can be seen
    gone: Option<Box<dyn Fn() -> bool>>,
}

async fn flush_go(c: &FlushCase, ctx: &mut Ctx) -> R {
    let h = |e: String| Fail::Harness(e);
    let d = match c.entry {
        Entry::MessageServer => {
            let addr = free_addr()?;
            let conn = Connector::default();
            let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), conn.clone()).await.map_err(|e| h(format!("listen: {e}")))?;
            s.set_max_queued_outbound_messages(c.queue);
            Driver::Message(spawn_shared(s), conn, addr)
        }
        Entry::Registry => {
            let mut r = ClientRegistry::new(tokio::runtime::Handle::current());
            r.set_max_queued_outbound_messages(c.queue);
            Driver::Registry(r)
        }
        Entry::RpcClient => {
            let mut cfg = Configuration::default();
            cfg.max_queued_outbound_messages(c.queue);
            Driver::Client(cfg)
        }
        Entry::RpcServer => return Err(h("an RPC server has no senders to drop".into())),
    };
    let mut w = World { d, conns: vec![], next_id: 0, serial: 0, large: false };
    ctx.label(match c.entry {
        Entry::MessageServer => "message server",
        Entry::Registry => "client registry",
        _ => "rpc client",
    });
    let mut conns: Vec<Flushed> = vec![];
    let mut serial = 0u64;
    for op in &c.ops {
        match op {
            FlushOp::Connect => {
                if conns.len() >= 4 {
                    continue;
                }
                w.connect(0, 0).await?;
                // `connect` counts the connections it made
                let Conn { peer, handle, .. } = w.conns.last_mut().expect("just connected");
                let peer = std::mem::replace(peer, Peer::nobody());
                let (sender, gone): (_, Option<Box<dyn Fn() -> bool>>) = match std::mem::replace(handle, Handle::Rpc) {
                    Handle::Message(s, l) => (Sender::Message(s), Some(Box::new(move || Arc::strong_count(&l) == 1))),
                    Handle::Registry(s, l) => (Sender::Registry(s), Some(Box::new(move || Arc::strong_count(&l) == 1))),
                    Handle::Client(c, calls) => (Sender::Client(c, calls), None),
                    _ => unreachable!(),
                };
                conns.push(Flushed { peer, sender: Some(sender), expect: vec![], gone });
            }
            FlushOp::Send { conn, len } => {
                let n = conns.len();
                let k = &mut conns[*conn as usize % n];
                serial += 1;
                let body = vec![serial as u8; *len as usize];
                match &mut k.sender {
                    Some(Sender::Client(c, calls)) => {
                        use futures::FutureExt;
                        // (a request that is not accepted is withdrawn)
                        match c.send_unary(RMsg { id: serial, code: NORMAL, body: body.clone() }).now_or_never() {
                            Some(Ok(call)) => {
                                calls.push(call);
                                k.expect.extend(frame(serial, NORMAL, &body));
                            }
                            Some(Err(e)) => return violation(format!("a call could not be sent: {e}")),
                            None => {}
                        }
                    }
                    Some(Sender::Message(s)) => {
                        if s.try_send(RMsg { id: serial, code: NORMAL, body: body.clone() }).is_ok() {
                            k.expect.extend(frame(serial, NORMAL, &body));
                        }
                    }
                    Some(Sender::Registry(s)) => {
                        let m = Blob { data: body };
                        let bytes = m.encode_length_delimited_to_vec();
                        if s.try_send(m).is_ok() {
                            k.expect.extend(bytes);
                        }
                    }
                    None => {}
                }
            }
            FlushOp::Read { conn, max } => {
                let n = conns.len();
                conns[*conn as usize % n].peer.pump_some(*max as usize);
            }
            FlushOp::Rounds(n) => rounds(*n as usize).await,
            FlushOp::Drop(conn) => {
                let n = conns.len();
                let k = &mut conns[*conn as usize % n];
                if k.sender.take().is_some() {
                    k.peer.pump_some(0);
                    ctx.nontrivial |= k.peer.raw.len() < k.expect.len();
                }
            }
        }
        for (i, k) in conns.iter().enumerate() {
            check!(k.sender.is_none() || (k.peer.end == ReadEnd::Open && !k.gone.as_ref().is_some_and(|g| g())), "connection {i} ended although its sender is alive");
        }
    }
    // those that were dropped end, in full; the others stay
    for turn in 0..2 {
        for (i, k) in conns.iter_mut().enumerate() {
            if turn == 1 {
                k.sender = None;
            }
            if k.sender.is_some() {
                continue;
            }
            let (peer, gone, expect) = (&mut k.peer, &k.gone, &k.expect);
            let got = std::cell::Cell::new(0);
            wait_for(
                || format!("connection {i} did not end after its last sender was dropped: {} of {} bytes arrived", got.get(), expect.len()),
                || {
                    peer.pump();
                    got.set(peer.raw.len());
                    Ok((peer.end != ReadEnd::Open).then_some(()))
                },
            )
            .await?;
            check!(peer.end == ReadEnd::Eof, "connection {i} was reset instead of closed");
            // the calls of a dropped RPC client are cancelled, as far as there is room for that
            let mut cancelled = std::collections::HashSet::new();
            let mut rest = &peer.raw[peer.raw.len().min(expect.len())..];
            while c.entry == Entry::RpcClient && rest.len() >= HEADER {
                let id = u64::from_be_bytes(rest[4..12].try_into().expect("8 bytes"));
                check!(rest[..HEADER] == frame(id, CANCEL, &[]) && (1..=serial).contains(&id) && cancelled.insert(id), "connection {i}: other bytes than cancels follow what was accepted: {:02x?}", &rest[..HEADER]);
                rest = &rest[HEADER..];
            }
            check!(rest.is_empty() && peer.raw.starts_with(expect), "connection {i}: {} bytes were accepted before the last sender was dropped, the peer received {} bytes, which are not the same", expect.len(), peer.raw.len());
            wait_for(|| format!("connection {i} ended, but its reactor was not dropped"), || Ok(gone.as_ref().is_none_or(|g| g()).then_some(()))).await?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C32

#[derive(Debug, Clone, Serialize, Deserialize)]
enum DelayStep {
    /// a message from the library, awaited by the peer
    Out(u32),
    /// a message from the peer, awaited by the library where it can be seen
    In(u16),
    Rounds(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DelayCase {
    entry: Entry,
    queue: usize,
    steps: Vec<DelayStep>,
}

fn delay_strategy(_: Tier) -> BoxedStrategy<DelayCase> {
    let step = prop_oneof![
        8 => prop_oneof![6 => 25u32..400, 1 => 400u32..3_000, 1 => 3_000u32..80_000].prop_map(DelayStep::Out),
        2 => (25u16..400).prop_map(DelayStep::In),
        2 => (1u8..20).prop_map(DelayStep::Rounds),
    ];
    (prop::sample::select(vec![Entry::MessageServer, Entry::RpcServer, Entry::Registry, Entry::RpcClient]), 1usize..20, vec(step, 2..10))
        .prop_map(|(entry, queue, steps)| DelayCase { entry, queue, steps })
        .boxed()
}

fn delay_run(c: &DelayCase, ctx: &mut Ctx) -> R {
    block_on(delay_go(c, ctx))
}

const REPEATS: usize = 7;
/// Repetitions that do not count: a new TCP connection acknowledges everything at once for a while.
const WARM_UP: usize = 2;

async fn delay_go(c: &DelayCase, ctx: &mut Ctx) -> R {
    use std::time::{Duration, Instant};
    const HELD_BACK: Duration = Duration::from_millis(20);
    const FAST: Duration = Duration::from_millis(4);
    let h = |e: String| Fail::Harness(e);
    let max = 1 << 20;
    let d = match c.entry {
        Entry::MessageServer => {
            let addr = free_addr()?;
            let conn = Connector::default();
            let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), conn.clone()).await.map_err(|e| h(format!("listen: {e}")))?;
            s.set_max_queued_outbound_messages(c.queue);
            Driver::Message(spawn_shared(s), conn, addr)
        }
        Entry::RpcServer => {
            let addr = free_addr()?;
            let sh = server::new_shared();
            let mut s = SocketRpcServer::new(addr, server::Script(sh.clone())).await.map_err(|e| h(format!("listen: {e}")))?;
            s.set_max_queued_outbound_messages(c.queue);
            Driver::Rpc(spawn_shared(s), sh, addr)
        }
        Entry::Registry => {
            let mut r = ClientRegistry::new(tokio::runtime::Handle::current());
            r.set_max_queued_outbound_messages(c.queue);
            Driver::Registry(r)
        }
        Entry::RpcClient => {
            let mut cfg = Configuration::default();
            cfg.max_queued_outbound_messages(c.queue);
            Driver::Client(cfg)
        }
    };
    let mut w = World { d, conns: vec![], next_id: 0, serial: 0, large: true };
    w.connect(max, c.queue).await?;
    ctx.label(match c.entry {
        Entry::MessageServer => "message server",
        Entry::RpcServer => "rpc server",
        Entry::Registry => "client registry",
        Entry::RpcClient => "rpc client",
    });
    let mut outs = 0;
    for s in &c.steps {
        match s {
            DelayStep::Out(_) => outs += 1,
            DelayStep::In(_) => outs = 0,
            DelayStep::Rounds(_) => {}
        }
        ctx.nontrivial |= outs >= 2;
    }
    // the stream whose items the RPC server sends
    let (stream_id, stream_serial) = (1u64 << 40, 1u32);
    if let (Driver::Rpc(_, sh, _), Some(conn)) = (&w.d, w.conns.first_mut()) {
        sh.lock().unwrap().plan(stream_serial, Plan::StreamLater, 0);
        let f = frame(stream_id, NORMAL, &body(stream_serial, 0, 0));
        if conn.peer.write(&f) != Some(f.len()) {
            return violation("a new connection does not accept a small request");
        }
        let sh = sh.clone();
        wait_for(|| "a request was not served".into(), || Ok(sh.lock().unwrap().has(stream_serial).then_some(()))).await?;
    }
    // the plain sockets
    let (l, addr) = listen()?;
    let mut plain = dial(addr)?;
    let mut other = wait_for(|| "the harness' own accept".into(), || match l.accept() {
        Ok((s, _)) => Ok(Some(s)),
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
        Err(e) => Err(Fail::Harness(format!("accept: {e}"))),
    })
    .await
    .and_then(Peer::new)?;

    let mut best = vec![(Duration::MAX, Duration::MAX); c.steps.len()];
    for turn in 0..REPEATS {
        for (k, s) in c.steps.iter().enumerate() {
            let took = match s {
                DelayStep::Rounds(n) => {
                    rounds(*n as usize).await;
                    continue;
                }
                DelayStep::Out(len) => {
                    let len = *len as usize;
                    let start = Instant::now();
                    let id = w.id();
                    let conn = &mut w.conns[0];
                    let mut size = len;
                    match &mut conn.handle {
                        Handle::Message(s, _) => check!(s.try_send(rmsg(id, len)).is_ok(), "a connection whose peer has received everything does not accept a message"),
                        Handle::Registry(s, _) => {
                            let m = blob(len, false);
                            size = m.encode_length_delimited_to_vec().len();
                            check!(s.try_send(m).is_ok(), "a connection whose peer has received everything does not accept a message")
                        }
                        Handle::Client(client, calls) => {
                            let u = client.send_unary(rmsg(id, len)).await.map_err(|e| Fail::Violation(format!("a call could not be sent: {e}")))?;
                            calls.push(u);
                        }
                        Handle::Rpc => {
                            let Driver::Rpc(_, sh, _) = &w.d else { unreachable!() };
                            sh.lock().unwrap().produce_raw(stream_serial, stream_id, 1, len - HEADER - 8);
                        }
                    }
                    let peer = &mut conn.peer;
                    let want = peer.raw.len() + size;
                    wait_for(|| format!("a message of {len} bytes did not arrive"), || {
                        peer.pump();
                        check!(peer.end == ReadEnd::Open, "the connection was closed");
                        Ok((peer.raw.len() >= want).then_some(()))
                    })
                    .await?;
                    let took = start.elapsed();
                    let start = Instant::now();
                    let bytes = vec![1; len];
                    let mut at = 0;
                    let want = other.raw.len() + len;
                    wait_for(|| "the harness' own bytes".into(), || {
                        if at < len {
                            at += plain.write(&bytes[at..]).ok_or_else(|| h("plain socket".into()))?;
                        }
                        other.pump();
                        Ok((other.raw.len() >= want).then_some(()))
                    })
                    .await
                    .map_err(|e| h(format!("{e:?}")))?;
                    (took, start.elapsed())
                }
                DelayStep::In(len) => {
                    let len = *len as usize;
                    let start = Instant::now();
                    let id = w.id();
                    let conn = &mut w.conns[0];
                    let (bytes, seen): (Vec<u8>, Option<Box<dyn Fn() -> usize>>) = match &conn.handle {
                        Handle::Message(_, l) => {
                            let l = l.clone();
                            (frame(id, NORMAL, &vec![0; len]), Some(Box::new(move || l.lock().unwrap().len())))
                        }
                        Handle::Registry(_, l) => {
                            let l = l.clone();
                            (blob(len, false).encode_length_delimited_to_vec(), Some(Box::new(move || l.lock().unwrap().len())))
                        }
                        // a response nobody waits for
                        Handle::Client(..) => (frame(1 << 50, NORMAL, &vec![0; len]), None),
                        // a cancel for an RPC that does not exist
                        Handle::Rpc => (frame(1 << 50, 1, &vec![0; len]), None),
                    };
                    let before = seen.as_ref().map_or(0, |f| f());
                    if conn.peer.write(&bytes) != Some(bytes.len()) {
                        return violation("a connection that has read everything does not take a small message");
                    }
                    if let Some(seen) = &seen {
                        wait_for(|| "a message did not arrive".into(), || Ok((seen() > before).then_some(()))).await?;
                    } else {
                        rounds(10).await;
                    }
                    let took = start.elapsed();
                    let start = Instant::now();
                    let want = plain.raw.len() + bytes.len();
                    other.write(&bytes);
                    wait_for(|| "the harness' own bytes".into(), || {
                        plain.pump();
                        Ok((plain.raw.len() >= want).then_some(()))
                    })
                    .await
                    .map_err(|e| h(format!("{e:?}")))?;
                    (took, start.elapsed())
                }
            };
            if turn >= WARM_UP {
                best[k] = (best[k].0.min(took.0), best[k].1.min(took.1));
            }
        }
    }
    for (k, (ours, plain)) in best.into_iter().enumerate() {
        if ours != Duration::MAX && ours > HELD_BACK && plain < FAST {
            return Err(Fail::Stall(format!("step {k} {:?} took at least {ours:?} in each repetition (plain sockets: {plain:?})", c.steps[k])));
        }
    }
    Ok(())
}
