//! C26-C28: what only shows over time: memory that piles up, tasks that never sleep, calls that are starved.

use std::cell::Cell;
use std::collections::HashMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use futures::task::noop_waker;
use futures::{Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket::{Connection, ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_rpc::client::{connect, Configuration, RpcClient, StreamingCompletion, UnaryCompletion};
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;

use crate::check;
use crate::meter::{growth, live, sleeps};
use crate::rpc::*;
use crate::rt::{block_on, read_some, round, rounds, unix_pair, wait_for, write_some, ReadEnd};
use crate::runner::{violation, Ctx, Fail, Property, Suite, Tier, R};

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C26",
            rule: "a case is a pattern of traffic (messages both ways; RPC calls that are answered, ended, cancelled, dropped or abandoned; connections that come and go) repeated 64 times with fresh ids while the heap held by the process is measured after each repetition; growth is confirmed over 256 repetitions; non-trivial: the pattern contains at least three calls, messages or connections",
            suites: vec![
                Box::new(Suite { name: "connection", strategy: c26_conn_strategy, run: c26_conn_run, quick: 1_600, thorough: 30_000, workers: W }),
                Box::new(Suite { name: "client", strategy: c26_client_strategy, run: c26_client_run, quick: 1_600, thorough: 30_000, workers: W }),
                Box::new(Suite { name: "dead", strategy: c26_dead_strategy, run: c26_dead_run, quick: 2_000, thorough: 8_000, workers: W }),
                Box::new(Suite { name: "server", strategy: c26_server_strategy, run: c26_server_run, quick: 1_600, thorough: 30_000, workers: W }),
                Box::new(Suite { name: "visitors", strategy: c26_visitors_strategy, run: c26_visitors_run, quick: 800, thorough: 10_000, workers: W }),
            ],
        },
        Property {
            id: "C27",
            rule: "a case is a history of an RPC client, of an RPC server or of a server with clients that come, send whole, partial or broken messages and go; at its end (and at generated points before) nothing is left to do and the executor must go to sleep; non-trivial: something was still in progress then: an RPC, a connection, or a message that is incomplete",
            suites: vec![
                Box::new(Suite { name: "client", strategy: |_| crate::client_props::idle_strategy(), run: crate::client_props::idle_run, quick: 8_000, thorough: 300_000, workers: W }),
                Box::new(Suite { name: "server", strategy: |_| crate::server_props::idle_strategy(), run: crate::server_props::idle_run, quick: 8_000, thorough: 300_000, workers: W }),
                Box::new(Suite { name: "visitors", strategy: c27_visitors_strategy, run: c27_visitors_run, quick: 8_000, thorough: 150_000, workers: W }),
            ],
        },
        Property {
            id: "C28",
            rule: "a case is a set of endless streams (ready at once or self-waking, of any item size) and calls started while they run, on the same and on another connection, by a raw client or by the library's client; non-trivial: an endless stream was producing while another call was in progress",
            suites: vec![
                Box::new(Suite { name: "server", strategy: c28_strategy, run: c28_server_run, quick: 4_000, thorough: 60_000, workers: W }),
                Box::new(Suite { name: "client", strategy: c28_strategy, run: c28_client_run, quick: 2_000, thorough: 30_000, workers: W }),
            ],
        },
        Property {
            id: "C33",
            rule: "a case is a set of unary calls and streams with far more to answer than sockets and queues can hold, and the amounts the client reads from time to time; client: the same with requests to a server that does not read; non-trivial: production stopped before everything was produced, that is, the backpressure was met",
            suites: vec![
                Box::new(Suite { name: "server", strategy: c33_strategy, run: c33_server_run, quick: 400, thorough: 12_000, workers: W }),
                Box::new(Suite { name: "client", strategy: c33_strategy, run: c33_client_run, quick: 400, thorough: 12_000, workers: W }),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------------ a frugal peer

/// Reads frames without keeping them: its own memory is constant.
struct Lean<S> {
    sock: S,
    buf: Vec<u8>,
    end: ReadEnd,
    garbled: bool,
}

impl<S: std::io::Read + std::io::Write> Lean<S> {
    fn new(sock: S) -> Self {
        Lean { sock, buf: Vec::with_capacity(1 << 20), end: ReadEnd::Open, garbled: false }
    }

    fn pump(&mut self, mut f: impl FnMut(u64, u8, &[u8])) {
        loop {
            let room = (1 << 20) - self.buf.len();
            let before = self.buf.len();
            if self.end == ReadEnd::Open {
                self.end = read_some(&mut self.sock, room, &mut self.buf);
            }
            let got = self.buf.len() - before;
            let mut at = 0;
            while self.buf.len() - at >= 4 {
                let b = &self.buf[at..];
                let total = 4 + u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
                if total < HEADER || total > 1 << 20 {
                    self.garbled = true;
                    return;
                }
                if b.len() < total {
                    break;
                }
                f(u64::from_be_bytes(b[4..12].try_into().expect("8 bytes")), b[12], &b[13..total]);
                at += total;
            }
            self.buf.drain(..at);
            if got < room {
                return;
            }
        }
    }

    async fn write_all(&mut self, data: &[u8], who: &str, mut f: impl FnMut(u64, u8, &[u8])) -> R {
        let mut at = 0;
        wait_for(|| format!("the {who} stopped reading"), || {
            self.pump(&mut f);
            if at < data.len() {
                match write_some(&mut self.sock, &data[at..]) {
                    Some(n) => at += n,
                    None => return violation(format!("the {who} closed the connection although nothing was wrong")),
                }
            }
            Ok((at == data.len()).then_some(()))
        })
        .await
    }
}

/// Runs `rep` again and again and looks at what is held in between.
async fn steady(calls: usize, what: &str, mut rep: impl AsyncFnMut(usize) -> R) -> R {
    let mut k = 0;
    let mut first: Option<i64> = None;
    for reps in [64usize, 256] {
        let mut held = Vec::with_capacity(reps);
        for _ in 0..reps {
            rep(k).await?;
            k += 1;
            rounds(3).await;
            held.push(live());
        }
        match (growth(&held, calls), first) {
            (None, _) => return Ok(()),
            (Some(g), None) => first = Some(g),
            (Some(g), Some(f)) if g * 2 >= f * 3 => {
                return violation(format!(
                    "{what}: memory piles up: {} bytes were held after {} repetitions of the same finished traffic, {} bytes after {} more ({calls} calls or messages each)",
                    held[reps / 4],
                    reps / 4,
                    held[reps - 1],
                    reps - reps / 4
                ))
            }
            _ => return Ok(()),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C26 connection

struct Bin;
impl ConnectionBindings for Bin {
    type Deserializer = RCodec;
    type Serializer = RCodec;
    type Reactor = Sink;
}
struct Sink(Arc<AtomicUsize>);
impl MessageReactor for Sink {
    type Inbound = RMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = RMsg>) -> ReactorStatus {
        self.0.fetch_add(messages.into_iter().count(), Ordering::Relaxed);
        ReactorStatus::Continue
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ConnPattern {
    max_buffer: usize,
    max_queued: usize,
    inbound: Vec<u16>,
    /// sizes of the pieces the inbound bytes arrive in (the last one repeats)
    pieces: Vec<u16>,
    outbound: Vec<u16>,
    /// do not read until everything that fits has been accepted
    unread: bool,
}

fn c26_conn_strategy(_: Tier) -> BoxedStrategy<ConnPattern> {
    let size = || prop_oneof![4 => 0u16..40, 2 => 40u16..2000, 1 => 2000u16..20_000];
    (prop_oneof![Just(24_000usize), 24_000usize..300_000], prop_oneof![3 => 1usize..4, 2 => 4usize..40, 1 => Just(256usize)], vec(size(), 0..12), vec(prop_oneof![1u16..20, 20u16..5000], 1..4), vec(size(), 0..12), any::<bool>())
        .prop_map(|(max_buffer, max_queued, inbound, pieces, outbound, unread)| ConnPattern { max_buffer, max_queued, inbound, pieces, outbound, unread })
        .boxed()
}

fn c26_conn_run(c: &ConnPattern, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.inbound.len() + c.outbound.len() >= 3;
    ctx.label_if(c.unread, "peer does not read for a while");
    block_on(async {
        let (stream, ours) = unix_pair(Some(16 << 10))?;
        let (tx, rx) = mpsc::channel(c.max_queued);
        let count = Arc::new(AtomicUsize::new(0));
        let addr: SocketAddr = ([127, 0, 0, 1], 1).into();
        let conn = Connection::<Bin>::new(stream, addr, RCodec, RCodec, c.max_buffer, c.max_queued, rx, Sink(count.clone()));
        let task = tokio::spawn(conn);
        let mut peer = Lean::new(ours);
        let mut bytes = vec![];
        for (k, n) in c.inbound.iter().enumerate() {
            bytes.extend(frame(k as u64, NORMAL, &vec![7u8; *n as usize]));
        }
        let seen = Cell::new(0usize);
        steady(c.inbound.len() + c.outbound.len(), "a connection", async |rep| {
            // inbound, in pieces
            let mut at = 0;
            let mut p = 0;
            let pieces = &c.pieces;
            // at most 60 pieces per repetition
            let least = bytes.len() / 60 + 1;
            while at < bytes.len() {
                let n = (pieces[p.min(pieces.len() - 1)] as usize).max(least).min(bytes.len() - at);
                p += 1;
                peer.write_all(&bytes[at..at + n], "connection", |_, _, _| seen.set(seen.get() + 1)).await?;
                at += n;
                round().await;
            }
            let want = (rep + 1) * c.inbound.len();
            wait_for(|| format!("{} of {want} messages were delivered", count.load(Ordering::Relaxed)), || Ok((count.load(Ordering::Relaxed) >= want).then_some(()))).await?;
            // outbound
            let mut next = 0;
            let mut idle = 0;
            let base = rep * c.outbound.len();
            wait_for(|| format!("{} of {} messages reached the peer", seen.get() - base, c.outbound.len()), || {
                while next < c.outbound.len() {
                    let m = RMsg { id: next as u64, code: NORMAL, body: vec![3; c.outbound[next] as usize] };
                    match tx.try_send(m) {
                        Ok(()) => next += 1,
                        Err(mpsc::error::TrySendError::Full(_)) => break,
                        Err(_) => return violation("the connection ended although nothing was wrong"),
                    }
                }
                idle += 1;
                if !c.unread || next == c.outbound.len() || idle > 20 {
                    peer.pump(|_, _, _| seen.set(seen.get() + 1));
                }
                Ok((next == c.outbound.len() && seen.get() >= base + next).then_some(()))
            })
            .await
        })
        .await?;
        check!(!task.is_finished(), "the connection ended although nothing was wrong");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C07 memory

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MemoryFlood {
    max_buffer: usize,
    max_queued: usize,
    lens: Vec<u16>,
    sndbuf: usize,
}

pub fn c07_memory_strategy(_: Tier) -> BoxedStrategy<MemoryFlood> {
    (5_000usize..300_000, 1usize..4, vec(prop_oneof![3 => 400u16..1500, 1 => 0u16..400, 1 => 1500u16..4500], 1..8), prop_oneof![Just(1usize << 20), 4_000usize..200_000])
        .prop_map(|(max_buffer, max_queued, lens, sndbuf)| MemoryFlood { max_buffer, max_queued, lens, sndbuf })
        .boxed()
}

/// A peer that sends faster than messages are handed out, for much longer than any buffer lasts.
pub fn c07_memory_run(c: &MemoryFlood, ctx: &mut Ctx) -> R {
    block_on(async {
        let (stream, ours) = unix_pair(Some(c.sndbuf))?;
        let (_tx, rx) = mpsc::channel(c.max_queued);
        let count = Arc::new(AtomicUsize::new(0));
        let addr: SocketAddr = ([127, 0, 0, 1], 1).into();
        let mut sock = ours;
        let mut block = vec![];
        let mut per_block = 0;
        while block.len() < 200_000 {
            for (k, n) in c.lens.iter().enumerate() {
                block.extend(frame(k as u64, NORMAL, &vec![7u8; *n as usize]));
                per_block += 1;
            }
        }
        let base = live();
        let conn = Connection::<Bin>::new(stream, addr, RCodec, RCodec, c.max_buffer, c.max_queued, rx, Sink(count.clone()));
        let task = tokio::spawn(conn);
        let bound = 4 * (c.max_buffer as i64 + (4 << 20)) + (1 << 20);
        let blocks = (50_000_000 / block.len()).min(80_000 / per_block).max(1);
        ctx.nontrivial = (blocks * block.len()) as i64 > bound;
        let mut worst = 0;
        for _ in 0..blocks {
            let mut at = 0;
            wait_for(|| "the connection stopped reading".into(), || {
                match write_some(&mut sock, &block[at..]) {
                    Some(n) => at += n,
                    None => return violation("the connection ended during valid input"),
                }
                let held = live() - base;
                worst = worst.max(held);
                check!(held <= bound, "a connection with a maximum of {} bytes holds {held} bytes of memory while its peer keeps sending", c.max_buffer);
                Ok((at == block.len()).then_some(()))
            })
            .await?;
        }
        ctx.label_if(worst > c.max_buffer as i64, "buffer in use");
        let want = blocks * per_block;
        wait_for(|| format!("{} of {want} messages were delivered", count.load(Ordering::Relaxed)), || Ok((count.load(Ordering::Relaxed) >= want).then_some(()))).await?;
        check!(count.load(Ordering::Relaxed) == want && !task.is_finished(), "the flood ended the connection or made up messages");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C26 client

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum UEnd {
    Answer,
    AnswerTwice,
    End,
    Cancel,
    DropBefore,
    DropUnpolled,
    AnswerAfterDrop,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum SEnd {
    End,
    Cancel,
    EndUnread,
    DropBefore,
    DropMiddle,
    ItemsAfterDrop,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    Unary(UEnd),
    Stream(u8, SEnd),
    Stray(u8),
    /// more sends than the queue takes, given up at once
    Abandon(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ClientPattern {
    max_queued: usize,
    len: u16,
    /// all calls of a repetition are in progress together
    overlap: bool,
    ops: Vec<COp>,
}

fn c26_client_strategy(_: Tier) -> BoxedStrategy<ClientPattern> {
    use UEnd::*;
    let u = prop::sample::select(vec![Answer, AnswerTwice, End, Cancel, DropBefore, DropUnpolled, AnswerAfterDrop]);
    let s = prop::sample::select(vec![SEnd::End, SEnd::Cancel, SEnd::EndUnread, SEnd::DropBefore, SEnd::DropMiddle, SEnd::ItemsAfterDrop]);
    let op = prop_oneof![
        6 => u.prop_map(COp::Unary),
        6 => (0u8..24, s).prop_map(|(n, s)| COp::Stream(n, s)),
        1 => any::<u8>().prop_map(COp::Stray),
        1 => (1u8..12).prop_map(COp::Abandon),
    ];
    (prop_oneof![1usize..4, 4usize..40], prop_oneof![0u16..30, 30u16..3000], any::<bool>(), vec(op, 1..9))
        .prop_map(|(max_queued, len, overlap, ops)| ClientPattern { max_queued, len, overlap, ops })
        .boxed()
}

enum Held {
    U(UnaryCompletion<RMsg, RMsg>),
    S(StreamingCompletion<RMsg, RMsg>),
}

async fn soon<T>(what: impl Fn() -> String, f: impl Future<Output = T>) -> R<T> {
    match tokio::time::timeout(crate::runner::stall_bound(), f).await {
        Ok(v) => Ok(v),
        Err(_) => Err(Fail::Stall(what())),
    }
}

struct ClientSide {
    client: RpcClient<RMsg, RMsg>,
    peer: Lean<std::net::TcpStream>,
    /// requests seen by the server in this repetition
    seen: Rc<Cell<usize>>,
    last: Rc<Cell<u64>>,
}

impl ClientSide {
    fn pump(&mut self) {
        let (seen, last) = (self.seen.clone(), self.last.clone());
        self.peer.pump(|id, code, _| {
            if code == NORMAL {
                seen.set(seen.get() + 1);
                last.set(id);
            }
        });
    }

    /// The call's request has reached the server.
    async fn arrived(&mut self, want: usize) -> R {
        wait_for(|| "a request did not reach the server".into(), || {
            self.pump();
            Ok((self.seen.get() >= want).then_some(()))
        })
        .await
    }

    async fn send(&mut self, bytes: &[u8]) -> R {
        let (seen, last) = (self.seen.clone(), self.last.clone());
        self.peer
            .write_all(bytes, "client", |id, code, _| {
                if code == NORMAL {
                    seen.set(seen.get() + 1);
                    last.set(id);
                }
            })
            .await
    }

    async fn start(&mut self, id: u64, op: &COp, len: usize) -> R<Option<Held>> {
        let m = RMsg { id, code: NORMAL, body: vec![1; len] };
        let client = self.client.clone();
        let r = match op {
            COp::Unary(_) => {
                let f = client.send_unary(m);
                self.sending(f).await?.map(Held::U)
            }
            COp::Stream(..) => {
                let f = client.send_streaming(m);
                self.sending(f).await?.map(Held::S)
            }
            _ => return Ok(None),
        };
        match r {
            Ok(h) => Ok(Some(h)),
            Err(e) => violation(format!("a call could not be sent: {e}")),
        }
    }

    /// Drive a send while the server keeps reading.
    async fn sending<T>(&mut self, f: impl Future<Output = T>) -> R<T> {
        let mut f = Box::pin(f);
        wait_for(|| "a call was never accepted for sending".into(), || {
            self.pump();
            let w = noop_waker();
            Ok(match f.as_mut().poll(&mut Context::from_waker(&w)) {
                Poll::Ready(v) => Some(v),
                Poll::Pending => None,
            })
        })
        .await
    }

    async fn finish(&mut self, id: u64, op: &COp, held: Option<Held>, len: usize) -> R {
        let body = vec![2u8; len];
        let mut out = vec![];
        match (op, held) {
            (COp::Unary(e), Some(Held::U(u))) => match e {
                UEnd::Answer | UEnd::AnswerTwice => {
                    out.extend(frame(id, NORMAL, &body));
                    if let UEnd::AnswerTwice = e {
                        out.extend(frame(id, NORMAL, &body));
                    }
                    self.send(&out).await?;
                    let r = soon(|| "a unary call was not completed by its response".into(), u).await?;
                    check!(r.is_ok(), "a unary call failed with {:?}", r.err());
                }
                UEnd::End | UEnd::Cancel => {
                    out.extend(frame(id, if let UEnd::End = e { END } else { CANCEL }, &[]));
                    self.send(&out).await?;
                    let r = soon(|| "a unary call was not completed by the server's cancel".into(), u).await?;
                    check!(r.is_err(), "a cancelled call got a response");
                }
                UEnd::DropBefore => drop(u),
                UEnd::DropUnpolled => {
                    self.send(&frame(id, NORMAL, &body)).await?;
                    rounds(6).await;
                    drop(u);
                }
                UEnd::AnswerAfterDrop => {
                    drop(u);
                    rounds(2).await;
                    self.send(&frame(id, NORMAL, &body)).await?;
                }
            },
            (COp::Stream(n, e), Some(Held::S(mut s))) => {
                for _ in 0..*n {
                    out.extend(frame(id, NORMAL, &body));
                }
                match e {
                    SEnd::End | SEnd::Cancel => {
                        out.extend(frame(id, if let SEnd::End = e { END } else { CANCEL }, &[]));
                        self.send(&out).await?;
                        let mut got = 0;
                        while let Some(r) = soon(|| "a stream did not end".into(), s.next()).await? {
                            got += r.is_ok() as usize;
                        }
                        check!(got == *n as usize, "a stream yielded {got} of {n} items");
                    }
                    SEnd::EndUnread => {
                        out.extend(frame(id, END, &[]));
                        self.send(&out).await?;
                        rounds(6).await;
                        drop(s);
                    }
                    SEnd::DropBefore => drop(s),
                    SEnd::DropMiddle => {
                        self.send(&out).await?;
                        for _ in 0..n / 2 {
                            let r = soon(|| "an item did not arrive".into(), s.next()).await?;
                            check!(matches!(r, Some(Ok(_))), "a stream ended early");
                        }
                        drop(s);
                    }
                    SEnd::ItemsAfterDrop => {
                        drop(s);
                        rounds(2).await;
                        self.send(&out).await?;
                    }
                }
            }
            (COp::Stray(code), _) => self.send(&frame(id, *code, &body)).await?,
            (COp::Abandon(n), _) => {
                // not a single round in between: nothing is taken from the queue meanwhile
                for k in 0..*n {
                    let m = RMsg { id: id + 100 + k as u64, code: NORMAL, body: body.clone() };
                    let client = self.client.clone();
                    let w = noop_waker();
                    let mut cx = Context::from_waker(&w);
                    if k % 2 == 0 {
                        let _ = Box::pin(client.send_unary(m)).as_mut().poll(&mut cx);
                    } else {
                        let _ = Box::pin(client.send_streaming(m)).as_mut().poll(&mut cx);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Everything the server sent has been processed and everything the client had to send has arrived.
    async fn settle(&mut self, id: u64) -> R {
        let f = self.client.clone();
        let f = f.send_unary(RMsg { id, code: NORMAL, body: vec![] });
        let u = match self.sending(f).await? {
            Ok(u) => u,
            Err(e) => return violation(format!("a call could not be sent: {e}")),
        };
        let last = self.last.clone();
        wait_for(|| "a request did not reach the server".into(), || {
            self.pump();
            Ok((last.get() == id).then_some(()))
        })
        .await?;
        self.send(&frame(id, NORMAL, &[])).await?;
        let r = soon(|| "a unary call was not completed by its response".into(), u).await?;
        check!(r.is_ok(), "a unary call failed with {:?}", r.err());
        Ok(())
    }
}

/// A client whose connection is over: calls fail, and leave nothing behind.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Dead {
    max_queued: usize,
    /// calls in progress when the connection ends
    outstanding: u8,
    /// the connection's future is dropped (or the server closes)
    dropped: bool,
    /// streaming?
    calls: Vec<bool>,
}

fn c26_dead_strategy(_: Tier) -> BoxedStrategy<Dead> {
    (1usize..40, 0u8..6, any::<bool>(), vec(any::<bool>(), 3..20))
        .prop_map(|(max_queued, outstanding, dropped, calls)| Dead { max_queued, outstanding, dropped, calls })
        .boxed()
}

fn c26_dead_run(c: &Dead, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    block_on(async {
        let (l, addr) = listen()?;
        let mut cfg = Configuration::default();
        cfg.max_queued_outbound_messages(c.max_queued);
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        let mut task = tokio::spawn(conn);
        let sock = wait_for(|| "the harness' own accept".into(), || Ok(l.accept().ok().map(|(s, _)| s))).await?;
        let mut open = vec![];
        for k in 0..c.outstanding {
            match client.send_unary(RMsg { id: 1 + k as u64, code: NORMAL, body: vec![] }).await {
                Ok(u) => open.push(u),
                Err(e) => return violation(format!("a call could not be sent: {e}")),
            }
        }
        if c.dropped {
            task.abort();
        }
        drop(sock);
        let ended = tokio::time::timeout(crate::runner::stall_bound(), &mut task).await;
        check!(ended.is_ok(), "the client's connection does not end");
        drop(open);
        steady(c.calls.len(), "an RPC client without a connection", async |rep| {
            for (k, streaming) in c.calls.iter().enumerate() {
                let m = RMsg { id: (rep as u64 + 1) * 1000 + k as u64, code: NORMAL, body: vec![] };
                let e = if *streaming { client.send_streaming(m).await.err() } else { client.send_unary(m).await.err() };
                check!(matches!(e, Some(protosocket_rpc::Error::ConnectionIsClosed)), "a call without a connection gave {e:?}");
            }
            Ok(())
        })
        .await
    })
}

fn c26_client_run(c: &ClientPattern, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.ops.len() >= 3;
    ctx.label_if(c.overlap, "calls overlap");
    ctx.label_if(c.ops.iter().any(|o| matches!(o, COp::Abandon(_))), "sends given up");
    block_on(async {
        let (l, addr) = listen()?;
        let mut cfg = Configuration::default();
        cfg.max_buffer_length(1 << 18);
        cfg.max_queued_outbound_messages(c.max_queued);
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        let task = tokio::spawn(conn);
        let sock = wait_for(|| "the harness' own accept".into(), || Ok(l.accept().ok().map(|(s, _)| s))).await?;
        sock.set_nonblocking(true).map_err(|e| Fail::Harness(e.to_string()))?;
        let _ = sock.set_nodelay(true);
        let mut s = ClientSide { client, peer: Lean::new(sock), seen: Rc::default(), last: Rc::default() };
        steady(c.ops.len(), "an RPC client", async |rep| {
            let base = (rep as u64 + 1) * 1000;
            s.seen.set(0);
            let mut held: Vec<Option<Held>> = vec![];
            let mut calls = 0;
            for (k, op) in c.ops.iter().enumerate() {
                let h = s.start(base + k as u64, op, c.len as usize).await?;
                calls += h.is_some() as usize;
                if c.overlap {
                    held.push(h);
                } else {
                    if h.is_some() {
                        s.arrived(calls).await?;
                    }
                    s.finish(base + k as u64, op, h, c.len as usize).await?;
                    // a call given up while sending may or may not have reached the server
                    if let COp::Abandon(_) = op {
                        s.settle(base + 900 + k as u64).await?;
                        calls = s.seen.get();
                    }
                }
            }
            if c.overlap {
                s.arrived(calls).await?;
                for (k, h) in held.into_iter().enumerate().rev() {
                    s.finish(base + k as u64, &c.ops[k], h, c.len as usize).await?;
                }
            }
            s.settle(base + 999).await
        })
        .await?;
        check!(!task.is_finished() && s.client.is_alive(), "the client's connection ended although nothing was wrong");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ a frugal service

pub const UNARY: u8 = 0;
pub const UNARY_YIELD: u8 = 1;
pub const UNARY_NEVER: u8 = 2;
pub const STREAM: u8 = 3;
pub const STREAM_YIELD: u8 = 4;
pub const STREAM_OPEN: u8 = 5;
pub const UNKNOWN: u8 = 6;
pub const ENDLESS: u8 = 7;
pub const ENDLESS_YIELD: u8 = 8;

/// The request tells what to do: kind, number of items, length of an item.
fn ask(id: u64, kind: u8, n: u16, len: u16) -> RMsg {
    let mut body = vec![kind];
    body.extend(n.to_be_bytes());
    body.extend(len.to_be_bytes());
    RMsg { id, code: NORMAL, body }
}
fn answer(id: u64, k: u64, len: u16) -> RMsg {
    let mut body = vec![9; 8 + len as usize];
    body[..8].copy_from_slice(&k.to_be_bytes());
    RMsg { id, code: NORMAL, body }
}

#[derive(Clone, Default)]
struct Simple {
    services: Arc<AtomicUsize>,
    rpcs: Arc<AtomicUsize>,
    /// bytes of all answers that were produced
    produced: Arc<AtomicUsize>,
}
struct SimpleConnection(Simple);
impl Drop for SimpleConnection {
    fn drop(&mut self) {
        self.0.services.fetch_sub(1, Ordering::SeqCst);
    }
}
struct SimpleRpc {
    id: u64,
    kind: u8,
    n: u16,
    len: u16,
    k: u64,
    yielded: bool,
    rpcs: Arc<AtomicUsize>,
    produced: Arc<AtomicUsize>,
}
impl Drop for SimpleRpc {
    fn drop(&mut self) {
        self.rpcs.fetch_sub(1, Ordering::SeqCst);
    }
}
impl SimpleRpc {
    fn pause(&mut self, cx: &mut Context<'_>) -> bool {
        if matches!(self.kind, UNARY_YIELD | STREAM_YIELD | ENDLESS_YIELD) && !self.yielded {
            self.yielded = true;
            cx.waker().wake_by_ref();
            return true;
        }
        self.yielded = false;
        false
    }
}
impl Future for SimpleRpc {
    type Output = RMsg;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RMsg> {
        if self.kind == UNARY_NEVER || self.pause(cx) {
            return Poll::Pending;
        }
        self.produced.fetch_add(HEADER + 8 + self.len as usize, Ordering::Relaxed);
        Poll::Ready(answer(self.id, 0, self.len))
    }
}
impl Stream for SimpleRpc {
    type Item = RMsg;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<RMsg>> {
        if self.pause(cx) {
            return Poll::Pending;
        }
        let endless = matches!(self.kind, ENDLESS | ENDLESS_YIELD);
        if !endless && self.k >= self.n as u64 {
            return if self.kind == STREAM_OPEN { Poll::Pending } else { Poll::Ready(None) };
        }
        self.k += 1;
        self.produced.fetch_add(HEADER + 8 + self.len as usize, Ordering::Relaxed);
        Poll::Ready(Some(answer(self.id, self.k - 1, self.len)))
    }
}
impl SocketService for Simple {
    type RequestDeserializer = RCodec;
    type ResponseSerializer = RCodec;
    type ConnectionService = SimpleConnection;
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn new_connection_service(&self, _: SocketAddr) -> SimpleConnection {
        self.services.fetch_add(1, Ordering::SeqCst);
        SimpleConnection(self.clone())
    }
}
impl ConnectionService for SimpleConnection {
    type Request = RMsg;
    type Response = RMsg;
    type UnaryFutureType = SimpleRpc;
    type StreamType = SimpleRpc;
    fn new_rpc(&mut self, m: RMsg) -> RpcKind<SimpleRpc, SimpleRpc> {
        let b = &m.body;
        if b.len() < 5 || b[0] == UNKNOWN {
            return RpcKind::Unknown;
        }
        self.0.rpcs.fetch_add(1, Ordering::SeqCst);
        let r = SimpleRpc { id: m.id, kind: b[0], n: u16::from_be_bytes([b[1], b[2]]), len: u16::from_be_bytes([b[3], b[4]]), k: 0, yielded: false, rpcs: self.0.rpcs.clone(), produced: self.0.produced.clone() };
        if r.kind <= UNARY_NEVER {
            RpcKind::Unary(r)
        } else {
            RpcKind::Streaming(r)
        }
    }
}

async fn serve_rpc(max_buffer: usize, max_queued: usize) -> R<(Simple, SocketAddr, tokio::task::JoinHandle<()>)> {
    let service = Simple::default();
    let addr = free_addr()?;
    let mut server = SocketRpcServer::new(addr, service.clone()).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
    server.set_max_buffer_length(max_buffer);
    server.set_max_queued_outbound_messages(max_queued);
    let task = tokio::spawn(async move {
        let _ = server.await;
    });
    Ok((service, addr, task))
}

fn lean_dial(addr: SocketAddr) -> R<Lean<std::net::TcpStream>> {
    let mut p = dial(addr)?;
    let sock = p.sock.take().expect("just connected");
    Ok(Lean::new(sock))
}

// ------------------------------------------------------------------------------------------ C26 server

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum When {
    Not,
    /// in the same bytes as the request
    AtOnce,
    /// after its answers, if it has any, have arrived
    Later,
    Twice,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ServerPattern {
    max_queued: usize,
    len: u16,
    same_ids: bool,
    rpcs: Vec<(u8, u8, When)>,
    strays: u8,
}

fn c26_server_strategy(_: Tier) -> BoxedStrategy<ServerPattern> {
    let rpc = (0u8..7, 0u8..20, prop_oneof![4 => Just(When::Not), 2 => Just(When::AtOnce), 2 => Just(When::Later), 1 => Just(When::Twice)]);
    (prop_oneof![1usize..4, 4usize..40], prop_oneof![0u16..30, 30u16..3000], any::<bool>(), vec(rpc, 1..9), 0u8..4)
        .prop_map(|(max_queued, len, same_ids, rpcs, strays)| ServerPattern { max_queued, len, same_ids, rpcs, strays })
        .boxed()
}

fn c26_server_run(c: &ServerPattern, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.rpcs.len() >= 3;
    ctx.label_if(c.rpcs.iter().any(|r| r.2 != When::Not), "cancels");
    block_on(async {
        let (service, addr, task) = serve_rpc(1 << 18, c.max_queued).await?;
        let mut peer = lean_dial(addr)?;
        let n = c.rpcs.len();
        let mut first = vec![];
        let mut later = vec![];
        // frames every RPC owes when it is not cancelled
        let owed: Vec<Option<u32>> = c
            .rpcs
            .iter()
            .map(|(kind, items, when)| match (*kind, *when) {
                (_, When::AtOnce | When::Twice) => None,
                (UNARY | UNARY_YIELD, _) => Some(1),
                (STREAM | STREAM_YIELD, _) => Some(*items as u32 + 1),
                (STREAM_OPEN, _) => Some(*items as u32),
                _ => Some(0),
            })
            .collect();
        let got: Vec<Cell<u32>> = (0..n).map(|_| Cell::new(0)).collect();
        let pong = Cell::new(0u64);
        steady(n, "an RPC server", async |rep| {
            let base = if c.same_ids { 1000 } else { (rep as u64 + 1) * 1000 };
            let see = |id: u64, _code: u8, _b: &[u8]| match id {
                0 => pong.set(pong.get() + 1),
                id if id >= base && id < base + n as u64 => {
                    let c = &got[(id - base) as usize];
                    c.set(c.get() + 1)
                }
                _ => {}
            };
            got.iter().for_each(|g| g.set(0));
            pong.set(0);
            first.clear();
            later.clear();
            for (k, (kind, items, when)) in c.rpcs.iter().enumerate() {
                let id = base + k as u64;
                let m = ask(id, *kind, *items as u16, c.len);
                first.extend(frame(id, NORMAL, &m.body));
                let open = matches!(*kind, UNARY_NEVER | STREAM_OPEN);
                match when {
                    When::AtOnce => first.extend(frame(id, CANCEL, &[])),
                    When::Later => later.extend(frame(id, CANCEL, &[])),
                    When::Twice => {
                        first.extend(frame(id, CANCEL, &[]));
                        later.extend(frame(id, CANCEL, &[]));
                    }
                    When::Not if open => later.extend(frame(id, CANCEL, &[])),
                    When::Not => {}
                }
            }
            for k in 0..c.strays {
                later.extend(frame(base + 500 + k as u64, if k % 2 == 0 { CANCEL } else { END }, &[]));
            }
            peer.write_all(&first, "server", see).await?;
            wait_for(|| format!("responses are missing: {got:?} of {owed:?}"), || {
                peer.pump(see);
                Ok(owed.iter().zip(&got).all(|(o, g)| o.is_none_or(|o| g.get() >= o)).then_some(()))
            })
            .await?;
            // the id is not used again before its RPC is over
            later.extend(frame(0, NORMAL, &ask(0, UNARY, 0, 0).body));
            peer.write_all(&later, "server", see).await?;
            wait_for(|| "a request was not answered (ping)".into(), || {
                peer.pump(see);
                Ok((pong.get() == 1 && service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))
            })
            .await?;
            check!(peer.end == ReadEnd::Open && !peer.garbled, "the connection broke although nothing was wrong");
            Ok(())
        })
        .await?;
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C26 visitors

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Leave {
    Close,
    HalfClose,
    Reset,
    Garbage,
    TooLong,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Visit {
    /// requests: kind and number of items
    asks: Vec<(u8, u8)>,
    partial: bool,
    settle: bool,
    leave: Leave,
}

fn visit() -> BoxedStrategy<Visit> {
    (vec((0u8..9, 0u8..20), 0..4), any::<bool>(), any::<bool>(), prop::sample::select(vec![Leave::Close, Leave::HalfClose, Leave::Reset, Leave::Garbage, Leave::TooLong]))
        .prop_map(|(asks, partial, settle, leave)| Visit { asks, partial, settle, leave })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Visitors {
    rpc: bool,
    max_queued: usize,
    together: bool,
    visits: Vec<Visit>,
}

fn c26_visitors_strategy(_: Tier) -> BoxedStrategy<Visitors> {
    (any::<bool>(), 1usize..20, any::<bool>(), vec(visit(), 1..4)).prop_map(|(rpc, max_queued, together, visits)| Visitors { rpc, max_queued, together, visits }).boxed()
}

/// A message server that counts its reactors and answers as long as there is room.
#[derive(Clone, Default)]
struct Talk {
    reactors: Arc<AtomicUsize>,
    received: Arc<AtomicUsize>,
}
struct TalkBindings;
impl ConnectionBindings for TalkBindings {
    type Deserializer = RCodec;
    type Serializer = RCodec;
    type Reactor = TalkReactor;
}
struct TalkReactor {
    t: Talk,
    out: mpsc::Sender<RMsg>,
}
impl Drop for TalkReactor {
    fn drop(&mut self) {
        self.t.reactors.fetch_sub(1, Ordering::SeqCst);
    }
}
impl MessageReactor for TalkReactor {
    type Inbound = RMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = RMsg>) -> ReactorStatus {
        for m in messages {
            self.t.received.fetch_add(1, Ordering::SeqCst);
            let _ = self.out.try_send(m);
        }
        ReactorStatus::Continue
    }
}
impl ServerConnector for Talk {
    type Bindings = TalkBindings;
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn new_reactor(&self, out: mpsc::Sender<RMsg>) -> TalkReactor {
        self.reactors.fetch_add(1, Ordering::SeqCst);
        TalkReactor { t: self.clone(), out }
    }
}

enum Host {
    Rpc(Simple),
    Talk(Talk),
}
impl Host {
    async fn start(rpc: bool, max_queued: usize) -> R<(Host, SocketAddr, tokio::task::JoinHandle<()>)> {
        if rpc {
            let (s, a, t) = serve_rpc(1 << 18, max_queued).await?;
            return Ok((Host::Rpc(s), a, t));
        }
        let talk = Talk::default();
        let addr = free_addr()?;
        let mut server = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), talk.clone()).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
        server.set_max_buffer_length(1 << 18);
        server.set_max_queued_outbound_messages(max_queued);
        let task = tokio::spawn(async move {
            let _ = server.await;
        });
        Ok((Host::Talk(talk), addr, task))
    }
    fn running(&self) -> usize {
        match self {
            Host::Rpc(s) => s.services.load(Ordering::SeqCst) + s.rpcs.load(Ordering::SeqCst),
            Host::Talk(t) => t.reactors.load(Ordering::SeqCst),
        }
    }
    fn connections(&self) -> usize {
        match self {
            Host::Rpc(s) => s.services.load(Ordering::SeqCst),
            Host::Talk(t) => t.reactors.load(Ordering::SeqCst),
        }
    }
}

/// Say something and leave; None: the visitor stays until it sees the end of the connection.
fn behave(p: &mut Peer, v: &Visit) {
    let mut out = vec![];
    for (k, (kind, n)) in v.asks.iter().enumerate() {
        let m = ask(k as u64, *kind, *n as u16, 10);
        out.extend(frame(m.id, NORMAL, &m.body));
    }
    if v.partial {
        let f = frame(77, NORMAL, &[1, 2, 3, 4, 5, 6]);
        out.extend(&f[..f.len() - 2]);
    }
    let _ = p.write(&out);
}
fn depart(p: &mut Peer, v: &Visit) {
    match v.leave {
        Leave::Close => p.close(),
        Leave::Reset => p.reset(),
        Leave::HalfClose => p.half_close(),
        Leave::Garbage => {
            // (in the middle of an incomplete message this is just its rest, and the next one)
            let _ = p.write(&[0; 40]);
        }
        Leave::TooLong => {
            let _ = p.write(&[0xff; 40]);
        }
    }
}

fn c26_visitors_run(c: &Visitors, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.visits.iter().map(|v| 1 + v.asks.len()).sum::<usize>() >= 3;
    ctx.label(if c.rpc { "rpc server" } else { "message server" });
    block_on(async {
        let (host, addr, task) = Host::start(c.rpc, c.max_queued).await?;
        steady(c.visits.len(), "a server whose clients have left", async |_| {
            let mut peers: Vec<Peer> = vec![];
            for v in &c.visits {
                let mut p = dial(addr)?;
                if v.settle {
                    let want = 1;
                    wait_for(|| "a new client was not served".into(), || Ok((host.connections() >= want).then_some(()))).await?;
                }
                behave(&mut p, v);
                if v.settle {
                    rounds(6).await;
                }
                if c.together {
                    peers.push(p);
                } else {
                    depart(&mut p, v);
                    gone(&host, &mut [p]).await?;
                }
            }
            if c.together {
                for (p, v) in peers.iter_mut().zip(&c.visits) {
                    depart(p, v);
                }
                gone(&host, &mut peers).await?;
            }
            Ok(())
        })
        .await?;
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}

/// Nothing of these clients is left on the server.
async fn gone(host: &Host, peers: &mut [Peer]) -> R {
    // a client that left before it was accepted: let the listener see it
    rounds(12).await;
    wait_for(|| format!("{} services, reactors or RPCs are left although their clients are gone", host.running()), || {
        for p in peers.iter_mut() {
            // read what there is so that nobody is blocked
            p.pump();
            if p.end != ReadEnd::Open {
                p.close();
            }
        }
        Ok((host.running() == 0).then_some(()))
    })
    .await
}

// ------------------------------------------------------------------------------------------ C27 visitors

#[derive(Debug, Clone, Serialize, Deserialize)]
enum VOp {
    Come(Visit),
    Leave(u8),
    Say(u8, u8, u8),
    Read(u8),
    Rounds(u8),
    Idle,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct IdleVisitors {
    rpc: bool,
    max_queued: usize,
    ops: Vec<VOp>,
}
fn c27_visitors_strategy(_: Tier) -> BoxedStrategy<IdleVisitors> {
    // endless streams have work to do: not here
    let v = visit().prop_map(|mut v| {
        v.asks.iter_mut().for_each(|a| a.0 %= ENDLESS);
        v
    });
    let op = prop_oneof![
        4 => v.prop_map(VOp::Come),
        3 => any::<u8>().prop_map(VOp::Leave),
        3 => (any::<u8>(), 0u8..7, 0u8..30).prop_map(|(p, k, n)| VOp::Say(p, k, n)),
        1 => any::<u8>().prop_map(VOp::Read),
        2 => (1u8..12).prop_map(VOp::Rounds),
        1 => Just(VOp::Idle),
    ];
    (any::<bool>(), 1usize..20, vec(op, 1..14)).prop_map(|(rpc, max_queued, ops)| IdleVisitors { rpc, max_queued, ops }).boxed()
}

fn c27_visitors_run(c: &IdleVisitors, ctx: &mut Ctx) -> R {
    ctx.label(if c.rpc { "rpc server" } else { "message server" });
    block_on(async {
        let (host, addr, task) = Host::start(c.rpc, c.max_queued).await?;
        let mut here: Vec<(Peer, Visit)> = vec![];
        let mut leaving: Vec<Peer> = vec![];
        for op in &c.ops {
            match op {
                VOp::Come(v) => {
                    let mut p = dial(addr)?;
                    behave(&mut p, v);
                    here.push((p, v.clone()));
                }
                VOp::Leave(k) if !here.is_empty() => {
                    let (mut p, v) = here.remove(*k as usize % here.len());
                    depart(&mut p, &v);
                    leaving.push(p);
                }
                VOp::Say(k, kind, n) if !here.is_empty() => {
                    let k = *k as usize % here.len();
                    let m = ask(1000, *kind, *n as u16, 100);
                    let _ = here[k].0.write(&frame(m.id, NORMAL, &m.body));
                }
                VOp::Read(k) if !here.is_empty() => {
                    let k = *k as usize % here.len();
                    here[k].0.pump();
                }
                VOp::Rounds(n) => rounds(*n as usize).await,
                VOp::Idle => {
                    sleeps(|| format!("a server with {} clients", here.len())).await?;
                    ctx.nontrivial |= host.connections() > 0;
                }
                _ => {}
            }
        }
        rounds(10).await;
        sleeps(|| format!("a server with {} clients", here.len())).await?;
        ctx.nontrivial |= host.connections() > 0;
        ctx.label_if(host.connections() > 0, "connections are open");
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C28

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Busy {
    max_queued: usize,
    /// endless streams: self-waking?, item length
    endless: Vec<(bool, u16)>,
    /// calls started meanwhile: kind, items, on another connection?
    calls: Vec<(u8, u8, bool)>,
    /// bytes the clients read per turn (raw clients)
    gulp: u32,
    /// these endless streams are cancelled while the calls are in progress
    cancel: u8,
}

fn c28_strategy(_: Tier) -> BoxedStrategy<Busy> {
    let len = || prop_oneof![3 => 0u16..50, 2 => 50u16..3000, 1 => 3000u16..30_000];
    (
        prop_oneof![2 => 1usize..4, 2 => 4usize..60, 1 => Just(256usize)],
        vec((any::<bool>(), len()), 1..5),
        vec((prop::sample::select(vec![UNARY, UNARY_YIELD, STREAM, STREAM_YIELD]), 0u8..30, prop::bool::weighted(0.25)), 1..12),
        prop_oneof![1_000u32..20_000, 20_000u32..2_000_000],
        any::<u8>(),
    )
        .prop_map(|(max_queued, endless, calls, gulp, cancel)| Busy { max_queued, endless, calls, gulp, cancel })
        .boxed()
}

const CALLS: u64 = 1000;
const STREAMS: u64 = 100;

/// Keeps track of what arrives on a connection of the raw client.
#[derive(Default)]
struct Tally {
    endless: HashMap<u64, u64>,
    calls: HashMap<u64, Vec<(u8, u64)>>,
    bad: Option<String>,
    /// endless items since the last event we wait for
    since: u64,
}
impl Tally {
    fn see(&mut self, id: u64, code: u8, b: &[u8]) {
        let k = b.get(..8).map_or(u64::MAX, |b| u64::from_be_bytes(b.try_into().expect("8 bytes")));
        if (STREAMS..CALLS).contains(&id) {
            let next = self.endless.entry(id).or_default();
            if code != NORMAL || k != *next {
                self.bad.get_or_insert(format!("endless stream {id}: code {code}, item {k} where {next} was due"));
            }
            *next += 1;
            self.since += 1;
        } else {
            self.calls.entry(id).or_default().push((code, k));
        }
    }
}

fn c28_server_run(c: &Busy, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    ctx.label_if(c.calls.iter().any(|c| c.2), "calls on another connection");
    ctx.label_if(c.cancel > 0, "cancels");
    block_on(async {
        let (service, addr, task) = serve_rpc(1 << 20, c.max_queued).await?;
        let mut a = lean_dial(addr)?;
        let mut b = lean_dial(addr)?;
        let mut ta = Tally::default();
        let mut tb = Tally::default();
        let mut out = vec![];
        for (k, (y, len)) in c.endless.iter().enumerate() {
            let id = STREAMS + k as u64;
            out.extend(frame(id, NORMAL, &ask(id, if *y { ENDLESS_YIELD } else { ENDLESS }, 0, *len).body));
        }
        a.write_all(&out, "server", |i, c, b| ta.see(i, c, b)).await?;
        wait_for(|| "an endless stream produced nothing".into(), || {
            a.pump(|i, c, b| ta.see(i, c, b));
            Ok((ta.endless.len() == c.endless.len()).then_some(()))
        })
        .await?;
        // now the calls
        let (mut oa, mut ob) = (vec![], vec![]);
        for (k, (kind, n, other)) in c.calls.iter().enumerate() {
            let id = CALLS + k as u64;
            let m = frame(id, NORMAL, &ask(id, *kind, *n as u16, 5).body);
            if *other { ob.extend(m) } else { oa.extend(m) }
        }
        let mut cancelled = vec![];
        for k in 0..c.endless.len() {
            if c.cancel >> k & 1 == 1 {
                let id = STREAMS + k as u64;
                cancelled.push(id);
                oa.extend(frame(id, CANCEL, &[]));
            }
        }
        // the ping is answered after the cancels were processed
        oa.extend(frame(7, NORMAL, &ask(7, UNARY, 0, 0).body));
        ta.since = 0;
        b.write_all(&ob, "server", |i, c, b| tb.see(i, c, b)).await?;
        a.write_all(&oa, "server", |i, c, b| ta.see(i, c, b)).await?;
        // however slowly the clients read, the calls get their turn
        let mut turns = 0u64;
        let done = |ta: &Tally, tb: &Tally| {
            c.calls.iter().enumerate().all(|(k, (kind, n, other))| {
                let got = if *other { &tb.calls } else { &ta.calls }.get(&(CALLS + k as u64)).map_or(0, |v| v.len());
                got >= if *kind <= UNARY_YIELD { 1 } else { *n as usize + 1 }
            }) && ta.calls.contains_key(&7)
        };
        let missing = |ta: &Tally, tb: &Tally| format!("calls {:?} have only received {:?} and {:?} after {} items of endless streams", c.calls, ta.calls, tb.calls, ta.since);
        let start = std::time::Instant::now();
        while !done(&ta, &tb) {
            let mut chunk = vec![];
            a.end = read_some(&mut a.sock, c.gulp as usize, &mut chunk);
            a.buf.extend(chunk);
            check!(a.end == ReadEnd::Open, "the server closed the connection");
            parse_only(&mut a, |i, c, b| ta.see(i, c, b));
            b.pump(|i, c, b| tb.see(i, c, b));
            round().await;
            turns += 1;
            // thousands of items per call and many seconds: somebody is starved
            if turns > 20_000 && ta.since > 200_000 && start.elapsed() > crate::runner::stall_bound() {
                return Err(Fail::Stall(format!("calls are starved: {}", missing(&ta, &tb))));
            }
            if turns > 100_000 && start.elapsed() > 2 * crate::runner::stall_bound() {
                return Err(Fail::Stall(format!("calls make no progress: {}", missing(&ta, &tb))));
            }
        }
        // everybody got what it asked for, in order
        for (k, (kind, n, other)) in c.calls.iter().enumerate() {
            let got = &if *other { &tb.calls } else { &ta.calls }[&(CALLS + k as u64)];
            let mut want: Vec<(u8, u64)> = vec![];
            if *kind <= UNARY_YIELD {
                want.push((NORMAL, 0));
            } else {
                want.extend((0..*n as u64).map(|i| (NORMAL, i)));
                want.push((END, u64::MAX));
            }
            check!(*got == want, "call {k} {:?} received {got:?}", c.calls[k]);
        }
        if let Some(e) = ta.bad.or(tb.bad) {
            return violation(e);
        }
        // the cancelled streams stay silent once what was on its way has been read, and are dropped
        let still = c.endless.len() - cancelled.len();
        wait_for(|| format!("{} RPCs are left where {still} endless streams should be", service.rpcs.load(Ordering::SeqCst)), || {
            a.pump(|_, _, _| {});
            Ok((service.rpcs.load(Ordering::SeqCst) == still).then_some(()))
        })
        .await?;
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}

fn parse_only<S>(l: &mut Lean<S>, mut f: impl FnMut(u64, u8, &[u8])) {
    let mut at = 0;
    while l.buf.len() - at >= 4 {
        let b = &l.buf[at..];
        let total = 4 + u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if b.len() < total || total < HEADER {
            break;
        }
        f(u64::from_be_bytes(b[4..12].try_into().expect("8 bytes")), b[12], &b[13..total]);
        at += total;
    }
    l.buf.drain(..at);
}

fn c28_client_run(c: &Busy, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    ctx.label_if(c.cancel > 0, "cancels");
    block_on(async {
        let (service, addr, task) = serve_rpc(1 << 20, c.max_queued).await?;
        let mut cfg = Configuration::default();
        cfg.max_buffer_length(1 << 20);
        cfg.max_queued_outbound_messages(c.max_queued.max(32));
        let open = async || -> R<RpcClient<RMsg, RMsg>> {
            let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
            tokio::spawn(conn);
            Ok(client)
        };
        let (a, b) = (open().await?, open().await?);
        let items = Arc::new(AtomicUsize::new(0));
        let mut readers = vec![];
        for (k, (y, len)) in c.endless.iter().enumerate() {
            let id = STREAMS + k as u64;
            let s = soon(|| "a call was never accepted".into(), a.send_streaming(ask(id, if *y { ENDLESS_YIELD } else { ENDLESS }, 0, *len))).await?;
            let Ok(mut s) = s else { return violation("a call could not be sent") };
            let items = items.clone();
            let err = Arc::new(std::sync::Mutex::new(None::<String>));
            let e2 = err.clone();
            let first = Arc::new(AtomicUsize::new(0));
            let f2 = first.clone();
            let task = tokio::spawn(async move {
                let mut next = 0u64;
                loop {
                    match s.next().await {
                        Some(Ok(m)) if m.id == id && m.body[..8] == next.to_be_bytes() => {
                            next += 1;
                            items.fetch_add(1, Ordering::Relaxed);
                            f2.fetch_add(1, Ordering::Relaxed);
                        }
                        other => {
                            *e2.lock().unwrap() = Some(format!("endless stream {id} yielded {other:?} where item {next} was due"));
                            return;
                        }
                    }
                }
            });
            readers.push((task, err, first));
        }
        for (_, _, first) in &readers {
            wait_for(|| "an endless stream produced nothing".into(), || Ok((first.load(Ordering::Relaxed) > 0).then_some(()))).await?;
        }
        let mut calls = vec![];
        for (k, (kind, n, other)) in c.calls.iter().enumerate() {
            let id = CALLS + k as u64;
            let client = if *other { b.clone() } else { a.clone() };
            let m = ask(id, *kind, *n as u16, 5);
            let (kind, n) = (*kind, *n as usize);
            calls.push(tokio::spawn(async move {
                if kind <= UNARY_YIELD {
                    match client.send_unary(m).await {
                        Ok(u) => match u.await {
                            Ok(r) if r.id == id => Ok(()),
                            other => Err(format!("call {id} completed with {other:?}")),
                        },
                        Err(e) => Err(format!("call {id} could not be sent: {e}")),
                    }
                } else {
                    let Ok(mut s) = client.send_streaming(m).await else { return Err(format!("call {id} could not be sent")) };
                    let mut got = 0usize;
                    while let Some(r) = s.next().await {
                        match r {
                            Ok(r) if r.id == id && r.body[..8] == (got as u64).to_be_bytes() => got += 1,
                            Err(protosocket_rpc::Error::Finished) => {}
                            other => return Err(format!("stream {id} yielded {other:?} where item {got} was due")),
                        }
                    }
                    if got == n { Ok(()) } else { Err(format!("stream {id} yielded {got} of {n} items")) }
                }
            }));
        }
        let mut cancelled = 0;
        for (k, (task, _, _)) in readers.iter().enumerate() {
            if c.cancel >> k & 1 == 1 {
                task.abort();
                cancelled += 1;
            }
        }
        for (k, call) in calls.into_iter().enumerate() {
            let r = soon(|| format!("call {k} {:?} is starved: {} items of endless streams went by", c.calls[k], items.load(Ordering::Relaxed)), call).await?;
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return violation(e),
                Err(e) => return violation(format!("a caller died: {e}")),
            }
        }
        let still = readers.len() - cancelled;
        wait_for(|| format!("{} RPCs are left on the server where {still} endless streams should be", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == still).then_some(()))).await?;
        for (t, e, _) in &readers {
            if let Some(e) = e.lock().unwrap().take() {
                return violation(e);
            }
            t.abort();
        }
        // the rest is dropped too
        wait_for(|| format!("{} RPCs are left on the server after their streams were dropped", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))).await?;
        check!(!task.is_finished(), "the server stopped");
        tokio::time::sleep(Duration::from_millis(0)).await;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C33

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pressure {
    max_queued: usize,
    /// length of an answer (or request)
    len: u16,
    /// how they are divided: kind and weight
    parts: Vec<(u8, u8)>,
    /// how many times the bound the answers come to, in tenths
    tenths: u8,
    /// what the reader reads from time to time
    reads: Vec<u32>,
    /// read everything in the end, or leave
    drain: bool,
}

fn c33_strategy(_: Tier) -> BoxedStrategy<Pressure> {
    (
        prop_oneof![3 => 1usize..4, 2 => 4usize..10, 1 => 10usize..40],
        prop_oneof![2 => 3_000u16..12_000, 1 => 12_000u16..50_000],
        vec((prop::sample::select(vec![UNARY, UNARY_YIELD, STREAM, STREAM_YIELD]), 1u8..=255), 1..7),
        14u8..40,
        vec(prop_oneof![2 => 1u32..200_000, 1 => 200_000u32..3_000_000], 0..5),
        prop::bool::weighted(0.6),
    )
        .prop_map(|(max_queued, len, parts, tenths, reads, drain)| Pressure { max_queued, len, parts, tenths, reads, drain })
        .boxed()
}

/// More than this can not be under way between two sockets of this system when the receiver's window is small.
fn kernel_room() -> usize {
    static ROOM: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *ROOM.get_or_init(|| {
        let max = std::fs::read_to_string("/proc/sys/net/ipv4/tcp_wmem").ok().and_then(|t| t.split_whitespace().last()?.parse::<usize>().ok()).unwrap_or(8 << 20);
        max + (1 << 20)
    })
}

impl Pressure {
    fn item(&self) -> usize {
        HEADER + 8 + self.len as usize
    }
    /// queued, taken from the queue, encoded, and as much again
    fn bound(&self) -> usize {
        kernel_room() + (4 * self.max_queued + 4 + self.parts.len()) * self.item()
    }
    fn counts(&self) -> Vec<(u8, usize)> {
        let total = self.bound() / 10 * self.tenths as usize / self.item() + 1;
        let weight: usize = self.parts.iter().map(|p| p.1 as usize).sum();
        self.parts.iter().map(|(kind, w)| (*kind, total * *w as usize / weight + 1)).collect()
    }
}

fn lean_dial_small(addr: SocketAddr) -> R<Lean<std::net::TcpStream>> {
    let mut p = dial_small(addr)?;
    Ok(Lean::new(p.sock.take().expect("just connected")))
}

/// Lets everything run until nothing is produced any more.
async fn until_still(amount: impl Fn() -> usize, limit: impl Fn() -> usize) -> R {
    let mut before = usize::MAX;
    let mut still = 0;
    let start = std::time::Instant::now();
    while still < 4 {
        tokio::time::sleep(Duration::from_millis(1)).await;
        rounds(20).await;
        let now = amount();
        if now > limit() || start.elapsed() > Duration::from_secs(20) {
            return Ok(());
        }
        still = if now == before { still + 1 } else { 0 };
        before = now;
    }
    Ok(())
}

fn c33_server_run(c: &Pressure, ctx: &mut Ctx) -> R {
    block_on(async {
        let (service, addr, task) = serve_rpc(1 << 20, c.max_queued).await?;
        let mut a = lean_dial_small(addr)?;
        let mut got: HashMap<u64, Vec<(u8, u64)>> = HashMap::new();
        let mut received = 0usize;
        let mut want: HashMap<u64, Vec<(u8, u64)>> = HashMap::new();
        let mut out = vec![];
        let mut id = 0u64;
        for (kind, n) in c.counts() {
            if kind <= UNARY_YIELD {
                for _ in 0..n {
                    id += 1;
                    out.extend(frame(id, NORMAL, &ask(id, kind, 0, c.len).body));
                    want.insert(id, vec![(NORMAL, 0)]);
                }
            } else {
                id += 1;
                out.extend(frame(id, NORMAL, &ask(id, kind, n as u16, c.len).body));
                want.insert(id, (0..n as u64).map(|k| (NORMAL, k)).chain([(END, u64::MAX)]).collect());
            }
        }
        let total: usize = want.values().flatten().filter(|x| x.0 == NORMAL).count() * c.item();
        // the requests are written without reading anything
        let mut at = 0;
        wait_for(|| "the server stopped reading requests".into(), || {
            match write_some(&mut a.sock, &out[at..]) {
                Some(n) => at += n,
                None => return violation("the server closed the connection although nothing was wrong"),
            }
            Ok((at == out.len()).then_some(()))
        })
        .await?;
        let produced = || service.produced.load(Ordering::Relaxed);
        let ahead = |received: usize| -> R {
            let p = produced();
            check!(
                p <= received + c.bound(),
                "{p} bytes of answers were produced for a client that has only read {received} bytes of them (queue length {}, answers of {} bytes, {} allowed under way)",
                c.max_queued,
                c.item(),
                c.bound()
            );
            Ok(())
        };
        let mut chunks = vec![];
        for read in [0u32].iter().chain(&c.reads) {
            let mut left = *read as usize;
            while left > 0 {
                chunks.clear();
                a.end = read_some(&mut a.sock, left.min(1 << 18), &mut chunks);
                check!(a.end == ReadEnd::Open, "the server closed the connection");
                if chunks.is_empty() {
                    break;
                }
                left -= chunks.len();
                received += chunks.len();
                a.buf.extend_from_slice(&chunks);
                rounds(2).await;
                ahead(received)?;
            }
            until_still(produced, || received + c.bound()).await?;
            ahead(received)?;
            if produced() < total {
                ctx.nontrivial = true;
                ctx.label("backpressure");
            }
        }
        // meanwhile others are served
        let mut b = lean_dial(addr)?;
        let mut answered = false;
        b.write_all(&frame(7, NORMAL, &ask(7, UNARY, 0, 0).body), "server", |_, _, _| answered = true).await?;
        wait_for(|| "another client is not served while one does not read".into(), || {
            b.pump(|_, _, _| answered = true);
            Ok(answered.then_some(()))
        })
        .await?;
        if c.drain {
            let due: usize = want.values().map(|v| v.len()).sum();
            let mut last = usize::MAX;
            let mut seen = std::time::Instant::now();
            loop {
                let mut some = vec![];
                a.end = read_some(&mut a.sock, 1 << 18, &mut some);
                a.buf.extend_from_slice(&some);
                received += some.len();
                parse_only(&mut a, |i, c, b| {
                    let k = b.get(..8).map_or(u64::MAX, |b| u64::from_be_bytes(b.try_into().expect("8 bytes")));
                    got.entry(i).or_default().push((c, k));
                });
                let have: usize = got.values().map(|v| v.len()).sum();
                if have >= due {
                    break;
                }
                check!(a.end == ReadEnd::Open, "the server closed the connection with {have} of {due} answers delivered");
                if have != last {
                    last = have;
                    seen = std::time::Instant::now();
                } else if seen.elapsed() > crate::runner::stall_bound() {
                    return Err(Fail::Stall(format!("only {have} of {due} answers arrive although the client reads again")));
                }
                round().await;
                ahead(received)?;
            }
            check!(got == want, "the answers of a client that paused are not the ones it asked for");
            wait_for(|| format!("{} finished RPCs are left", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))).await?;
            ctx.label("drained");
        } else {
            drop(a);
            wait_for(|| format!("{} RPCs of a client that left are still there", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))).await?;
        }
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}

fn c33_client_run(c: &Pressure, ctx: &mut Ctx) -> R {
    block_on(async {
        let (listener, addr) = listen_small()?;
        let mut cfg = Configuration::default();
        cfg.max_buffer_length(1 << 20);
        cfg.max_queued_outbound_messages(c.max_queued);
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        let task = tokio::spawn(conn);
        let sock = wait_for(|| "no connection".into(), || Ok(listener.accept().ok())).await?.0;
        sock.set_nonblocking(true).map_err(|e| Fail::Harness(format!("nonblocking: {e}")))?;
        let mut a = Lean::new(sock);
        // callers, one after the other each, that are all accepted in the end
        let accepted = Arc::new(AtomicUsize::new(0));
        let mut callers = vec![];
        let mut total = 0;
        for (k, (kind, n)) in c.counts().into_iter().enumerate() {
            total += n;
            let (client, accepted, len) = (client.clone(), accepted.clone(), c.len);
            callers.push(tokio::spawn(async move {
                let mut held: Vec<Held> = vec![];
                for i in 0..n {
                    let m = answer((k as u64) << 32 | i as u64, i as u64, len);
                    held.push(if kind <= UNARY_YIELD {
                        Held::U(client.send_unary(m).await.map_err(|e| e.to_string())?)
                    } else {
                        Held::S(client.send_streaming(m).await.map_err(|e| e.to_string())?)
                    });
                    accepted.fetch_add(1, Ordering::Relaxed);
                }
                Ok::<_, String>(held)
            }));
        }
        let taken = || accepted.load(Ordering::Relaxed) * c.item();
        let ahead = |received: usize| -> R {
            let p = taken();
            check!(
                p <= received + c.bound(),
                "{p} bytes of requests were accepted for a server that has only read {received} bytes of them (queue length {}, requests of {} bytes, {} allowed under way)",
                c.max_queued,
                c.item(),
                c.bound()
            );
            Ok(())
        };
        let mut received = 0usize;
        let mut next: HashMap<u64, u64> = HashMap::new();
        let mut bad = None;
        let have = std::cell::Cell::new(0usize);
        let mut see = |id: u64, code: u8, b: &[u8]| {
            let n = next.entry(id >> 32).or_default();
            let k = b.get(..8).map_or(u64::MAX, |b| u64::from_be_bytes(b.try_into().expect("8 bytes")));
            if code != NORMAL || id & 0xffff_ffff != *n || k != *n {
                bad.get_or_insert(format!("request {:x} with code {code} arrived where {n} of caller {} was due", id, id >> 32));
            }
            *n += 1;
            have.set(have.get() + 1);
        };
        for read in [0u32].iter().chain(&c.reads) {
            let mut left = *read as usize;
            while left > 0 {
                let mut some = vec![];
                a.end = read_some(&mut a.sock, left.min(1 << 18), &mut some);
                check!(a.end == ReadEnd::Open, "the client closed the connection");
                if some.is_empty() {
                    break;
                }
                left -= some.len();
                received += some.len();
                a.buf.extend_from_slice(&some);
                rounds(2).await;
                ahead(received)?;
            }
            parse_only(&mut a, |i, c, b| see(i, c, b));
            until_still(taken, || received + c.bound()).await?;
            ahead(received)?;
            if accepted.load(Ordering::Relaxed) < total {
                ctx.nontrivial = true;
                ctx.label("backpressure");
            }
        }
        if c.drain {
            let mut last = usize::MAX;
            let mut seen = std::time::Instant::now();
            // the reads above may have taken everything already
            while have.get() < total {
                let mut some = vec![];
                a.end = read_some(&mut a.sock, 1 << 18, &mut some);
                a.buf.extend_from_slice(&some);
                received += some.len();
                parse_only(&mut a, |i, c, b| see(i, c, b));
                let have = have.get();
                check!(have == total || a.end == ReadEnd::Open, "the client closed the connection with {have} of {total} requests delivered");
                if received != last {
                    last = received;
                    seen = std::time::Instant::now();
                } else if seen.elapsed() > crate::runner::stall_bound() {
                    return Err(Fail::Stall(format!("only {have} of {total} requests arrive although the server reads again")));
                }
                round().await;
                ahead(received)?;
            }
            if let Some(e) = bad {
                return violation(e);
            }
            let mut held = vec![];
            for t in callers {
                match soon(|| "a caller whose request arrived is still waiting".into(), t).await? {
                    Ok(Ok(h)) => held.push(h),
                    Ok(Err(e)) => return violation(format!("a request was refused: {e}")),
                    Err(e) => return violation(format!("a caller died: {e}")),
                }
            }
            check!(!task.is_finished() && client.is_alive(), "the connection ended");
            ctx.label("drained");
        } else {
            drop(a);
            // the waiting callers are told
            for t in callers {
                match soon(|| "a caller hangs although the server has left".into(), t).await? {
                    Ok(_) => {}
                    Err(e) => return violation(format!("a caller died: {e}")),
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C18, C19: thousands of RPCs

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(crate) struct Thousands {
    max_queued: usize,
    count: u16,
    /// kind, items, length: what the requests ask for, in turns
    asks: Vec<(u8, u8, u16)>,
    /// how much of the requests is written at a time
    writes: Vec<u32>,
    /// cancel those left open (and some others) in the end, with so many cancels at a time
    cancels: Option<u16>,
    rounds: u8,
}

pub(crate) fn thousands(cancels: bool) -> BoxedStrategy<Thousands> {
    let ask = (prop::sample::select(vec![UNARY, UNARY, UNARY_YIELD, UNARY_NEVER, UNARY_NEVER, STREAM, STREAM_YIELD, STREAM_OPEN, UNKNOWN]), 0u8..4, prop_oneof![3 => 0u16..10, 1 => 10u16..300]);
    (
        prop_oneof![1 => 1usize..5, 2 => 5usize..200, 1 => 200usize..2_000],
        prop_oneof![2 => 600u16..2_500, 1 => 2_500u16..6_000],
        vec(ask, 1..7),
        prop_oneof![1 => Just(vec![]), 1 => vec(1u32..60_000, 1..5)],
        if cancels { prop_oneof![1u16..20, 20u16..3_000].prop_map(Some).boxed() } else { Just(None).boxed() },
        0u8..4,
    )
        .prop_map(|(max_queued, count, asks, writes, cancels, rounds)| Thousands { max_queued, count, asks, writes, cancels, rounds })
        .boxed()
}

pub(crate) fn thousands_run(c: &Thousands, ctx: &mut Ctx) -> R {
    block_on(async {
        let (service, addr, task) = serve_rpc(1 << 18, c.max_queued).await?;
        let mut peer = lean_dial(addr)?;
        let n = c.count as usize;
        let of = |id: usize| c.asks[id % c.asks.len()];
        let owed = |id: usize| match of(id) {
            (UNARY | UNARY_YIELD, _, _) => 1,
            (STREAM | STREAM_YIELD, k, _) => k as u64 + 1,
            (STREAM_OPEN, k, _) => k as u64,
            _ => 0,
        };
        let open = (0..n).filter(|id| matches!(of(*id).0, UNARY_NEVER | STREAM_OPEN)).count();
        ctx.nontrivial = true;
        ctx.label_if(open > 1024, "more than 1024 open RPCs");
        let laps = if c.cancels.is_some() { 2 } else { 1 };
        for lap in 0..laps {
            let got: Vec<Cell<u64>> = (0..n).map(|_| Cell::new(0)).collect();
            let bad: Cell<Option<String>> = Cell::new(None);
            let have = Cell::new(0u64);
            let pong = Cell::new(0);
            let see = |id: u64, code: u8, b: &[u8]| {
                if id == u64::MAX {
                    pong.set(pong.get() + 1);
                    return;
                }
                let id = id as usize;
                let fine = id < n && {
                    let (kind, items, len) = of(id);
                    let k = got[id].get();
                    k < owed(id)
                        && if matches!(kind, STREAM | STREAM_YIELD) && k == items as u64 {
                            code == END
                        } else {
                            code == NORMAL && *b == *answer(0, k, len).body
                        }
                };
                if !fine {
                    bad.set(Some(format!("a message with code {code} and {} bytes arrived for request {id} of {n} ({:?}), which had got {} of {} before", b.len(), of(id), got.get(id).map_or(0, |g| g.get()), owed(id))));
                    return;
                }
                got[id].set(got[id].get() + 1);
                have.set(have.get() + 1);
            };
            let ok = || match bad.take() {
                Some(e) => violation(e),
                None => Ok(()),
            };
            let mut out = vec![];
            for id in 0..n {
                let (kind, items, len) = of(id);
                out.extend(frame(id as u64, NORMAL, &ask(id as u64, kind, items as u16, len).body));
            }
            let mut at = 0;
            for w in &c.writes {
                let to = (at + *w as usize).min(out.len());
                peer.write_all(&out[at..to], "server", see).await?;
                at = to;
                rounds(c.rounds as usize).await;
            }
            peer.write_all(&out[at..], "server", see).await?;
            let due: u64 = (0..n).map(owed).sum();
            wait_for(|| format!("only {} of {due} answers to {n} requests arrived", have.get()), || {
                peer.pump(see);
                ok()?;
                check!(peer.end == ReadEnd::Open && !peer.garbled, "the connection broke although nothing was wrong");
                Ok((have.get() >= due).then_some(()))
            })
            .await?;
            wait_for(|| format!("{} RPCs are left on the server where {open} should be", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == open).then_some(()))).await?;
            if let Some(batch) = c.cancels {
                let mut left = open;
                let ids: Vec<usize> = (0..n).filter(|id| matches!(of(*id).0, UNARY_NEVER | STREAM_OPEN) || id % 7 == lap).collect();
                for some in ids.chunks(batch as usize) {
                    let mut out = vec![];
                    for id in some {
                        out.extend(frame(*id as u64, CANCEL, &[]));
                        left -= matches!(of(*id).0, UNARY_NEVER | STREAM_OPEN) as usize;
                    }
                    peer.write_all(&out, "server", see).await?;
                    if c.rounds > 0 && left % 2 == 0 {
                        wait_for(|| format!("{} RPCs are left on the server where {left} should be", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == left).then_some(()))).await?;
                    }
                }
                wait_for(|| format!("{} RPCs are left on the server although all were cancelled or finished", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))).await?;
            }
            peer.write_all(&frame(u64::MAX, NORMAL, &ask(0, UNARY, 0, 0).body), "server", see).await?;
            wait_for(|| "a request was not answered (ping)".into(), || {
                peer.pump(see);
                ok()?;
                Ok((pong.get() == 1).then_some(()))
            })
            .await?;
        }
        drop(peer);
        wait_for(|| format!("{} RPCs are left on the server after their client has gone", service.rpcs.load(Ordering::SeqCst)), || Ok((service.rpcs.load(Ordering::SeqCst) == 0).then_some(()))).await?;
        check!(!task.is_finished(), "the server stopped");
        Ok(())
    })
}
