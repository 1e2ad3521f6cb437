//! C21, C24, C25: whole servers and clients over loopback TCP.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use futures::future::BoxFuture;
use futures::stream::BoxStream;
use futures::{FutureExt, Stream, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_prost::{ClientRegistry, ProstSerializer, ProstServerConnectionBindings};
use protosocket_rpc::client::{connect, Configuration};
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use protosocket_rpc::Error;
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;

use crate::check;
use crate::rpc::*;
use crate::rt::{block_on, rounds, wait_for, ReadEnd};
use crate::runner::{take_panics_of_threads, violation, Ctx, Fail, Property, Suite, Tier, EXPECTED_PANIC, R};
use crate::server::{self, body, Plan};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            rule: "a case is a server kind and an interleaving of well-behaved clients (any number of messages of any size) with clients that misbehave in one of twelve ways (panics of the application included); exhaustion: more clients than the process has descriptors for; crowd: groups of up to 300 clients arrive, are served and stay or leave, and the next group comes; non-trivial: a misbehaving client was connected while a well-behaved one had unanswered messages",
            suites: vec![
                Box::new(Suite { name: "mixed", strategy: c21_strategy, run: c21_run, quick: 40_000, thorough: 500_000, workers: 8 }),
                Box::new(Suite { name: "exhaustion", strategy: c21_ex_strategy, run: c21_ex_run, quick: 200, thorough: 4_000, workers: 1 }),
                Box::new(Suite { name: "crowd", strategy: crowd_strategy, run: crowd_run, quick: 120, thorough: 3_000, workers: 4 }),
            ],
        },
        Property {
            id: "C24",
            rule: "a case is a number of threads, connections and callers, queue limits, and per caller a list of calls (unary or streaming; size; how the service produces its answer; whether and when the caller gives up); hammer: thousands of short calls by up to 64 callers on one connection, so that calls start, finish and are given up while the connection is at work; non-trivial: at least four calls ran concurrently",
            suites: vec![
                Box::new(Suite { name: "workload", strategy: c24_strategy, run: c24_run, quick: 5_000, thorough: 100_000, workers: 2 }),
                Box::new(Suite { name: "hammer", strategy: c24_hammer_strategy, run: c24_hammer_run, quick: 400, thorough: 3_000, workers: 1 }),
            ],
        },
        Property {
            id: "C25",
            rule: "a case is a number of threads, connections and senders per connection, queue limits, and per sender a list of message sizes and pauses, with the senders dropped right after the last message or after the last reply; non-trivial: at least two senders and twenty messages",
            suites: vec![Box::new(Suite { name: "workload", strategy: c25_strategy, run: c25_run, quick: 5_000, thorough: 100_000, workers: 2 })],
        },
    ]
}

// ------------------------------------------------------------------------------------------ C21

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Bad {
    Garbage(u8),
    Huge,
    Reset,
    ResetMidMessage,
    CloseMidMessage,
    StayMidMessage,
    NeverRead(u8),
    ConnectLeave,
    ConnectReset,
    HalfClose,
    Silent,
    /// a message on which the connection's codec panics
    Poison,
    /// a message on which the connection's reactor or service panics
    Upset(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op21 {
    Good,
    Send { client: u8, n: u8, len: u16 },
    /// messages sent before misbehaving, settle before misbehaving?
    Bad { n: u8, settle: bool, how: Bad },
    Read { client: u8 },
    Rounds(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mixed {
    rpc: bool,
    max_queued: usize,
    ops: Vec<Op21>,
}

fn c21_strategy(_: Tier) -> BoxedStrategy<Mixed> {
    let bad = prop_oneof![
        2 => any::<u8>().prop_map(Bad::Garbage),
        1 => Just(Bad::Huge),
        2 => Just(Bad::Reset),
        1 => Just(Bad::ResetMidMessage),
        1 => Just(Bad::CloseMidMessage),
        1 => Just(Bad::StayMidMessage),
        2 => (1u8..40).prop_map(Bad::NeverRead),
        2 => Just(Bad::ConnectLeave),
        2 => Just(Bad::ConnectReset),
        1 => Just(Bad::HalfClose),
        1 => Just(Bad::Silent),
        1 => Just(Bad::Poison),
        1 => (0u8..3).prop_map(Bad::Upset),
    ];
    let op = prop_oneof![
        3 => Just(Op21::Good),
        6 => (any::<u8>(), 1u8..20, prop_oneof![4 => 0u16..100, 1 => 100u16..20_000]).prop_map(|(client, n, len)| Op21::Send { client, n, len }),
        5 => (0u8..4, any::<bool>(), bad).prop_map(|(n, settle, how)| Op21::Bad { n, settle, how }),
        2 => any::<u8>().prop_map(|client| Op21::Read { client }),
        3 => (1u8..10).prop_map(Op21::Rounds),
    ];
    (any::<bool>(), prop_oneof![Just(1usize), 2usize..8, Just(128usize)], vec(op, 3..24))
        .prop_map(|(rpc, max_queued, mut ops)| {
            ops.insert(0, Op21::Good);
            Mixed { rpc, max_queued, ops }
        })
        .boxed()
}

/// the reactor of a message server panics on this body
const UPSET: &[u8] = b"the reactor panics on this body";

pub(crate) struct EchoReactor {
    number: usize,
    log: Arc<Mutex<Vec<(usize, RMsg)>>>,
    forward: mpsc::UnboundedSender<RMsg>,
}
impl MessageReactor for EchoReactor {
    type Inbound = RMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = RMsg>) -> ReactorStatus {
        for m in messages {
            assert!(m.body != UPSET, "{EXPECTED_PANIC}");
            self.log.lock().unwrap().push((self.number, m.clone()));
            let _ = self.forward.send(m);
        }
        ReactorStatus::Continue
    }
}
pub(crate) struct EchoBindings;
impl ConnectionBindings for EchoBindings {
    type Deserializer = RCodec;
    type Serializer = RCodec;
    type Reactor = EchoReactor;
}
#[derive(Clone, Default)]
pub(crate) struct Echo {
    log: Arc<Mutex<Vec<(usize, RMsg)>>>,
    pub(crate) connections: Arc<AtomicUsize>,
}
impl ServerConnector for Echo {
    type Bindings = EchoBindings;
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn new_reactor(&self, outbound: mpsc::Sender<RMsg>) -> EchoReactor {
        let (forward, mut rx) = mpsc::unbounded_channel();
        tokio::spawn(async move {
            while let Some(m) = rx.recv().await {
                if outbound.send(m).await.is_err() {
                    break;
                }
            }
        });
        EchoReactor { number: self.connections.fetch_add(1, Ordering::SeqCst), log: self.log.clone(), forward }
    }
}

pub(crate) struct GoodClient {
    pub(crate) tag: u32,
    pub(crate) peer: Peer,
    pub(crate) out: Vec<u8>,
    pub(crate) sent: Vec<RMsg>,
    pub(crate) expect: Vec<RMsg>,
}

pub(crate) enum Server21 {
    Rpc(Arc<Mutex<server::Shared>>),
    Message(Echo),
}

pub(crate) struct World21 {
    pub(crate) s: Server21,
    pub(crate) addr: SocketAddr,
    pub(crate) task: tokio::task::JoinHandle<()>,
    pub(crate) good: Vec<GoodClient>,
    pub(crate) bad: Vec<Peer>,
    /// peers whose connections have to end
    pub(crate) lost: Vec<Peer>,
    pub(crate) tags: u32,
    pub(crate) serial: u32,
    pub(crate) owner: HashMap<u32, u32>,
    /// the server future is gone on purpose
    pub(crate) dropped: bool,
}

impl World21 {
    pub(crate) async fn start(rpc: bool, max_queued: usize) -> R<World21> {
        World21::start_at(free_addr()?, rpc, max_queued).await
    }

    pub(crate) async fn start_at(addr: SocketAddr, rpc: bool, max_queued: usize) -> R<World21> {
        let (s, task) = if rpc {
            let (sh, task) = server::start_server_at(addr, &server::Setup { max_buffer: 1 << 18, max_queued, small_window: false }).await?;
            (Server21::Rpc(sh), task)
        } else {
            let echo = Echo::default();
            let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), echo.clone()).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
            s.set_max_buffer_length(1 << 18);
            s.set_max_queued_outbound_messages(max_queued);
            let task = tokio::spawn(async move {
                let _ = s.await;
            });
            (Server21::Message(echo), task)
        };
        Ok(World21 { s, addr, task, good: vec![], bad: vec![], lost: vec![], tags: 0, serial: 0, owner: HashMap::new(), dropped: false })
    }

    fn tag(&mut self) -> u32 {
        self.tags += 1;
        self.tags
    }

    /// (request, reply)
    fn message(&mut self, tag: u32, len: usize) -> (RMsg, RMsg) {
        self.serial += 1;
        let serial = self.serial;
        self.owner.insert(serial, tag);
        let id = (tag as u64) << 32 | serial as u64;
        match &self.s {
            Server21::Rpc(sh) => {
                sh.lock().unwrap().plan(serial, Plan::UnaryNow, len);
                (RMsg { id, code: NORMAL, body: body(serial, 0, 0) }, server::answer(id, serial, 0, len))
            }
            Server21::Message(_) => {
                let m = RMsg { id, code: NORMAL, body: body(serial, 0, len) };
                (m.clone(), m)
            }
        }
    }

    fn dial(&self) -> R<Peer> {
        dial(self.addr).or_else(|e| {
            // nobody listens any more?
            self.running()?;
            Err(e)
        })
    }

    pub(crate) fn add_good(&mut self) -> R {
        let tag = self.tag();
        self.good.push(GoodClient { tag, peer: self.dial()?, out: vec![], sent: vec![], expect: vec![] });
        Ok(())
    }

    pub(crate) fn send(&mut self, i: usize, n: usize, len: usize) {
        for _ in 0..n {
            self.queue(i, len);
        }
        self.push(i);
    }

    pub(crate) fn queue(&mut self, i: usize, len: usize) {
        let tag = self.good[i].tag;
        let (req, rep) = self.message(tag, len);
        let g = &mut self.good[i];
        g.out.extend(frame(req.id, req.code, &req.body));
        g.sent.push(req);
        g.expect.push(rep);
    }

    pub(crate) fn push(&mut self, i: usize) {
        let g = &mut self.good[i];
        if let Some(n) = g.peer.write(&g.out) {
            g.out.drain(..n);
        }
    }

    async fn bad(&mut self, n: u8, settle: bool, how: &Bad) -> R {
        let tag = self.tag();
        let mut p = self.dial()?;
        let len = if let Bad::NeverRead(_) = how { 50_000 } else { 10 };
        let n = if let Bad::NeverRead(k) = how { *k } else { n };
        let mut out = vec![];
        for _ in 0..n {
            let (req, _) = self.message(tag, len);
            out.extend(frame(req.id, req.code, &req.body));
        }
        if !matches!(how, Bad::ConnectLeave | Bad::ConnectReset) {
            p.write(&out);
        }
        if settle {
            rounds(6).await;
        }
        let (req, _) = self.message(tag, 30);
        let whole = frame(req.id, req.code, &req.body);
        match how {
            Bad::Garbage(k) => {
                // a frame whose length is impossible, then noise
                let mut g = vec![0, 0, 0, *k % 9];
                g.extend((0..*k).map(|x| x.wrapping_mul(37)));
                p.write(&g);
                self.bad.push(p);
            }
            Bad::Huge => {
                p.write(&[0xff, 0xff, 0xff, 0xf0, 0, 0, 0]);
                self.bad.push(p);
            }
            Bad::Reset | Bad::ConnectReset => p.reset(),
            Bad::ResetMidMessage => {
                p.write(&whole[..whole.len() / 2]);
                p.reset();
            }
            Bad::CloseMidMessage => {
                p.write(&whole[..whole.len() / 2]);
                p.close();
            }
            Bad::StayMidMessage => {
                p.write(&whole[..whole.len() - 1]);
                self.bad.push(p);
            }
            Bad::NeverRead(_) | Bad::Silent => self.bad.push(p),
            Bad::ConnectLeave => p.close(),
            Bad::Poison => {
                p.write(&frame(req.id, NORMAL, POISON));
                self.lost.push(p);
            }
            Bad::Upset(k) => {
                if let Server21::Rpc(sh) = &self.s {
                    sh.lock().unwrap().plan(self.serial, [Plan::PanicInNew, Plan::PanicInUnary, Plan::PanicInStream][*k as usize % 3], 0);
                    p.write(&whole);
                } else {
                    p.write(&frame(req.id, NORMAL, UPSET));
                }
                self.lost.push(p);
            }
            Bad::HalfClose => {
                p.half_close();
                self.bad.push(p);
            }
        }
        Ok(())
    }

    pub(crate) fn running(&self) -> R {
        check!(self.dropped || !self.task.is_finished(), "the server stopped");
        Ok(())
    }

    /// Every well-behaved client has got exactly its replies.
    pub(crate) async fn all_served(&mut self, rpc: bool) -> R {
        for i in 0..self.good.len() {
            let (task, dropped) = (&self.task, self.dropped);
            let g = &mut self.good[i];
            wait_for(
                || format!("client {} got {} of {} replies", g.tag, g.peer.frames.len(), g.expect.len()),
                // (borrowed again below)
                || Ok(Some(())),
            )
            .await?;
            let start = Instant::now();
            let mut n = 0;
            loop {
                if let Some(k) = g.peer.write(&g.out) {
                    g.out.drain(..k);
                }
                g.peer.pump();
                check!(dropped || !task.is_finished(), "the server stopped");
                check!(g.peer.end == ReadEnd::Open, "well-behaved client {} was disconnected", g.tag);
                check!(g.peer.frames.len() <= g.expect.len(), "client {} got {} replies to {} messages: {}", g.tag, g.peer.frames.len(), g.expect.len(), describe_all(&g.peer.frames));
                if g.peer.frames.len() == g.expect.len() {
                    break;
                }
                n += 1;
                if n < 300 {
                    rounds(1).await;
                } else {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    if n > 1000 && start.elapsed() > crate::runner::stall_bound() {
                        return Err(Fail::Stall(format!("well-behaved client {} got only {} of {} replies", g.tag, g.peer.frames.len(), g.expect.len())));
                    }
                }
            }
            if let (Server21::Rpc(sh), Some(Ok(a))) = (&self.s, g.peer.sock.as_ref().map(|s| s.local_addr())) {
                check!(g.expect.is_empty() || sh.lock().unwrap().addresses.contains(&a), "no service was made for client {} at {a}", g.tag);
            }
            if rpc {
                let mut got: Vec<&RMsg> = g.peer.frames.iter().collect();
                let mut want: Vec<&RMsg> = g.expect.iter().collect();
                got.sort_by_key(|m| m.id);
                want.sort_by_key(|m| m.id);
                check!(got == want, "client {} got other replies than its own", g.tag);
            } else {
                check!(g.peer.frames == g.expect, "client {} got {} instead of {}", g.tag, describe_all(&g.peer.frames), describe_all(&g.expect));
            }
        }
        // every connection's reactor or service saw one client only, and all of that client's messages are there
        let log: Vec<(usize, RMsg)> = match &self.s {
            Server21::Rpc(sh) => sh.lock().unwrap().started.clone(),
            Server21::Message(e) => e.log.lock().unwrap().clone(),
        };
        let mut client_of: BTreeMap<usize, u32> = BTreeMap::new();
        let mut conn_of: BTreeMap<u32, usize> = BTreeMap::new();
        let mut per: HashMap<u32, Vec<RMsg>> = HashMap::new();
        for (conn, m) in log {
            let tag = server::serial_of(&m).and_then(|s| self.owner.get(&s)).copied();
            let Some(tag) = tag else { return violation(format!("connection {conn} saw a message nobody sent: {}", describe(&m))) };
            let other = *client_of.entry(conn).or_insert(tag);
            check!(other == tag, "one reactor or service saw messages of clients {other} and {tag}");
            let other = *conn_of.entry(tag).or_insert(conn);
            check!(other == conn, "messages of client {tag} went to reactors or services {other} and {conn}");
            per.entry(tag).or_default().push(m);
        }
        for g in &self.good {
            let seen = per.remove(&g.tag).unwrap_or_default();
            check!(seen == g.sent, "the server saw {} of client {} that sent {}", describe_all(&seen), g.tag, describe_all(&g.sent));
        }
        Ok(())
    }
}

fn c21_run(c: &Mixed, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut w = World21::start(c.rpc, c.max_queued).await?;
        ctx.label(if c.rpc { "rpc server" } else { "message server" });
        for op in &c.ops {
            match op {
                Op21::Good => w.add_good()?,
                Op21::Send { client, n, len } => {
                    let i = *client as usize % w.good.len();
                    w.send(i, *n as usize, *len as usize);
                }
                Op21::Bad { n, settle, how } => {
                    for g in w.good.iter_mut() {
                        g.peer.pump();
                    }
                    ctx.nontrivial |= w.good.iter().any(|g| g.peer.frames.len() < g.expect.len());
                    w.bad(*n, *settle, how).await?;
                }
                Op21::Read { client } => {
                    let i = *client as usize % w.good.len();
                    w.good[i].peer.pump();
                    w.push(i);
                }
                Op21::Rounds(n) => rounds(*n as usize).await,
            }
            w.running()?;
        }
        w.all_served(c.rpc).await?;
        w.add_good()?;
        let last = w.good.len() - 1;
        for i in [last, 0] {
            w.send(i, 2, 40);
        }
        w.all_served(c.rpc).await?;
        for p in w.lost.iter_mut() {
            wait_for(|| "the connection on which the application panicked stays open".into(), || {
                p.pump();
                Ok((p.end != ReadEnd::Open).then_some(()))
            })
            .await?;
            ctx.label("application panic");
        }
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Exhaustion {
    rpc: bool,
    clients: u8,
    spare: u8,
    rounds: u8,
    /// clients that give up while the server cannot accept
    leave: u8,
}

fn c21_ex_strategy(_: Tier) -> BoxedStrategy<Exhaustion> {
    (any::<bool>(), 2u8..40, 0u8..8, 1u8..60, 0u8..4).prop_map(|(rpc, clients, spare, rounds, leave)| Exhaustion { rpc, clients, spare, rounds, leave }).boxed()
}

struct FdLimit(libc::rlimit);
impl FdLimit {
    fn lower_to_open_plus(spare: usize) -> R<FdLimit> {
        // the limit is on the descriptor's number and the lowest free one is handed out: leave exactly `spare` free
        let mut free = 0;
        let mut limit = 0u64;
        loop {
            // SAFETY: asks about a descriptor, open or not
            if unsafe { libc::fcntl(limit as i32, libc::F_GETFD) } < 0 {
                if free == spare {
                    break;
                }
                free += 1;
            }
            limit += 1;
        }
        let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        // SAFETY: plain rlimit calls
        unsafe {
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let new = libc::rlimit { rlim_cur: limit, rlim_max: old.rlim_max };
            if libc::setrlimit(libc::RLIMIT_NOFILE, &new) != 0 {
                return Err(Fail::Harness("setrlimit".into()));
            }
        }
        Ok(FdLimit(old))
    }
}
impl Drop for FdLimit {
    fn drop(&mut self) {
        // SAFETY: plain rlimit call
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

fn c21_ex_run(c: &Exhaustion, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut w = World21::start(c.rpc, 8).await?;
        // they are all connected as far as the kernel is concerned; nobody has been accepted yet
        for _ in 0..c.clients {
            w.add_good()?;
        }
        let n = w.good.len();
        for i in 0..n {
            w.send(i, 1, 20);
        }
        {
            let _limit = FdLimit::lower_to_open_plus(c.spare as usize)?;
            for _ in 0..c.rounds {
                rounds(1).await;
                w.running()?;
            }
            for _ in 0..(c.leave as usize).min(n - 1) {
                let mut g = w.good.pop().expect("enough");
                g.peer.reset();
            }
            rounds(3).await;
        }
        ctx.nontrivial = c.clients > c.spare + c.leave;
        w.running()?;
        w.all_served(c.rpc).await?;
        w.add_good()?;
        let last = w.good.len() - 1;
        w.send(last, 3, 10);
        w.all_served(c.rpc).await
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crowd {
    rpc: bool,
    /// how many arrive, executor rounds before they are heard, how many of all leave afterwards and how
    groups: Vec<(u16, u8, u16, bool)>,
}

fn crowd_strategy(_: Tier) -> BoxedStrategy<Crowd> {
    let group = (prop_oneof![1u16..20, 20u16..120, 120u16..300], 0u8..10, prop_oneof![Just(0u16), 0u16..300], any::<bool>());
    (any::<bool>(), vec(group, 1..6)).prop_map(|(rpc, groups)| Crowd { rpc, groups }).boxed()
}

fn crowd_run(c: &Crowd, ctx: &mut Ctx) -> R {
    let mut fds = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    // SAFETY: plain rlimit call
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut fds) };
    // two descriptors for each client, four cases at a time
    let most = ((fds.rlim_cur as usize).saturating_sub(200) / 8).min(700);
    block_on(async {
        let mut w = World21::start(c.rpc, 8).await?;
        for (come, settle, leave, reset) in &c.groups {
            for _ in 0..*come {
                if w.good.len() < most {
                    w.add_good()?;
                }
            }
            rounds(*settle as usize).await;
            for i in 0..w.good.len() {
                w.send(i, 1, 20);
            }
            w.running()?;
            w.all_served(c.rpc).await?;
            ctx.nontrivial |= w.good.len() > 100;
            for _ in 0..(*leave as usize).min(w.good.len() - 1) {
                let mut g = w.good.swap_remove(w.good.len() / 2);
                if *reset {
                    g.peer.reset();
                } else {
                    g.peer.close();
                }
            }
        }
        for i in 0..w.good.len() {
            w.send(i, 2, 20);
        }
        w.all_served(c.rpc).await
    })
}

// ------------------------------------------------------------------------------------------ C24

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Mode {
    Now,
    Yield,
    Spawned,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum GiveUp {
    No,
    AtOnce,
    /// after so many scheduler turns
    Turns(u8),
    /// streams: after so many items
    Items(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CallSpec {
    stream: bool,
    items: u8,
    len: u32,
    mode: Mode,
    /// the service never completes it; only when the caller gives up
    hang: bool,
    give_up: GiveUp,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Workload {
    threads: usize,
    connections: u8,
    client_queue: usize,
    server_queue: usize,
    window: u8,
    callers: Vec<Vec<CallSpec>>,
}

fn c24_strategy(_: Tier) -> BoxedStrategy<Workload> {
    let call = (
        any::<bool>(),
        prop_oneof![3 => 0u8..5, 1 => 5u8..80],
        prop_oneof![6 => 0u32..200, 2 => 200u32..8_000, 1 => 8_000u32..150_000],
        prop::sample::select(vec![Mode::Now, Mode::Yield, Mode::Spawned]),
        prop::bool::weighted(0.5),
        prop_oneof![5 => Just(GiveUp::No), 1 => Just(GiveUp::AtOnce), 1 => (0u8..20).prop_map(GiveUp::Turns), 1 => (0u8..6).prop_map(GiveUp::Items)],
    )
        .prop_map(|(stream, items, len, mode, hang, give_up)| CallSpec {
            stream,
            items,
            len: if items > 20 { len.min(4_000) } else { len },
            mode,
            hang: hang && !matches!(give_up, GiveUp::No),
            give_up,
        });
    let q = || prop_oneof![2 => Just(1usize), 2 => 2usize..8, 2 => Just(1024usize)];
    (1usize..6, 1u8..4, q(), q(), 1u8..8, vec(vec(call, 1..25), 1..7))
        .prop_map(|(threads, connections, client_queue, server_queue, window, callers)| Workload { threads, connections, client_queue, server_queue, window, callers })
        .boxed()
}

fn fill(seed: u64, index: u32, len: usize) -> Vec<u8> {
    let mut b = seed.to_be_bytes().to_vec();
    b.extend(index.to_be_bytes());
    b.resize(12 + len, (seed as u8).wrapping_mul(31) ^ index as u8);
    b
}

fn encode_spec(s: &CallSpec, hang: bool, seed: u64) -> Vec<u8> {
    let mut b = vec![s.stream as u8, s.items, s.mode as u8, hang as u8];
    b.extend(s.len.to_be_bytes());
    b.extend(seed.to_be_bytes());
    b
}

struct Live(Arc<AtomicI64>);
impl Live {
    fn new(n: &Arc<AtomicI64>) -> Live {
        n.fetch_add(1, Ordering::SeqCst);
        Live(n.clone())
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Default)]
struct Calc {
    rpcs: Arc<AtomicI64>,
    services: Arc<AtomicI64>,
}
struct CalcConnection {
    rpcs: Arc<AtomicI64>,
    _live: Live,
}
impl SocketService for Calc {
    type RequestDeserializer = RCodec;
    type ResponseSerializer = RCodec;
    type ConnectionService = CalcConnection;
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn new_connection_service(&self, _: SocketAddr) -> CalcConnection {
        CalcConnection { rpcs: self.rpcs.clone(), _live: Live::new(&self.services) }
    }
}

/// Keeps the RPC counted as long as the server holds it.
struct Held<T> {
    inner: T,
    _live: Live,
}
impl<T: Future + Unpin> Future for Held<T> {
    type Output = T::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T::Output> {
        self.inner.poll_unpin(cx)
    }
}
impl<T: Stream + Unpin> Stream for Held<T> {
    type Item = T::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T::Item>> {
        self.inner.poll_next_unpin(cx)
    }
}

impl ConnectionService for CalcConnection {
    type Request = RMsg;
    type Response = RMsg;
    type UnaryFutureType = Held<BoxFuture<'static, RMsg>>;
    type StreamType = Held<BoxStream<'static, RMsg>>;
    fn new_rpc(&mut self, m: RMsg) -> RpcKind<Self::UnaryFutureType, Self::StreamType> {
        let b = &m.body;
        if b.len() != 16 {
            return RpcKind::Unknown;
        }
        let (stream, items, mode, hang) = (b[0] == 1, b[1] as u32, b[2], b[3] == 1);
        let len = u32::from_be_bytes(b[4..8].try_into().expect("4")) as usize;
        let seed = u64::from_be_bytes(b[8..16].try_into().expect("8"));
        let id = m.id;
        let live = Live::new(&self.rpcs);
        let item = move |i: u32| RMsg { id, code: NORMAL, body: fill(seed, i, len) };
        if stream {
            let s: BoxStream<'static, RMsg> = match mode {
                0 => futures::stream::iter((0..items).map(item)).boxed(),
                1 => futures::stream::iter((0..items).map(item))
                    .then(|m| async move {
                        tokio::task::yield_now().await;
                        m
                    })
                    .boxed(),
                _ => {
                    let (tx, rx) = mpsc::channel(2);
                    tokio::spawn(async move {
                        for i in 0..items {
                            if tx.send(item(i)).await.is_err() {
                                return;
                            }
                        }
                        if hang {
                            tx.closed().await;
                        }
                    });
                    futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|m| (m, rx)) }).boxed()
                }
            };
            let s = if hang && mode < 2 { s.chain(futures::stream::pending()).boxed() } else { s };
            RpcKind::Streaming(Held { inner: s, _live: live })
        } else {
            let f: BoxFuture<'static, RMsg> = if hang {
                futures::future::pending().boxed()
            } else {
                match mode {
                    0 => futures::future::ready(item(0)).boxed(),
                    1 => async move {
                        for _ in 0..3 {
                            tokio::task::yield_now().await;
                        }
                        item(0)
                    }
                    .boxed(),
                    _ => {
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        tokio::spawn(async move {
                            tokio::task::yield_now().await;
                            let _ = tx.send(item(0));
                        });
                        async move { rx.await.expect("the task sends") }.boxed()
                    }
                }
            };
            RpcKind::Unary(Held { inner: f, _live: live })
        }
    }
}

/// A hang of this length on an otherwise idle multi-threaded runtime is a hang.
const HANG: Duration = Duration::from_secs(45);

static RUNTIMES: AtomicUsize = AtomicUsize::new(0);

fn on_threads<T>(threads: usize, f: impl Future<Output = R<T>>) -> R<T> {
    let prefix = format!("e2e{}-", RUNTIMES.fetch_add(1, Ordering::SeqCst));
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .thread_name(prefix.clone())
        .enable_all()
        .build()
        .map_err(|e| Fail::Harness(e.to_string()))?;
    let r = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_secs(10));
    let panics = take_panics_of_threads(&prefix);
    if !panics.is_empty() && !matches!(r, Err(Fail::Harness(_))) {
        return violation(format!("panic: {}", panics.join(" | ")));
    }
    r
}

async fn one_call(client: crate::client::Client, id: u64, seed: u64, s: CallSpec, hang: bool) -> R<bool> {
    let request = RMsg { id, code: NORMAL, body: encode_spec(&s, hang, seed) };
    let want = |i: u32| RMsg { id, code: NORMAL, body: fill(seed, i, s.len as usize) };
    let name = format!("call {id:#x} ({s:?})");
    if s.stream {
        let mut st = client.send_streaming(request).await.map_err(|e| Fail::Violation(format!("{name} could not be sent: {e}")))?;
        let upto = match s.give_up {
            GiveUp::No => usize::MAX,
            GiveUp::AtOnce => 0,
            GiveUp::Turns(n) => {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
                0
            }
            GiveUp::Items(n) => (n as usize).min(s.items as usize),
        };
        let mut n = 0u32;
        while (n as usize) < upto {
            match st.next().await {
                Some(Ok(m)) => {
                    check!(n < s.items as u32, "{name}: an item too many: {}", describe(&m));
                    check!(m == want(n), "{name}: item {n} is {} instead of {}", describe(&m), describe(&want(n)));
                    n += 1;
                }
                Some(Err(Error::Finished)) => {
                    check!(n == s.items as u32, "{name} finished after {n} of {} items", s.items);
                    check!(st.next().await.is_none(), "{name} goes on after its end");
                    return Ok(true);
                }
                Some(Err(e)) => return violation(format!("{name} failed after {n} items: {e}")),
                None => return violation(format!("{name} is over after {n} items without saying so")),
            }
        }
        Ok(false)
    } else {
        let mut u = client.send_unary(request).await.map_err(|e| Fail::Violation(format!("{name} could not be sent: {e}")))?;
        let turns = match s.give_up {
            GiveUp::No => {
                return match u.await {
                    Ok(m) if m == want(0) => Ok(true),
                    Ok(m) => violation(format!("{name} returned {} instead of {}", describe(&m), describe(&want(0)))),
                    Err(e) => violation(format!("{name} failed: {e}")),
                }
            }
            GiveUp::AtOnce => 0,
            GiveUp::Turns(n) => n,
            GiveUp::Items(n) => n,
        };
        for _ in 0..turns {
            match futures::poll!(&mut u) {
                Poll::Ready(Ok(m)) if m == want(0) => return Ok(true),
                Poll::Ready(Ok(m)) => return violation(format!("{name} returned {} instead of {}", describe(&m), describe(&want(0)))),
                Poll::Ready(Err(e)) => return violation(format!("{name} failed: {e}")),
                Poll::Pending => tokio::task::yield_now().await,
            }
        }
        Ok(false)
    }
}

/// Many callers repeating a short pattern of quick calls on one connection.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hammer {
    threads: usize,
    callers: u8,
    window: u8,
    client_queue: usize,
    server_queue: usize,
    pattern: Vec<CallSpec>,
    repeat: u8,
}

fn c24_hammer_strategy(_: Tier) -> BoxedStrategy<Hammer> {
    let call = (
        prop::bool::weighted(0.3),
        0u8..4,
        0u32..40,
        prop::sample::select(vec![Mode::Now, Mode::Now, Mode::Yield]),
        prop_oneof![5 => Just(GiveUp::No), 1 => Just(GiveUp::AtOnce), 1 => (0u8..4).prop_map(GiveUp::Turns)],
    )
        .prop_map(|(stream, items, len, mode, give_up)| CallSpec { stream, items, len, mode, hang: false, give_up });
    let q = || prop_oneof![1 => 1usize..8, 2 => Just(64usize), 2 => Just(1024usize)];
    (2usize..9, 4u8..64, 1u8..4, q(), q(), vec(call, 1..5), 20u8..60)
        .prop_map(|(threads, callers, window, client_queue, server_queue, pattern, repeat)| Hammer { threads, callers, window, client_queue, server_queue, pattern, repeat })
        .boxed()
}

fn c24_hammer_run(h: &Hammer, ctx: &mut Ctx) -> R {
    let one: Vec<CallSpec> = (0..h.repeat).flat_map(|_| h.pattern.iter().cloned()).collect();
    let w = Workload { threads: h.threads, connections: 1, client_queue: h.client_queue, server_queue: h.server_queue, window: h.window, callers: vec![one; h.callers as usize] };
    ctx.nontrivial = true;
    on_threads(w.threads, c24(&w))
}

fn c24_run(c: &Workload, ctx: &mut Ctx) -> R {
    let calls: usize = c.callers.iter().map(|v| v.len()).sum();
    ctx.nontrivial = c.callers.len() as u8 * c.window >= 4 && calls >= 4;
    ctx.label_if(c.callers.iter().flatten().any(|s| s.hang), "given up while the service hangs");
    ctx.label_if(c.connections > 1, "several connections");
    on_threads(c.threads, c24(c))
}

async fn c24(c: &Workload) -> R {
    let calc = Calc::default();
    let addr = free_addr()?;
    let mut s = SocketRpcServer::new(addr, calc.clone()).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
    s.set_max_buffer_length(1 << 20);
    s.set_max_queued_outbound_messages(c.server_queue);
    let server = tokio::spawn(async move {
        let _ = s.await;
    });
    let mut cfg = Configuration::default();
    cfg.max_buffer_length(1 << 20);
    cfg.max_queued_outbound_messages(c.client_queue);
    let mut clients = vec![];
    for _ in 0..c.connections {
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        tokio::spawn(conn);
        clients.push(client);
    }
    let mut tasks = vec![];
    for (k, specs) in c.callers.iter().enumerate() {
        let client = clients[k % clients.len()].clone();
        let specs = specs.clone();
        let window = c.window as usize;
        // a cancel is only promised when the queue has room
        let may_hang = c.client_queue >= 1024;
        tasks.push(tokio::spawn(async move {
            let mut running: Vec<Option<tokio::task::JoinHandle<R<bool>>>> = (0..window).map(|_| None).collect();
            let mut ids: Vec<u64> = (0..window as u64).map(|w| (k as u64) << 40 | w << 20).collect();
            for (n, s) in specs.into_iter().enumerate() {
                let slot = n % window;
                if let Some(t) = running[slot].take() {
                    match t.await {
                        // finished: the id is used again
                        Ok(Ok(true)) => {}
                        // given up: late responses may still be on their way
                        Ok(Ok(false)) => ids[slot] += 1,
                        Ok(Err(e)) => return Err(e),
                        Err(e) => return violation(format!("a caller died: {e}")),
                    }
                }
                let hang = s.hang && may_hang;
                let seed = ids[slot] << 8 | n as u64;
                running[slot] = Some(tokio::spawn(one_call(client.clone(), ids[slot], seed, s, hang)));
            }
            for t in running.into_iter().flatten() {
                match t.await {
                    Ok(r) => {
                        r?;
                    }
                    Err(e) => return violation(format!("a caller died: {e}")),
                }
            }
            Ok(())
        }));
    }
    let deadline = tokio::time::Instant::now() + HANG;
    for t in tasks {
        match tokio::time::timeout_at(deadline, t).await {
            Err(_) => return violation(format!("calls did not finish within {HANG:?}")),
            Ok(Err(e)) => return violation(format!("a caller died: {e}")),
            Ok(Ok(r)) => r?,
        }
    }
    for cl in &clients {
        check!(cl.is_alive(), "a client lost its connection");
    }
    zero(&calc.rpcs, "all calls are done but the server still holds rpcs").await?;
    drop(clients);
    zero(&calc.services, "all clients are gone but the server still holds connection services").await?;
    check!(!server.is_finished(), "the server stopped");
    server.abort();
    Ok(())
}

async fn zero(n: &AtomicI64, what: &str) -> R {
    let start = Instant::now();
    while n.load(Ordering::SeqCst) != 0 {
        if start.elapsed() > HANG {
            return violation(format!("{what}: {}", n.load(Ordering::SeqCst)));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25

#[derive(Clone, PartialEq, prost::Message)]
struct Note {
    #[prost(uint32, tag = "1")]
    conn: u32,
    #[prost(uint32, tag = "2")]
    sender: u32,
    #[prost(uint32, tag = "3")]
    seq: u32,
    #[prost(bytes, tag = "4")]
    data: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stream25 {
    threads: usize,
    client_queue: usize,
    server_queue: usize,
    /// the senders go away as soon as the last message is accepted
    drop_early: bool,
    /// replies per message
    replies: u8,
    /// the server gives its senders away when it has got (and answered) everything; otherwise the clients end it
    #[serde(default)]
    hang_up: bool,
    /// per connection, per sender: (size, pause)
    connections: Vec<Vec<Vec<(u32, u8)>>>,
}

fn c25_strategy(_: Tier) -> BoxedStrategy<Stream25> {
    let msg = (prop_oneof![6 => 0u32..200, 2 => 200u32..9_000, 1 => 9_000u32..120_000], prop_oneof![6 => Just(0u8), 1 => 1u8..10]);
    let q = || prop_oneof![2 => Just(1usize), 2 => 2usize..8, 1 => Just(256usize)];
    (1usize..6, q(), q(), any::<bool>(), 0u8..3, any::<bool>(), vec(vec(vec(msg, 1..40), 1..5), 1..4))
        .prop_map(|(threads, client_queue, server_queue, drop_early, replies, hang_up, connections)| {
            // a client that leaves with unread replies resets the connection, and the server may
            // then lose what it has not read yet: no TCP program can prevent that
            let replies = if drop_early { 0 } else { replies };
            Stream25 { threads, client_queue, server_queue, drop_early, replies, hang_up: hang_up && !drop_early, connections }
        })
        .boxed()
}

type Notes = Arc<Mutex<Vec<(usize, Note)>>>;

struct NoteReactor {
    number: usize,
    log: Notes,
    forward: Option<mpsc::UnboundedSender<Note>>,
    /// messages per connection after which the server hangs up
    quota: Vec<usize>,
    got: usize,
    _live: Live,
}
impl MessageReactor for NoteReactor {
    type Inbound = Note;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Note>) -> ReactorStatus {
        let mut log = self.log.lock().unwrap();
        for m in messages {
            if let Some(f) = &self.forward {
                let _ = f.send(m.clone());
            }
            self.got += 1;
            if self.quota.get(m.conn as usize) == Some(&self.got) {
                self.forward = None;
            }
            log.push((self.number, m));
        }
        ReactorStatus::Continue
    }
}
struct NoteServer {
    log: Notes,
    next: AtomicUsize,
    replies: u8,
    quota: Vec<usize>,
    live: Arc<AtomicI64>,
}
impl ServerConnector for NoteServer {
    type Bindings = ProstServerConnectionBindings<Note, Note, NoteReactor>;
    fn serializer(&self) -> ProstSerializer<Note, Note> {
        ProstSerializer::default()
    }
    fn deserializer(&self) -> ProstSerializer<Note, Note> {
        ProstSerializer::default()
    }
    fn new_reactor(&self, outbound: mpsc::Sender<Note>) -> NoteReactor {
        let (tx, mut rx) = mpsc::unbounded_channel::<Note>();
        let replies = self.replies;
        tokio::spawn(async move {
            while let Some(m) = rx.recv().await {
                for _ in 0..replies {
                    if outbound.send(m.clone()).await.is_err() {
                        return;
                    }
                }
            }
        });
        NoteReactor { number: self.next.fetch_add(1, Ordering::SeqCst), log: self.log.clone(), forward: Some(tx), quota: self.quota.clone(), got: 0, _live: Live::new(&self.live) }
    }
}

fn c25_run(c: &Stream25, ctx: &mut Ctx) -> R {
    let senders: usize = c.connections.iter().map(|v| v.len()).sum();
    let messages: usize = c.connections.iter().flatten().map(|v| v.len()).sum();
    ctx.nontrivial = senders >= 2 && messages >= 20;
    ctx.label_if(c.drop_early, "senders dropped at once");
    ctx.label_if(c.hang_up, "the server hangs up");
    ctx.label_if(c.connections.len() > 1, "several connections");
    on_threads(c.threads, c25(c))
}

async fn c25(c: &Stream25) -> R {
    let addr = free_addr()?;
    let server_log: Notes = Arc::default();
    let (server_side, client_side) = (Arc::new(AtomicI64::new(0)), Arc::new(AtomicI64::new(0)));
    let quota = if c.hang_up { c.connections.iter().map(|v| v.iter().map(|s| s.len()).sum()).collect() } else { vec![] };
    let connector = NoteServer { log: server_log.clone(), next: AtomicUsize::new(0), replies: c.replies, quota, live: server_side.clone() };
    let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), connector).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
    s.set_max_buffer_length(1 << 20);
    s.set_max_queued_outbound_messages(c.server_queue);
    let server = tokio::spawn(async move {
        let _ = s.await;
    });
    let mut registry = ClientRegistry::new(tokio::runtime::Handle::current());
    registry.set_max_read_buffer_length(1 << 20);
    registry.set_max_queued_outbound_messages(c.client_queue);
    let client_log: Notes = Arc::default();
    let mut keep = vec![];
    let mut tasks = vec![];
    for (k, senders) in c.connections.iter().enumerate() {
        let reactor = NoteReactor { number: k, log: client_log.clone(), forward: None, quota: vec![], got: 0, _live: Live::new(&client_side) };
        let tx: mpsc::Sender<Note> = registry.register_client(addr.to_string(), reactor).await.map_err(|e| Fail::Harness(format!("register: {e}")))?;
        for (j, msgs) in senders.iter().enumerate() {
            let (tx, msgs) = (tx.clone(), msgs.clone());
            tasks.push(tokio::spawn(async move {
                for (n, (len, pause)) in msgs.into_iter().enumerate() {
                    for _ in 0..pause {
                        tokio::task::yield_now().await;
                    }
                    let note = Note { conn: k as u32, sender: j as u32, seq: n as u32, data: vec![(k * 7 + j * 3 + n) as u8; len as usize] };
                    if tx.send(note).await.is_err() {
                        return violation(format!("connection {k} stopped accepting messages"));
                    }
                }
                Ok(())
            }));
        }
        if !c.drop_early {
            keep.push(tx);
        }
    }
    let deadline = tokio::time::Instant::now() + HANG;
    for t in tasks {
        match tokio::time::timeout_at(deadline, t).await {
            Err(_) => return violation(format!("messages were not accepted within {HANG:?}")),
            Ok(Err(e)) => return violation(format!("a sender died: {e}")),
            Ok(Ok(r)) => r?,
        }
    }
    let total: usize = c.connections.iter().flatten().map(|v| v.len()).sum();
    let start = Instant::now();
    loop {
        let n = server_log.lock().unwrap().len();
        let m = client_log.lock().unwrap().len();
        if n >= total && (c.drop_early || m >= total * c.replies as usize) {
            break;
        }
        if start.elapsed() > HANG {
            return violation(format!("only {n} of {total} messages reached the server, {m} of {} replies came back (senders {})", total * c.replies as usize, if c.drop_early { "dropped" } else { "kept" }));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    // nothing more comes
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    let log = server_log.lock().unwrap().clone();
    check_notes(c, &log, 1, true, "the server")?;
    let mut conns: BTreeMap<usize, HashSet<u32>> = BTreeMap::new();
    for (number, m) in &log {
        conns.entry(*number).or_default().insert(m.conn);
    }
    check!(conns.len() == c.connections.len() && conns.values().all(|s| s.len() == 1), "messages of several connections met in one reactor: {conns:?}");
    let replies = client_log.lock().unwrap().clone();
    check!(replies.iter().all(|(number, m)| *number == m.conn as usize), "a reply went to the wrong connection");
    check_notes(c, &replies, c.replies as usize, !c.drop_early, "the clients")?;
    // the end of one side's senders is the end of the connection, on both sides
    if c.hang_up {
        zero(&server_side, "message server reactors remain after the server's senders were dropped").await?;
        zero(&client_side, "client reactors remain after the server ended their connections").await?;
        for tx in &keep {
            if tokio::time::timeout(HANG, tx.closed()).await.is_err() {
                return violation("a client's queue still accepts messages after its connection ended");
            }
        }
    }
    drop(keep);
    zero(&client_side, "client reactors remain after all senders were dropped").await?;
    zero(&server_side, "message server reactors remain after all clients are gone").await?;
    check!(!server.is_finished(), "the server stopped");
    server.abort();
    Ok(())
}

/// Every message `copies` times, in order per sender, with its own contents.
fn check_notes(c: &Stream25, log: &[(usize, Note)], copies: usize, complete: bool, who: &str) -> R {
    let mut next: HashMap<(u32, u32), usize> = HashMap::new();
    for (_, m) in log {
        let n = next.entry((m.conn, m.sender)).or_default();
        let want = *n / copies.max(1);
        check!(copies > 0, "{who} got a message nobody sent");
        check!(m.seq as usize == want, "{who} got message {} of sender {}/{} where message {want} was due", m.seq, m.conn, m.sender);
        let spec = c.connections.get(m.conn as usize).and_then(|s| s.get(m.sender as usize)).and_then(|s| s.get(m.seq as usize));
        let Some((len, _)) = spec else { return violation(format!("{who} got a message nobody sent")) };
        let byte = (m.conn as usize * 7 + m.sender as usize * 3 + m.seq as usize) as u8;
        check!(m.data.len() == *len as usize && m.data.iter().all(|b| *b == byte), "{who} got message {} of sender {}/{} with other contents", m.seq, m.conn, m.sender);
        *n += 1;
    }
    if complete {
        for (k, senders) in c.connections.iter().enumerate() {
            for (j, msgs) in senders.iter().enumerate() {
                let got = next.get(&(k as u32, j as u32)).copied().unwrap_or(0);
                check!(got == msgs.len() * copies, "{who} got {got} of {} messages of sender {k}/{j}", msgs.len() * copies);
            }
        }
    }
    Ok(())
}
