//! C30, C31: how servers and clients come up and go away, and where their connections run.

use std::collections::BTreeSet;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_prost::{ClientRegistry, ProstSerializer, ProstServerConnectionBindings};
use protosocket_rpc::client::{connect, Configuration};
use protosocket_rpc::server::SocketRpcServer;
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;

use crate::check;
use crate::e2e_props::{Echo, Server21, World21};
use crate::rpc::*;
use crate::rt::{block_on, rounds, wait_for};
use crate::runner::{stall_bound, violation, Ctx, Fail, Property, Suite, Tier, R};
use crate::server;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C30",
            rule: "a case is a server kind and a history of clients that connect and send, of attempts to listen on the same address or to connect where nobody listens, and of the point at which the server future is dropped (and perhaps another server started on its address); non-trivial: a client had unanswered messages or a half-sent message when the server future was dropped; addresses: the library's clients connect to the library's servers over IPv4 and IPv6 and exchange messages (non-trivial: more than one client)",
            suites: vec![
                Box::new(Suite { name: "histories", strategy: c30_strategy, run: c30_run, quick: 60_000, thorough: 300_000, workers: 8 }),
                Box::new(Suite { name: "addresses", strategy: address_strategy, run: address_run, quick: 6_000, thorough: 60_000, workers: 8 }),
            ],
        },
        Property {
            id: "C31",
            rule: "a case is which of two runtimes drives a message server or registers clients, which one is handed to them, and a number of connections and messages; non-trivial: the two differ and a message arrived",
            suites: vec![Box::new(Suite { name: "runtimes", strategy: c31_strategy, run: c31_run, quick: 5_000, thorough: 15_000, workers: 4 })],
        },
    ]
}

// ------------------------------------------------------------------------------------------ C30

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op30 {
    Good,
    Send { client: u8, n: u8, len: u16 },
    /// the first bytes of a message
    Half { client: u8, len: u16, at: u8 },
    Read { client: u8 },
    Rounds(u8),
    /// listen on the same address with this kind of server
    Bind(bool),
    /// connect with the library's clients to an address where nobody listens
    Refused(bool),
    /// register a client with something that is no address
    NoAddress(String),
    /// a client of the new server on the same address
    Successor,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Life {
    rpc: bool,
    #[serde(default)]
    v6: bool,
    max_queued: usize,
    before: Vec<Op30>,
    /// executor rounds between the last operation and the drop
    settle: u8,
    after: Vec<Op30>,
}

fn c30_strategy(_: Tier) -> BoxedStrategy<Life> {
    let op = || {
        prop_oneof![
            3 => Just(Op30::Good),
            7 => (any::<u8>(), 1u8..20, prop_oneof![4 => 0u16..100, 1 => 100u16..20_000]).prop_map(|(client, n, len)| Op30::Send { client, n, len }),
            2 => (any::<u8>(), 0u16..3000, any::<u8>()).prop_map(|(client, len, at)| Op30::Half { client, len, at }),
            2 => any::<u8>().prop_map(|client| Op30::Read { client }),
            3 => (1u8..10).prop_map(Op30::Rounds),
            1 => any::<bool>().prop_map(Op30::Bind),
            1 => any::<bool>().prop_map(Op30::Refused),
            1 => "[a-z0-9.:\\[\\] -]{0,20}".prop_map(Op30::NoAddress),
            2 => Just(Op30::Successor),
        ]
    };
    (any::<bool>(), prop::bool::weighted(0.1), prop_oneof![Just(1usize), 2usize..8, Just(128usize)], vec(op(), 1..10), 0u8..4, vec(op(), 1..14))
        .prop_map(|(rpc, v6, max_queued, before, settle, after)| Life { rpc, v6, max_queued, before, settle, after })
        .boxed()
}

async fn bind(rpc: bool, addr: SocketAddr) -> Result<Box<dyn std::any::Any>, String> {
    if rpc {
        match SocketRpcServer::new(addr, server::Script(server::new_shared())).await {
            Ok(s) => Ok(Box::new(s)),
            Err(protosocket_rpc::Error::IoFailure(e)) => Err(format!("{:?}", e.kind())),
            Err(e) => Err(format!("not an IoFailure: {e:?}")),
        }
    } else {
        match ProtosocketServer::new(addr, tokio::runtime::Handle::current(), Echo::default()).await {
            Ok(s) => Ok(Box::new(s)),
            Err(protosocket_server::Error::IoFailure(e)) => Err(format!("{:?}", e.kind())),
            Err(e) => Err(format!("not an IoFailure: {e:?}")),
        }
    }
}

fn services(w: &World21) -> usize {
    match &w.s {
        Server21::Rpc(sh) => sh.lock().unwrap().services,
        Server21::Message(e) => e.connections.load(Ordering::SeqCst),
    }
}

/// Waits until every client of this server was accepted.
async fn accepted(w: &World21) -> R {
    wait_for(|| format!("{} of {} clients were accepted", services(w), w.good.len()), || Ok((services(w) == w.good.len()).then_some(()))).await
}

struct Mute;
impl MessageReactor for Mute {
    type Inbound = Word;
    fn on_inbound_messages(&mut self, _: impl IntoIterator<Item = Word>) -> ReactorStatus {
        ReactorStatus::Continue
    }
}

async fn step30(op: &Op30, w: &mut World21, next: &mut Option<World21>) -> R {
    let clients = w.good.len();
    match op {
        Op30::Good if !w.dropped => w.add_good()?,
        Op30::Good => {
            if next.is_none() && w.addr.is_ipv4() {
                // nobody listens any more
                match std::net::TcpStream::connect_timeout(&w.addr, Duration::from_secs(20)) {
                    Ok(_) => return violation("a client could connect after the server future was dropped"),
                    Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {}
                    Err(e) => return Err(Fail::Harness(format!("connect: {e}"))),
                }
            }
        }
        Op30::Send { client, n, len } if clients > 0 => w.send(*client as usize % clients, *n as usize, *len as usize),
        Op30::Half { client, len, at } if clients > 0 => {
            // the message is sent in two parts, the second one with whatever comes next
            let i = *client as usize % clients;
            let before = w.good[i].out.len();
            w.queue(i, *len as usize);
            let g = &mut w.good[i];
            let cut = before + (*at as usize * (g.out.len() - before)) / 256;
            if let Some(n) = g.peer.write(&g.out[..cut]) {
                g.out.drain(..n);
            }
        }
        Op30::Read { client } if clients > 0 => {
            let i = *client as usize % clients;
            w.good[i].peer.pump();
            w.push(i);
        }
        Op30::Rounds(n) => rounds(*n as usize).await,
        Op30::Bind(rpc) if !w.dropped || next.is_some() => match bind(*rpc, w.addr).await {
            Ok(_) => return violation("two servers could listen on one address"),
            Err(e) => check!(e == "AddrInUse", "listening on an address that is in use failed with {e}"),
        },
        Op30::Refused(rpc) => {
            let addr = free_addr()?;
            let kind = if *rpc {
                match connect::<RCodec, RCodec>(addr, &Configuration::default()).await {
                    Ok(_) => return violation("an RPC client connected where nobody listens"),
                    Err(protosocket_rpc::Error::IoFailure(e)) => format!("{:?}", e.kind()),
                    Err(e) => format!("not an IoFailure: {e:?}"),
                }
            } else {
                let r = ClientRegistry::new(tokio::runtime::Handle::current());
                match r.register_client::<Word, Word, Mute>(addr.to_string(), Mute).await {
                    Ok(_) => return violation("a client was registered where nobody listens"),
                    Err(protosocket_prost::Error::IoFailure(e)) => format!("{:?}", e.kind()),
                    Err(e) => format!("not an IoFailure: {e:?}"),
                }
            };
            check!(kind == "ConnectionRefused", "connecting where nobody listens failed with {kind}");
        }
        Op30::NoAddress(s) if s.parse::<SocketAddr>().is_err() => {
            let r = ClientRegistry::new(tokio::runtime::Handle::current());
            match r.register_client::<Word, Word, Mute>(s.clone(), Mute).await {
                Err(protosocket_prost::Error::AddressError(_)) => {}
                Ok(_) => return violation(format!("a client was registered with {s:?}")),
                Err(e) => return violation(format!("registering with {s:?}, which is no address, failed with {e:?}")),
            }
        }
        Op30::Successor if w.dropped => {
            if next.is_none() {
                if w.addr.is_ipv6() {
                    // the port may be somebody else's by now
                    return Ok(());
                }
                *next = Some(World21::start_at(w.addr, matches!(w.s, Server21::Rpc(_)), 8).await.map_err(|e| match e {
                    Fail::Harness(e) => Fail::Violation(format!("a dropped server's address cannot be used again: {e}")),
                    e => e,
                })?);
            }
            let n = next.as_mut().expect("set");
            n.add_good()?;
            let i = n.good.len() - 1;
            n.send(i, 2, 20);
        }
        _ => {}
    }
    Ok(())
}

fn c30_run(c: &Life, ctx: &mut Ctx) -> R {
    block_on(async {
        ctx.label(if c.rpc { "rpc server" } else { "message server" });
        ctx.label_if(c.v6, "ipv6");
        // the port of a closed listener may be taken by somebody else before the server gets it
        let mut tries = 0;
        let mut w = loop {
            let addr = if c.v6 { free_addr6()? } else { free_addr()? };
            match World21::start_at(addr, c.rpc, c.max_queued).await {
                Err(Fail::Harness(_)) if c.v6 && tries < 20 => tries += 1,
                Err(Fail::Harness(e)) if std::net::TcpListener::bind(addr).is_ok() => return violation(format!("a server could not listen on {addr}: {e}")),
                w => break w?,
            }
        };
        let mut next = None;
        for op in &c.before {
            step30(op, &mut w, &mut next).await?;
        }
        rounds(c.settle as usize).await;
        // a connection that was not accepted goes down with the listener
        accepted(&w).await?;
        for g in w.good.iter_mut() {
            g.peer.pump();
        }
        let unanswered = w.good.iter().any(|g| g.peer.frames.len() < g.expect.len());
        let half = w.good.iter().any(|g| !g.out.is_empty());
        ctx.nontrivial = unanswered || half;
        ctx.label_if(unanswered, "unanswered messages at the drop");
        ctx.label_if(half, "unsent parts of messages at the drop");
        w.running()?;
        w.dropped = true;
        w.task.abort();
        wait_for(|| "the server's task did not end".into(), || Ok(w.task.is_finished().then_some(()))).await?;
        for op in &c.after {
            step30(op, &mut w, &mut next).await?;
        }
        step30(&Op30::Good, &mut w, &mut next).await?;
        for i in 0..w.good.len() {
            w.send(i, 1, 10);
        }
        w.all_served(c.rpc).await?;
        if let Some(n) = next.as_mut() {
            ctx.label("another server took over the address");
            n.all_served(c.rpc).await?;
            check!(services(&w) == w.good.len(), "the dropped server still accepts connections");
        }
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Addresses {
    rpc: bool,
    v6: bool,
    /// how many messages each client exchanges
    clients: Vec<u8>,
}

fn address_strategy(_: Tier) -> BoxedStrategy<Addresses> {
    (any::<bool>(), any::<bool>(), vec(1u8..6, 1..5)).prop_map(|(rpc, v6, clients)| Addresses { rpc, v6, clients }).boxed()
}

fn address_run(c: &Addresses, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.clients.len() > 1;
    ctx.label(if c.v6 { "ipv6" } else { "ipv4" });
    ctx.label(if c.rpc { "rpc" } else { "messages" });
    block_on(addresses(c))
}

async fn addresses(c: &Addresses) -> R {
    let mut tries = 0;
    let (addr, w) = loop {
        let addr = if c.v6 { free_addr6()? } else { free_addr()? };
        match World21::start_at(addr, c.rpc, 8).await {
            Err(Fail::Harness(_)) if tries < 20 => tries += 1,
            Err(Fail::Harness(e)) => return violation(format!("a server could not listen on {addr}: {e}")),
            w => break (addr, w?),
        }
    };
    let mut senders = vec![];
    let (mut calls, mut clients) = (vec![], vec![]);
    let mut serial = 0;
    for n in &c.clients {
        match &w.s {
            Server21::Rpc(sh) => {
                let (client, conn) = match connect::<RCodec, RCodec>(addr, &Configuration::default()).await {
                    Ok(x) => x,
                    Err(e) => return violation(format!("an RPC client could not connect to {addr}, where a server listens: {e}")),
                };
                tokio::spawn(conn);
                for _ in 0..*n {
                    serial += 1;
                    sh.lock().unwrap().plan(serial, server::Plan::UnaryNow, 16);
                    let id = serial as u64;
                    match client.send_unary(RMsg { id, code: NORMAL, body: server::body(serial, 0, 0) }).await {
                        Ok(u) => calls.push((server::answer(id, serial, 0, 16), u)),
                        Err(e) => return violation(format!("a fresh client cannot send: {e}")),
                    }
                }
                clients.push(client);
            }
            Server21::Message(_) => {
                let r = ClientRegistry::new(tokio::runtime::Handle::current());
                let tx = match r.register_client::<Word, Word, Mute>(addr.to_string(), Mute).await {
                    Ok(tx) => tx,
                    Err(e) => return violation(format!("a client could not be registered with {addr}, where a server listens: {e}")),
                };
                senders.push(tx);
            }
        }
    }
    for (want, u) in calls {
        match tokio::time::timeout(stall_bound(), u).await {
            Ok(Ok(m)) => check!(m == want, "the response to another call"),
            Ok(Err(e)) => return violation(format!("a call over {addr} failed: {e}")),
            Err(_) => return Err(Fail::Stall(format!("a call over {addr} did not finish"))),
        }
    }
    wait_for(|| format!("{} of {} clients were accepted", services(&w), c.clients.len()), || Ok((services(&w) == c.clients.len()).then_some(()))).await?;
    drop(clients);
    drop(senders);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C31

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Where {
    threads: [usize; 2],
    /// the server future (or register_client) runs on this runtime
    driver: bool,
    /// and this one was handed to it
    given: bool,
    client: bool,
    connections: Vec<u8>,
}

#[derive(Clone, PartialEq, prost::Message)]
pub struct Word {
    #[prost(uint32, tag = "1")]
    n: u32,
}

fn c31_strategy(_: Tier) -> BoxedStrategy<Where> {
    ([1usize..4, 1usize..4], any::<bool>(), any::<bool>(), any::<bool>(), vec(1u8..12, 1..5))
        .prop_map(|(threads, driver, given, client, connections)| Where { threads, driver, given, client, connections })
        .boxed()
}

type Places = Arc<Mutex<BTreeSet<String>>>;

/// Notes on which threads it is used, echoes on the server's side.
struct Placed {
    places: Places,
    got: Arc<AtomicUsize>,
    outbound: Option<mpsc::Sender<Word>>,
}
fn here(places: &Places) {
    places.lock().unwrap().insert(std::thread::current().name().unwrap_or("?").to_string());
}
impl MessageReactor for Placed {
    type Inbound = Word;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Word>) -> ReactorStatus {
        here(&self.places);
        for m in messages {
            self.got.fetch_add(1, Ordering::SeqCst);
            if let Some(o) = &self.outbound {
                let _ = o.try_send(m);
            }
        }
        ReactorStatus::Continue
    }
}
impl Drop for Placed {
    fn drop(&mut self) {
        here(&self.places);
    }
}
struct PlacedServer {
    places: Places,
    got: Arc<AtomicUsize>,
}
impl ServerConnector for PlacedServer {
    type Bindings = ProstServerConnectionBindings<Word, Word, Placed>;
    fn serializer(&self) -> <Self::Bindings as ConnectionBindings>::Serializer {
        ProstSerializer::default()
    }
    fn deserializer(&self) -> <Self::Bindings as ConnectionBindings>::Deserializer {
        ProstSerializer::default()
    }
    fn new_reactor(&self, outbound: mpsc::Sender<Word>) -> Placed {
        Placed { places: self.places.clone(), got: self.got.clone(), outbound: Some(outbound) }
    }
}

fn c31_run(c: &Where, ctx: &mut Ctx) -> R {
    ctx.nontrivial = c.driver != c.given;
    ctx.label(if c.client { "client registry" } else { "message server" });
    let rt = |k: usize, name: &str| {
        tokio::runtime::Builder::new_multi_thread().worker_threads(c.threads[k]).thread_name(name).enable_all().build().map_err(|e| Fail::Harness(e.to_string()))
    };
    let rts = [rt(0, "zero")?, rt(1, "one")?];
    let r = c31(c, &rts);
    for rt in rts {
        rt.shutdown_timeout(Duration::from_secs(10));
    }
    r
}

fn c31(c: &Where, rts: &[tokio::runtime::Runtime; 2]) -> R {
    let names = ["zero", "one"];
    let (driver, given) = (&rts[c.driver as usize], rts[c.given as usize].handle().clone());
    let (server_places, client_places): (Places, Places) = Default::default();
    let (at_server, at_client) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let addr = free_addr()?;
    let connector = PlacedServer { places: server_places.clone(), got: at_server.clone() };
    // the side that is not examined lives on one runtime alone
    let (server_driver, server_given) = if c.client { (&rts[0], rts[0].handle().clone()) } else { (driver, given.clone()) };
    let server = server_driver.block_on(ProtosocketServer::new(addr, server_given, connector)).map_err(|e| Fail::Harness(format!("listen: {e}")))?;
    let server = server_driver.spawn(async move {
        let _ = server.await;
    });
    let (client_driver, client_given) = if c.client { (driver, given) } else { (&rts[1], rts[1].handle().clone()) };
    let registry = ClientRegistry::new(client_given);
    let mut total = 0;
    let mut keep = vec![];
    for n in &c.connections {
        let reactor = Placed { places: client_places.clone(), got: at_client.clone(), outbound: None };
        let registry = registry.clone();
        let tx = client_driver
            .block_on(client_driver.spawn(async move { registry.register_client::<Word, Word, Placed>(addr.to_string(), reactor).await }))
            .map_err(|e| Fail::Harness(e.to_string()))?
            .map_err(|e| Fail::Harness(format!("register: {e}")))?;
        for k in 0..*n {
            if tx.blocking_send(Word { n: k as u32 + 1 }).is_err() {
                return violation("a fresh connection does not accept messages");
            }
            total += 1;
        }
        keep.push(tx);
    }
    let start = Instant::now();
    while at_server.load(Ordering::SeqCst) < total || at_client.load(Ordering::SeqCst) < total {
        if start.elapsed() > stall_bound() {
            return Err(Fail::Stall(format!("{} of {total} messages and {} replies arrived", at_server.load(Ordering::SeqCst), at_client.load(Ordering::SeqCst))));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    let (places, who) = if c.client { (&client_places, "client") } else { (&server_places, "server") };
    let seen = places.lock().unwrap().clone();
    check!(
        seen.iter().all(|t| t == names[c.given as usize]),
        "{who} connections were given the runtime {:?} but ran on {seen:?}",
        names[c.given as usize]
    );
    server.abort();
    drop(keep);
    Ok(())
}
