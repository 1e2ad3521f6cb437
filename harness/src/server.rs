//! The library's RPC server with a scripted service, and raw clients.

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use futures::Stream;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

use crate::check;
use crate::rpc::*;
use crate::rt::{round, rounds, wait_for, ReadEnd};
use crate::runner::{violation, Fail, EXPECTED_PANIC, R};

/// How the service treats a request.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Plan {
    /// ready at once
    UnaryNow,
    /// ready after waking itself so many times
    UnaryYield(u8),
    /// ready when told
    UnaryLater,
    /// so many items, ready at once
    StreamNow(u8),
    /// so many items, each after waking itself
    StreamYield(u8),
    /// items and end when told
    StreamLater,
    Unknown,
    PanicInNew,
    PanicInUnary,
    PanicInStream,
}
impl Plan {
    pub fn is_stream(self) -> bool {
        matches!(self, Plan::StreamNow(_) | Plan::StreamYield(_) | Plan::StreamLater | Plan::PanicInStream)
    }
    pub fn panics(self) -> bool {
        matches!(self, Plan::PanicInNew | Plan::PanicInUnary | Plan::PanicInStream)
    }
}

#[derive(Default)]
struct Ctl {
    queue: VecDeque<RMsg>,
    finished: bool,
    waker: Option<Waker>,
}

pub struct Shared {
    plans: HashMap<u32, (Plan, usize)>,
    ctl: HashMap<u32, Arc<Mutex<Ctl>>>,
    /// every request handed to a service: (connection, request)
    pub started: Vec<(usize, RMsg)>,
    pub dropped: HashSet<u32>,
    pub services: usize,
    pub services_alive: usize,
    /// the address each connection's service was made for
    pub addresses: HashSet<SocketAddr>,
}

pub fn new_shared() -> Arc<Mutex<Shared>> {
    Arc::new(Mutex::new(Shared { plans: HashMap::new(), ctl: HashMap::new(), started: vec![], dropped: HashSet::new(), services: 0, services_alive: 0, addresses: HashSet::new() }))
}

impl Shared {
    pub fn plan(&mut self, serial: u32, plan: Plan, len: usize) {
        self.plans.insert(serial, (plan, len));
    }
    pub fn has(&self, serial: u32) -> bool {
        self.ctl.contains_key(&serial)
    }
    pub fn produce_raw(&mut self, serial: u32, id: u64, n: usize, len: usize) {
        let Some(c) = self.ctl.get(&serial) else { return };
        let mut c = c.lock().unwrap();
        c.queue.extend((0..n).map(|i| RMsg { id, code: NORMAL, body: body(serial, i as u32, len) }));
        if let Some(w) = c.waker.take() {
            w.wake()
        }
    }
    pub fn left(&self, serial: u32) -> usize {
        self.ctl.get(&serial).map_or(0, |c| c.lock().unwrap().queue.len())
    }
}

pub fn body(serial: u32, index: u32, len: usize) -> Vec<u8> {
    let mut b = serial.to_be_bytes().to_vec();
    b.extend(index.to_be_bytes());
    b.resize(8 + len, (serial ^ index) as u8);
    b
}
/// What a service produces; some services answer with control codes of their own.
pub fn answer(id: u64, serial: u32, index: u32, len: usize) -> RMsg {
    let code = match (len % 16, index % 3) {
        (9, _) | (11, 1) => CANCEL,
        (12, _) | (11, 2) => END,
        _ => NORMAL,
    };
    RMsg { id, code, body: body(serial, index, len) }
}
pub fn serial_of(m: &RMsg) -> Option<u32> {
    Some(u32::from_be_bytes(m.body.get(..4)?.try_into().ok()?))
}

pub const PING_SERIAL: u32 = u32::MAX;

struct Gone {
    serial: u32,
    shared: Arc<Mutex<Shared>>,
}
impl Drop for Gone {
    fn drop(&mut self) {
        if let Ok(mut s) = self.shared.lock() {
            s.dropped.insert(self.serial);
        }
    }
}

/// The future or stream of one RPC.
pub struct Rpc {
    ctl: Arc<Mutex<Ctl>>,
    yields: u8,
    yielded: u8,
    panics: bool,
    over: bool,
    _gone: Gone,
}

impl Rpc {
    fn step(&mut self, cx: &mut Context<'_>) -> Poll<Option<RMsg>> {
        if self.panics {
            panic!("{EXPECTED_PANIC}");
        }
        assert!(!self.over, "verif: an rpc was polled after it had completed");
        if self.yielded < self.yields {
            self.yielded += 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut c = self.ctl.lock().unwrap();
        match c.queue.pop_front() {
            Some(m) => {
                self.yielded = 0;
                Poll::Ready(Some(m))
            }
            None if c.finished => {
                self.over = true;
                Poll::Ready(None)
            }
            None => {
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Future for Rpc {
    type Output = RMsg;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<RMsg> {
        match self.step(cx) {
            Poll::Ready(Some(m)) => {
                self.over = true;
                Poll::Ready(m)
            }
            Poll::Ready(None) => Poll::Pending,
            Poll::Pending => Poll::Pending,
        }
    }
}
impl Stream for Rpc {
    type Item = RMsg;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<RMsg>> {
        self.step(cx)
    }
}

#[derive(Clone)]
pub struct Script(pub Arc<Mutex<Shared>>);

impl SocketService for Script {
    type RequestDeserializer = RCodec;
    type ResponseSerializer = RCodec;
    type ConnectionService = ScriptConnection;
    fn deserializer(&self) -> RCodec {
        RCodec
    }
    fn serializer(&self) -> RCodec {
        RCodec
    }
    fn new_connection_service(&self, address: SocketAddr) -> ScriptConnection {
        let mut s = self.0.lock().unwrap();
        s.addresses.insert(address);
        s.services += 1;
        s.services_alive += 1;
        ScriptConnection { number: s.services - 1, shared: self.0.clone() }
    }
}

pub struct ScriptConnection {
    number: usize,
    shared: Arc<Mutex<Shared>>,
}
impl Drop for ScriptConnection {
    fn drop(&mut self) {
        if let Ok(mut s) = self.shared.lock() {
            s.services_alive -= 1;
        }
    }
}

impl ConnectionService for ScriptConnection {
    type Request = RMsg;
    type Response = RMsg;
    type UnaryFutureType = Rpc;
    type StreamType = Rpc;

    fn new_rpc(&mut self, m: RMsg) -> RpcKind<Rpc, Rpc> {
        let mut s = self.shared.lock().unwrap();
        let serial = serial_of(&m).unwrap_or(0);
        let ctl: Arc<Mutex<Ctl>> = Arc::default();
        let gone = |sh: &Arc<Mutex<Shared>>| Gone { serial, shared: sh.clone() };
        if serial == PING_SERIAL {
            ctl.lock().unwrap().queue.push_back(m);
            return RpcKind::Unary(Rpc { ctl, yields: 0, yielded: 0, panics: false, over: false, _gone: gone(&self.shared) });
        }
        let id = m.id;
        s.started.push((self.number, m));
        let Some((plan, len)) = s.plans.get(&serial).copied() else { return RpcKind::Unknown };
        let mut yields = 0;
        let push = |i: u32| ctl.lock().unwrap().queue.push_back(answer(id, serial, i, len));
        match plan {
            Plan::UnaryNow => push(0),
            Plan::UnaryYield(n) => {
                yields = n;
                push(0)
            }
            Plan::StreamNow(n) | Plan::StreamYield(n) => {
                (0..n as u32).for_each(push);
                ctl.lock().unwrap().finished = true;
                yields = matches!(plan, Plan::StreamYield(_)) as u8;
            }
            Plan::PanicInNew => {
                drop(s);
                panic!("{EXPECTED_PANIC}");
            }
            Plan::Unknown => return RpcKind::Unknown,
            Plan::UnaryLater | Plan::StreamLater | Plan::PanicInUnary | Plan::PanicInStream => {}
        }
        s.ctl.insert(serial, ctl.clone());
        let rpc = Rpc { ctl, yields, yielded: 0, panics: plan.panics(), over: false, _gone: gone(&self.shared) };
        if plan.is_stream() {
            RpcKind::Streaming(rpc)
        } else {
            RpcKind::Unary(rpc)
        }
    }
}

/// What the harness knows about an RPC it sent.
pub struct RpcModel {
    pub id: u64,
    pub serial: u32,
    pub plan: Plan,
    pub len: usize,
    pub request: RMsg,
    pub items: Vec<RMsg>,
    pub finished: bool,
    pub cancelled: bool,
    /// index of the barrier reply after which nothing of it may be sent
    pub quiet_after: Option<usize>,
}
impl RpcModel {
    pub fn output(&self) -> Vec<RMsg> {
        let mut v = self.items.clone();
        if self.plan.is_stream() && self.finished {
            v.push(RMsg { id: self.id, code: END, body: vec![] });
        }
        v
    }
    pub fn name(&self) -> String {
        format!("{:?} rpc #{} (id {})", self.plan, self.serial, self.id)
    }
}

pub struct Setup {
    pub max_buffer: usize,
    pub max_queued: usize,
    pub small_window: bool,
}

pub async fn start_server(setup: &Setup) -> R<(Arc<Mutex<Shared>>, JoinHandle<()>, SocketAddr)> {
    let addr = free_addr()?;
    let (shared, task) = start_server_at(addr, setup).await?;
    Ok((shared, task, addr))
}

pub async fn start_server_at(addr: SocketAddr, setup: &Setup) -> R<(Arc<Mutex<Shared>>, JoinHandle<()>)> {
    let shared = new_shared();
    let mut server = SocketRpcServer::new(addr, Script(shared.clone())).await.map_err(|e| Fail::Harness(format!("listen: {e}")))?;
    server.set_max_buffer_length(setup.max_buffer);
    server.set_max_queued_outbound_messages(setup.max_queued);
    let task = tokio::spawn(async move {
        let _ = server.await;
    });
    Ok((shared, task))
}

/// One raw client of a scripted server.
pub struct World {
    pub shared: Arc<Mutex<Shared>>,
    pub server: JoinHandle<()>,
    pub addr: SocketAddr,
    pub peer: Peer,
    pub out: Vec<u8>,
    pub rpcs: Vec<RpcModel>,
    /// serials of the normal requests in the order they were put on the wire
    pub order: Vec<u32>,
    pub reading: bool,
    pub was_blocked: bool,
    pings: u32,
    seen_pings: usize,
}

impl World {
    pub async fn start(setup: &Setup) -> R<World> {
        let (shared, server, addr) = start_server(setup).await?;
        let peer = if setup.small_window { dial_small(addr)? } else { dial(addr)? };
        Ok(World { shared, server, addr, peer, out: vec![], rpcs: vec![], order: vec![], reading: true, was_blocked: false, pings: 0, seen_pings: 0 })
    }

    pub fn pump(&mut self) {
        if self.reading {
            self.peer.pump();
        }
    }

    /// From the client's point of view this RPC may still produce something.
    pub fn in_progress(&self, r: &RpcModel) -> bool {
        if r.cancelled || r.plan == Plan::Unknown {
            return false;
        }
        let terminal = self.peer.frames.iter().any(|f| {
            if r.plan.is_stream() {
                false
            } else {
                f.id == r.id && serial_of(f) == Some(r.serial)
            }
        });
        if terminal {
            return false;
        }
        if r.plan.is_stream() && r.finished {
            // its End has been received: as many ends for the id as there are streams of that id that owe one
            return !self.stream_ended(r);
        }
        true
    }

    fn stream_ended(&self, r: &RpcModel) -> bool {
        // streams of one id follow each other; this one is the last: complete when the epochs match exactly
        let id = r.id;
        let frames: Vec<(usize, &RMsg)> = self.peer.frames.iter().enumerate().filter(|(_, f)| f.id == id).collect();
        let epochs: Vec<&RpcModel> = self.rpcs.iter().filter(|x| x.id == id).collect();
        epochs.last().map(|l| l.serial) != Some(r.serial) || matches_epochs(&frames, &epochs, true)
    }

    pub fn id_free(&self, id: u64) -> bool {
        !self.rpcs.iter().any(|r| r.id == id && self.in_progress(r))
    }

    pub fn request(&mut self, id: u64, mut plan: Plan, len: usize) {
        if self.reused(id, self.rpcs.len()) {
            // an end without items could not be told from the end of an earlier stream of that id
            match &mut plan {
                Plan::StreamNow(n) | Plan::StreamYield(n) => *n = (*n).max(1),
                _ => {}
            }
        }
        let serial = self.rpcs.len() as u32;
        let request = RMsg { id, code: NORMAL, body: body(serial, 0, len.min(100)) };
        self.shared.lock().unwrap().plans.insert(serial, (plan, len));
        self.out.extend(frame(id, NORMAL, &request.body));
        self.order.push(serial);
        let n = match plan {
            Plan::UnaryNow | Plan::UnaryYield(_) => 1,
            Plan::StreamNow(n) | Plan::StreamYield(n) => n as u32,
            _ => 0,
        };
        let items = (0..n).map(|i| answer(id, serial, i, len)).collect();
        let finished = matches!(plan, Plan::UnaryNow | Plan::UnaryYield(_) | Plan::StreamNow(_) | Plan::StreamYield(_));
        self.rpcs.push(RpcModel { id, serial, plan, len, request, items, finished, cancelled: false, quiet_after: None });
    }

    pub fn started(&self, i: usize) -> bool {
        self.shared.lock().unwrap().ctl.contains_key(&self.rpcs[i].serial)
    }

    /// Make sure the service has got RPC `i`.
    pub async fn ensure_started(&mut self, i: usize) -> R {
        self.flush().await?;
        let name = self.rpcs[i].name();
        let shared = self.shared.clone();
        let serial = self.rpcs[i].serial;
        wait_for(|| format!("{name} was never handed to the service"), || Ok(shared.lock().unwrap().ctl.contains_key(&serial).then_some(()))).await
    }

    fn ctl(&self, i: usize, f: impl FnOnce(&mut Ctl)) {
        let Some(c) = self.shared.lock().unwrap().ctl.get(&self.rpcs[i].serial).cloned() else { return };
        let w = {
            let mut c = c.lock().unwrap();
            f(&mut c);
            c.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    /// The service produces `n` more items (or the unary response) for a controlled RPC.
    pub fn produce(&mut self, i: usize, n: usize) {
        let r = &mut self.rpcs[i];
        let mut new = vec![];
        for _ in 0..n {
            let m = answer(r.id, r.serial, (r.items.len() + new.len()) as u32, r.len);
            new.push(m);
        }
        if r.quiet_after.is_none() {
            r.items.extend(new.clone());
        }
        if !r.plan.is_stream() {
            r.finished = true;
        }
        self.ctl(i, |c| c.queue.extend(new));
    }

    fn reused(&self, id: u64, before: usize) -> bool {
        self.rpcs[..before].iter().any(|r| r.id == id)
    }

    pub fn finish(&mut self, i: usize) {
        if self.rpcs[i].items.is_empty() && self.reused(self.rpcs[i].id, i) {
            self.produce(i, 1);
        }
        if self.rpcs[i].quiet_after.is_none() {
            self.rpcs[i].finished = true;
        }
        self.ctl(i, |c| c.finished = true);
    }

    pub fn cancel(&mut self, i: usize, code: u8) {
        let id = self.rpcs[i].id;
        self.out.extend(frame(id, code, b"no serial"));
        // it concerns the RPC that holds the id now
        if let Some(r) = self.rpcs.iter_mut().rev().find(|r| r.id == id) {
            r.cancelled = true;
        }
    }

    pub async fn write_out(&mut self, n: usize) -> R {
        let n = n.min(self.out.len());
        let data: Vec<u8> = self.out.drain(..n).collect();
        let mut at = 0;
        let peer = &mut self.peer;
        wait_for(|| "the server stopped reading".into(), || {
            if at < data.len() {
                match peer.write(&data[at..]) {
                    Some(n) => at += n,
                    None => return violation("the server closed the connection although nothing was wrong"),
                }
            }
            Ok((at == data.len()).then_some(()))
        })
        .await
    }

    pub async fn flush(&mut self) -> R {
        if !self.out.is_empty() {
            self.write_out(usize::MAX).await?;
        }
        Ok(())
    }

    /// All requests and cancels sent so far have been processed; afterwards no cancelled RPC may send anything.
    pub async fn barrier(&mut self) -> R {
        self.reading = true;
        self.pings += 1;
        let b = body(PING_SERIAL, self.pings, 0);
        self.out.extend(frame(PING_ID, NORMAL, &b));
        self.flush().await?;
        let want = RMsg { id: PING_ID, code: NORMAL, body: b };
        let peer = &mut self.peer;
        let at = wait_for(|| "a request was not answered (ping)".into(), || {
            peer.pump();
            if peer.end != ReadEnd::Open {
                return violation("the server closed the connection although nothing was wrong");
            }
            Ok(peer.frames.iter().position(|f| *f == want))
        })
        .await?;
        self.seen_pings = self.pings as usize;
        for r in self.rpcs.iter_mut().filter(|r| r.cancelled) {
            r.quiet_after.get_or_insert(at);
        }
        self.cancelled_are_dropped().await
    }

    async fn cancelled_are_dropped(&mut self) -> R {
        let must_drop: Vec<(u32, String)> = self.rpcs.iter().filter(|r| r.cancelled && r.plan != Plan::Unknown).map(|r| (r.serial, r.name())).collect();
        for (serial, name) in must_drop {
            let (shared, peer) = (self.shared.clone(), &mut self.peer);
            wait_for(|| format!("{name} was cancelled but its future or stream is still held by the server"), || {
                peer.pump();
                Ok(shared.lock().unwrap().dropped.contains(&serial).then_some(()))
            })
            .await?;
        }
        Ok(())
    }

    /// What has been observed so far is consistent with the history; `complete`: and nothing is missing.
    pub fn judge(&mut self, complete: bool) -> R {
        self.pump();
        check!(self.peer.end == ReadEnd::Open, "the server closed the connection although nothing was wrong");
        check!(!self.peer.garbled, "the server sent bytes that are no message");
        let s = self.shared.lock().unwrap();
        // requests: exactly once, in arrival order
        let got: Vec<&RMsg> = s.started.iter().map(|(_, m)| m).collect();
        let want: Vec<&RMsg> = self.order.iter().map(|n| &self.rpcs[*n as usize].request).collect();
        check!(got.len() <= want.len() && got.iter().zip(&want).all(|(a, b)| *a == *b), "the service was given {} requests: {}; the client had sent {}: {}", got.len(), describe_all(&got.iter().map(|m| (*m).clone()).collect::<Vec<_>>()), want.len(), describe_all(&want.iter().map(|m| (*m).clone()).collect::<Vec<_>>()));
        if complete {
            check!(got.len() == want.len(), "only {} of {} requests were handed to the service", got.len(), want.len());
        }
        // an RPC nobody cancelled lives until it is finished
        for r in &self.rpcs {
            if !r.cancelled && !r.finished && r.plan != Plan::Unknown {
                check!(!s.dropped.contains(&r.serial), "{} is neither finished nor cancelled, but the server dropped it", r.name());
            }
        }
        drop(s);
        let mut by: BTreeMap<u64, Vec<(usize, &RMsg)>> = BTreeMap::new();
        for (i, f) in self.peer.frames.iter().enumerate() {
            if f.id == PING_ID {
                continue;
            }
            by.entry(f.id).or_default().push((i, f));
        }
        let mut models: BTreeMap<u64, Vec<&RpcModel>> = BTreeMap::new();
        for r in &self.rpcs {
            models.entry(r.id).or_default().push(r);
        }
        let mut ids: HashSet<u64> = models.keys().copied().collect();
        ids.extend(by.keys());
        for id in ids {
            let frames = by.remove(&id).unwrap_or_default();
            let epochs: Vec<&RpcModel> = models.remove(&id).unwrap_or_default();
            if !matches_epochs(&frames, &epochs, complete) {
                let sent: Vec<RMsg> = frames.iter().map(|f| f.1.clone()).collect();
                let model: Vec<String> = epochs
                    .iter()
                    .map(|e| format!("{} produced {}{}", e.name(), describe_all(&e.output()), if e.cancelled { " and was cancelled" } else { "" }))
                    .collect();
                return violation(format!("id {id}: the client received {} but {}", describe_all(&sent), model.join("; ")));
            }
        }
        Ok(())
    }

    /// Wait until everything every RPC produced has arrived, then make sure nothing else has.
    pub async fn finish_and_judge(&mut self) -> R {
        // no ping yet: it would wake whatever forgot to wake up by itself
        self.reading = true;
        self.flush().await?;
        let start = std::time::Instant::now();
        let mut n = 0;
        loop {
            self.judge(false)?;
            match self.judge(true) {
                Ok(()) => break,
                Err(Fail::Violation(e)) => {
                    n += 1;
                    if n > 300 {
                        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                        if n > 1000 && start.elapsed() > crate::runner::stall_bound() {
                            return Err(Fail::Stall(format!("responses never arrived: {e}")));
                        }
                    }
                    rounds(3).await;
                }
                Err(e) => return Err(e),
            }
        }
        self.cancelled_are_dropped().await?;
        self.barrier().await?;
        rounds(5).await;
        self.judge(true)
    }

    pub async fn one_round(&mut self) {
        round().await;
        self.pump();
    }
}

pub const PING_ID: u64 = 0x7069_6e67_0000_0002;

/// Do the frames of one id spell the outputs of its RPCs, one after the other? A cancelled RPC may have sent any
/// prefix, but nothing after its cancel was known to be processed; unless `complete`, the last RPC may still be sending.
pub fn matches_epochs(frames: &[(usize, &RMsg)], epochs: &[&RpcModel], complete: bool) -> bool {
    fn go(frames: &[(usize, &RMsg)], epochs: &[&RpcModel], complete: bool) -> bool {
        let Some(e) = epochs.first() else { return frames.is_empty() };
        let out = e.output();
        let prefix_ok = e.cancelled || (!complete && epochs.len() == 1);
        let mut k = 0;
        loop {
            // k frames taken by this epoch
            if (k == out.len() || prefix_ok) && go(&frames[k..], &epochs[1..], complete) {
                return true;
            }
            if k >= out.len() || k >= frames.len() {
                return false;
            }
            let (at, f) = frames[k];
            let same = f.code == out[k].code && (out[k].body.is_empty() || f.body == out[k].body);
            if !same || e.quiet_after.is_some_and(|q| at > q) {
                return false;
            }
            k += 1;
        }
    }
    go(frames, epochs, complete)
}
