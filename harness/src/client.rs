//! An RPC client of the library against a raw, scripted server; calls are driven by tasks with real wakers.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use futures::task::noop_waker;
use futures::Stream;
use protosocket_rpc::client::{connect, Configuration, RpcClient, StreamingCompletion, UnaryCompletion};
use protosocket_rpc::Error;
use tokio::task::JoinHandle;

use crate::check;
use crate::rpc::*;
use crate::rt::{round, rounds, wait_for, ReadEnd};
use crate::runner::{violation, Fail, R};

pub type Client = RpcClient<RMsg, RMsg>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Seen {
    Item(RMsg),
    Cancelled,
    Closed,
    Finished,
    Io,
    /// the stream said it is over
    None,
}

fn seen(r: Result<RMsg, Error>) -> Seen {
    match r {
        Ok(m) => Seen::Item(m),
        Err(Error::CancelledRemotely) => Seen::Cancelled,
        Err(Error::ConnectionIsClosed) => Seen::Closed,
        Err(Error::Finished) => Seen::Finished,
        Err(Error::IoFailure(_)) => Seen::Io,
    }
}

#[derive(Default)]
pub struct Sh {
    pub sent: bool,
    pub send_failed: Option<Seen>,
    pub log: Vec<Seen>,
    /// the result (or the stream's None) has been seen
    pub finished: bool,
    /// the completion object is gone
    pub gone: bool,
    permits: usize,
    drop_now: bool,
    hold: bool,
    waker: Option<Waker>,
}

enum Comp {
    Unary(UnaryCompletion<RMsg, RMsg>),
    Stream(StreamingCompletion<RMsg, RMsg>),
}

enum DriveState {
    Sending(Pin<Box<dyn Future<Output = Result<Comp, Error>> + Send>>),
    Going(Comp),
    Over,
}

impl DriveState {
    /// Ready(false): there is nothing to wait for.
    fn send(&mut self, sh: &Mutex<Sh>, cx: &mut Context<'_>) -> Poll<bool> {
        match self {
            DriveState::Over => Poll::Ready(false),
            DriveState::Going(_) => Poll::Ready(true),
            DriveState::Sending(f) => match f.as_mut().poll(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Ok(c)) => {
                    *self = DriveState::Going(c);
                    sh.lock().unwrap().sent = true;
                    Poll::Ready(true)
                }
                Poll::Ready(Err(e)) => {
                    let mut sh = sh.lock().unwrap();
                    sh.send_failed = Some(seen(Err(e)));
                    sh.finished = true;
                    Poll::Ready(false)
                }
            },
        }
    }
}

struct Drive {
    state: Arc<Mutex<DriveState>>,
    sh: Arc<Mutex<Sh>>,
    /// poll once with a waker nobody listens to before the real one
    foreign_waker_first: bool,
    noned: u8,
}

impl Drive {
    fn over(&mut self) -> Poll<()> {
        // the completion is dropped before the harness hears about it, outside the lock
        let old = std::mem::replace(&mut *self.state.lock().unwrap(), DriveState::Over);
        drop(old);
        self.sh.lock().unwrap().gone = true;
        Poll::Ready(())
    }
}

impl Future for Drive {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let sent = this.state.lock().unwrap().send(&this.sh, cx);
        match sent {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(true) => {}
            Poll::Ready(false) => return this.over(),
        }
        loop {
            let finished = {
                let mut sh = this.sh.lock().unwrap();
                sh.waker = Some(cx.waker().clone());
                if sh.drop_now || (sh.finished && !sh.hold) {
                    drop(sh);
                    return this.over();
                }
                if sh.permits == 0 {
                    return Poll::Pending;
                }
                sh.finished
            };
            if finished {
                return Poll::Pending;
            }
            let mut state = this.state.lock().unwrap();
            let DriveState::Going(c) = &mut *state else { return Poll::Ready(()) };
            if std::mem::take(&mut this.foreign_waker_first) {
                let w = noop_waker();
                let mut other = Context::from_waker(&w);
                let early = match c {
                    Comp::Unary(u) => Pin::new(u).poll(&mut other).map(|r| (seen(r), true)),
                    Comp::Stream(s) => Pin::new(s).poll_next(&mut other).map(|r| r.map_or((Seen::None, true), |r| (seen(r), false))),
                };
                if let Poll::Ready((s, fin)) = early {
                    let mut sh = this.sh.lock().unwrap();
                    sh.log.push(s);
                    sh.finished = fin;
                    sh.permits = sh.permits.saturating_sub(1);
                    continue;
                }
            }
            let r = match c {
                Comp::Unary(u) => Pin::new(u).poll(cx).map(|r| (seen(r), true)),
                Comp::Stream(s) => Pin::new(s).poll_next(cx).map(|r| r.map_or((Seen::None, true), |r| (seen(r), false))),
            };
            match r {
                Poll::Pending => return Poll::Pending,
                Poll::Ready((s, fin)) => {
                    // a stream that is over stays over
                    if let (Seen::None, Comp::Stream(st)) = (&s, c) {
                        if let Poll::Ready(Some(again)) = Pin::new(st).poll_next(cx) {
                            this.sh.lock().unwrap().log.push(seen(again));
                        }
                        this.noned += 1;
                    }
                    let mut sh = this.sh.lock().unwrap();
                    // a stream that goes on after its end may go on for ever
                    let fin = fin || matches!(sh.log.last(), Some(l) if !matches!(l, Seen::Item(_)));
                    sh.log.push(s);
                    sh.finished = fin;
                    sh.permits = sh.permits.saturating_sub(1);
                }
            }
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Unary,
    Stream,
}

pub struct Call {
    pub id: u64,
    pub serial: u32,
    pub kind: Kind,
    pub sh: Arc<Mutex<Sh>>,
    state: Arc<Mutex<DriveState>>,
    pub task: JoinHandle<()>,
    /// the normal responses the server sent for it while it was in progress
    pub items: Vec<RMsg>,
    /// the server ended it with this code
    pub term: Option<u8>,
    pub dropped: bool,
    /// how many cancels the server may see: exactly (min..=max)
    pub cancels: (usize, usize),
    pub request: RMsg,
}

impl Call {
    /// The server has said all that matters for this call.
    pub fn answered(&self) -> bool {
        self.term.is_some() || (self.kind == Kind::Unary && !self.items.is_empty())
    }
    pub fn observed_finished(&self) -> bool {
        self.sh.lock().unwrap().finished
    }
    /// In progress from the application's point of view.
    pub fn in_progress(&self) -> bool {
        !self.dropped && !self.observed_finished()
    }
    pub fn expected(&self) -> Vec<Seen> {
        let mut v: Vec<Seen> = self.items.iter().cloned().map(Seen::Item).collect();
        match (self.kind, self.term) {
            (Kind::Unary, Some(_)) if v.is_empty() => v.push(Seen::Cancelled),
            (Kind::Stream, Some(c)) => {
                v.push(if c == END { Seen::Finished } else { Seen::Cancelled });
                v.push(Seen::None);
            }
            _ => {}
        }
        v
    }
    /// `log` against what the server sent; for a stream the server cancelled, any error will do.
    pub fn matches(&self, log: &[Seen], complete: bool) -> bool {
        let e = self.expected();
        if log.len() > e.len() || (complete && log.len() != e.len()) {
            return false;
        }
        log.iter().zip(&e).all(|(a, b)| a == b || (self.kind == Kind::Stream && *b == Seen::Cancelled && matches!(a, Seen::Finished | Seen::Cancelled | Seen::Closed | Seen::Io)))
    }
    pub fn name(&self) -> String {
        format!("{:?} call #{} (id {})", self.kind, self.serial, self.id)
    }
}

pub struct World {
    handle: Option<Client>,
    pub conn: Option<JoinHandle<()>>,
    pub peer: Peer,
    pub out: Vec<u8>,
    pub calls: Vec<Call>,
    pub max_queued: usize,
    /// ids the server sent something for since the last barrier
    pub dirty: HashSet<u64>,
    pub cancels_sent: usize,
    next_serial: u32,
    pings: usize,
    counter: u32,
}

pub const PING: u64 = 0x7069_6e67_0000_0001;

pub struct Setup {
    pub max_buffer: usize,
    pub max_queued: usize,
}

impl World {
    /// `run`: spawn the connection (as every user does) or hand it back.
    #[allow(clippy::type_complexity)]
    pub async fn start(setup: &Setup) -> R<(World, Pin<Box<dyn Future<Output = ()> + Send>>)> {
        let (l, addr) = listen()?;
        let mut cfg = Configuration::default();
        cfg.max_buffer_length(setup.max_buffer);
        cfg.max_queued_outbound_messages(setup.max_queued);
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        let sock = wait_for(|| "the harness' own accept".into(), || match l.accept() {
            Ok((s, _)) => Ok(Some(s)),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(None),
            Err(e) => Err(Fail::Harness(format!("accept: {e}"))),
        })
        .await?;
        Ok((
            World {
                handle: Some(client),
                conn: None,
                peer: Peer::new(sock)?,
                out: vec![],
                calls: vec![],
                max_queued: setup.max_queued,
                dirty: HashSet::new(),
                cancels_sent: 0,
                next_serial: 0,
                pings: 0,
                counter: 0,
            },
            Box::pin(conn),
        ))
    }

    pub fn client(&self) -> Client {
        self.handle.clone().expect("the client handle is still there")
    }

    /// Let go of the client; what is in progress goes on.
    pub fn drop_client(&mut self) {
        self.handle = None;
    }

    pub fn id_free(&self, id: u64) -> bool {
        !self.calls.iter().any(|c| c.id == id && c.in_progress())
    }

    pub fn call(&mut self, id: u64, kind: Kind, body_len: usize, permits: usize, hold: bool, foreign_waker_first: bool) {
        self.submit(id, kind, body_len, permits, hold, foreign_waker_first, false)
    }

    #[allow(clippy::too_many_arguments)]
    fn submit(&mut self, id: u64, kind: Kind, body_len: usize, permits: usize, hold: bool, foreign_waker_first: bool, now: bool) {
        let serial = self.next_serial;
        self.next_serial += 1;
        let mut body = serial.to_be_bytes().to_vec();
        body.resize(4 + body_len, serial as u8);
        let request = RMsg { id, code: NORMAL, body };
        let sh = Arc::new(Mutex::new(Sh { permits, hold, ..Sh::default() }));
        let client = self.client();
        let r = request.clone();
        let fut: Pin<Box<dyn Future<Output = Result<Comp, Error>> + Send>> = match kind {
            Kind::Unary => Box::pin(async move { client.send_unary(r).await.map(Comp::Unary) }),
            Kind::Stream => Box::pin(async move { client.send_streaming(r).await.map(Comp::Stream) }),
        };
        let mut state = DriveState::Sending(fut);
        if now {
            // no other task runs before the request is submitted
            let w = noop_waker();
            let _ = state.send(&sh, &mut Context::from_waker(&w));
        }
        let state = Arc::new(Mutex::new(state));
        let task = tokio::spawn(Drive { state: state.clone(), sh: sh.clone(), foreign_waker_first, noned: 0 });
        self.calls.push(Call { id, serial, kind, sh, state, task, items: vec![], term: None, dropped: false, cancels: (0, 0), request });
    }

    /// Drop the completion of call `i` and use its id again at once: no other task runs in between.
    pub async fn replace_call(&mut self, i: usize, kind: Kind, body_len: usize, permits: usize) -> R {
        let id = self.calls[i].id;
        if self.dirty.contains(&id) {
            self.barrier().await?;
        }
        let name = self.calls[i].name();
        let sh = self.calls[i].sh.clone();
        wait_for(|| format!("{name} was never accepted for sending"), || {
            let sh = sh.lock().unwrap();
            Ok((sh.sent || sh.finished).then_some(()))
        })
        .await?;
        if self.unconfirmed() + 1 > self.max_queued {
            self.barrier().await?;
        }
        // the id may have been taken over by a later call
        if self.calls.iter().enumerate().any(|(k, c)| k != i && c.id == id && c.in_progress()) {
            return Ok(());
        }
        let c = &mut self.calls[i];
        let old = std::mem::replace(&mut *c.state.lock().unwrap(), DriveState::Over);
        drop(old);
        let finished = {
            let mut sh = c.sh.lock().unwrap();
            sh.gone = true;
            sh.finished
        };
        c.dropped = true;
        if !finished {
            c.cancels = if c.answered() { (0, 1) } else { (1, 1) };
            self.cancels_sent += c.cancels.1;
        }
        self.submit(id, kind, body_len, permits, false, false, true);
        Ok(())
    }

    /// The server's frames so far, without the harness' own pings.
    pub fn frames(&mut self) -> Vec<RMsg> {
        self.peer.pump();
        self.peer.frames.iter().filter(|f| f.id != PING).cloned().collect()
    }

    pub fn request_arrived(&mut self, i: usize) -> bool {
        self.peer.pump();
        let c = &self.calls[i];
        self.peer.frames.iter().any(|f| f.id == c.id && f.code == NORMAL && f.body == c.request.body)
    }

    pub async fn confirm(&mut self, i: usize) -> R {
        let name = self.calls[i].name();
        wait_for(|| format!("the request of {name} never reached the server"), || Ok(self.request_arrived(i).then_some(()))).await
    }

    /// The server sends one message about call `i`'s id.
    pub fn emit(&mut self, i: usize, code: u8, len: usize) {
        let (id, serial) = (self.calls[i].id, self.calls[i].serial);
        let mut body = serial.to_be_bytes().to_vec();
        body.extend(self.counter.to_be_bytes());
        self.counter += 1;
        body.resize(8 + len, 0x5a);
        self.emit_raw(id, code, body.clone());
        let c = &mut self.calls[i];
        if !c.dropped && !c.answered() {
            if code == NORMAL {
                c.items.push(RMsg { id, code, body });
            } else {
                c.term = Some(code);
            }
        }
    }

    /// The server sends a message for an id without saying whom it is for.
    pub fn emit_raw(&mut self, id: u64, code: u8, body: Vec<u8>) {
        self.out.extend(frame(id, code, &body));
        self.dirty.insert(id);
    }

    pub async fn write_out(&mut self, n: usize) -> R {
        let n = n.min(self.out.len());
        let data: Vec<u8> = self.out.drain(..n).collect();
        let mut at = 0;
        let peer = &mut self.peer;
        wait_for(|| "the client stopped reading".into(), || {
            if at < data.len() {
                match peer.write(&data[at..]) {
                    Some(n) => at += n,
                    None => return violation("the client closed its connection while nothing was wrong"),
                }
            }
            Ok((at == data.len()).then_some(()))
        })
        .await
    }

    pub async fn flush(&mut self) -> R {
        let n = self.out.len();
        if n > 0 {
            self.write_out(n).await?;
        }
        Ok(())
    }

    /// Everything the server has sent so far has been processed by the client's reactor, and every message the
    /// client had accepted so far has reached the server.
    pub async fn barrier(&mut self) -> R {
        self.flush().await?;
        self.pings += 1;
        let k = self.pings;
        let client = self.client();
        let done: Arc<Mutex<Option<Result<RMsg, String>>>> = Arc::default();
        let d2 = done.clone();
        let body = (k as u32).to_be_bytes().to_vec();
        let b2 = body.clone();
        tokio::spawn(async move {
            let r = match client.send_unary(RMsg { id: PING, code: NORMAL, body: b2 }).await {
                Ok(c) => c.await.map_err(|e| format!("ping failed: {e}")),
                Err(e) => Err(format!("ping not sent: {e}")),
            };
            *d2.lock().unwrap() = Some(r);
        });
        {
            let peer = &mut self.peer;
            wait_for(|| "a call's request did not reach the server (ping)".into(), || {
                peer.pump();
                if let Some(Err(e)) = &*done.lock().unwrap() {
                    return violation(e.clone());
                }
                Ok((peer.frames.iter().filter(|f| f.id == PING).count() == k).then_some(()))
            })
            .await?;
        }
        let f = frame(PING, NORMAL, &body);
        self.out.extend(f);
        self.flush().await?;
        let r = wait_for(|| "a unary call was not completed by its response (ping)".into(), || Ok(done.lock().unwrap().take())).await?;
        match r {
            Ok(m) if m.body == body => {}
            other => return violation(format!("ping {k} completed with {other:?}")),
        }
        self.dirty.clear();
        Ok(())
    }

    fn wake(&self, i: usize, f: impl FnOnce(&mut Sh)) {
        let w = {
            let mut sh = self.calls[i].sh.lock().unwrap();
            f(&mut sh);
            sh.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn permit(&self, i: usize, n: usize) {
        self.wake(i, |sh| sh.permits = sh.permits.saturating_add(n))
    }

    pub fn set_hold(&self, i: usize, hold: bool) {
        self.wake(i, |sh| sh.hold = hold)
    }

    /// Messages the client has accepted that the server has not received yet (an upper bound).
    fn unconfirmed(&mut self) -> usize {
        self.peer.pump();
        let sent = self.calls.len() + self.cancels_sent + self.pings;
        sent.saturating_sub(self.peer.frames.len())
    }

    /// Drop the completion of call `i`; `sync`: only once everything in flight about it has been processed.
    pub async fn drop_call(&mut self, i: usize, sync: bool) -> R {
        if self.calls[i].dropped {
            return Ok(());
        }
        if sync && self.handle.is_some() && self.dirty.contains(&self.calls[i].id) {
            self.barrier().await?;
            rounds(4).await;
        }
        // the cancel is only promised when there is room in the queue
        let sh = self.calls[i].sh.clone();
        let name = self.calls[i].name();
        wait_for(|| format!("{name} was never accepted for sending"), || {
            let sh = sh.lock().unwrap();
            Ok((sh.sent || sh.finished).then_some(()))
        })
        .await?;
        let mut room = true;
        if self.unconfirmed() + 1 > self.max_queued {
            if self.handle.is_some() {
                self.barrier().await?;
            } else {
                // what is certain to come has come; cancels that may or may not have been sent may still fill the queue
                self.all_due().await?;
                room = self.unconfirmed() < self.max_queued;
            }
        }
        let finished = self.calls[i].observed_finished();
        self.wake(i, |sh| sh.drop_now = true);
        let sh = self.calls[i].sh.clone();
        wait_for(|| "the harness' own drop".into(), || Ok(sh.lock().unwrap().gone.then_some(()))).await?;
        // the driver may have seen the end in its very last poll
        let finished = finished || sh.lock().unwrap().finished;
        let c = &mut self.calls[i];
        c.dropped = true;
        if !finished {
            c.cancels = if c.answered() || !room { (0, 1) } else { (1, 1) };
            self.cancels_sent += c.cancels.1;
        }
        Ok(())
    }

    /// Observations so far are consistent with what was sent.
    pub fn consistent(&self) -> R {
        for c in &self.calls {
            let sh = c.sh.lock().unwrap();
            if let Some(e) = &sh.send_failed {
                return violation(format!("{} could not be sent: {e:?}", c.name()));
            }
            check!(c.matches(&sh.log, false), "{} observed {} but the server sent {}", c.name(), show(&sh.log), show(&c.expected()));
        }
        Ok(())
    }

    /// Everything said so far has been observed by every call that is being polled freely.
    pub async fn all_observed(&mut self) -> R {
        // no ping yet: it would wake whatever forgot to wake up by itself
        self.flush().await?;
        for i in 0..self.calls.len() {
            if self.calls[i].dropped {
                continue;
            }
            self.permit(i, usize::MAX / 2);
        }
        for c in self.calls.iter().filter(|c| !c.dropped) {
            wait_for(|| format!("{} only observed {} although the server sent {}", c.name(), show(&c.sh.lock().unwrap().log), show(&c.expected())), || {
                let sh = c.sh.lock().unwrap();
                if let Some(e) = &sh.send_failed {
                    return violation(format!("{} could not be sent: {e:?}", c.name()));
                }
                check!(c.matches(&sh.log, false), "{} observed {} but the server sent {}", c.name(), show(&sh.log), show(&c.expected()));
                Ok(c.matches(&sh.log, true).then_some(()))
            })
            .await?;
        }
        self.barrier().await?;
        rounds(20).await;
        self.consistent()?;
        for c in self.calls.iter().filter(|c| !c.dropped) {
            check!(c.observed_finished() == c.answered(), "{} finished={} although the server sent {}", c.name(), c.observed_finished(), show(&c.expected()));
        }
        Ok(())
    }

    /// Every message that has certainly been accepted has reached the server.
    pub async fn all_due(&mut self) -> R {
        let due = self.calls.len() + self.pings + self.calls.iter().map(|c| c.cancels.0).sum::<usize>();
        let peer = &mut self.peer;
        wait_for(|| "requests or cancels did not reach the server".into(), || {
            peer.pump();
            Ok((peer.frames.len() >= due).then_some(()))
        })
        .await
    }

    /// Every request exactly once, every cancel that is due and no other, each after its request.
    pub async fn wire_exact(&mut self) -> R {
        self.all_due().await?;
        self.barrier().await?;
        check!(self.peer.end == ReadEnd::Open, "the client closed its connection");
        self.wire_judge()
    }

    pub fn wire_judge(&mut self) -> R {
        check!(!self.peer.garbled, "the client sent bytes that are no message");
        let frames = self.frames();
        let mut by: BTreeMap<u64, Vec<RMsg>> = BTreeMap::new();
        for f in frames {
            by.entry(f.id).or_default().push(f);
        }
        let mut epochs: HashMap<u64, Vec<&Call>> = HashMap::new();
        for c in &self.calls {
            epochs.entry(c.id).or_default().push(c);
        }
        for (id, calls) in &epochs {
            let got = by.remove(id).unwrap_or_default();
            let mut it = got.iter().peekable();
            for c in calls {
                match it.next() {
                    Some(f) if *f == c.request => {}
                    other => return violation(format!("the server expected the request of {} but saw {:?} in {}", c.name(), other.map(describe), describe_all(&got))),
                }
                let mut n = 0;
                while it.peek().is_some_and(|f| f.code != NORMAL) {
                    let f = it.next().expect("peeked");
                    check!(f.code == CANCEL, "{}: the client sent {}", c.name(), describe(f));
                    n += 1;
                }
                check!(n >= c.cancels.0 && n <= c.cancels.1, "{}: {n} cancels were sent where {:?} are due (dropped={}); wire: {}", c.name(), c.cancels, c.dropped, describe_all(&got));
            }
            check!(it.next().is_none(), "surplus messages for id {id}: {}", describe_all(&got));
        }
        check!(by.is_empty(), "messages for ids nobody used: {:?}", by.keys());
        Ok(())
    }

    pub async fn settle_round(&mut self) {
        round().await;
        self.peer.pump();
    }
}

pub fn show(log: &[Seen]) -> String {
    let mut v: Vec<String> = log
        .iter()
        .take(10)
        .map(|s| match s {
            Seen::Item(m) => describe(m),
            o => format!("{o:?}"),
        })
        .collect();
    if log.len() > 10 {
        v.push(format!("... {} more", log.len() - 10));
    }
    format!("[{}]", v.join(", "))
}
