//! C14-C17: the RPC client.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use futures::StreamExt;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket_rpc::client::{connect, Configuration};
use protosocket_rpc::Error;
use serde::{Deserialize, Serialize};

use crate::check;
use crate::client::*;
use crate::rpc::*;
use crate::rt::{block_on, rounds, wait_for, Counted};
use crate::runner::{violation, Ctx, Fail, Property, Suite, Tier, R};

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            rule: "a case is a history of calls (ids from a small pool, reused once free), server messages for live, finished and unknown ids, arbitrary segmentation, polls and drops; non-trivial: at least two calls were in progress at once and a unary call was answered; crowd: up to 3000 calls started, answered and dropped together",
            suites: vec![
                Box::new(Suite { name: "history", strategy: |_| history(Mix { unary: 6, stream: 1, drop: 1 }), run: c14_run, quick: 120_000, thorough: 2_000_000, workers: W }),
                Box::new(Suite { name: "crowd", strategy: |_| crowd(Mix { unary: 20, stream: 1, drop: 2 }), run: crowd_run, quick: 2_000, thorough: 40_000, workers: W }),
            ],
        },
        Property {
            id: "C15",
            rule: "the same histories with mostly streams, bursts of up to 70 items and slow consumers; non-trivial: a stream received items while another call was in progress; crowd: up to 3000 calls and thousands of items in one arrival",
            suites: vec![
                Box::new(Suite { name: "history", strategy: |_| history(Mix { unary: 2, stream: 6, drop: 1 }), run: c15_run, quick: 120_000, thorough: 2_000_000, workers: W }),
                Box::new(Suite { name: "crowd", strategy: |_| crowd(Mix { unary: 1, stream: 8, drop: 2 }), run: crowd_run, quick: 2_000, thorough: 40_000, workers: W }),
            ],
        },
        Property {
            id: "C16",
            rule: "the same histories with many drops; abandoned: sends that find the queue full and are given up while they wait; non-trivial: an unfinished call was dropped while another one was in progress, or after it had received items; or a send was given up while another one waited; crowd: up to 3000 calls, many dropped together",
            suites: vec![
                Box::new(Suite { name: "history", strategy: |_| history(Mix { unary: 3, stream: 3, drop: 6 }), run: c16_run, quick: 120_000, thorough: 2_000_000, workers: W }),
                Box::new(Suite { name: "crowd", strategy: |_| crowd(Mix { unary: 6, stream: 6, drop: 20 }), run: crowd_run, quick: 2_000, thorough: 40_000, workers: W }),
                Box::new(Suite { name: "abandoned", strategy: c16_ab_strategy, run: c16_ab_run, quick: 40_000, thorough: 600_000, workers: W }),
            ],
        },
        Property {
            id: "C29",
            rule: "a history of calls, then the client handles are dropped while calls are in progress or waiting to be sent, then answers, polls and drops of the remaining completions; non-trivial: a call was unfinished when the last handle was dropped; crowd: hundreds of calls without a handle",
            suites: vec![
                Box::new(Suite { name: "handles", strategy: c29_strategy, run: c29_run, quick: 60_000, thorough: 800_000, workers: W }),
                Box::new(Suite { name: "crowd", strategy: |_| doomed(&[Finale::Handles]), run: crowd_run, quick: 1_000, thorough: 20_000, workers: W }),
            ],
        },
        Property {
            id: "C17",
            rule: "a history of calls, then one of ten ways to lose the connection, at any point, possibly with requests blocked behind a full queue; race: calls issued by several threads while the connection dies; crowd: hundreds of calls, some answered, lost at once; non-trivial: at least one call was unfinished when the connection was lost",
            suites: vec![
                Box::new(Suite { name: "loss", strategy: c17_strategy, run: c17_run, quick: 40_000, thorough: 800_000, workers: W }),
                Box::new(Suite { name: "race", strategy: c17_race_strategy, run: c17_race_run, quick: 400, thorough: 10_000, workers: 2 }),
                Box::new(Suite { name: "crowd", strategy: |_| doomed(&[Finale::HalfClose, Finale::Reset, Finale::Abort, Finale::Garbage]), run: crowd_run, quick: 1_500, thorough: 30_000, workers: W }),
            ],
        },
    ]
}

const IDS: [u64; 8] = [0, 1, 2, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, 1 << 63, 12345];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum What {
    Normal,
    End,
    Cancel,
    Other(u8),
}
impl What {
    fn code(&self) -> u8 {
        match self {
            What::Normal => NORMAL,
            What::End => END,
            What::Cancel => CANCEL,
            What::Other(c) => *c,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Call { stream: bool, id: u8, len: u16, eager: bool, hold: bool, foreign: bool },
    Reply { call: u8, what: What, len: u16 },
    Burst { call: u8, n: u8 },
    Stray { id: u8, what: What },
    /// drop and use the id again in one go
    Replace { call: u8, stream: bool, eager: bool },
    Flush { sizes: Vec<u16> },
    Rounds(u8),
    Poll { call: u8, n: u8 },
    Drop { call: u8, sync: bool },
    Release { call: u8 },
    Barrier,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    max_queued: usize,
    ops: Vec<Op>,
}

#[derive(Clone, Copy)]
struct Mix {
    unary: u32,
    stream: u32,
    drop: u32,
}

fn what() -> BoxedStrategy<What> {
    prop_oneof![
        8 => Just(What::Normal),
        3 => Just(What::End),
        2 => Just(What::Cancel),
        1 => (3u8..=255).prop_map(What::Other),
    ]
    .boxed()
}

fn body_len() -> BoxedStrategy<u16> {
    prop_oneof![4 => 0u16..20, 1 => 20u16..3000].boxed()
}

fn op(m: Mix) -> BoxedStrategy<Op> {
    let call = |stream: bool| {
        (any::<u8>(), body_len(), prop::bool::weighted(0.7), prop::bool::weighted(0.3), prop::bool::weighted(0.2))
            .prop_map(move |(id, len, eager, hold, foreign)| Op::Call { stream, id: id % 8, len, eager, hold, foreign })
    };
    prop_oneof![
        m.unary => call(false),
        m.stream => call(true),
        7 => (any::<u8>(), what(), body_len()).prop_map(|(call, what, len)| Op::Reply { call, what, len }),
        m.stream.min(2) => (any::<u8>(), 1u8..70).prop_map(|(call, n)| Op::Burst { call, n }),
        2 => (any::<u8>(), what()).prop_map(|(id, what)| Op::Stray { id, what }),
        4 => prop_oneof![Just(vec![]), vec(1u16..40, 1..5), vec(1u16..2000, 1..4)].prop_map(|sizes| Op::Flush { sizes }),
        3 => (1u8..12).prop_map(Op::Rounds),
        2 => (any::<u8>(), 1u8..20).prop_map(|(call, n)| Op::Poll { call, n }),
        m.drop => (any::<u8>(), any::<bool>()).prop_map(|(call, sync)| Op::Drop { call, sync }),
        1 => any::<u8>().prop_map(|call| Op::Release { call }),
        m.drop.min(2) => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(call, stream, eager)| Op::Replace { call, stream, eager }),
        1 => Just(Op::Barrier),
    ]
    .boxed()
}

fn queue_len() -> BoxedStrategy<usize> {
    prop_oneof![2 => Just(1usize), 2 => 2usize..5, 2 => 5usize..40, 1 => Just(256usize)].boxed()
}

fn history(m: Mix) -> BoxedStrategy<History> {
    (queue_len(), vec(op(m), 3..40)).prop_map(|(max_queued, ops)| History { max_queued, ops }).boxed()
}

#[derive(Default)]
struct Facts {
    concurrent: bool,
    unary_answered: bool,
    stream_items_concurrent: bool,
    dropped_unfinished: bool,
    reused: bool,
    reused_while_held: bool,
    replaced: bool,
    strays: bool,
    long_stream: bool,
}

fn nth(w: &World, n: u8, f: impl Fn(&Call) -> bool) -> Option<usize> {
    let v: Vec<usize> = (0..w.calls.len()).filter(|i| f(&w.calls[*i])).collect();
    (!v.is_empty()).then(|| v[n as usize % v.len()])
}

async fn step(w: &mut World, op: &Op, f: &mut Facts) -> R {
    match op {
        Op::Call { stream, id, len, eager, hold, foreign } => {
            let Some(id) = (0..8).map(|k| IDS[(*id as usize + k) % 8]).find(|id| w.id_free(*id)) else { return Ok(()) };
            if w.dirty.contains(&id) {
                w.barrier().await?;
            }
            f.concurrent |= w.calls.iter().any(|c| c.in_progress());
            f.reused |= w.calls.iter().any(|c| c.id == id);
            f.reused_while_held |= w.calls.iter().any(|c| c.id == id && !c.dropped && !c.sh.lock().unwrap().gone);
            let kind = if *stream { Kind::Stream } else { Kind::Unary };
            w.call(id, kind, *len as usize, if *eager { usize::MAX / 2 } else { 0 }, *hold, *foreign);
        }
        Op::Reply { call, what, len } => {
            let Some(i) = nth(w, *call, |c| !c.dropped && !c.answered()) else { return Ok(()) };
            w.confirm(i).await?;
            w.emit(i, what.code(), *len as usize);
            let c = &w.calls[i];
            f.unary_answered |= c.kind == Kind::Unary && !c.items.is_empty();
            f.stream_items_concurrent |= c.kind == Kind::Stream && !c.items.is_empty() && w.calls.iter().any(|o| o.serial != c.serial && o.in_progress());
        }
        Op::Burst { call, n } => {
            let Some(i) = nth(w, *call, |c| c.kind == Kind::Stream && !c.dropped && !c.answered()) else { return Ok(()) };
            w.confirm(i).await?;
            for _ in 0..*n {
                w.emit(i, NORMAL, 0);
            }
            let c = &w.calls[i];
            f.long_stream |= c.items.len() > 16;
            f.stream_items_concurrent |= w.calls.iter().any(|o| o.serial != c.serial && o.in_progress());
        }
        Op::Stray { id, what } => {
            let id = IDS[*id as usize % 8];
            // not while a call with that id is waiting for exactly this
            if w.calls.iter().any(|c| c.id == id && !c.dropped && !c.answered()) {
                return Ok(());
            }
            f.strays = true;
            w.emit_raw(id, what.code(), b"stray".to_vec());
        }
        Op::Flush { sizes } => {
            for s in sizes {
                if w.out.is_empty() {
                    break;
                }
                w.write_out(*s as usize).await?;
                rounds(2).await;
            }
            w.flush().await?;
        }
        Op::Replace { call, stream, eager } => {
            if let Some(i) = nth(w, *call, |c| !c.dropped && !c.sh.lock().unwrap().gone) {
                f.replaced |= w.calls[i].in_progress();
                let kind = if *stream { Kind::Stream } else { Kind::Unary };
                w.replace_call(i, kind, 3, if *eager { usize::MAX / 2 } else { 0 }).await?;
            }
        }
        Op::Rounds(n) => rounds(*n as usize).await,
        Op::Poll { call, n } => {
            if let Some(i) = nth(w, *call, |c| !c.dropped) {
                w.permit(i, *n as usize);
            }
        }
        Op::Drop { call, sync } => {
            if let Some(i) = nth(w, *call, |c| !c.dropped && !c.sh.lock().unwrap().gone) {
                let others = w.calls.iter().any(|c| c.serial != w.calls[i].serial && c.in_progress());
                let items = !w.calls[i].items.is_empty();
                w.drop_call(i, *sync).await?;
                f.dropped_unfinished |= w.calls[i].cancels == (1, 1) && (others || items);
            }
        }
        Op::Release { call } => {
            if let Some(i) = nth(w, *call, |c| !c.dropped && c.sh.lock().unwrap().finished) {
                w.set_hold(i, false);
            }
        }
        Op::Barrier => w.barrier().await?,
    }
    w.consistent()
}

async fn run_history(h: &History, ctx: &mut Ctx) -> R<Facts> {
    let (mut w, conn) = World::start(&Setup { max_buffer: 1 << 16, max_queued: h.max_queued }).await?;
    w.conn = Some(tokio::spawn(conn));
    let mut f = Facts::default();
    for op in &h.ops {
        step(&mut w, op, &mut f).await?;
    }
    w.all_observed().await?;
    w.wire_exact().await?;
    // finished calls are let go (no cancels), unfinished ones are dropped (one cancel each)
    for i in 0..w.calls.len() {
        if w.calls[i].observed_finished() {
            w.set_hold(i, false);
        } else {
            w.drop_call(i, true).await?;
        }
    }
    rounds(4).await;
    w.wire_exact().await?;
    check!(w.client().is_alive(), "the client says it is not alive although its connection is fine");
    ctx.label_if(f.concurrent, "concurrent");
    ctx.label_if(f.reused, "id reused");
    ctx.label_if(f.replaced, "dropped and id reused at once");
    ctx.label_if(f.reused_while_held, "id reused while the old completion is held");
    ctx.label_if(f.strays, "stray messages");
    ctx.label_if(f.long_stream, "more than 16 items");
    ctx.label_if(f.dropped_unfinished, "dropped unfinished");
    Ok(f)
}

fn c14_run(h: &History, ctx: &mut Ctx) -> R {
    let f = block_on(run_history(h, ctx))?;
    ctx.nontrivial = f.concurrent && f.unary_answered;
    Ok(())
}
fn c15_run(h: &History, ctx: &mut Ctx) -> R {
    let f = block_on(run_history(h, ctx))?;
    ctx.nontrivial = f.stream_items_concurrent;
    Ok(())
}
fn c16_run(h: &History, ctx: &mut Ctx) -> R {
    let f = block_on(run_history(h, ctx))?;
    ctx.nontrivial = f.dropped_unfinished;
    Ok(())
}

// ------------------------------------------------------------------------------------------ crowds of calls

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Fate {
    /// one answer; or so many items and the end
    Answered(u16),
    /// ended by the server without an answer, or after so many items
    Cancelled(u16),
    /// dropped by the application, all at once
    Dropped,
    /// still in progress in the end
    Left,
    /// the same, after so many items
    Open(u16),
}

/// What happens to a crowd in the end
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
enum Finale {
    /// it is still there
    #[default]
    Stay,
    /// the server closes its side right behind the answers
    HalfClose,
    /// the connection is lost once everything has arrived
    Reset,
    Abort,
    Garbage,
    /// the handles are dropped before the answers, the calls that are left behind them
    Handles,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crowd {
    queue: usize,
    /// stream?, fate
    calls: Vec<(bool, Fate)>,
    /// the order in which the server answers
    order: u64,
    /// how far apart the ids are
    spread: u64,
    /// nothing is polled before everything has arrived
    late: bool,
    /// the drops happen before (true) or after the answers
    drops_first: bool,
    sizes: Vec<u32>,
    #[serde(default)]
    finale: Finale,
}

fn crowd(m: Mix) -> BoxedStrategy<Crowd> {
    let items = move || prop_oneof![8 => 0u16..4, 2 => 4u16..40, 1 => 40u16..200];
    let fate = prop_oneof![
        12 => items().prop_map(Fate::Answered),
        1 => items().prop_map(Fate::Cancelled),
        m.drop => Just(Fate::Dropped),
        1 => Just(Fate::Left),
    ];
    let call = prop_oneof![m.unary => fate.clone().prop_map(|f| (false, f)), m.stream => fate.prop_map(|f| (true, f))];
    let calls = prop_oneof![
        30 => (vec(call.clone(), 60..500), Just(0u16)),
        1 => (vec(call.clone(), 500..3_000), Just(0u16)),
        10 => (vec(call, 1..30), 200u16..6_000),
    ]
    .prop_map(|(mut calls, long)| {
        // one long stream
        if let (true, Some(c)) = (long > 0, calls.iter_mut().find(|(s, f)| *s && matches!(f, Fate::Answered(_)))) {
            c.1 = Fate::Answered(long);
        }
        calls
    });
    (
        prop_oneof![1 => 1usize..20, 2 => 100usize..300, 3 => 600usize..700, 1 => 3_000usize..4_000],
        calls,
        any::<u64>(),
        prop_oneof![Just(1u64), Just(1 << 8), Just(1 << 32), Just(u64::MAX / 512)],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just(vec![]), 1 => vec(1u32..60_000, 1..6)],
    )
        .prop_map(|(queue, calls, order, spread, late, drops_first, sizes)| Crowd { queue, calls, order, spread, late, drops_first, sizes, finale: Finale::Stay })
        .boxed()
}

/// Crowds that lose their connection, or their handles
fn doomed(finales: &'static [Finale]) -> BoxedStrategy<Crowd> {
    let open = prop_oneof![2 => Just(Fate::Left), 1 => (0u16..40).prop_map(Fate::Open)];
    (crowd(Mix { unary: 3, stream: 2, drop: 0 }), vec((any::<bool>(), open), 1..400), prop::sample::select(finales))
        .prop_map(|(mut c, more, finale)| {
            // mixed with the others
            for (k, m) in more.into_iter().enumerate() {
                let at = k * 7 % (c.calls.len() + 1);
                c.calls.insert(at, m);
            }
            c.finale = finale;
            c
        })
        .boxed()
}

#[allow(clippy::too_many_arguments)]
async fn crowd_end(c: &Crowd, ctx: &mut Ctx, mut w: World, lost: bool, gate: tokio::sync::watch::Sender<u8>, tasks: Vec<tokio::task::JoinHandle<()>>, n: usize, open: usize) -> R {
    let h = w.conn.take().expect("spawned");
    if lost {
        wait_for(|| "the connection's task did not end".into(), || Ok(h.is_finished().then_some(()))).await?;
        let client = w.client();
        check!(!client.is_alive(), "the client says it is alive although its connection is lost");
        let r = client.send_unary(RMsg { id: 99, code: NORMAL, body: vec![] }).await;
        check!(matches!(r, Err(Error::ConnectionIsClosed)), "a unary call on a lost connection gave {:?}", r.map(|_| "a completion").map_err(|e| e.to_string()));
        ctx.label_if(open > 256, "more than 256 calls lost at once");
    } else {
        rounds(4).await;
        w.peer.pump();
        if open > 0 {
            check!(w.peer.end == crate::rt::ReadEnd::Open && !h.is_finished(), "the connection ended although {open} calls are in progress");
            check!(w.peer.frames.len() == n, "the server received {} although nothing was cancelled", describe(&w.peer.frames[n]));
        }
        gate.send_replace(3);
        let peer = &mut w.peer;
        wait_for(|| "nobody needs the connection any more, but it does not end".into(), || {
            peer.pump();
            Ok((h.is_finished() && peer.end != crate::rt::ReadEnd::Open).then_some(()))
        })
        .await?;
        let cancels = w.peer.frames.len() - n;
        let mut ids = std::collections::HashSet::new();
        for f in &w.peer.frames[n..] {
            check!(f.code == CANCEL && ids.insert(f.id), "the server received {} after {n} requests", describe(f));
        }
        let all = c.queue >= open;
        check!(cancels <= open && (!all || cancels == open), "{open} calls were dropped, {cancels} cancels were sent");
        ctx.label_if(open > 256, "more than 256 calls without a handle");
    }
    ctx.nontrivial = n > 64 && open > 0;
    gate.send_replace(3);
    for t in &tasks {
        wait_for(|| "the harness' own tasks".into(), || Ok(t.is_finished().then_some(()))).await?;
    }
    Ok(())
}

fn crowd_run(c: &Crowd, ctx: &mut Ctx) -> R {
    block_on(crowd_go(c, ctx))
}

async fn crowd_go(c: &Crowd, ctx: &mut Ctx) -> R {
    use std::sync::Mutex;
    let (mut w, conn) = World::start(&Setup { max_buffer: 1 << 20, max_queued: c.queue }).await?;
    w.conn = Some(tokio::spawn(conn));
    let n = c.calls.len();
    let id = |i: usize| (i as u64).wrapping_mul(c.spread);
    // 0: the calls are made; 1: they are polled; 2: those to drop are dropped; 3: all of the rest
    let (gate, watch) = tokio::sync::watch::channel(if c.late { 0u8 } else { 1 });
    type Out = Arc<Mutex<(bool, Vec<Result<RMsg, Error>>, bool)>>;
    let mut outs: Vec<Out> = vec![];
    let mut tasks = vec![];
    for (i, (stream, fate)) in c.calls.iter().enumerate() {
        let (client, mut watch, out) = (w.client(), watch.clone(), Out::default());
        outs.push(out.clone());
        let (stream, fate) = (*stream, *fate);
        let request = RMsg { id: id(i), code: NORMAL, body: (i as u32).to_be_bytes().to_vec() };
        tasks.push(tokio::spawn(async move {
            let sent = if stream { client.send_streaming(request).await.map(Got::S) } else { client.send_unary(request).await.map(Got::U) };
            drop(client);
            let got = match sent {
                Ok(g) => g,
                Err(e) => {
                    out.lock().unwrap().1.push(Err(e));
                    return;
                }
            };
            out.lock().unwrap().0 = true;
            if fate == Fate::Dropped {
                let _ = watch.wait_for(|g| *g >= 2).await;
                drop(got);
                return;
            }
            let _ = watch.wait_for(|g| *g >= 1).await;
            let collect = async {
                match got {
                    Got::U(u) => {
                        let r = u.await;
                        out.lock().unwrap().1.push(r);
                    }
                    Got::S(mut s) => {
                        while let Some(r) = s.next().await {
                            out.lock().unwrap().1.push(r);
                        }
                    }
                }
                out.lock().unwrap().2 = true;
            };
            let (collect, enough) = (std::pin::pin!(collect), std::pin::pin!(watch.wait_for(|g| *g >= 3)));
            futures::future::select(collect, enough).await;
        }));
    }
    // every request arrives, once, intact
    {
        let peer = &mut w.peer;
        let got = std::cell::Cell::new(0);
        wait_for(|| format!("only {} of {n} requests reached the server", got.get()), || {
            peer.pump();
            got.set(peer.frames.len());
            Ok((peer.frames.len() >= n).then_some(()))
        })
        .await?;
    }
    let mut seen = vec![false; n];
    for f in &w.peer.frames {
        let i = f.body.as_slice().try_into().map(u32::from_be_bytes).unwrap_or(u32::MAX) as usize;
        check!(i < n && f.id == id(i) && f.code == NORMAL && !std::mem::replace(&mut seen[i], true), "the server received {} where {n} requests were made", describe(f));
    }
    let drops = c.calls.iter().filter(|(_, f)| *f == Fate::Dropped).count();
    // the answers, in any order over all calls
    let mut turns: Vec<usize> = vec![];
    let mut want: Vec<(Vec<RMsg>, Option<u8>)> = vec![(vec![], None); n];
    for (i, (stream, fate)) in c.calls.iter().enumerate() {
        let k = match (fate, stream) {
            (Fate::Answered(_), false) => 1,
            (Fate::Answered(k), true) => *k as usize + 1,
            (Fate::Cancelled(_), false) => 1,
            (Fate::Cancelled(k), true) => *k as usize + 1,
            (Fate::Open(k), true) => *k as usize,
            _ => 0,
        };
        turns.extend(std::iter::repeat_n(i, k));
    }
    let mut x = c.order;
    for k in (1..turns.len()).rev() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        turns.swap(k, (x >> 33) as usize % (k + 1));
    }
    let mut left: Vec<usize> = vec![0; n];
    for i in &turns {
        left[*i] += 1;
    }
    if c.drops_first {
        gate.send_replace(2);
    }
    if c.finale == Finale::Handles {
        // the callers have dropped theirs
        w.drop_client();
    }
    let answers = turns.len();
    for (k, i) in turns.into_iter().enumerate() {
        left[i] -= 1;
        let (stream, fate) = c.calls[i];
        let code = match fate {
            Fate::Cancelled(_) if left[i] == 0 => CANCEL,
            Fate::Answered(_) if left[i] == 0 && stream => END,
            _ => NORMAL,
        };
        let mut body = (i as u32).to_be_bytes().to_vec();
        body.extend((k as u32).to_be_bytes());
        w.out.extend(frame(id(i), code, &body));
        if code == NORMAL {
            want[i].0.push(RMsg { id: id(i), code, body });
        } else {
            want[i].1 = Some(code);
        }
    }
    for s in &c.sizes {
        if w.out.is_empty() {
            break;
        }
        w.write_out(*s as usize).await?;
        rounds(2).await;
    }
    w.flush().await?;
    let mut lost = false;
    if c.finale == Finale::HalfClose {
        w.peer.half_close();
        lost = true;
    }
    if c.late {
        rounds(5).await;
    }
    gate.send_modify(|g| *g = (*g).max(1));
    let others: Vec<usize> = (0..n).filter(|i| !matches!(c.calls[*i].1, Fate::Left | Fate::Open(_))).collect();
    let open: Vec<usize> = (0..n).filter(|i| matches!(c.calls[*i].1, Fate::Left | Fate::Open(_))).collect();
    // (the open ones a second time, when the connection has been lost)
    for (pass, i) in others.iter().map(|i| (0, *i)).chain(open.iter().map(|i| (0, *i))).chain(open.iter().map(|i| (1, *i))) {
        if pass == 1 && !lost {
            match c.finale {
                Finale::Stay | Finale::HalfClose | Finale::Handles => break,
                Finale::Reset => w.peer.reset(),
                Finale::Abort => w.conn.as_ref().expect("spawned").abort(),
                Finale::Garbage => {
                    w.out.extend([0, 0, 0, 1, 9]);
                    w.flush().await?;
                }
            }
            lost = true;
        }
        let (stream, fate) = c.calls[i];
        let name = || format!("{} call {i} of {n} ({fate:?})", if stream { "streaming" } else { "unary" });
        if fate == Fate::Dropped {
            continue;
        }
        let complete = |v: &[Result<RMsg, Error>]| {
            let (items, end) = &want[i];
            let got: Vec<&RMsg> = v.iter().map_while(|r| r.as_ref().ok()).collect();
            let tail = &v[got.len()..];
            got.len() == items.len()
                && got.iter().zip(items).all(|(a, b)| *a == b)
                && match (stream, end) {
                    (_, None) if !lost || !matches!(fate, Fate::Left | Fate::Open(_)) => tail.is_empty(),
                    (_, None) => matches!(tail, [Err(_)]),
                    (true, Some(END)) => matches!(tail, [Err(Error::Finished)]),
                    (true, Some(_)) => matches!(tail, [Err(_)]),
                    (false, Some(_)) => matches!(tail, [Err(Error::CancelledRemotely)]),
                }
        };
        let out = outs[i].clone();
        let over = lost || !matches!(fate, Fate::Left | Fate::Open(_));
        wait_for(
            || {
                let o = out.lock().unwrap();
                format!("{} has seen {} of {} messages (accepted: {}, over: {})", name(), o.1.len(), want[i].0.len(), o.0, o.2)
            },
            || {
                let o = out.lock().unwrap();
                check!(over || !o.2, "{} ended: {:?}", name(), o.1);
                check!(o.1.len() <= want[i].0.len() + 1, "{} saw more than it was sent: {:?}", name(), o.1.last());
                if o.2 {
                    check!(complete(&o.1), "{} saw {} messages and then {:?} where {} and {:?} were sent", name(), o.1.iter().filter(|r| r.is_ok()).count(), o.1.last(), want[i].0.len(), want[i].1);
                }
                Ok((o.0 && o.2 == over && o.1.len() >= want[i].0.len()).then_some(()))
            },
        )
        .await?;
    }
    if lost || c.finale == Finale::Handles {
        return crowd_end(c, ctx, w, lost, gate, tasks, n, open.len()).await;
    }
    gate.send_modify(|g| *g = (*g).max(2));
    for (i, t) in tasks.iter().enumerate() {
        if c.calls[i].1 == Fate::Dropped {
            wait_for(|| "the harness' own drop".into(), || Ok(t.is_finished().then_some(()))).await?;
        }
    }
    // one cancel for each that was dropped, if the queue has room for all of them; none for others
    let due = if c.queue >= drops { drops } else { 0 };
    {
        let peer = &mut w.peer;
        let got = std::cell::Cell::new(0);
        wait_for(|| format!("{drops} unfinished calls were dropped, {} cancels were sent", got.get()), || {
            peer.pump();
            got.set(peer.frames.len() - n);
            Ok((peer.frames.len() >= n + due).then_some(()))
        })
        .await?;
    }
    rounds(4).await;
    w.peer.pump();
    let mut cancelled = std::collections::HashSet::new();
    for f in &w.peer.frames[n..] {
        let of = (0..n).find(|i| id(*i) == f.id);
        check!(f.code == CANCEL && of.is_some_and(|i| c.calls[i].1 == Fate::Dropped) && cancelled.insert(f.id), "the server received {} (call {of:?}: {:?})", describe(f), of.map(|i| c.calls[i]));
    }
    check!(w.peer.end == crate::rt::ReadEnd::Open && !w.peer.garbled, "the client's connection broke");
    check!(w.client().is_alive(), "the client says it is not alive although its connection is fine");
    w.barrier().await?;
    ctx.nontrivial = n > 64 || answers > 500;
    ctx.label_if(n > 256, "more than 256 calls at once");
    ctx.label_if(answers > 1000, "more than 1000 answers in one go");
    ctx.label_if(drops > 64 && due > 0, "more than 64 drops in one go");
    gate.send_replace(3);
    for t in &tasks {
        wait_for(|| "the harness' own tasks".into(), || Ok(t.is_finished().then_some(()))).await?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16 abandoned sends

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Abandoned {
    max_queued: usize,
    len: u16,
    /// per call: stream?, given up?, and before that so many rounds for the connection
    calls: Vec<(bool, bool, u8)>,
    /// order in which they are given up: rotated by this
    turn: u8,
    /// so many of the ids of calls that were given up are used again at once
    reuse: u8,
}

fn c16_ab_strategy(_: Tier) -> BoxedStrategy<Abandoned> {
    (
        prop_oneof![3 => 1usize..4, 1 => 4usize..10],
        body_len(),
        vec((any::<bool>(), any::<bool>(), prop_oneof![6 => Just(0u8), 1 => 1u8..8]), 1..24),
        any::<u8>(),
        prop_oneof![Just(0u8), 0u8..8],
    )
        .prop_map(|(max_queued, len, calls, turn, reuse)| Abandoned { max_queued, len, calls, turn, reuse })
        .boxed()
}

type Sending = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Got, Error>>>>;
enum Got {
    U(protosocket_rpc::client::UnaryCompletion<RMsg, RMsg>),
    S(protosocket_rpc::client::StreamingCompletion<RMsg, RMsg>),
}
struct One {
    request: RMsg,
    stream: bool,
    sending: Option<Sending>,
    got: Option<Got>,
    /// given up: before (true) or after (false) it was accepted
    gone: Option<bool>,
}
impl One {
    fn new(client: &Client, id: u64, n: u32, stream: bool, len: u16) -> One {
        let mut body = n.to_be_bytes().to_vec();
        body.resize(4 + len as usize, 1);
        let request = RMsg { id, code: NORMAL, body };
        let (c, r) = (client.clone(), request.clone());
        let sending: Sending = if stream { Box::pin(async move { c.send_streaming(r).await.map(Got::S) }) } else { Box::pin(async move { c.send_unary(r).await.map(Got::U) }) };
        One { request, stream, sending: Some(sending), got: None, gone: None }
    }
    fn poll(&mut self) -> R {
        let w = futures::task::noop_waker();
        if let Some(f) = self.sending.as_mut() {
            match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
                std::task::Poll::Pending => {}
                std::task::Poll::Ready(Ok(g)) => {
                    self.sending = None;
                    self.got = Some(g);
                }
                std::task::Poll::Ready(Err(e)) => return violation(format!("a call could not be sent: {e}")),
            }
        }
        Ok(())
    }
    fn give_up(&mut self) {
        self.gone = Some(self.sending.is_some());
        self.sending = None;
        self.got = None;
    }
}

fn c16_ab_run(c: &Abandoned, ctx: &mut Ctx) -> R {
    block_on(c16_ab(c, ctx))
}

async fn c16_ab(c: &Abandoned, ctx: &mut Ctx) -> R {
    let (mut w, conn) = World::start(&Setup { max_buffer: 1 << 16, max_queued: c.max_queued }).await?;
    w.conn = Some(tokio::spawn(conn));
    let client = w.client();
    let mut all: Vec<One> = vec![];
    // without a round in between, nothing is taken from the queue
    for (k, (stream, _, r)) in c.calls.iter().enumerate() {
        rounds(*r as usize).await;
        let mut one = One::new(&client, k as u64, k as u32, *stream, c.len);
        one.poll()?;
        all.push(one);
    }
    let waiting = all.iter().filter(|o| o.sending.is_some()).count();
    let n = c.calls.len();
    let mut freed = vec![];
    for k in 0..n {
        let k = (k + c.turn as usize) % n;
        if c.calls[k].1 {
            rounds(c.calls[k].2 as usize).await;
            all[k].give_up();
            freed.push(k as u64);
        }
    }
    let given_up_waiting = all.iter().filter(|o| o.gone == Some(true)).count();
    ctx.nontrivial = given_up_waiting > 0 && waiting > 1;
    ctx.label_if(given_up_waiting > 0, "given up while waiting for room");
    for id in freed.into_iter().take(c.reuse as usize) {
        // only where no late answer of the first use can be on its way
        let mut one = One::new(&client, id, 1000 + id as u32, id % 2 == 0, c.len);
        one.poll()?;
        all.push(one);
        ctx.label("id used again");
    }
    // the others are sent when there is room
    let peer = &mut w.peer;
    wait_for(|| "a call that waited for queue room was never accepted".into(), || {
        peer.pump();
        for o in all.iter_mut() {
            o.poll()?;
        }
        Ok(all.iter().all(|o| o.sending.is_none()).then_some(()))
    })
    .await?;
    w.barrier().await?;
    check!(w.peer.end == crate::rt::ReadEnd::Open && !w.peer.garbled, "the client's connection broke");
    let frames = w.frames();
    for (k, o) in all.iter().enumerate() {
        let sent: Vec<usize> = (0..frames.len()).filter(|i| frames[*i] == o.request).collect();
        let cancels = |after: usize| frames[after..].iter().filter(|f| f.id == o.request.id && f.code == CANCEL).count();
        match o.gone {
            // accepted and then given up with the queue possibly full: the request was sent, the cancel is not promised
            Some(false) | None => check!(sent.len() == 1, "call {k}: its request was sent {} times: {}", sent.len(), describe_all(&frames)),
            Some(true) => check!(sent.is_empty() || (sent.len() == 1 && cancels(sent[0]) > 0), "call {k} was given up while its send waited for room, but its request was sent and not cancelled: {}", describe_all(&frames)),
        }
        check!(cancels(0) <= 1 || all.iter().filter(|x| x.request.id == o.request.id).count() > 1, "call {k}: several cancels: {}", describe_all(&frames));
        if o.gone.is_none() {
            // no cancel after the request of a call that is in progress
            check!(cancels(sent[0]) == 0, "call {k} is in progress, but a cancel for it was sent: {}", describe_all(&frames));
        }
    }
    check!(frames.iter().all(|f| all.iter().any(|o| o.request == *f || (f.code == CANCEL && o.request.id == f.id))), "unknown messages were sent: {}", describe_all(&frames));
    // each of the rest gets its own answer
    for o in all.iter().filter(|o| o.gone.is_none()) {
        w.out.extend(frame(o.request.id, NORMAL, &o.request.body));
        if o.stream {
            w.out.extend(frame(o.request.id, END, &[]));
        }
    }
    w.flush().await?;
    for (k, o) in all.into_iter().enumerate() {
        let want = o.request;
        match o.got {
            Some(Got::U(u)) => match tokio::time::timeout(crate::runner::stall_bound(), u).await {
                Err(_) => return Err(Fail::Stall(format!("call {k} was not completed by its response"))),
                Ok(Ok(m)) if m == want => {}
                Ok(r) => return violation(format!("call {k} completed with {:?}", r.map(|m| describe(&m)))),
            },
            Some(Got::S(s)) => match tokio::time::timeout(crate::runner::stall_bound(), s.collect::<Vec<_>>()).await {
                Err(_) => return Err(Fail::Stall(format!("stream {k} did not end"))),
                Ok(v) if matches!(&v[..], [Ok(m), Err(Error::Finished)] if *m == want) => {}
                Ok(v) => return violation(format!("stream {k} yielded {v:?}")),
            },
            None => {}
        }
    }
    check!(client.is_alive(), "the client says it is not alive although its connection is fine");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C29

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Handles {
    max_queued: usize,
    before: Vec<Op>,
    after: Vec<Op>,
    /// unfinished calls are answered (rather than dropped) in the end
    answer: u16,
}

fn c29_strategy(_: Tier) -> BoxedStrategy<Handles> {
    (queue_len(), vec(op(Mix { unary: 5, stream: 5, drop: 1 }), 1..20), vec(op(Mix { unary: 1, stream: 1, drop: 3 }), 0..16), any::<u16>())
        .prop_map(|(max_queued, before, mut after, answer)| {
            after.retain(|o| !matches!(o, Op::Call { .. } | Op::Replace { .. } | Op::Barrier));
            Handles { max_queued, before, after, answer }
        })
        .boxed()
}

fn c29_run(c: &Handles, ctx: &mut Ctx) -> R {
    block_on(c29(c, ctx))
}

async fn c29(c: &Handles, ctx: &mut Ctx) -> R {
    let (mut w, conn) = World::start(&Setup { max_buffer: 1 << 16, max_queued: c.max_queued }).await?;
    w.conn = Some(tokio::spawn(conn));
    let mut f = Facts::default();
    for op in &c.before {
        step(&mut w, op, &mut f).await?;
    }
    let unfinished = w.calls.iter().filter(|c| c.in_progress() && !c.answered()).count();
    ctx.nontrivial = unfinished > 0;
    ctx.label_if(unfinished > 0, "calls in progress");
    ctx.label_if(w.calls.iter().any(|c| !c.sh.lock().unwrap().sent), "calls not accepted yet");
    w.drop_client();
    let open = |w: &mut World| -> R {
        w.peer.pump();
        if w.calls.iter().any(|c| !c.dropped && !c.answered()) {
            check!(w.peer.end == crate::rt::ReadEnd::Open, "the connection was closed although calls are in progress");
            check!(!w.conn.as_ref().expect("spawned").is_finished(), "the connection ended although calls are in progress");
        }
        Ok(())
    };
    for op in &c.after {
        open(&mut w)?;
        // the connection may be gone once the last call is answered: nobody is there to read what the server says
        if !w.calls.iter().any(|c| !c.dropped && !c.answered()) {
            break;
        }
        step(&mut w, op, &mut f).await?;
    }
    open(&mut w)?;
    if w.calls.iter().any(|c| !c.dropped && !c.answered()) {
        w.flush().await?;
    } else {
        // the last answer may close the connection before the rest is written
        let _ = w.flush().await;
        w.out.clear();
    }
    rounds(20).await;
    open(&mut w)?;
    // answers for the rest, or drops
    for i in 0..w.calls.len() {
        w.permit(i, usize::MAX / 2);
        if w.calls[i].dropped || w.calls[i].answered() {
            continue;
        }
        w.confirm(i).await?;
        if c.answer >> (i % 16) & 1 == 1 {
            let code = if w.calls[i].kind == Kind::Unary { NORMAL } else { END };
            w.emit(i, code, 3);
            w.flush().await?;
        } else {
            // (whatever the server has sent by now may or may not have been seen)
            w.drop_call(i, false).await?;
        }
    }
    for call in w.calls.iter().filter(|c| !c.dropped) {
        wait_for(|| format!("{} only observed {} although the server sent {} (the client handle is dropped)", call.name(), show(&call.sh.lock().unwrap().log), show(&call.expected())), || {
            let sh = call.sh.lock().unwrap();
            if let Some(e) = &sh.send_failed {
                return violation(format!("{} could not be sent: {e:?}", call.name()));
            }
            check!(call.matches(&sh.log, false), "{} observed {} but the server sent {}", call.name(), show(&sh.log), show(&call.expected()));
            Ok(call.matches(&sh.log, true).then_some(()))
        })
        .await?;
    }
    for i in 0..w.calls.len() {
        w.set_hold(i, false);
    }
    let h = w.conn.take().expect("spawned");
    let peer = &mut w.peer;
    wait_for(|| "nobody needs the connection any more, but it does not end".into(), || {
        peer.pump();
        Ok(h.is_finished().then_some(()))
    })
    .await?;
    wait_for(|| "the connection ended but its socket was not closed".into(), || {
        peer.pump();
        Ok((peer.end != crate::rt::ReadEnd::Open).then_some(()))
    })
    .await?;
    // everything that was accepted has been sent before
    w.wire_judge()
}

// ------------------------------------------------------------------------------------------ C27

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct IdleHistory {
    h: History,
    /// look after every so many operations
    every: u8,
}

pub fn idle_strategy() -> BoxedStrategy<IdleHistory> {
    (history(Mix { unary: 3, stream: 3, drop: 3 }), 1u8..20).prop_map(|(h, every)| IdleHistory { h, every }).boxed()
}

pub fn idle_run(c: &IdleHistory, ctx: &mut Ctx) -> R {
    block_on(async {
        let (mut w, conn) = World::start(&Setup { max_buffer: 1 << 16, max_queued: c.h.max_queued }).await?;
        w.conn = Some(tokio::spawn(conn));
        let mut f = Facts::default();
        for (k, op) in c.h.ops.iter().enumerate() {
            step(&mut w, op, &mut f).await?;
            if k % c.every as usize == c.every as usize - 1 {
                crate::meter::sleeps(|| "an RPC client".into()).await?;
                ctx.nontrivial |= w.calls.iter().any(|c| c.in_progress());
            }
        }
        w.flush().await?;
        crate::meter::sleeps(|| "an RPC client".into()).await?;
        let busy = w.calls.iter().any(|c| c.in_progress());
        ctx.nontrivial |= busy;
        ctx.label_if(busy, "calls in progress");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C17

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Loss {
    HalfClose,
    Close,
    Reset,
    Garbage,
    TooLong,
    PartialThenClose,
    Abort,
    /// the connection future is dropped before it was ever polled
    NeverRun,
    /// the user's codec panics, so the connection's task does
    DecodePanic,
    EncodePanic,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(crate) struct LossCase {
    max_queued: usize,
    ops: Vec<Op>,
    /// so many large requests against a server that stopped reading
    blocked: u8,
    barrier: bool,
    flush: bool,
    rounds: u8,
    loss: Loss,
}

fn c17_strategy(_: Tier) -> BoxedStrategy<LossCase> {
    let loss = prop::sample::select(vec![Loss::HalfClose, Loss::Close, Loss::Reset, Loss::Garbage, Loss::TooLong, Loss::PartialThenClose, Loss::Abort, Loss::NeverRun, Loss::DecodePanic, Loss::EncodePanic]);
    (
        queue_len(),
        vec(op(Mix { unary: 4, stream: 4, drop: 1 }), 1..24),
        prop_oneof![12 => Just(0u8), 1 => 1u8..40],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 1 => 1u8..10],
        loss,
    )
        .prop_map(|(max_queued, ops, blocked, barrier, flush, rounds, loss)| LossCase { max_queued, ops, blocked, barrier, flush, rounds, loss })
        .boxed()
}

fn c17_run(c: &LossCase, ctx: &mut Ctx) -> R {
    block_on(c17(c, ctx))
}

async fn c17(c: &LossCase, ctx: &mut Ctx) -> R {
    let max_buffer = if c.blocked > 0 { 1 << 19 } else { 1 << 16 };
    let (mut w, conn) = World::start(&Setup { max_buffer, max_queued: c.max_queued }).await?;
    let mut f = Facts::default();
    let mut exact = false;
    let mut unsendable: Vec<usize> = vec![];
    let mut conn = Some(conn);
    let mut poisoned = None;
    if c.loss == Loss::NeverRun {
        for (k, op) in c.ops.iter().enumerate() {
            match op {
                Op::Call { .. } if w.calls.len() < 8 => step(&mut w, op, &mut f).await?,
                Op::Rounds(n) => rounds(*n as usize).await,
                Op::Drop { .. } if k % 2 == 0 => {}
                _ => {}
            }
        }
        if c.rounds > 0 {
            rounds(c.rounds as usize).await;
        }
        // nothing has ever been taken from the queue: what does not fit cannot be sent any more
        unsendable = (0..w.calls.len()).filter(|i| !w.calls[*i].sh.lock().unwrap().sent).collect();
        ctx.label_if(w.calls.len() > c.max_queued, "sends wait for queue room");
        drop(conn.take());
        ctx.label("connection never ran");
    } else {
        let polls = Arc::new(AtomicU64::new(0));
        w.conn = Some(tokio::spawn(Counted { inner: conn.take().expect("present"), polls: polls.clone() }));
        for op in &c.ops {
            step(&mut w, op, &mut f).await?;
        }
        if c.barrier {
            w.barrier().await?;
        }
        if c.blocked > 0 {
            for k in 0..c.blocked {
                w.call(1_000_000 + k as u64, if k % 2 == 0 { Kind::Unary } else { Kind::Stream }, 300_000, usize::MAX / 2, false, false);
            }
            rounds(40).await;
            ctx.label_if(w.calls.iter().any(|c| !c.sh.lock().unwrap().sent), "sends wait for queue room");
        } else {
            // nothing is left to be written to the server: what it sends before it leaves has to arrive
            for i in 0..w.calls.len() {
                w.confirm(i).await?;
            }
            let due: usize = w.calls.len() + w.calls.iter().map(|c| c.cancels.0).sum::<usize>();
            let peer = &mut w.peer;
            wait_for(|| "cancels did not reach the server".into(), || {
                peer.pump();
                Ok((peer.frames.iter().filter(|f| f.id != PING).count() >= due).then_some(()))
            })
            .await?;
            // a drop that may or may not have sent a cancel leaves that open
            exact = w.calls.iter().all(|c| c.cancels.0 == c.cancels.1);
        }
        if c.flush {
            w.flush().await?;
        }
        let unflushed = !w.out.is_empty();
        match c.loss {
            Loss::HalfClose => {
                w.flush().await?;
                w.peer.half_close();
            }
            Loss::Close => {
                w.flush().await?;
                w.peer.pump();
                w.peer.close();
            }
            Loss::Reset => {
                exact = false;
                w.peer.reset();
            }
            Loss::Garbage => {
                w.out.extend([0, 0, 0, 1, 9]);
                w.flush().await?;
            }
            Loss::TooLong => {
                w.out.extend([0xff, 0xff, 0xff, 0xff, 1, 2, 3]);
                w.flush().await?;
            }
            Loss::DecodePanic => {
                exact = false;
                w.out.extend(frame(IDS[1], NORMAL, POISON));
                w.flush().await?;
                ctx.label("codec panic");
            }
            Loss::EncodePanic => {
                exact = false;
                w.flush().await?;
                ctx.label("codec panic");
                let client = w.client();
                let call = client.send_unary(RMsg { id: 97, code: NORMAL, body: POISON.to_vec() });
                tokio::pin!(call);
                let peer = &mut w.peer;
                wait_for(|| "a request that cannot be encoded was neither accepted nor refused".into(), || {
                    use futures::FutureExt;
                    peer.pump();
                    match call.as_mut().now_or_never() {
                        Some(Ok(mut u)) => {
                            poisoned = Some(tokio::spawn(async move { (&mut u).await }));
                            Ok(Some(()))
                        }
                        Some(Err(e)) => violation(format!("a call could not be sent: {e}")),
                        None => Ok(None),
                    }
                })
                .await?;
            }
            Loss::PartialThenClose => {
                let f = frame(IDS[1], NORMAL, b"never complete");
                w.out.extend(&f[..f.len() - 3]);
                w.flush().await?;
                w.peer.half_close();
            }
            Loss::Abort if c.blocked > 0 => {
                // as long as the connection does not run, no room appears: what waits now cannot be sent any more
                for _ in 0..50 {
                    let before = polls.load(Ordering::Relaxed);
                    rounds(2 * w.calls.len() + 20).await;
                    if polls.load(Ordering::Relaxed) == before {
                        unsendable = (0..w.calls.len()).filter(|i| !w.calls[*i].sh.lock().unwrap().sent).collect();
                        ctx.label_if(!unsendable.is_empty(), "sends that can never succeed");
                        break;
                    }
                }
                if let Some(h) = &w.conn {
                    h.abort();
                }
            }
            Loss::Abort => {
                rounds(c.rounds as usize).await;
                exact &= c.barrier && w.dirty.is_empty() && !unflushed;
                if let Some(h) = &w.conn {
                    h.abort();
                }
            }
            Loss::NeverRun => unreachable!("handled above"),
        }
    }
    for i in &unsendable {
        let call = &w.calls[*i];
        wait_for(
            || format!("sending {} neither failed nor succeeded although the connection is lost", call.name()),
            || {
                let sh = call.sh.lock().unwrap();
                check!(!sh.sent, "{} was reported as sent although the connection was lost before there was room for it", call.name());
                Ok(sh.send_failed.is_some().then_some(()))
            },
        )
        .await?;
    }
    let mut unfinished = 0;
    for i in 0..w.calls.len() {
        if !w.calls[i].dropped {
            unfinished += !w.calls[i].answered() as usize;
            w.permit(i, usize::MAX / 2);
        }
    }
    ctx.nontrivial = unfinished > 0;
    for call in w.calls.iter().filter(|c| !c.dropped) {
        wait_for(
            || format!("{} did not end although the connection is lost ({:?}); it observed {}", call.name(), c.loss, show(&call.sh.lock().unwrap().log)),
            || Ok(call.sh.lock().unwrap().finished.then_some(())),
        )
        .await?;
        let sh = call.sh.lock().unwrap();
        if let Some(e) = &sh.send_failed {
            check!(*e == Seen::Closed, "{}: its send failed with {e:?}", call.name());
            check!(!exact || c.loss == Loss::NeverRun, "{}: its send failed although its request had reached the server", call.name());
            continue;
        }
        judge(call, &sh.log, exact, c.loss)?;
    }
    if let Some(h) = w.conn.take() {
        wait_for(|| "the connection's task did not end".into(), || Ok(h.is_finished().then_some(()))).await?;
    }
    if matches!(c.loss, Loss::HalfClose | Loss::PartialThenClose) {
        let peer = &mut w.peer;
        wait_for(|| "the connection ended but its socket was not closed".into(), || {
            peer.pump();
            Ok((peer.end != crate::rt::ReadEnd::Open).then_some(()))
        })
        .await?;
        check!(w.peer.end == crate::rt::ReadEnd::Eof, "a server that closed its sending side was reset instead of seeing the end of the requests");
    }
    if let Some(h) = poisoned {
        wait_for(|| "a call whose request could not be encoded did not end".into(), || Ok(h.is_finished().then_some(()))).await?;
        check!(!matches!(h.await, Ok(Ok(_))), "a call whose request could not be encoded got an answer");
    }
    let client = w.client();
    wait_for(|| "the client still says it is alive".into(), || Ok((!client.is_alive()).then_some(()))).await?;
    for _ in 0..2 {
        let r = client.send_unary(RMsg { id: 99, code: NORMAL, body: vec![] }).await;
        check!(matches!(r, Err(Error::ConnectionIsClosed)), "a unary call on a lost connection gave {:?}", r.map(|_| "a completion").map_err(|e| e.to_string()));
        let r = client.send_streaming(RMsg { id: 98, code: NORMAL, body: vec![] }).await;
        check!(matches!(r, Err(Error::ConnectionIsClosed)), "a streaming call on a lost connection gave {:?}", r.map(|_| "a completion").map_err(|e| e.to_string()));
    }
    Ok(())
}

/// What a call that outlives its connection may have observed.
fn judge(call: &Call, log: &[Seen], exact: bool, loss: Loss) -> R {
    let bad = |why: &str| violation(format!("{} after losing the connection ({loss:?}): {why}; observed {}, the server had sent {}", call.name(), show(log), show(&call.expected())));
    let items: Vec<&RMsg> = log.iter().filter_map(|s| if let Seen::Item(m) = s { Some(m) } else { None }).collect();
    if items.len() > call.items.len() || items.iter().zip(&call.items).any(|(a, b)| **a != *b) {
        return bad("it observed responses that were not sent to it");
    }
    if exact && items.len() < call.items.len() {
        return bad("responses that had arrived are missing");
    }
    match call.kind {
        Kind::Unary => {
            if log.len() != 1 {
                return bad("a unary call has exactly one result");
            }
        }
        Kind::Stream => {
            let n = items.len();
            let tail_ok = log.len() == n + 2 && !matches!(log[n], Seen::Item(_) | Seen::None) && log[n + 1] == Seen::None;
            if !tail_ok {
                return bad("a stream ends with exactly one error and then nothing");
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Race {
    callers: u8,
    max_queued: usize,
    answer_every: u8,
    close_after: u16,
    how: u8,
    body: u16,
}

fn c17_race_strategy(_: Tier) -> BoxedStrategy<Race> {
    (1u8..9, queue_len(), 1u8..4, 0u16..300, 0u8..4, 0u16..2000)
        .prop_map(|(callers, max_queued, answer_every, close_after, how, body)| Race { callers, max_queued, answer_every, close_after, how, body })
        .boxed()
}

fn c17_race_run(c: &Race, ctx: &mut Ctx) -> R {
    let (l, addr) = listen()?;
    l.set_nonblocking(false).map_err(|e| Fail::Harness(e.to_string()))?;
    let case = c.clone();
    let server = std::thread::Builder::new().name("race-server".into()).spawn(move || {
        let Ok((sock, _)) = l.accept() else { return };
        let Ok(mut p) = Peer::new(sock) else { return };
        let mut done = 0usize;
        let start = std::time::Instant::now();
        loop {
            p.pump();
            while done < p.frames.len() {
                let m = p.frames[done].clone();
                done += 1;
                if m.code == NORMAL && done % case.answer_every as usize == 0 {
                    // streams (odd ids) get an item, unary calls their response
                    let _ = p.write(&frame(m.id, NORMAL, &m.body));
                }
                if done >= case.close_after as usize {
                    match case.how {
                        0 => p.close(),
                        1 => p.reset(),
                        2 => {
                            let _ = p.write(&[0, 0, 0, 1, 1, 1, 1, 1]);
                            std::thread::sleep(Duration::from_millis(30));
                        }
                        _ => {
                            p.half_close();
                            std::thread::sleep(Duration::from_millis(30));
                        }
                    }
                    return;
                }
            }
            if p.end != crate::rt::ReadEnd::Open || start.elapsed() > Duration::from_secs(60) {
                return;
            }
            std::thread::sleep(Duration::from_micros(50));
            if case.close_after == 0 {
                return;
            }
        }
    });
    let server = server.map_err(|e| Fail::Harness(e.to_string()))?;
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().map_err(|e| Fail::Harness(e.to_string()))?;
    let r: R<usize> = rt.block_on(async {
        let mut cfg = Configuration::default();
        cfg.max_buffer_length(1 << 16);
        cfg.max_queued_outbound_messages(c.max_queued);
        let (client, conn) = connect::<RCodec, RCodec>(addr, &cfg).await.map_err(|e| Fail::Harness(format!("connect: {e}")))?;
        tokio::spawn(conn);
        let mut tasks = vec![];
        for t in 0..c.callers as u64 {
            let client = client.clone();
            let body = vec![t as u8; c.body as usize];
            tasks.push(tokio::spawn(async move {
                let mut unresolved = vec![];
                let mut n = 0u64;
                loop {
                    let id = t << 32 | n;
                    n += 1;
                    let r = RMsg { id, code: NORMAL, body: body.clone() };
                    if n % 2 == 1 {
                        match client.send_streaming(r).await {
                            Ok(mut s) => unresolved.push(tokio::spawn(async move {
                                let mut items = 0;
                                while let Some(Ok(m)) = s.next().await {
                                    items += 1;
                                    if m.id != id {
                                        return Err(format!("stream {id} got {}", m.id));
                                    }
                                }
                                if items > 1 { Err(format!("stream {id} got {items} items")) } else { Ok(()) }
                            })),
                            Err(Error::ConnectionIsClosed) => break,
                            Err(e) => return Err(Fail::Violation(format!("a send failed with {e}"))),
                        }
                    } else {
                        match client.send_unary(r).await {
                            Ok(u) => unresolved.push(tokio::spawn(async move {
                                match u.await {
                                    Ok(m) if m.id != id => Err(format!("call {id} got {}", m.id)),
                                    _ => Ok(()),
                                }
                            })),
                            Err(Error::ConnectionIsClosed) => break,
                            Err(e) => return Err(Fail::Violation(format!("a send failed with {e}"))),
                        }
                    }
                    if n > 3000 {
                        tokio::task::yield_now().await;
                    }
                }
                let calls = unresolved.len();
                for u in unresolved {
                    match u.await {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(Fail::Violation(e)),
                        Err(e) => return Err(Fail::Violation(format!("a caller died: {e}"))),
                    }
                }
                Ok(calls)
            }));
        }
        let mut calls = 0;
        for t in tasks {
            // a hang here is a hang: nothing else is going on
            match tokio::time::timeout(Duration::from_secs(40), t).await {
                Err(_) => return violation("calls still hang 40 s after their connection was lost"),
                Ok(Err(e)) => return violation(format!("a caller died: {e}")),
                Ok(Ok(r)) => calls += r?,
            }
        }
        let t0 = std::time::Instant::now();
        while client.is_alive() {
            if t0.elapsed() > Duration::from_secs(20) {
                return violation("the client still says it is alive");
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        Ok(calls)
    });
    rt.shutdown_timeout(Duration::from_secs(5));
    let _ = server.join();
    let calls = r?;
    ctx.nontrivial = calls > 1;
    Ok(())
}

pub(crate) fn c34_strategy(t: Tier) -> BoxedStrategy<LossCase> {
    c17_strategy(t)
}
pub(crate) fn c34_run(c: &LossCase, ctx: &mut Ctx) -> R {
    crate::conn_props::memory_only(c17_run(c, ctx))
}
