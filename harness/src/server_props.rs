//! C18-C20 and C22: the RPC server (and control codes on both sides).

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket_rpc::ProtosocketControlCode;
use serde::{Deserialize, Serialize};

use crate::check;
use crate::client;
use crate::rpc::*;
use crate::rt::{block_on, rounds, wait_for, ReadEnd};
use crate::runner::{Ctx, Fail, Property, Suite, Tier, R};
use crate::server::*;

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "a case is a queue limit and a history of requests (unary or streaming, ready at once, self-waking or completed later in any order, or unknown; ids reused once free), service events, segmentation and a client that reads or not; non-trivial: at least two RPCs in progress at once, one of them a stream or completed later; thousands: up to 6000 requests on one connection, more than 1024 in progress at once",
            suites: vec![
                Box::new(Suite { name: "history", strategy: |_| history(1), run: c18_run, quick: 60_000, thorough: 800_000, workers: W }),
                Box::new(Suite { name: "bursts", strategy: |_| bursts(false), run: c18_run, quick: 1_500, thorough: 30_000, workers: W }),
                Box::new(Suite { name: "thousands", strategy: |_| crate::endure_props::thousands(false), run: crate::endure_props::thousands_run, quick: 1_500, thorough: 40_000, workers: W }),
            ],
        },
        Property {
            id: "C19",
            rule: "the same histories with many cancels: of live, finished and unknown ids, adjacent to requests that reuse the id; non-trivial: a live RPC was cancelled while another one was in progress, or its id was reused; bursts: hundreds of requests in one arrival, then hundreds of cancels in one; thousands: the same with up to 6000 requests",
            suites: vec![
                Box::new(Suite { name: "history", strategy: |_| history(6), run: c19_run, quick: 100_000, thorough: 1_500_000, workers: W }),
                Box::new(Suite { name: "bursts", strategy: |_| bursts(true), run: c19_run, quick: 1_200, thorough: 30_000, workers: W }),
                Box::new(Suite { name: "thousands", strategy: |_| crate::endure_props::thousands(true), run: crate::endure_props::thousands_run, quick: 1_500, thorough: 40_000, workers: W }),
            ],
        },
        Property {
            id: "C20",
            rule: "a history of requests and service events, then one of ten ways for the connection to end (six by the client, three by a panicking service, one by a panicking codec), with the client reading or blocked; non-trivial: at least one RPC was unfinished when it ended; crowd: hundreds of RPCs at once",
            suites: vec![
                Box::new(Suite { name: "endings", strategy: c20_strategy, run: c20_run, quick: 80_000, thorough: 1_000_000, workers: W }),
                Box::new(Suite { name: "crowd", strategy: c20_crowd, run: c20_run, quick: 1_200, thorough: 30_000, workers: W }),
            ],
        },
        Property {
            id: "C22",
            rule: "all 256 code bytes are converted in every case; on the wire, generated codes are sent to a server (as requests with live and unknown ids) and to a client (as responses); non-trivial: a code other than 0, 1, 2 was used on a live id",
            suites: vec![
                Box::new(Suite { name: "server", strategy: c22_strategy, run: c22_server_run, quick: 30_000, thorough: 400_000, workers: W }),
                Box::new(Suite { name: "client", strategy: c22_strategy, run: c22_client_run, quick: 30_000, thorough: 400_000, workers: W }),
            ],
        },
    ]
}

const IDS: [u64; 8] = [0, 1, 2, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX, 1 << 63, 4711];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Request { plan: Plan, id: u8, len: u16 },
    Produce { rpc: u8, n: u8 },
    Finish { rpc: u8 },
    Cancel { rpc: u8, code: u8 },
    /// cancel those in progress of which so many bits of the mask repeat
    CancelMany { mask: u16 },
    /// cancel and use the id again at once
    CancelAndReuse { rpc: u8, plan: Plan },
    StrayCancel { id: u8 },
    End { id: u8 },
    Flush { sizes: Vec<u16> },
    Rounds(u8),
    Read(bool),
    Barrier,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    max_queued: usize,
    small_window: bool,
    ops: Vec<Op>,
}

fn plan() -> BoxedStrategy<Plan> {
    prop_oneof![
        3 => Just(Plan::UnaryNow),
        2 => (1u8..4).prop_map(Plan::UnaryYield),
        5 => Just(Plan::UnaryLater),
        2 => (0u8..40).prop_map(Plan::StreamNow),
        2 => (0u8..12).prop_map(Plan::StreamYield),
        5 => Just(Plan::StreamLater),
        1 => Just(Plan::Unknown),
    ]
    .boxed()
}

fn len() -> BoxedStrategy<u16> {
    prop_oneof![6 => 0u16..30, 2 => 30u16..3000, 1 => 10_000u16..60_000].boxed()
}

fn op(cancels: u32) -> BoxedStrategy<Op> {
    prop_oneof![
        8 => (plan(), any::<u8>(), len()).prop_map(|(plan, id, len)| Op::Request { plan, id: id % 8, len }),
        7 => (any::<u8>(), prop_oneof![3 => 1u8..3, 1 => 3u8..40]).prop_map(|(rpc, n)| Op::Produce { rpc, n }),
        3 => any::<u8>().prop_map(|rpc| Op::Finish { rpc }),
        cancels => (any::<u8>(), prop_oneof![4 => Just(CANCEL), 1 => 3u8..=255]).prop_map(|(rpc, code)| Op::Cancel { rpc, code }),
        cancels => (any::<u8>(), plan()).prop_map(|(rpc, plan)| Op::CancelAndReuse { rpc, plan }),
        1 => any::<u8>().prop_map(|id| Op::StrayCancel { id }),
        1 => any::<u8>().prop_map(|id| Op::End { id }),
        4 => prop_oneof![2 => Just(vec![]), 1 => vec(1u16..40, 1..5), 1 => vec(1u16..400, 1..4)].prop_map(|sizes| Op::Flush { sizes }),
        4 => (1u8..14).prop_map(Op::Rounds),
        1 => any::<bool>().prop_map(Op::Read),
        1 => Just(Op::Barrier),
    ]
    .boxed()
}

fn queue_len() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 3 => 2usize..5, 2 => 5usize..40, 1 => Just(128usize)].boxed()
}

fn history(cancels: u32) -> BoxedStrategy<History> {
    (queue_len(), any::<bool>(), vec(op(cancels), 2..40)).prop_map(|(max_queued, small_window, ops)| History { max_queued, small_window, ops }).boxed()
}

/// Many requests in one arrival, more than the server takes per turn, and completions all at once.
fn bursts(cancels: bool) -> BoxedStrategy<History> {
    // with plans that do not wake the server by themselves, nothing else reminds it of requests it has not taken yet
    let quiet = |unary: u32, stream: u32| prop_oneof![unary => Just(Plan::UnaryLater), stream => Just(Plan::StreamLater), 1 => Just(Plan::Unknown)];
    let calls = prop_oneof![
        4 => vec((plan(), 0u16..40), 60..320),
        1 => vec((quiet(4, 2), 0u16..40), 120..520),
        1 => vec((quiet(60, 1), 0u16..40), 40..520),
        1 => vec((quiet(1, 60), 0u16..40), 40..520),
    ];
    (
        prop_oneof![1 => queue_len(), 1 => prop::sample::select(vec![127usize, 128, 129, 200, 256, 300])],
        any::<bool>(),
        calls,
        any::<bool>(),
        vec(any::<u8>(), 0..30),
        prop_oneof![2 => any::<u16>(), 1 => Just(u16::MAX)],
        0u8..3,
    )
        .prop_map(move |(max_queued, small_window, reqs, unread, later, mask, when)| {
            let mut ops = vec![];
            if unread {
                ops.push(Op::Read(false));
            }
            for (k, (plan, len)) in reqs.into_iter().enumerate() {
                // ids beyond the pool: see `burst_id`
                ops.push(Op::Request { plan, id: 100 + (k % 100) as u8, len });
            }
            if cancels && when == 0 {
                ops.push(Op::CancelMany { mask });
            }
            ops.push(Op::Flush { sizes: vec![] });
            ops.push(Op::Rounds(3));
            if cancels && when == 1 {
                ops.push(Op::CancelMany { mask });
                ops.push(Op::Flush { sizes: vec![] });
            }
            for r in later {
                ops.push(Op::Produce { rpc: r, n: 1 });
            }
            if cancels && when == 2 {
                ops.push(Op::CancelMany { mask });
            }
            History { max_queued, small_window, ops }
        })
        .boxed()
}

#[derive(Default)]
struct Facts {
    concurrent: bool,
    cancelled_live: bool,
    reused: bool,
    unread: bool,
}

fn nth(w: &World, n: u8, f: impl Fn(&RpcModel) -> bool) -> Option<usize> {
    let v: Vec<usize> = (0..w.rpcs.len()).filter(|i| f(&w.rpcs[*i])).collect();
    (!v.is_empty()).then(|| v[n as usize % v.len()])
}

fn live(r: &RpcModel) -> bool {
    !r.cancelled && !r.finished && matches!(r.plan, Plan::UnaryLater | Plan::StreamLater)
}

async fn step(w: &mut World, op: &Op, f: &mut Facts) -> R {
    match op {
        Op::Request { plan, id, len } => {
            let id = if *id >= 100 {
                // bursts use an id of their own for every request
                Some(1_000 + w.rpcs.len() as u64)
            } else {
                (0..8).map(|k| IDS[(*id as usize + k) % 8]).find(|id| w.id_free(*id))
            };
            let Some(id) = id else { return Ok(()) };
            f.concurrent |= w.rpcs.iter().any(live);
            f.reused |= w.rpcs.iter().any(|r| r.id == id);
            let many = matches!(plan, Plan::StreamNow(_) | Plan::StreamYield(_));
            w.request(id, *plan, if many { (*len as usize).min(3000) } else { *len as usize });
        }
        Op::Produce { rpc, n } => {
            // sometimes for an RPC that was cancelled: must not show
            let Some(i) = nth(w, *rpc, |r| live(r) || (r.cancelled && r.plan == Plan::StreamLater && r.quiet_after.is_some())) else { return Ok(()) };
            if w.rpcs[i].quiet_after.is_none() {
                w.ensure_started(i).await?;
            }
            let n = if w.rpcs[i].plan == Plan::UnaryLater { 1 } else { *n as usize };
            let n = if w.rpcs[i].len > 5000 { n.min(4) } else { n };
            w.produce(i, n);
        }
        Op::Finish { rpc } => {
            let Some(i) = nth(w, *rpc, |r| live(r) && r.plan == Plan::StreamLater) else { return Ok(()) };
            w.ensure_started(i).await?;
            w.finish(i);
        }
        Op::Cancel { rpc, code } => {
            let Some(i) = nth(w, *rpc, |r| !r.cancelled && w.in_progress(r)) else { return Ok(()) };
            f.cancelled_live |= w.rpcs.iter().filter(|r| live(r)).count() > 1;
            w.cancel(i, *code);
        }
        Op::CancelMany { mask } => {
            for i in 0..w.rpcs.len() {
                let r = &w.rpcs[i];
                if mask >> (i % 16) & 1 == 1 && !r.cancelled && w.in_progress(r) {
                    f.cancelled_live = true;
                    w.cancel(i, CANCEL);
                }
            }
        }
        Op::CancelAndReuse { rpc, plan } => {
            let Some(i) = nth(w, *rpc, |r| !r.cancelled && w.in_progress(r)) else { return Ok(()) };
            w.cancel(i, CANCEL);
            f.cancelled_live = true;
            f.reused = true;
            let id = w.rpcs[i].id;
            w.request(id, *plan, 3);
        }
        Op::StrayCancel { id } => {
            let id = IDS[*id as usize % 8];
            if w.id_free(id) {
                w.out.extend(frame(id, CANCEL, b"stray"));
            }
        }
        Op::End { id } => {
            // "end" means nothing to a server
            w.out.extend(frame(IDS[*id as usize % 8], END, b"end"));
        }
        Op::Flush { sizes } => {
            for s in sizes {
                if w.out.is_empty() {
                    break;
                }
                w.write_out(*s as usize).await?;
                rounds(3).await;
            }
            w.flush().await?;
        }
        Op::Rounds(n) => {
            for _ in 0..*n {
                w.one_round().await;
            }
        }
        Op::Read(b) => {
            w.reading = *b;
            f.unread |= !b;
        }
        Op::Barrier => w.barrier().await?,
    }
    // a burst has hundreds of requests: judged when it is flushed
    if matches!(op, Op::Request { id, .. } if *id >= 100) {
        return Ok(());
    }
    w.judge(false)
}

async fn run_history(h: &History, ctx: &mut Ctx) -> R<Facts> {
    let mut w = World::start(&Setup { max_buffer: 1 << 18, max_queued: h.max_queued, small_window: h.small_window }).await?;
    let mut f = Facts::default();
    for op in &h.ops {
        step(&mut w, op, &mut f).await?;
    }
    w.flush().await?;
    w.finish_and_judge().await?;
    // let the rest complete, in some order, and look again
    for i in (0..w.rpcs.len()).rev() {
        if live(&w.rpcs[i]) {
            if w.rpcs[i].plan == Plan::UnaryLater || i % 3 == 0 {
                w.produce(i, 1);
            }
            if w.rpcs[i].plan == Plan::StreamLater {
                w.finish(i);
            }
        }
    }
    w.finish_and_judge().await?;
    check!(!w.server.is_finished(), "the server stopped");
    ctx.label_if(f.concurrent, "concurrent");
    ctx.label_if(f.cancelled_live, "cancelled a live rpc");
    ctx.label_if(f.reused, "id reused");
    ctx.label_if(f.unread, "client did not read for a while");
    Ok(f)
}

fn c18_run(h: &History, ctx: &mut Ctx) -> R {
    let f = block_on(run_history(h, ctx))?;
    ctx.nontrivial = f.concurrent;
    Ok(())
}
fn c19_run(h: &History, ctx: &mut Ctx) -> R {
    let f = block_on(run_history(h, ctx))?;
    ctx.nontrivial = f.cancelled_live;
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct IdleHistory {
    h: History,
    /// look after every so many operations
    every: u8,
}

pub fn idle_strategy() -> BoxedStrategy<IdleHistory> {
    (history(3), 1u8..20).prop_map(|(h, every)| IdleHistory { h, every }).boxed()
}

pub fn idle_run(c: &IdleHistory, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut w = World::start(&Setup { max_buffer: 1 << 18, max_queued: c.h.max_queued, small_window: c.h.small_window }).await?;
        let mut f = Facts::default();
        for (k, op) in c.h.ops.iter().enumerate() {
            step(&mut w, op, &mut f).await?;
            if k % c.every as usize == c.every as usize - 1 {
                crate::meter::sleeps(|| "an RPC server".into()).await?;
                ctx.nontrivial |= w.rpcs.iter().any(live);
            }
        }
        w.flush().await?;
        crate::meter::sleeps(|| "an RPC server".into()).await?;
        let busy = w.rpcs.iter().any(live);
        ctx.nontrivial |= busy;
        ctx.label_if(busy, "RPCs in progress");
        ctx.label_if(!w.reading, "with a client that does not read");
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C20

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
enum Ending {
    HalfClose,
    Close,
    Reset,
    Garbage,
    TooLong,
    Partial,
    PanicInNew,
    PanicInUnary,
    PanicInStream,
    /// the user's codec panics, so the connection's task does
    PanicInCodec,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(crate) struct EndCase {
    h: History,
    /// the client stops reading and the service keeps producing: so many kilobytes
    blocked: u16,
    flush: bool,
    ending: Ending,
}

pub(crate) fn c20_strategy(_: Tier) -> BoxedStrategy<EndCase> {
    use Ending::*;
    (
        (queue_len(), any::<bool>(), vec(op(1), 1..24)).prop_map(|(max_queued, small_window, ops)| History { max_queued, small_window, ops }),
        prop_oneof![10 => Just(0u16), 1 => 100u16..8000],
        any::<bool>(),
        prop::sample::select(vec![HalfClose, Close, Reset, Garbage, TooLong, Partial, PanicInNew, PanicInUnary, PanicInStream, PanicInCodec]),
    )
        .prop_map(|(h, blocked, flush, ending)| EndCase { h, blocked, flush, ending })
        .boxed()
}

/// Hundreds of RPCs at once
fn c20_crowd(_: Tier) -> BoxedStrategy<EndCase> {
    use Ending::*;
    (bursts(false), any::<bool>(), prop::sample::select(vec![HalfClose, Close, Reset, Garbage, Partial, PanicInNew, PanicInUnary, PanicInStream, PanicInCodec]))
        .prop_map(|(h, flush, ending)| EndCase { h, blocked: 0, flush, ending })
        .boxed()
}

fn c20_run(c: &EndCase, ctx: &mut Ctx) -> R {
    block_on(c20(c, ctx))
}

async fn c20(c: &EndCase, ctx: &mut Ctx) -> R {
    let mut w = World::start(&Setup { max_buffer: 1 << 18, max_queued: c.h.max_queued, small_window: c.h.small_window || c.blocked > 0 }).await?;
    let mut f = Facts::default();
    for op in &c.h.ops {
        step(&mut w, op, &mut f).await?;
    }
    if c.flush {
        w.flush().await?;
        rounds(6).await;
    }
    if c.blocked > 0 {
        w.reading = false;
        w.request(77_777, Plan::StreamLater, 50_000);
        let i = w.rpcs.len() - 1;
        w.ensure_started(i).await?;
        w.produce(i, (c.blocked as usize / 50).max(1));
        rounds(20).await;
        ctx.label("client blocked");
    }
    let unfinished = w.rpcs.iter().filter(|r| live(r) && w.shared.lock().unwrap().started.iter().any(|(_, m)| serial_of(m) == Some(r.serial))).count();
    let panics = match c.ending {
        Ending::PanicInNew => Some(Plan::PanicInNew),
        Ending::PanicInUnary => Some(Plan::PanicInUnary),
        Ending::PanicInStream => Some(Plan::PanicInStream),
        _ => None,
    };
    match c.ending {
        Ending::HalfClose => {
            w.flush().await?;
            w.peer.half_close()
        }
        Ending::Close => {
            w.flush().await?;
            w.peer.close()
        }
        Ending::Reset => w.peer.reset(),
        Ending::Garbage => {
            w.out.extend([0, 0, 0, 2, 1, 1, 1, 1]);
            w.flush().await?;
        }
        Ending::TooLong => {
            w.out.extend([0x7f, 0xff, 0xff, 0xff, 1, 1, 1, 1]);
            w.flush().await?;
        }
        Ending::PanicInCodec => {
            w.out.extend(frame(5, NORMAL, POISON));
            w.flush().await?;
        }
        Ending::Partial => {
            let fr = frame(5, NORMAL, b"0123456789");
            w.out.extend(&fr[..fr.len() - 1]);
            w.flush().await?;
            w.peer.close();
        }
        _ => {
            w.request(88_888, panics.expect("panic ending"), 0);
            w.flush().await?;
            // the panic can only happen once the server gets to it: let it write
            w.reading = true;
        }
    }
    ctx.nontrivial = unfinished > 0;
    ctx.label_if(unfinished > 0, "unfinished rpcs");
    // everything goes away
    let shared = w.shared.clone();
    let server_done = w.server.is_finished();
    check!(!server_done, "the server stopped");
    let metrics = tokio::runtime::Handle::current().metrics();
    let reading = w.reading;
    let peer = &mut w.peer;
    let ending = c.ending;
    let shared2 = shared.clone();
    wait_for(
        || {
            let s = shared2.lock().unwrap();
            let held: Vec<u32> = s.started.iter().filter_map(|(_, m)| serial_of(m)).filter(|n| !s.dropped.contains(n)).collect();
            format!("after {ending:?} the server still holds {} connection service(s), rpcs {held:?} and {} tasks", s.services_alive, metrics.num_alive_tasks())
        },
        || {
            if reading {
                peer.pump();
            }
            let s = shared.lock().unwrap();
            // requests of unknown kind and those that panicked in new_rpc never had a future
            let held = s.started.iter().filter_map(|(_, m)| serial_of(m)).any(|n| !s.dropped.contains(&n) && s_has_future(&w.rpcs, n));
            Ok((s.services == 1 && s.services_alive == 0 && !held && metrics.num_alive_tasks() == 1).then_some(()))
        },
    )
    .await?;
    if panics.is_some() || matches!(c.ending, Ending::HalfClose | Ending::Garbage | Ending::TooLong | Ending::PanicInCodec) {
        // the client is not left hanging
        let peer = &mut w.peer;
        wait_for(|| format!("after {ending:?} the client's socket is still open"), || {
            peer.pump();
            Ok((peer.end != ReadEnd::Open).then_some(()))
        })
        .await?;
        // (where the server may have left bytes of the client unread, TCP makes that a reset)
        check!(c.ending != Ending::HalfClose || w.peer.end == ReadEnd::Eof, "a client that said everything and closed its sending side was reset instead of seeing the end of the answers");
    }
    // and the server still serves
    check!(!w.server.is_finished(), "the server stopped");
    let mut p = dial(w.addr)?;
    let b = body(PING_SERIAL, 1, 0);
    if p.write(&frame(1, NORMAL, &b)).is_none() {
        return Err(Fail::Violation("a new connection is closed at once".into()));
    }
    wait_for(|| "a new connection is not served".into(), || {
        p.pump();
        Ok(p.frames.iter().any(|f| f.body == b).then_some(()))
    })
    .await
}

fn s_has_future(rpcs: &[RpcModel], serial: u32) -> bool {
    rpcs.get(serial as usize).is_some_and(|r| !matches!(r.plan, Plan::Unknown | Plan::PanicInNew))
}

// ------------------------------------------------------------------------------------------ C22

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Codes {
    /// (code, on a live id?, streaming?)
    list: Vec<(u8, bool, bool)>,
    cuts: Vec<u16>,
}

fn c22_strategy(_: Tier) -> BoxedStrategy<Codes> {
    (vec((prop_oneof![1 => 0u8..4, 3 => any::<u8>()], any::<bool>(), any::<bool>()), 1..20), vec(1u16..60, 0..6))
        .prop_map(|(list, cuts)| Codes { list, cuts })
        .boxed()
}

fn conversions() -> R {
    for b in 0..=255u8 {
        let c = ProtosocketControlCode::from_u8(b);
        let want = match b {
            0 => 0,
            2 => 2,
            _ => 1,
        };
        let name = format!("{c:?}");
        let want_name = ["Normal", "Cancel", "End"][want as usize];
        check!(name == want_name, "byte {b} is read as {name}");
        check!(c.as_u8() == want, "byte {b} is read as {name} and written as {}", c.as_u8());
        check!(c as u8 == want, "{name} has discriminant {}", c as u8);
    }
    Ok(())
}

fn c22_server_run(c: &Codes, ctx: &mut Ctx) -> R {
    conversions()?;
    ctx.nontrivial = c.list.iter().any(|(b, live, _)| *b > 2 && *live);
    block_on(async {
        let mut w = World::start(&Setup { max_buffer: 1 << 16, max_queued: 8, small_window: false }).await?;
        for (k, (code, live, stream)) in c.list.iter().enumerate() {
            let id = 10 + k as u64;
            if *live {
                w.request(id, if *stream { Plan::StreamLater } else { Plan::UnaryLater }, 0);
            }
            let i = w.rpcs.len().wrapping_sub(1);
            match (*live, *code) {
                (_, 0) => {
                    // a normal message is a request like any other
                    w.request(1_000 + id, Plan::UnaryNow, 0);
                }
                (true, 2) => w.out.extend(frame(id, 2, b"end at a server")),
                (true, code) => w.cancel(i, code),
                (false, code) => w.out.extend(frame(id, code, b"nothing live")),
            }
        }
        for n in &c.cuts {
            w.write_out(*n as usize).await?;
            rounds(2).await;
        }
        w.flush().await?;
        w.finish_and_judge().await?;
        for i in 0..w.rpcs.len() {
            if live(&w.rpcs[i]) {
                w.produce(i, 1);
                if w.rpcs[i].plan == Plan::StreamLater {
                    w.finish(i);
                }
            }
        }
        w.finish_and_judge().await
    })
}

fn c22_client_run(c: &Codes, ctx: &mut Ctx) -> R {
    conversions()?;
    ctx.nontrivial = c.list.iter().any(|(b, live, _)| *b > 2 && *live);
    block_on(async {
        let (mut w, conn) = client::World::start(&client::Setup { max_buffer: 1 << 16, max_queued: 64 }).await?;
        w.conn = Some(tokio::spawn(conn));
        for (k, (code, live, stream)) in c.list.iter().enumerate() {
            let id = 10 + k as u64;
            if *live {
                let kind = if *stream { client::Kind::Stream } else { client::Kind::Unary };
                w.call(id, kind, 0, usize::MAX / 2, false, false);
                let i = w.calls.len() - 1;
                w.confirm(i).await?;
                w.emit(i, *code, 0);
                if *stream {
                    // another item: delivered only if the code above was normal
                    w.emit(i, NORMAL, 0);
                }
            } else {
                w.emit_raw(id, *code, b"nobody".to_vec());
            }
        }
        for n in &c.cuts {
            w.write_out(*n as usize).await?;
            rounds(2).await;
        }
        w.flush().await?;
        w.all_observed().await?;
        w.wire_exact().await
    })
}

pub(crate) fn c34_run(c: &EndCase, ctx: &mut Ctx) -> R {
    crate::conn_props::memory_only(c20_run(c, ctx))
}
