//! C01-C10: one connection, driven through its public constructor, observed at its reactor and at the wire.

use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::check;
use crate::conn::*;
use crate::gen::*;
use crate::rt::{block_on, rounds, ReadEnd};
use crate::runner::{violation, Ctx, Fail, Property, Suite, Tier, R};

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a case is a connection configuration, a list of messages (some to be skipped) and a split of their bytes into arrivals; non-trivial: at least two messages and at least one arrival that ends inside a message or carries more than the receive limit",
            suites: vec![
                Box::new(Suite { name: "arrivals", strategy: c01_arrivals, run: c01_run, quick: 50_000, thorough: 400_000, workers: W }),
                Box::new(Suite { name: "large", strategy: c01_large, run: c01_run, quick: 60, thorough: 1_500, workers: 4 }),
                Box::new(Suite { name: "sustained", strategy: c01_sustained, run: c01_sustained_run, quick: 240, thorough: 5_000, workers: W }),
            ],
        },
        Property {
            id: "C02",
            rule: "a case is a configuration and a history of sends, peer reads, executor rounds and inbound traffic, closed by the peer reading everything and a probe message; non-trivial: the peer's unread bytes blocked a write or more messages than the queue length were in flight",
            suites: vec![
                Box::new(Suite { name: "history", strategy: c02_history, run: c02_run, quick: 60_000, thorough: 300_000, workers: W }),
                Box::new(Suite { name: "bursts", strategy: c02_bursts, run: c02_run, quick: 8_000, thorough: 40_000, workers: W }),
                Box::new(Suite { name: "large", strategy: c02_large, run: c02_run, quick: 80, thorough: 1_500, workers: 4 }),
            ],
        },
        Property {
            id: "C03",
            rule: "a history of sends as in C02 after which every sender is dropped, with any amount of it still unwritten, then the peer reads to the end; non-trivial: bytes were still unwritten or messages still queued when the sender was dropped; endpoints: the same over TCP on up to four connections of one message server or client registry, where the reactor must go too and the connections whose senders remain must stay (non-trivial: as before)",
            suites: vec![
                Box::new(Suite { name: "drop-sender", strategy: c03_strategy, run: c03_run, quick: 60_000, thorough: 300_000, workers: W }),
                Box::new(Suite {
                    name: "endpoints",
                    strategy: crate::limits_props::flush_strategy,
                    run: crate::limits_props::flush_run,
                    quick: 50_000,
                    thorough: 300_000,
                    workers: W,
                }),
            ],
        },
        Property {
            id: "C04",
            rule: "messages, a cut position in the byte stream, an arrival pattern and a way for the peer to leave right after the last byte; non-trivial: at least one complete message had arrived but not been delivered when the peer left",
            suites: vec![Box::new(Suite { name: "peer-leaves", strategy: c04_strategy, run: c04_run, quick: 80_000, thorough: 400_000, workers: W })],
        },
        Property {
            id: "C05",
            rule: "valid messages mixed with corrupted, truncated, announced-too-long and random bytes, under any arrival pattern, judged by a reference parser; non-trivial: the reference parser rejects the stream after at least one byte of it was valid, or skips",
            suites: vec![
                Box::new(Suite { name: "hostile", strategy: c05_strategy, run: c05_run, quick: 80_000, thorough: 500_000, workers: W }),
                Box::new(Suite { name: "unlimited", strategy: c05_un_strategy, run: c05_un_run, quick: 12_000, thorough: 150_000, workers: W }),
            ],
        },
        Property {
            id: "C06",
            rule: "messages with encoded lengths within 4 bytes of the maximum, and far above it, sent and received under any arrival pattern; non-trivial: a length within 1 of the maximum was used",
            suites: vec![
                Box::new(Suite { name: "outbound", strategy: c06_out_strategy, run: c06_out_run, quick: 30_000, thorough: 150_000, workers: W }),
                Box::new(Suite { name: "inbound", strategy: c06_in_strategy, run: c06_in_run, quick: 50_000, thorough: 300_000, workers: W }),
            ],
        },
        Property {
            id: "C07",
            rule: "outbound: sends against a peer that does not read (or reads a little), counting accepted, encoded and OS-held messages after every step; inbound: a peer that refills the socket between polls; non-trivial: senders met a full queue, or more than the read limit arrived",
            suites: vec![
                Box::new(Suite { name: "blocked-peer", strategy: c07_out_strategy, run: c07_out_run, quick: 10_000, thorough: 60_000, workers: W }),
                Box::new(Suite { name: "flood", strategy: c07_in_strategy, run: c07_in_run, quick: 120, thorough: 2_000, workers: 4 }),
                Box::new(Suite { name: "memory", strategy: crate::endure_props::c07_memory_strategy, run: crate::endure_props::c07_memory_run, quick: 64, thorough: 1_500, workers: W }),
            ],
        },
        Property {
            id: "C08",
            rule: "one direction is driven into a blocked state (writes blocked, or a message partly received) and the other one must deliver everything; non-trivial: the first direction really is blocked",
            suites: vec![
                Box::new(Suite { name: "inbound-while-blocked", strategy: c08_in_strategy, run: c08_in_run, quick: 30_000, thorough: 150_000, workers: W }),
                Box::new(Suite { name: "outbound-while-partial", strategy: c08_out_strategy, run: c08_out_run, quick: 30_000, thorough: 150_000, workers: W }),
            ],
        },
        Property {
            id: "C09",
            rule: "a history of arrivals, sends and reads; after every step the connection must go quiet and then not be polled over 40 driver turns; non-trivial: it was checked in a blocked-write, mid-message or full-queue state",
            suites: vec![Box::new(Suite { name: "quiet", strategy: c09_strategy, run: c09_run, quick: 10_000, thorough: 200_000, workers: W })],
        },
        Property {
            id: "C34",
            rule: "cases of C01, C02, C05, C12, C13, C17 and C20, run on code instrumented by AddressSanitizer, which ends the process at a read or write of memory that is not allocated; the death of the process is a violation; non-trivial: as there",
            suites: vec![
                Box::new(Suite { name: "sustained", strategy: c01_sustained, run: c34_sustained_run, quick: 400, thorough: 10_000, workers: W }),
                Box::new(Suite { name: "large", strategy: c01_large, run: c34_arrivals_run, quick: 300, thorough: 6_000, workers: W }),
                Box::new(Suite { name: "arrivals", strategy: c01_arrivals, run: c34_arrivals_run, quick: 8_000, thorough: 400_000, workers: W }),
                Box::new(Suite { name: "hostile", strategy: c05_strategy, run: c34_hostile_run, quick: 16_000, thorough: 300_000, workers: W }),
                Box::new(Suite { name: "unlimited", strategy: c05_un_strategy, run: c34_un_run, quick: 6_000, thorough: 100_000, workers: W }),
                Box::new(Suite { name: "outbound", strategy: c02_bursts, run: c34_out_run, quick: 3_000, thorough: 40_000, workers: W }),
                Box::new(Suite { name: "outbound-large", strategy: c02_large, run: c34_out_run, quick: 80, thorough: 1_500, workers: 4 }),
                Box::new(Suite { name: "messagepack", strategy: crate::codec_props::c12_lengths, run: crate::codec_props::c34_msgpack_run, quick: 1_500, thorough: 20_000, workers: W }),
                Box::new(Suite { name: "messagepack-bytes", strategy: crate::codec_props::c13_msgpack, run: crate::codec_props::c34_bytes_run, quick: 60_000, thorough: 1_000_000, workers: W }),
                Box::new(Suite { name: "rpc-client", strategy: crate::client_props::c34_strategy, run: crate::client_props::c34_run, quick: 6_000, thorough: 200_000, workers: W }),
                Box::new(Suite { name: "rpc-server", strategy: crate::server_props::c20_strategy, run: crate::server_props::c34_run, quick: 6_000, thorough: 200_000, workers: W }),
            ],
        },
        Property {
            id: "C10",
            rule: "a history followed by one of eleven ways to end the connection; non-trivial: messages were in flight in at least one direction when it ended",
            suites: vec![Box::new(Suite { name: "endings", strategy: c10_strategy, run: c10_run, quick: 60_000, thorough: 300_000, workers: W })],
        },
    ]
}

// ------------------------------------------------------------------------------------------ C01

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Arrivals {
    setup: Setup,
    items: Vec<Item>,
    cuts: Cuts,
    pace: Vec<Pace>,
}

fn c01_arrivals(_: Tier) -> BoxedStrategy<Arrivals> {
    (setup(), items(), cuts(), pace())
        .prop_map(|(setup, items, cuts, pace)| Arrivals { setup, items, cuts, pace })
        .boxed()
}

fn c01_large(_: Tier) -> BoxedStrategy<Arrivals> {
    const MIB: usize = 1 << 20;
    let max = prop_oneof![
        Just(2 * MIB), Just(2 * MIB - 1), Just(2 * MIB + 1), Just(3 * MIB), Just(4 * MIB), Just(4 * MIB + 7), 300_000usize..5 * MIB
    ];
    let len = prop_oneof![
        3 => (0u16..6).prop_map(Len::NearMax),
        3 => any::<u8>().prop_map(Len::Share),
        1 => prop::sample::select(vec![2097148u32, 2097151, 2097152, 2097153, 2097156, 2097157]).prop_map(Len::Abs),
        2 => (1u16..4000).prop_map(Len::Small),
    ];
    (
        (codec(), max, max_queued(), hint()).prop_map(|(codec, max_buffer, max_queued, hint)| Setup { codec, max_buffer, max_queued, sndbuf: 0, hint }),
        vec((len, prop::bool::weighted(0.2)).prop_map(|(len, skip)| Item { len, skip }), 1..6),
        prop_oneof![2 => Just(Cuts::Whole), 2 => vec(20_000u16..65_535, 1..4).prop_map(Cuts::Sizes), 2 => vec(-6i16..7, 1..5).prop_map(Cuts::Frames)],
        pace(),
    )
        .prop_map(|(setup, items, cuts, pace)| Arrivals { setup, items, cuts, pace })
        .boxed()
}

/// A peer that always has more to send: the receive buffer never runs empty.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Sustained {
    setup: Setup,
    lens: Vec<u32>,
    /// bytes beyond the receive limit
    beyond: u32,
    rounds: u8,
    /// the socket buffer between the peer and the connection
    pipe: u32,
}

fn c01_sustained(_: Tier) -> BoxedStrategy<Sustained> {
    const MIB: usize = 1 << 20;
    let max = prop_oneof![
        3 => 20_000usize..MIB,
        1 => prop::sample::select(vec![2 * MIB - 1, 2 * MIB, 2 * MIB + 1, 4 * MIB - 1, 4 * MIB, 4 * MIB + 1]),
        2 => Just(2 * MIB),
        2 => Just(4 * MIB),
        1 => Just(8 * MIB),
        1 => MIB..6 * MIB,
    ];
    (
        (codec(), max, prop_oneof![3 => 1usize..4, 1 => 4usize..40], hint())
            .prop_map(|(codec, max_buffer, max_queued, hint)| Setup { codec, max_buffer, max_queued, sndbuf: 0, hint }),
        vec(prop_oneof![2 => 600u32..3_000, 3 => 3_000u32..19_000, 1 => Just(4096u32), 1 => Just(8192u32)], 1..4),
        (1u32..7).prop_map(|m| m << 20),
        1u8..4,
        prop_oneof![1 => Just(0u32), 2 => 60_000u32..2_000_000],
    )
        .prop_map(|(setup, lens, beyond, rounds, pipe)| Sustained { setup, lens, beyond, rounds, pipe })
        .boxed()
}

fn c01_sustained_run(c: &Sustained, ctx: &mut Ctx) -> R {
    block_on(async {
        let s = &c.setup;
        let mut l = link(s)?;
        if let (Some(p), true) = (l.peer.as_ref(), c.pipe > 0) {
            crate::rt::set_buf(p.as_raw_fd(), libc::SO_SNDBUF, c.pipe as usize);
        }
        let (mut wire, mut want) = (vec![], vec![]);
        while wire.len() < s.max_buffer + c.beyond as usize {
            let len = (c.lens[want.len() % c.lens.len()] as usize).min(s.max_buffer);
            wire.extend(wire_of(s.codec, want.len(), len));
            want.push(canon_of(s.codec, want.len(), len));
        }
        ctx.nontrivial = want.len() > 3;
        let (mut at, mut idle) = (0, 0);
        while at < wire.len() {
            let Some(k) = l.peer_write(&wire[at..]) else {
                return violation(format!("the connection ended during valid input: {}", l.show()));
            };
            at += k;
            let before = l.polls();
            rounds(c.rounds as usize).await;
            idle = if k == 0 && l.polls() == before { idle + 1 } else { 0 };
            check!(idle < 20, "inbound stall although there is more to receive: {}", l.show());
        }
        l.settle().await?;
        check!(!l.finished(), "the connection ended after valid input: {}", l.show());
        compare("sustained", &l.delivered(), &want)?;
        l.join().await?;
        Ok(())
    })
}

/// Feeds the stream as the case says; after every settled arrival the delivered messages must be exactly the
/// complete ones. Returns false if the connection ended before everything was written.
async fn feed(l: &mut Link, st: &Stream, upto: usize, cuts: &Cuts, pace: &[Pace], exact: bool) -> R<bool> {
    let cuts = cut_positions(cuts, &st.ends, upto, l.setup.max_buffer);
    let mut at = 0;
    for (i, c) in cuts.iter().enumerate() {
        if *c > at {
            if !l.peer_write_all(&st.wire[at..*c]).await? {
                return Ok(false);
            }
            at = *c;
        }
        if i + 1 == cuts.len() {
            break;
        }
        match pace[i % pace.len()] {
            Pace::Rounds(n) => rounds(n as usize).await,
            Pace::Settle => {
                l.settle().await?;
                if exact {
                    if l.finished() {
                        return violation(format!("the connection ended after {at} bytes of valid input: {}", l.show()));
                    }
                    compare(&format!("after {at} bytes"), &l.delivered(), &st.expected(at))?;
                }
            }
        }
    }
    Ok(true)
}

fn c01_run(c: &Arrivals, ctx: &mut Ctx) -> R {
    block_on(async {
        let st = stream(&c.setup, &c.items, 0);
        let mut l = link(&c.setup)?;
        let inner_cut = cut_positions(&c.cuts, &st.ends, st.wire.len(), c.setup.max_buffer).iter().any(|p| !st.ends.contains(p));
        let over = st.wire.len() > c.setup.max_buffer;
        ctx.nontrivial = c.items.len() >= 2 && (inner_cut || over);
        ctx.label_if(inner_cut, "split-inside-message");
        ctx.label_if(over, "more-than-receive-limit");
        ctx.label_if(c.items.len() > c.setup.max_queued, "more-than-one-batch");
        ctx.label_if(c.items.iter().any(|i| i.skip) && c.setup.codec == CodecKind::Frame, "skips");
        let ok = feed(&mut l, &st, st.wire.len(), &c.cuts, &c.pace, true).await?;
        check!(ok, "the connection ended while valid input was being sent: {}", l.show());
        l.settle().await?;
        check!(!l.finished(), "the connection ended after valid input: {}", l.show());
        compare("after all input", &l.delivered(), &st.expected(st.wire.len()))?;
        // still alive in both directions
        let probe = wire_of(c.setup.codec, 7, 20.min(c.setup.max_buffer));
        l.peer_write_all(&probe).await?;
        l.send(9, 20.min(c.setup.max_buffer));
        l.settle().await?;
        check!(l.delivered_len() == st.want.len() + 1, "a message sent after the stream was not delivered: {}", l.show());
        l.peer_read(usize::MAX >> 1);
        compare_bytes("reply after the stream", &l.received, &wire_of(c.setup.codec, 9, 20.min(c.setup.max_buffer)))?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C02

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Op {
    Send(Len),
    /// a serializer that produces nothing for this message
    SendEmpty,
    Read(u32),
    ReadAll,
    Rounds(u8),
    Settle,
    /// the peer sends one small message
    Inbound,
    /// the peer sends the first bytes of a message and the rest later
    InboundPart,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    setup: Setup,
    ops: Vec<Op>,
    /// how much the peer reads at a time at the end
    drain: u32,
}

fn out_setup() -> BoxedStrategy<Setup> {
    let max = prop_oneof![2 => 64usize..2000, 4 => 2000usize..40_000];
    (codec(), max, max_queued(), prop_oneof![1 => Just(0usize), 6 => Just(1), 2 => 4000usize..20000])
        .prop_map(|(codec, max_buffer, max_queued, sndbuf)| Setup { codec, max_buffer, max_queued, sndbuf, hint: Hint::Total })
        .boxed()
}

fn out_len() -> BoxedStrategy<Len> {
    prop_oneof![
        4 => (1u16..200).prop_map(Len::Small),
        3 => any::<u8>().prop_map(Len::Share),
        1 => (0u16..3).prop_map(Len::NearMax),
        1 => prop::sample::select(vec![127u32, 128, 129, 4095, 4096, 16383, 16384, 16385]).prop_map(Len::Abs),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        10 => out_len().prop_map(Op::Send),
        1 => Just(Op::SendEmpty),
        3 => prop_oneof![1u32..50, 1u32..5000, 1000u32..50_000].prop_map(Op::Read),
        1 => Just(Op::ReadAll),
        3 => (0u8..5).prop_map(Op::Rounds),
        2 => Just(Op::Settle),
        1 => Just(Op::Inbound),
        1 => Just(Op::InboundPart),
    ]
    .boxed()
}

fn drain() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(1u32 << 30), 1 => 500u32..5000, 1 => 5000u32..60_000].boxed()
}

fn c02_history(_: Tier) -> BoxedStrategy<History> {
    (out_setup(), vec(op(), 0..40), drain()).prop_map(|(setup, ops, drain)| History { setup, ops, drain }).boxed()
}

fn c02_bursts(_: Tier) -> BoxedStrategy<History> {
    let burst = prop_oneof![
        6 => (prop_oneof![1usize..20, prop::sample::select(vec![15usize, 16, 17, 127, 128, 129, 130, 255, 256, 257, 300])], out_len())
            .prop_map(|(n, l)| vec![Op::Send(l); n]),
        1 => prop::sample::select(vec![2usize, 15, 16, 17, 127, 128, 129, 130, 255, 256, 257]).prop_map(|n| vec![Op::SendEmpty; n]),
        2 => op().prop_map(|o| vec![o]),
    ];
    let mostly_deep = prop_oneof![2 => Just(0usize), 1 => prop::sample::select(vec![128usize, 129, 200, 256, 257, 300])];
    (out_setup(), vec(burst, 1..6), drain(), mostly_deep)
        .prop_map(|(mut setup, b, drain, deep)| {
            if deep != 0 {
                setup.max_queued = deep;
            }
            History { setup, ops: b.concat(), drain }
        })
        .boxed()
}

fn c02_large(_: Tier) -> BoxedStrategy<History> {
    const MIB: usize = 1 << 20;
    (
        (codec(), prop_oneof![Just(8 * MIB), MIB..4 * MIB], 1usize..6)
            .prop_map(|(codec, max_buffer, max_queued)| Setup { codec, max_buffer, max_queued, sndbuf: 0, hint: Hint::Total }),
        vec(prop_oneof![4 => (0u8..100).prop_map(|s| Op::Send(Len::Share(s))), 2 => (1u16..100).prop_map(|n| Op::Send(Len::Small(n))), 2 => Just(Op::ReadAll), 2 => Just(Op::Settle)], 1..8),
        Just(1u32 << 30),
    )
        .prop_map(|(setup, ops, drain)| History { setup, ops, drain })
        .boxed()
}

struct OutRun {
    /// bytes the accepted messages encode to
    want: Vec<u8>,
    accepted: usize,
    inbound: usize,
    blocked: bool,
    partial: Option<Vec<u8>>,
}

async fn run_ops(l: &mut Link, ops: &[Op], ctx: &mut Ctx) -> R<OutRun> {
    let codec = l.setup.codec;
    let max = l.setup.max_buffer;
    let mut o = OutRun { want: vec![], accepted: 0, inbound: 0, blocked: false, partial: None };
    for (i, op) in ops.iter().enumerate() {
        match *op {
            Op::Send(len) => {
                let total = len.total(max);
                let mut r = l.send(i, total);
                if r == SendResult::Full {
                    o.blocked = true;
                    l.settle().await?;
                    r = l.send(i, total);
                }
                if r == SendResult::Sent {
                    o.accepted += 1;
                    o.want.extend(wire_of(codec, i, total));
                }
                check!(r != SendResult::Closed, "the connection closed its outbound queue on its own: {}", l.show());
            }
            Op::SendEmpty => {
                if codec == CodecKind::Frame {
                    ctx.label("empty-encoding");
                    let mut r = l.send(i, 0);
                    if r == SendResult::Full {
                        o.blocked = true;
                        l.settle().await?;
                        r = l.send(i, 0);
                    }
                    o.accepted += (r == SendResult::Sent) as usize;
                    check!(r != SendResult::Closed, "the connection closed its outbound queue on its own: {}", l.show());
                }
            }
            Op::Read(n) => {
                l.peer_read(n as usize);
            }
            Op::ReadAll => {
                l.peer_read(usize::MAX >> 1);
            }
            Op::Rounds(n) => rounds(n as usize).await,
            Op::Settle => l.settle().await?,
            Op::Inbound => {
                if let Some(rest) = o.partial.take() {
                    l.peer_write_all(&rest).await?;
                } else {
                    l.peer_write_all(&wire_of(codec, i, 12)).await?;
                }
                o.inbound += 1;
            }
            Op::InboundPart => {
                if o.partial.is_none() {
                    let w = wire_of(codec, i, 12);
                    l.peer_write_all(&w[..w.len() - 1]).await?;
                    o.partial = Some(w[w.len() - 1..].to_vec());
                }
            }
        }
    }
    Ok(o)
}

/// The peer reads until the connection is quiet and nothing more comes.
async fn drain_peer(l: &mut Link, step: usize) -> R {
    loop {
        l.settle().await?;
        if l.peer_read(step) == 0 {
            return Ok(());
        }
    }
}

fn c02_run(c: &History, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut l = link(&c.setup)?;
        let o = run_ops(&mut l, &c.ops, ctx).await?;
        ctx.nontrivial = o.blocked || o.accepted > c.setup.max_queued;
        ctx.label_if(o.blocked, "sender-met-full-queue");
        ctx.label_if(o.accepted > c.setup.max_queued, "more-than-queue-length");
        ctx.label_if(o.want.len() > 20_000, "more-than-socket-buffer");
        drain_peer(&mut l, c.drain as usize).await?;
        check!(!l.finished(), "the connection ended on its own: {}", l.show());
        compare_bytes("everything accepted", &l.received, &o.want)?;
        check!(l.delivered_len() == o.inbound, "inbound: {} of {} delivered", l.delivered_len(), o.inbound);
        // the queue is usable again, without any other event
        let mut want = o.want;
        let n = 50.min(c.setup.max_buffer);
        check!(l.send(3, n) == SendResult::Sent, "after everything was read, a send is still refused: {}", l.show());
        want.extend(wire_of(c.setup.codec, 3, n));
        drain_peer(&mut l, c.drain as usize).await?;
        compare_bytes("probe after everything was read", &l.received, &want)?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C03

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DropSender {
    h: History,
    then: Vec<Op>,
}

fn c03_strategy(_: Tier) -> BoxedStrategy<DropSender> {
    (
        prop_oneof![6 => c02_history(Tier::Quick), 1 => c02_bursts(Tier::Quick)],
        vec(prop_oneof![2 => (1u32..5000).prop_map(Op::Read), 2 => (0u8..5).prop_map(Op::Rounds), 2 => Just(Op::Settle), 1 => Just(Op::Inbound)], 0..5),
    )
        .prop_map(|(h, then)| DropSender { h, then })
        .boxed()
}

fn c03_run(c: &DropSender, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut l = link(&c.h.setup)?;
        let o = run_ops(&mut l, &c.h.ops, ctx).await?;
        check!(!l.finished(), "the connection ended on its own: {}", l.show());
        l.out = None;
        let pending = l.received.len() + fionread(&l) < o.want.len();
        ctx.nontrivial = pending;
        ctx.label_if(pending, "unwritten-when-dropped");
        for op in &c.then {
            match op {
                Op::Read(n) => {
                    l.peer_read(*n as usize);
                }
                Op::Rounds(n) => rounds(*n as usize).await,
                Op::Settle => l.settle().await?,
                Op::Inbound => {
                    // a message of the peer may or may not still be delivered; it must not disturb the flush
                    if !l.finished() && o.partial.is_none() {
                        let w = wire_of(c.h.setup.codec, 1, 12);
                        l.peer_write(&w);
                    }
                }
                _ => {}
            }
        }
        if l.finished() {
            let left = l.received.len() + fionread(&l);
            check!(left == o.want.len(), "the connection ended with {} of {} accepted bytes written", left, o.want.len());
        }
        for _ in 0..2 {
            drain_peer(&mut l, c.h.drain as usize).await?;
        }
        compare_bytes("everything accepted before the sender was dropped", &l.received, &o.want)?;
        check!(l.finished(), "the outbound queue is closed and flushed, but the connection does not end: {}", l.show());
        check!(l.end != ReadEnd::Open, "the connection ended but the peer sees no end of stream");
        l.join().await?;
        Ok(())
    })
}

fn fionread(l: &Link) -> usize {
    let Some(p) = l.peer.as_ref() else { return 0 };
    let mut n: libc::c_int = 0;
    // SAFETY: ioctl writing an int
    unsafe { libc::ioctl(p.as_raw_fd(), libc::FIONREAD, &mut n) };
    n as usize
}

// ------------------------------------------------------------------------------------------ C04

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Leave {
    Close,
    HalfClose,
    /// close with unread data, which the other side sees as a reset
    Reset,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PeerLeaves {
    a: Arrivals,
    /// position in the stream after which the peer leaves: end of message `at` (scaled) plus `delta`
    at: u16,
    delta: i16,
    leave: Leave,
    /// executor rounds between the last byte and the leaving
    gap: u8,
}

fn c04_strategy(_: Tier) -> BoxedStrategy<PeerLeaves> {
    (
        c01_arrivals(Tier::Quick),
        any::<u16>(),
        prop_oneof![2 => Just(0i16), 2 => -5i16..6, 1 => -60i16..60],
        prop_oneof![2 => Just(Leave::Close), 1 => Just(Leave::HalfClose), 1 => Just(Leave::Reset)],
        prop_oneof![3 => Just(0u8), 1 => 0u8..4],
    )
        .prop_map(|(a, at, delta, leave, gap)| PeerLeaves { a, at, delta, leave, gap })
        .boxed()
}

fn c04_run(c: &PeerLeaves, ctx: &mut Ctx) -> R {
    block_on(async {
        let a = &c.a;
        let st = stream(&a.setup, &a.items, 0);
        let base = if st.ends.is_empty() { 0 } else { st.ends[c.at as usize * st.ends.len() / 65536] };
        let upto = (base as i64 + c.delta as i64).clamp(0, st.wire.len() as i64) as usize;
        let mut l = link(&a.setup)?;
        if c.leave == Leave::Reset {
            // something the peer never reads, fully written before the peer leaves
            l.send(1, 8);
            l.settle().await?;
        }
        let ok = feed(&mut l, &st, upto, &a.cuts, &a.pace, true).await?;
        check!(ok, "the connection ended during valid input: {}", l.show());
        rounds(c.gap as usize).await;
        let before = l.delivered_len();
        match c.leave {
            Leave::Close => drop(l.peer.take()),
            Leave::HalfClose => {
                let _ = l.peer.as_ref().expect("open").shutdown(std::net::Shutdown::Write);
            }
            Leave::Reset => drop(l.peer.take()),
        }
        let want = st.expected(upto);
        ctx.nontrivial = before < want.len();
        ctx.label_if(before < want.len(), "undelivered-when-leaving");
        ctx.label_if(want.len() - before.min(want.len()) > a.setup.max_queued, "more-than-a-batch-undelivered");
        ctx.label_if(!st.ends.contains(&upto), "cut-inside-message");
        ctx.label(match c.leave { Leave::Close => "close", Leave::HalfClose => "half-close", Leave::Reset => "reset" });
        l.settle().await?;
        check!(l.finished(), "the peer left ({:?}) but the connection does not end: {}", c.leave, l.show());
        compare("before the end of the connection", &l.delivered(), &want)?;
        check!(l.reactor.drops.load(Ordering::Relaxed) == 1, "the reactor was not dropped with the connection");
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Piece {
    Msg(Item),
    /// a valid message with one byte changed
    Flip(Item, u16, u8),
    /// a valid message with its last bytes missing
    Truncated(Item, u16),
    Garbage(Vec<u8>),
    /// a header that announces max + this many bytes, followed by this share of the body
    TooLong(u32, u8),
    /// a header announcing an absurd length
    Absurd(u8),
    /// well-framed, but the payload is not a message
    BadPayload(u16),
    /// length delimiter padded with redundant bytes (valid protobuf), or an endless one
    Padded(Item, u8),
    /// the deserializer wants to skip max + this many bytes
    LongSkip(u32, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hostile {
    setup: Setup,
    pieces: Vec<Piece>,
    cuts: Cuts,
    pace: Vec<Pace>,
}

fn c05_strategy(_: Tier) -> BoxedStrategy<Hostile> {
    let good = item().prop_map(Piece::Msg);
    let bad = prop_oneof![
        3 => (item(), any::<u16>(), 1u8..=255).prop_map(|(i, p, x)| Piece::Flip(i, p, x)),
        1 => (item(), 1u16..30).prop_map(|(i, n)| Piece::Truncated(i, n)),
        3 => vec(prop_oneof![any::<u8>(), Just(0xffu8), Just(0x80u8), Just(NORMAL), Just(SKIP), Just(0xceu8), Just(0u8)], 1..30).prop_map(Piece::Garbage),
        2 => (prop_oneof![1u32..12, 1u32..3000], prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(n, s)| Piece::TooLong(n, s)),
        1 => any::<u8>().prop_map(Piece::Absurd),
        2 => (0u16..60).prop_map(Piece::BadPayload),
        2 => (item(), 1u8..12).prop_map(|(i, n)| Piece::Padded(i, n)),
        1 => (prop_oneof![1u32..12, 1u32..3000], prop_oneof![Just(0u8), Just(255u8), any::<u8>()]).prop_map(|(n, s)| Piece::LongSkip(n, s)),
    ];
    (
        setup(),
        vec(prop_oneof![3 => good.clone(), 1 => bad.clone()], 0..14),
        bad,
        vec(prop_oneof![3 => good], 0..4),
        cuts(),
        pace(),
    )
        .prop_map(|(setup, mut pieces, b, tail, cuts, pace)| {
            pieces.push(b);
            pieces.extend(tail);
            Hostile { setup, pieces, cuts, pace }
        })
        .boxed()
}

fn header(codec: CodecKind, body_len: u64) -> Vec<u8> {
    match codec {
        CodecKind::Frame => [&[NORMAL][..], &(body_len.min(u32::MAX as u64) as u32).to_be_bytes()].concat(),
        CodecKind::Prost => varint(body_len),
        CodecKind::MsgPack => [&[0xce][..], &(body_len.min(u32::MAX as u64) as u32).to_be_bytes()].concat(),
    }
}

fn piece_bytes(s: &Setup, i: usize, p: &Piece) -> Vec<u8> {
    let msg = |it: &Item| {
        let total = it.len.total(s.max_buffer);
        if it.skip && s.codec == CodecKind::Frame { skip_wire(i, total) } else { wire_of(s.codec, i, total) }
    };
    match p {
        Piece::Msg(it) => msg(it),
        Piece::Flip(it, pos, x) => {
            let mut w = msg(it);
            // headers matter most
            let n = w.len();
            let at = if *pos % 2 == 0 { (*pos as usize / 2) % n.min(10) } else { (*pos as usize / 2) % n };
            w[at] ^= x;
            w
        }
        Piece::Truncated(it, n) => {
            let mut w = msg(it);
            let keep = w.len().saturating_sub(*n as usize);
            w.truncate(keep);
            w
        }
        Piece::Garbage(g) => g.clone(),
        Piece::TooLong(over, share) => {
            let total = s.max_buffer + *over as usize;
            let mut w = header(s.codec, total as u64 - 5);
            let body = body(i, (total - w.len().min(total)) * *share as usize / 256);
            w.extend(body);
            w
        }
        Piece::Absurd(k) => match s.codec {
            CodecKind::Prost => varint(match k % 6 {
                0 => u64::MAX,
                1 => u64::MAX - 9,
                2 => i64::MAX as u64,
                3 => u32::MAX as u64,
                4 => u64::MAX - *k as u64,
                _ => 1 << (k % 64),
            }),
            c => header(c, u32::MAX as u64 - (*k as u64 % 8)),
        },
        Piece::BadPayload(n) => {
            let n = (*n as usize).min(s.max_buffer.saturating_sub(6));
            let mut w = header(s.codec, n as u64);
            w.extend(std::iter::repeat_n(0xffu8, n));
            w
        }
        Piece::Padded(it, n) => match s.codec {
            CodecKind::Prost => {
                let w = wire_of(CodecKind::Prost, i, it.len.total(s.max_buffer).saturating_sub(10).max(1));
                // split the delimiter off and pad it
                let head = w.iter().position(|b| b & 0x80 == 0).expect("varint") + 1;
                let mut out = w[..head].to_vec();
                *out.last_mut().expect("non-empty") |= 0x80;
                out.extend(std::iter::repeat_n(0x80u8, *n as usize - 1));
                out.push(0);
                out.extend_from_slice(&w[head..]);
                out
            }
            _ => msg(it),
        },
        Piece::LongSkip(over, share) => {
            if s.codec != CodecKind::Frame {
                return msg(&Item { len: Len::Small(20), skip: false });
            }
            let total = s.max_buffer + *over as usize;
            let mut w = header(s.codec, total as u64 - 5);
            w[0] = SKIP;
            w.extend(body(i, (total - 5) * *share as usize / 256));
            w
        }
    }
}

struct Verdict {
    /// content of the messages in front of the first thing that must end the connection
    want: Vec<Vec<u8>>,
    /// numbers of delivered messages at which the connection may already have ended (too long messages that
    /// happened to arrive in one piece)
    may_end: Vec<usize>,
    /// must the connection end by itself after `want`?
    end: Option<bool>,
    why: String,
    rejected: bool,
}

fn judge(s: &Setup, wire: &[u8]) -> Verdict {
    let mut pos = 0;
    let mut v = Verdict { want: vec![], may_end: vec![], end: Some(false), why: String::new(), rejected: false };
    loop {
        let rest = &wire[pos..];
        match parse_one(s.codec, rest) {
            _ if rest.is_empty() => return v,
            Parsed::Msg { len, canon } => {
                if len > s.max_buffer {
                    v.may_end.push(v.want.len());
                }
                v.want.push(canon);
                pos += len;
            }
            Parsed::Skip { len } => {
                if len > s.max_buffer {
                    v.may_end.push(v.want.len());
                }
                pos += len;
            }
            Parsed::Invalid => {
                v.end = Some(true);
                v.rejected = true;
                v.why = format!("invalid bytes at offset {pos}");
                return v;
            }
            Parsed::Incomplete { announced } => {
                if let Some(a) = announced {
                    if a > s.max_buffer as u128 {
                        v.rejected = true;
                        v.why = format!("message at offset {pos} announces {a} bytes, the maximum is {}", s.max_buffer);
                        let precise = s.codec != CodecKind::Frame || s.hint == Hint::Total;
                        v.end = if precise || rest.len() >= s.max_buffer { Some(true) } else { None };
                    }
                }
                return v;
            }
        }
    }
}

fn c05_run(c: &Hostile, ctx: &mut Ctx) -> R {
    hostile(c, c.setup.max_buffer, ctx)
}

/// The same input for a connection without a limit to speak of.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Unlimited {
    h: Hostile,
    max: u64,
}

fn c05_un_strategy(t: Tier) -> BoxedStrategy<Unlimited> {
    let max = prop_oneof![
        3 => Just(u64::MAX),
        2 => (1u64..70_000).prop_map(|k| u64::MAX - k),
        1 => Just(i64::MAX as u64),
        1 => Just(u32::MAX as u64 + 5),
        1 => (33u32..64).prop_map(|k| 1 << k),
    ];
    (c05_strategy(t), max).prop_map(|(h, max)| Unlimited { h, max }).boxed()
}

fn c05_un_run(c: &Unlimited, ctx: &mut Ctx) -> R {
    hostile(&c.h, c.max as usize, ctx)
}

fn hostile(c: &Hostile, max: usize, ctx: &mut Ctx) -> R {
    block_on(async {
        let mut wire = vec![];
        let mut ends = vec![];
        for (i, p) in c.pieces.iter().enumerate() {
            wire.extend(piece_bytes(&c.setup, i, p));
            ends.push(wire.len());
        }
        let setup = Setup { max_buffer: max, ..c.setup.clone() };
        let mut v = judge(&setup, &wire);
        if max > u32::MAX as usize && v.rejected && v.why.contains("announces") {
            // lengths beyond what fits in memory may saturate
            v.end = v.end.filter(|_| max < usize::MAX - 20);
        }
        ctx.nontrivial = v.rejected || c.pieces.iter().any(|p| matches!(p, Piece::Msg(i) if i.skip));
        ctx.label_if(v.rejected, "rejected");
        ctx.label_if(v.rejected && !v.want.is_empty(), "rejected-after-good-messages");
        ctx.label_if(!v.may_end.is_empty(), "too-long-but-complete");
        ctx.label_if(v.end == Some(false), "stays-open");
        let mut l = link(&setup)?;
        let st = Stream { wire, ends, want: vec![] };
        feed(&mut l, &st, st.wire.len(), &c.cuts, &c.pace, false).await?;
        l.settle().await?;
        let got = l.delivered();
        compare_prefix("hostile input", &got, &v.want)?;
        if l.finished() {
            let allowed = v.may_end.contains(&got.len()) || (got.len() == v.want.len() && v.end != Some(false));
            if !allowed {
                if got.len() < v.want.len() {
                    compare("the connection ended too early", &got, &v.want)?;
                }
                return violation(format!("the connection ended although nothing invalid had arrived: {}", l.show()));
            }
            l.peer_read(1 << 20);
            check!(l.end != ReadEnd::Open, "the connection ended but the peer sees no end of stream");
        } else {
            compare("hostile input (connection still open)", &got, &v.want)?;
            check!(v.end != Some(true), "the connection stays open although the input can not become valid ({}): {}", v.why, l.show());
            check!(l.reactor.drops.load(Ordering::Relaxed) == 0, "reactor dropped while the connection is open");
        }
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LimitOut {
    setup: Setup,
    before: Vec<Len>,
    /// 0: exactly the maximum
    over: i32,
    after: u8,
    /// let the earlier messages be written and read first
    settled: bool,
}

fn c06_out_strategy(_: Tier) -> BoxedStrategy<LimitOut> {
    (
        setup(),
        vec(len(), 0..6),
        prop_oneof![3 => Just(0i32), 3 => Just(1), 3 => -2i32..5, 1 => 5i32..3000],
        0u8..3,
        any::<bool>(),
    )
        .prop_map(|(setup, before, over, after, settled)| LimitOut { setup, before, over, after, settled })
        .boxed()
}

fn c06_out_run(c: &LimitOut, ctx: &mut Ctx) -> R {
    block_on(async {
        let s = &c.setup;
        let mut l = link(s)?;
        let mut want = vec![];
        let mut inside = true;
        let mut idx = 1;
        async fn push(l: &mut Link, idx: usize, total: usize) -> R<bool> {
            for _ in 0..3 {
                match l.send(idx, total) {
                    SendResult::Sent => return Ok(true),
                    SendResult::Closed => return Ok(false),
                    SendResult::Full => drain_peer(l, 1 << 30).await?,
                }
            }
            violation(format!("the queue stays full although the peer reads: {}", l.show()))
        }
        for b in &c.before {
            let total = b.total(s.max_buffer);
            check!(push(&mut l, idx, total).await?, "queue closed: {}", l.show());
            want.extend(wire_of(s.codec, idx, total));
            idx += 1;
        }
        if c.settled {
            drain_peer(&mut l, 1 << 30).await?;
            compare_bytes("messages within the maximum", &l.received, &want)?;
        }
        let total = (s.max_buffer as i64 + c.over as i64).max(1) as usize;
        let w = wire_of(s.codec, idx, total);
        let too_long = w.len() > s.max_buffer;
        ctx.nontrivial = w.len().abs_diff(s.max_buffer) <= 1;
        ctx.label_if(w.len() == s.max_buffer, "exactly-max");
        ctx.label_if(w.len() == s.max_buffer + 1, "max-plus-one");
        if push(&mut l, idx, total).await? {
            if too_long {
                inside = false;
            } else {
                want.extend(w);
            }
        } else if !too_long {
            return violation(format!("queue closed before a message within the maximum: {}", l.show()));
        }
        idx += 1;
        for _ in 0..c.after {
            if !push(&mut l, idx, 20.min(s.max_buffer)).await? {
                break;
            }
            if inside {
                want.extend(wire_of(s.codec, idx, 20.min(s.max_buffer)));
            }
            idx += 1;
        }
        drain_peer(&mut l, 1 << 30).await?;
        if inside {
            check!(!l.finished(), "a message of {} bytes (maximum {}) ended the connection", w_len(s, c), s.max_buffer);
            compare_bytes("messages within the maximum", &l.received, &want)?;
        } else {
            check!(l.finished(), "a message of {} bytes (maximum {}) did not end the connection: {}", w_len(s, c), s.max_buffer, l.show());
            if c.settled {
                compare_bytes("before the too long message", &l.received, &want)?;
            } else if l.received.len() > want.len() || l.received[..] != want[..l.received.len()] {
                compare_bytes("before the too long message", &l.received, &want)?;
            }
            check!(l.end != ReadEnd::Open, "the connection ended but the peer sees no end of stream");
            check!(l.send(1, 10) == SendResult::Closed, "sends succeed after the connection ended");
        }
        l.join().await?;
        Ok(())
    })
}

fn w_len(s: &Setup, c: &LimitOut) -> usize {
    wire_of(s.codec, c.before.len() + 1, (s.max_buffer as i64 + c.over as i64).max(1) as usize).len()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct LimitIn {
    setup: Setup,
    items: Vec<Item>,
    over: i32,
    skip: bool,
    /// how many of the last message's bytes arrive before the verdict: header only (0) .. nearly all (255)
    share: u8,
    cuts: Cuts,
    pace: Vec<Pace>,
}

fn c06_in_strategy(_: Tier) -> BoxedStrategy<LimitIn> {
    (
        setup(),
        vec(item(), 0..6),
        prop_oneof![3 => Just(0i32), 3 => Just(1), 4 => -3i32..12, 1 => 5i32..3000],
        prop::bool::weighted(0.15),
        prop_oneof![2 => Just(0u8), 1 => Just(255u8), 2 => any::<u8>()],
        cuts(),
        pace(),
    )
        .prop_map(|(setup, items, over, skip, share, cuts, pace)| LimitIn { setup: Setup { hint: Hint::Total, ..setup }, items, over, skip, share, cuts, pace })
        .boxed()
}

fn c06_in_run(c: &LimitIn, ctx: &mut Ctx) -> R {
    block_on(async {
        let s = &c.setup;
        let mut st = stream(s, &c.items, 0);
        let good = st.wire.len();
        let idx = c.items.len();
        let total = (s.max_buffer as i64 + c.over as i64).max(1) as usize;
        let skip = c.skip && s.codec == CodecKind::Frame;
        let last = if skip { skip_wire(idx, total) } else { wire_of(s.codec, idx, total) };
        let too_long = last.len() > s.max_buffer;
        ctx.nontrivial = last.len().abs_diff(s.max_buffer) <= 1;
        ctx.label_if(last.len() == s.max_buffer, "exactly-max");
        ctx.label_if(last.len() == s.max_buffer + 1, "max-plus-one");
        ctx.label_if(too_long, "too-long");
        st.wire.extend(&last);
        st.ends.push(st.wire.len());
        if !skip && !too_long {
            st.want.push((st.wire.len(), canon_of(s.codec, idx, total)));
        }
        let mut l = link(s)?;
        if too_long {
            // only part of it arrives; the length is known from the header
            let head = header(s.codec, 0).len().max(match s.codec { CodecKind::Prost => varint(last.len() as u64).len(), _ => 5 });
            let part = (head + (last.len() - head) * c.share as usize / 256).min(last.len() - 1);
            let ok = feed(&mut l, &st, good + part, &c.cuts, &c.pace, false).await?;
            let _ = ok;
            l.settle().await?;
            compare("before the too long message", &l.delivered(), &st.expected(good))?;
            check!(l.finished(), "a message announcing {} bytes (maximum {}) did not end the connection: {}", last.len(), s.max_buffer, l.show());
            l.peer_read(1 << 20);
            check!(l.end != ReadEnd::Open, "the connection ended but the peer sees no end of stream");
        } else {
            let ok = feed(&mut l, &st, st.wire.len(), &c.cuts, &c.pace, true).await?;
            check!(ok, "a message of {} bytes (maximum {}) ended the connection", last.len(), s.max_buffer);
            l.settle().await?;
            check!(!l.finished(), "a message of {} bytes (maximum {}) ended the connection", last.len(), s.max_buffer);
            compare("messages within the maximum", &l.delivered(), &st.expected(st.wire.len()))?;
        }
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C07

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Blocked {
    setup: Setup,
    len: Len,
    steps: Vec<(u16, u32)>, // (sends, then the peer reads this many bytes)
    eager: bool,
}

fn c07_out_strategy(_: Tier) -> BoxedStrategy<Blocked> {
    (
        (codec(), prop_oneof![200usize..3000, 3000usize..40_000], max_queued())
            .prop_map(|(codec, max_buffer, max_queued)| Setup { codec, max_buffer, max_queued, sndbuf: 1, hint: Hint::Total }),
        prop_oneof![2 => (64u8..=255).prop_map(Len::Share), 1 => (0u16..3).prop_map(Len::NearMax), 1 => (20u16..200).prop_map(Len::Small)],
        vec((1u16..40, prop_oneof![3 => Just(0u32), 2 => 1u32..20_000]), 1..6),
        any::<bool>(),
    )
        .prop_map(|(setup, len, steps, eager)| Blocked { setup, len, steps, eager })
        .boxed()
}

fn c07_out_run(c: &Blocked, ctx: &mut Ctx) -> R {
    block_on(async {
        let s = &c.setup;
        let q = s.max_queued;
        let mut l = link(s)?;
        let total = c.len.total(s.max_buffer);
        let mut want: Vec<u8> = vec![];
        let mut ends: Vec<usize> = vec![];
        let mut met_full = false;
        let inspect = |l: &Link, ends: &[usize]| -> R {
            // what the operating system has taken so far
            let taken = l.received.len() + fionread(l);
            let written = ends.iter().filter(|e| **e <= taken).count();
            let held = ends.len() - written;
            check!(held <= 4 * q, "{held} accepted messages are not yet written with a queue length of {q}");
            let encoded = l.probe.encodes.load(Ordering::Relaxed);
            check!(encoded <= ends.len(), "{encoded} messages encoded, {} accepted", ends.len());
            check!(encoded - written.min(encoded) <= q, "{} encoded messages are not yet written with a queue length of {q}", encoded - written);
            Ok(())
        };
        // fill until the queue stays full, then go through the steps
        let mut i = 0usize;
        let cap = 4 * q + 3000;
        loop {
            match l.send(i, total) {
                SendResult::Sent => {
                    want.extend(wire_of(s.codec, i, total));
                    ends.push(want.len());
                    i += 1;
                    if !c.eager {
                        l.settle().await?;
                    }
                    inspect(&l, &ends)?;
                }
                SendResult::Full => {
                    l.settle().await?;
                    inspect(&l, &ends)?;
                    if l.send(i, total) == SendResult::Full {
                        met_full = true;
                        break;
                    }
                    want.extend(wire_of(s.codec, i, total));
                    ends.push(want.len());
                    i += 1;
                }
                SendResult::Closed => return violation(format!("the connection closed: {}", l.show())),
            }
            if i > cap {
                return violation(format!("{i} messages of {total} bytes were accepted although the peer does not read (queue length {q})"));
            }
        }
        ctx.nontrivial = met_full;
        ctx.label_if(met_full, "queue-full");
        for (sends, read) in &c.steps {
            l.peer_read(*read as usize);
            inspect(&l, &ends)?;
            for _ in 0..*sends {
                if l.send(i, total) == SendResult::Sent {
                    want.extend(wire_of(s.codec, i, total));
                    ends.push(want.len());
                    i += 1;
                }
                l.settle().await?;
                inspect(&l, &ends)?;
            }
        }
        drain_peer(&mut l, 1 << 30).await?;
        check!(!l.finished(), "the connection ended on its own: {}", l.show());
        compare_bytes("after the peer resumed reading", &l.received, &want)?;
        check!(l.send(i, total) == SendResult::Sent, "the queue is still full after everything was read");
        l.join().await?;
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Flood {
    setup: Setup,
    len: Len,
    messages: u16,
}

fn c07_in_strategy(_: Tier) -> BoxedStrategy<Flood> {
    (
        (codec(), prop_oneof![3 => 10_000usize..60_000, 1 => 60_000usize..1_500_000], 1usize..4, hint())
            .prop_map(|(codec, max_buffer, max_queued, hint)| Setup { codec, max_buffer, max_queued, sndbuf: 0, hint }),
        prop_oneof![2 => (150u8..=255).prop_map(Len::Share), 1 => (0u16..3).prop_map(Len::NearMax), 1 => Just(Len::Abs(9000))],
        300u16..700,
    )
        .prop_map(|(setup, len, messages)| Flood { setup, len, messages })
        .boxed()
}

fn c07_in_run(c: &Flood, ctx: &mut Ctx) -> R {
    block_on(async {
        let s = &c.setup;
        let total = c.len.total(s.max_buffer);
        let n = (c.messages as usize).min(12_000_000 / total).max(3);
        let mut l = link(s)?;
        if let Some(p) = l.peer.as_ref() {
            crate::rt::set_buf(p.as_raw_fd(), libc::SO_SNDBUF, 1 << 20);
        }
        let mut wire = vec![];
        let mut want = vec![];
        for i in 0..n {
            wire.extend(wire_of(s.codec, i, total));
            want.push(canon_of(s.codec, i, total));
        }
        ctx.nontrivial = wire.len() > s.max_buffer + (4 << 20);
        ctx.label_if(ctx.nontrivial, "several-read-increments-flooded");
        let bound = s.max_buffer + (2 << 20);
        let mut at = 0;
        let mut idle = 0;
        while at < wire.len() {
            let Some(k) = l.peer_write(&wire[at..]) else {
                return violation(format!("the connection ended during valid input: {}", l.show()));
            };
            at += k;
            let before = l.polls();
            rounds(2).await;
            let held = l.probe.max_decode_len.load(Ordering::Relaxed);
            check!(held <= bound, "{held} bytes held for deserialization; maximum {} plus one increment is {bound}", s.max_buffer);
            idle = if k == 0 && l.polls() == before { idle + 1 } else { 0 };
            check!(idle < 20, "inbound stall under flood: {}", l.show());
        }
        l.settle().await?;
        let held = l.probe.max_decode_len.load(Ordering::Relaxed);
        check!(held <= bound, "{held} bytes held for deserialization; maximum {} plus one increment is {bound}", s.max_buffer);
        compare("flood", &l.delivered(), &want)?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C08

#[derive(Debug, Clone, Serialize, Deserialize)]
struct BlockedOut {
    a: Arrivals,
    fill: Len,
    read_some: u16,
}

fn c08_in_strategy(_: Tier) -> BoxedStrategy<BlockedOut> {
    (c01_arrivals(Tier::Quick), prop_oneof![Just(Len::NearMax(0)), any::<u8>().prop_map(Len::Share)], prop_oneof![Just(0u16), 1u16..3000])
        .prop_map(|(mut a, fill, read_some)| {
            a.setup.sndbuf = 1;
            BlockedOut { a, fill, read_some }
        })
        .boxed()
}

fn c08_in_run(c: &BlockedOut, ctx: &mut Ctx) -> R {
    block_on(async {
        let a = &c.a;
        let st = stream(&a.setup, &a.items, 0);
        let mut l = link(&a.setup)?;
        let total = c.fill.total(a.setup.max_buffer);
        let mut want = vec![];
        let mut n = 0;
        loop {
            match l.send(n, total) {
                SendResult::Sent => want.extend(wire_of(a.setup.codec, n, total)),
                SendResult::Full => {
                    l.settle().await?;
                    if l.send(n, total) == SendResult::Full {
                        break;
                    }
                    want.extend(wire_of(a.setup.codec, n, total));
                }
                SendResult::Closed => return violation(format!("closed: {}", l.show())),
            }
            n += 1;
            check!(n < 100_000, "the queue never fills although the peer does not read");
        }
        l.settle().await?;
        l.peer_read(c.read_some as usize);
        ctx.nontrivial = !a.items.is_empty();
        ctx.label("writes-blocked");
        let ok = feed(&mut l, &st, st.wire.len(), &a.cuts, &a.pace, true).await?;
        check!(ok, "the connection ended while writes were blocked: {}", l.show());
        l.settle().await?;
        compare("inbound while writes are blocked", &l.delivered(), &st.expected(st.wire.len()))?;
        drain_peer(&mut l, 1 << 30).await?;
        compare_bytes("outbound after the peer resumed", &l.received, &want)?;
        check!(!l.finished(), "the connection ended: {}", l.show());
        l.join().await?;
        Ok(())
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PartialIn {
    a: Arrivals,
    /// how many bytes of the last message are missing
    missing: u16,
    ops: Vec<Op>,
}

fn c08_out_strategy(_: Tier) -> BoxedStrategy<PartialIn> {
    (
        (out_setup(), vec(item(), 0..5), cuts(), pace()).prop_map(|(setup, items, cuts, pace)| Arrivals { setup, items, cuts, pace }),
        1u16..40,
        vec(prop_oneof![6 => out_len().prop_map(Op::Send), 2 => (1u32..5000).prop_map(Op::Read), 1 => (0u8..5).prop_map(Op::Rounds), 1 => Just(Op::Settle)], 1..30),
    )
        .prop_map(|(a, missing, ops)| PartialIn { a, missing, ops })
        .boxed()
}

fn c08_out_run(c: &PartialIn, ctx: &mut Ctx) -> R {
    block_on(async {
        let a = &c.a;
        let st = stream(&a.setup, &a.items, 0);
        let mut l = link(&a.setup)?;
        let last = if st.ends.len() >= 2 { st.ends[st.ends.len() - 2] } else { 0 };
        let upto = if st.wire.is_empty() { 0 } else { st.wire.len().saturating_sub(c.missing as usize).max(last) };
        let ok = feed(&mut l, &st, upto, &a.cuts, &a.pace, true).await?;
        check!(ok, "the connection ended: {}", l.show());
        ctx.nontrivial = upto > last && upto < st.wire.len();
        ctx.label_if(ctx.nontrivial, "mid-message");
        let o = run_ops(&mut l, &c.ops, ctx).await?;
        drain_peer(&mut l, 1 << 30).await?;
        compare_bytes("outbound while a message is partly received", &l.received, &o.want)?;
        compare("inbound", &l.delivered(), &st.expected(upto))?;
        let ok = l.peer_write_all(&st.wire[upto..]).await?;
        l.settle().await?;
        check!(ok && !l.finished(), "the connection ended: {}", l.show());
        compare("inbound completed later", &l.delivered(), &st.expected(st.wire.len()))?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C09

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Quiet {
    a: Arrivals,
    ops: Vec<Op>,
    idle: u8,
}

fn c09_strategy(_: Tier) -> BoxedStrategy<Quiet> {
    (c01_arrivals(Tier::Quick), vec(op(), 0..25), 20u8..60)
        .prop_map(|(mut a, ops, idle)| {
            a.items.truncate(60);
            a.setup.sndbuf = 1;
            Quiet { a, ops, idle }
        })
        .boxed()
}

async fn expect_quiet(l: &Link, idle: usize, what: &str) -> R {
    l.settle().await?;
    let before = l.polls();
    rounds(idle).await;
    // a real timer turn as well: nothing may be scheduled for later
    tokio::time::sleep(std::time::Duration::from_micros(50)).await;
    let after = l.polls();
    check!(before == after, "polled {} more times while nothing happened ({what}): {}", after - before, l.show());
    Ok(())
}

fn c09_run(c: &Quiet, ctx: &mut Ctx) -> R {
    block_on(async {
        let a = &c.a;
        let mut l = link(&a.setup)?;
        expect_quiet(&l, c.idle as usize, "fresh connection").await?;
        let st = stream(&a.setup, &a.items, 0);
        let cuts = cut_positions(&a.cuts, &st.ends, st.wire.len(), a.setup.max_buffer);
        let mut at = 0;
        let mut ops = c.ops.iter();
        let mut checks = 0;
        let mut n = 0usize;
        for cut in cuts.iter().take(40) {
            if !l.peer_write_all(&st.wire[at..*cut]).await? {
                break;
            }
            at = *cut;
            if let Some(op) = ops.next() {
                match op {
                    Op::Send(len) => {
                        l.send(n, len.total(a.setup.max_buffer));
                        n += 1;
                    }
                    Op::Read(k) => {
                        l.peer_read(*k as usize);
                    }
                    Op::ReadAll => {
                        l.peer_read(1 << 30);
                    }
                    Op::Rounds(k) => rounds(*k as usize).await,
                    _ => {}
                }
            }
            ctx.label_if(!st.ends.contains(&at), "mid-message");
            ctx.nontrivial |= !st.ends.contains(&at);
            if checks < 12 {
                expect_quiet(&l, c.idle as usize, "after an arrival").await?;
                checks += 1;
            }
        }
        for op in ops {
            if let Op::Send(len) = op {
                let full = l.send(n, len.total(a.setup.max_buffer)) == SendResult::Full;
                ctx.label_if(full, "queue-full");
                ctx.nontrivial |= full;
                n += 1;
            } else if let Op::Read(k) = op {
                l.peer_read(*k as usize);
            }
            if checks < 24 {
                expect_quiet(&l, c.idle as usize, "after a send or read").await?;
                checks += 1;
            }
        }
        // block writes completely
        let mut k = 0;
        loop {
            if l.send(n, a.setup.max_buffer) != SendResult::Sent {
                l.settle().await?;
                if l.send(n, a.setup.max_buffer) != SendResult::Sent {
                    break;
                }
            }
            n += 1;
            k += 1;
            check!(k < 100_000, "the queue never fills although the peer does not read");
        }
        ctx.label("writes-blocked");
        expect_quiet(&l, c.idle as usize, "writes blocked").await?;
        l.peer_read(3000);
        expect_quiet(&l, c.idle as usize, "writes blocked, peer read a little").await?;
        drain_peer(&mut l, 1 << 30).await?;
        expect_quiet(&l, c.idle as usize, "everything written").await?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C10

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
enum Cause {
    ReactorAsks,
    PeerClose,
    PeerHalfClose,
    PeerReset,
    Invalid,
    TooLongIn,
    TooLongOut,
    SenderDropped,
    FutureDropped,
    PeerCloseBlocked,
    /// writes fail, reads do not
    WriteFails,
    /// the reactor asks whenever it is called next, even without messages
    ReactorAsksNext,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ending {
    a: Arrivals,
    ops: Vec<Op>,
    cause: Cause,
    at: u8,
    settle_first: bool,
}

fn c10_strategy(_: Tier) -> BoxedStrategy<Ending> {
    (
        c01_arrivals(Tier::Quick),
        vec(op(), 0..12),
        prop::sample::select(vec![
            Cause::ReactorAsks, Cause::ReactorAsks, Cause::PeerClose, Cause::PeerHalfClose, Cause::PeerReset, Cause::Invalid,
            Cause::TooLongIn, Cause::TooLongOut, Cause::SenderDropped, Cause::FutureDropped, Cause::PeerCloseBlocked, Cause::WriteFails, Cause::ReactorAsksNext,
        ]),
        1u8..30,
        any::<bool>(),
    )
        .prop_map(|(mut a, ops, cause, at, settle_first)| {
            a.items.truncate(40);
            Ending { a, ops, cause, at, settle_first }
        })
        .boxed()
}

fn c10_run(c: &Ending, ctx: &mut Ctx) -> R {
    block_on(async {
        let a = &c.a;
        let s = &a.setup;
        let mut l = link(s)?;
        let st = stream(s, &a.items, 0);
        let reactor_will_ask = c.cause == Cause::ReactorAsks && !st.want.is_empty();
        if reactor_will_ask {
            l.reactor.disconnect_at.store((c.at as usize).min(st.want.len()), Ordering::Relaxed);
        }
        let mut sent = 0;
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Send(len) => sent += (l.send(i, len.total(s.max_buffer)) == SendResult::Sent) as usize,
                Op::Rounds(n) => rounds(*n as usize).await,
                Op::Read(n) => {
                    l.peer_read(*n as usize);
                }
                _ => {}
            }
        }
        feed(&mut l, &st, st.wire.len(), &a.cuts, &a.pace, !reactor_will_ask).await?;
        if c.settle_first {
            l.settle().await?;
        }
        let unread = fionread(&l);
        ctx.nontrivial = sent > 0 || !a.items.is_empty();
        ctx.label(match c.cause {
            Cause::ReactorAsks => "reactor-asks",
            Cause::PeerClose => "peer-close",
            Cause::PeerHalfClose => "peer-half-close",
            Cause::PeerReset => "peer-reset",
            Cause::Invalid => "invalid-input",
            Cause::TooLongIn => "too-long-in",
            Cause::TooLongOut => "too-long-out",
            Cause::SenderDropped => "sender-dropped",
            Cause::FutureDropped => "future-dropped",
            Cause::PeerCloseBlocked => "peer-close-while-blocked",
            Cause::WriteFails => "write-fails",
            Cause::ReactorAsksNext => "reactor-asks-next",
        });
        if !reactor_will_ask {
            check!(!l.finished(), "the connection ended before anything happened to it: {}", l.show());
        }
        match c.cause {
            Cause::ReactorAsks if reactor_will_ask => {
                if c.at % 3 == 0 && !c.settle_first {
                    // and the peer leaves at the same time
                    let _ = l.peer.as_ref().expect("open").shutdown(std::net::Shutdown::Write);
                }
            }
            Cause::ReactorAsks | Cause::PeerClose => drop(l.peer.take()),
            Cause::PeerHalfClose => {
                let _ = l.peer.as_ref().expect("open").shutdown(std::net::Shutdown::Write);
            }
            Cause::PeerReset => {
                if unread == 0 {
                    l.send(1, 8);
                    l.settle().await?;
                }
                drop(l.peer.take());
            }
            Cause::PeerCloseBlocked => {
                for i in 0..100_000 {
                    if l.send(i, s.max_buffer) != SendResult::Sent {
                        l.settle().await?;
                        if l.send(i, s.max_buffer) != SendResult::Sent {
                            break;
                        }
                    }
                }
                drop(l.peer.take());
            }
            Cause::Invalid => {
                let bad = match s.codec {
                    CodecKind::Frame => vec![0x00; 3],
                    CodecKind::Prost => vec![2, 0xff, 0xff],
                    CodecKind::MsgPack => vec![0x01; 6],
                };
                l.peer_write_all(&bad).await?;
            }
            Cause::TooLongIn => {
                l.setup.hint = Hint::Total;
                let mut w = wire_of(s.codec, 1, s.max_buffer + 20 + c.at as usize);
                // with other hints the connection can only tell once the buffer is full
                let keep = if s.codec == CodecKind::Frame && s.hint != Hint::Total { w.len() - 1 } else { 10 };
                w.truncate(keep);
                l.peer_write_all(&w).await?;
            }
            Cause::TooLongOut => {
                loop {
                    match l.send(1, s.max_buffer + c.at as usize + 12) {
                        SendResult::Full => drain_peer(&mut l, 1 << 30).await?,
                        SendResult::Sent => break,
                        SendResult::Closed => return violation(format!("closed early: {}", l.show())),
                    }
                }
            }
            Cause::WriteFails => {
                let _ = l.peer.as_ref().expect("open").shutdown(std::net::Shutdown::Read);
                while l.send(1, 8 + c.at as usize) == SendResult::Full {
                    drain_peer(&mut l, 1 << 30).await?;
                }
            }
            Cause::ReactorAsksNext => {
                l.reactor.ask_now.store(true, Ordering::Relaxed);
                if c.at % 2 == 1 {
                    // something happens, but nothing arrives
                    l.send(1, 8);
                }
                drain_peer(&mut l, 1 << 30).await?;
                // it may not have been called for that
                if !l.reactor.asked.load(Ordering::Relaxed) {
                    l.peer_write_all(&wire_of(s.codec, 1, 10.min(s.max_buffer))).await?;
                }
            }
            Cause::SenderDropped => l.out = None,
            Cause::FutureDropped => l.handle.abort(),
        }
        // let it end; the peer (if still there) keeps reading
        for _ in 0..3 {
            drain_peer(&mut l, 1 << 30).await?;
        }
        check!(l.finished(), "{:?}: the connection future did not complete: {}", c.cause, l.show());
        check!(l.reactor.drops.load(Ordering::Relaxed) == 1, "{:?}: reactor dropped {} times", c.cause, l.reactor.drops.load(Ordering::Relaxed));
        if l.peer.is_some() {
            check!(l.end != ReadEnd::Open, "{:?}: the socket is still open for the peer", c.cause);
            if let Some(p) = l.peer.as_mut() {
                use std::io::Write;
                check!(p.write(&[0]).is_err(), "{:?}: the peer can still write", c.cause);
            }
        }
        if l.out.is_some() {
            check!(l.send(1, 8) == SendResult::Closed, "{:?}: sends succeed after the connection ended", c.cause);
        }
        if l.reactor.asked.load(Ordering::Relaxed) {
            check!(l.reactor.calls_after_ask.load(Ordering::Relaxed) == 0, "the reactor was called again after it asked to disconnect");
        }
        let mut all: Vec<_> = st.expected(st.wire.len());
        if c.cause == Cause::ReactorAsksNext {
            all.push(canon_of(s.codec, 1, 10.min(s.max_buffer)));
        }
        compare_prefix("delivered", &l.delivered(), &all)?;
        l.join().await?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ C34

/// What else is wrong is for others to find: the runner looks at the guards, and sees panics and crashes.
pub(crate) fn memory_only(r: R) -> R {
    match r {
        Err(Fail::Harness(e)) => Err(Fail::Harness(e)),
        _ => Ok(()),
    }
}
fn c34_sustained_run(c: &Sustained, ctx: &mut Ctx) -> R {
    memory_only(c01_sustained_run(c, ctx))
}
fn c34_arrivals_run(c: &Arrivals, ctx: &mut Ctx) -> R {
    memory_only(c01_run(c, ctx))
}
fn c34_hostile_run(c: &Hostile, ctx: &mut Ctx) -> R {
    memory_only(c05_run(c, ctx))
}
fn c34_un_run(c: &Unlimited, ctx: &mut Ctx) -> R {
    memory_only(c05_un_run(c, ctx))
}
fn c34_out_run(c: &History, ctx: &mut Ctx) -> R {
    memory_only(c02_run(c, ctx))
}
