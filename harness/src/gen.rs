//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::conn::{canon_of, skip_wire, wire_of, CodecKind, Hint, Setup};

pub fn codec() -> BoxedStrategy<CodecKind> {
    prop_oneof![5 => Just(CodecKind::Frame), 3 => Just(CodecKind::Prost), 2 => Just(CodecKind::MsgPack)].boxed()
}

pub fn hint() -> BoxedStrategy<Hint> {
    prop_oneof![3 => Just(Hint::Total), 1 => Just(Hint::Remaining), 1 => Just(Hint::One)].boxed()
}

/// Maximum message length: mostly small, so that the receive buffer fills up often.
pub fn max_buffer() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 24usize..80,
        4 => 80usize..400,
        2 => 400usize..5000,
        1 => prop::sample::select(vec![127usize, 128, 129, 130, 1024, 16384, 16386, 16387, 65536, 70000]),
    ]
    .boxed()
}

pub fn max_queued() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 1usize..=2,
        4 => 3usize..=8,
        1 => 9usize..=40,
        1 => prop::sample::select(vec![15usize, 16, 17, 64, 127, 128, 129, 255, 256, 257]),
    ]
    .boxed()
}

pub fn setup() -> BoxedStrategy<Setup> {
    (codec(), max_buffer(), max_queued(), prop_oneof![1 => Just(0usize), 3 => Just(1)], hint())
        .prop_map(|(codec, max_buffer, max_queued, sndbuf, hint)| Setup { codec, max_buffer, max_queued, sndbuf, hint })
        .boxed()
}

/// A message length relative to the maximum, so that it shrinks and adapts to it.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Len {
    Small(u16),
    /// the maximum minus this
    NearMax(u16),
    /// this many 1/256 of the maximum
    Share(u8),
    Abs(u32),
}
impl Len {
    pub fn total(self, max: usize) -> usize {
        let v = match self {
            Len::Small(n) => n as usize,
            Len::NearMax(d) => max.saturating_sub(d as usize),
            Len::Share(s) => max * s as usize / 256,
            Len::Abs(n) => n as usize,
        };
        v.clamp(1, max)
    }
}

pub fn len() -> BoxedStrategy<Len> {
    prop_oneof![
        6 => (1u16..40).prop_map(Len::Small),
        3 => (0u16..6).prop_map(Len::NearMax),
        3 => any::<u8>().prop_map(Len::Share),
        1 => prop::sample::select(vec![126u32, 127, 128, 129, 130, 131, 132, 255, 256, 257, 16380, 16383, 16384, 16385, 16386, 16387, 16388, 65535, 65536]).prop_map(Len::Abs),
    ]
    .boxed()
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Item {
    pub len: Len,
    pub skip: bool,
}

pub fn item() -> BoxedStrategy<Item> {
    (len(), prop::bool::weighted(0.2)).prop_map(|(len, skip)| Item { len, skip }).boxed()
}

pub fn items() -> BoxedStrategy<Vec<Item>> {
    prop_oneof![
        10 => vec(item(), 0..12),
        4 => vec(item(), 12..50),
        1 => vec((1u16..24, Just(false)).prop_map(|(n, skip)| Item { len: Len::Small(n), skip }), 120..600),
    ]
    .boxed()
}

/// How a byte stream is split into arrivals.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Cuts {
    Whole,
    /// chunk sizes, repeated cyclically
    Sizes(Vec<u16>),
    /// cut near message boundaries: the end of message i shifted by deltas[i % n]
    Frames(Vec<i16>),
    /// chunks of the maximum length plus this
    Fill(i16),
}

pub fn cuts() -> BoxedStrategy<Cuts> {
    prop_oneof![
        2 => Just(Cuts::Whole),
        2 => Just(Cuts::Sizes(vec![1])),
        4 => vec(prop_oneof![1u16..8, 1u16..80, 1u16..2000], 1..6).prop_map(Cuts::Sizes),
        4 => vec(prop_oneof![2 => Just(0i16), 2 => -6i16..7, 1 => -40i16..40], 1..6).prop_map(Cuts::Frames),
        3 => (-8i16..9).prop_map(Cuts::Fill),
    ]
    .boxed()
}

/// Cut positions, ascending, ending with the stream's length.
pub fn cut_positions(c: &Cuts, ends: &[usize], len: usize, max: usize) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    match c {
        Cuts::Whole => {}
        Cuts::Sizes(s) => {
            let mut at = 0;
            let mut i = 0;
            // one-byte chunks of a long stream only at its start
            while at < len && out.len() < 3000 {
                at += (s[i % s.len()] as usize).max(1);
                i += 1;
                out.push(at.min(len));
            }
        }
        Cuts::Frames(d) => {
            for (i, e) in ends.iter().enumerate() {
                let p = *e as i64 + d[i % d.len()] as i64;
                if p > 0 && p < len as i64 {
                    out.push(p as usize);
                }
            }
            out.sort();
        }
        Cuts::Fill(d) => {
            let step = (max.min(1 << 40) as i64 + *d as i64).max(1) as usize;
            let mut at = step;
            while at < len && out.len() < 3000 {
                out.push(at);
                at += step;
            }
        }
    }
    out.push(len);
    out.dedup();
    out
}

/// What happens between two arrivals.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq, Eq)]
pub enum Pace {
    Rounds(u8),
    Settle,
}

pub fn pace() -> BoxedStrategy<Vec<Pace>> {
    vec(
        prop_oneof![2 => Just(Pace::Settle), 1 => Just(Pace::Rounds(0)), 2 => (0u8..5).prop_map(Pace::Rounds)],
        1..5,
    )
    .boxed()
}

pub struct Stream {
    pub wire: Vec<u8>,
    /// end offset of every message, skipped ones included
    pub ends: Vec<usize>,
    /// (end offset, content) of every message to be delivered
    pub want: Vec<(usize, Vec<u8>)>,
}

pub fn stream(s: &Setup, items: &[Item], first_idx: usize) -> Stream {
    let mut out = Stream { wire: vec![], ends: vec![], want: vec![] };
    for (i, it) in items.iter().enumerate() {
        let idx = first_idx + i;
        let total = it.len.total(s.max_buffer);
        if it.skip && s.codec == CodecKind::Frame {
            out.wire.extend(skip_wire(idx, total));
        } else {
            out.wire.extend(wire_of(s.codec, idx, total));
            out.want.push((out.wire.len(), canon_of(s.codec, idx, total)));
        }
        out.ends.push(out.wire.len());
    }
    out
}

impl Stream {
    /// What must be delivered once `arrived` bytes have arrived.
    pub fn expected(&self, arrived: usize) -> Vec<Vec<u8>> {
        self.want.iter().take_while(|(e, _)| *e <= arrived).map(|(_, c)| c.clone()).collect()
    }
}
