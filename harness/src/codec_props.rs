//! C11-C13: the protobuf and messagepack codecs, called directly.

use std::collections::BTreeMap;
use std::fmt::Debug;

use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_messagepack::{ProtosocketMessagePackDeserializer, ProtosocketMessagePackSerializer};
use protosocket_prost::ProstSerializer;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::check;
use crate::conn::{body, varint};
use crate::runner::{violation, Ctx, Property, Suite, Tier, R};

const W: usize = 8;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "generated protobuf messages (nested, repeated, empty, lengths around every varint step), encoded, framed by hand and decoded whole, followed by other bytes, from every prefix, and as a stream; stream: up to twenty messages arriving in pieces of any size through one deserializer the way a connection feeds it; non-trivial: a message has a non-empty body (stream: some piece ends inside a message)",
            suites: vec![
                Box::new(Suite { name: "roundtrip", strategy: c11_strategy, run: c11_run, quick: 80_000, thorough: 600_000, workers: W }),
                Box::new(Suite { name: "stream", strategy: feed_strategy, run: c11_feed, quick: 120_000, thorough: 1_000_000, workers: W }),
                Box::new(Suite { name: "lengths", strategy: c11_lengths, run: c11_run, quick: 1_500, thorough: 6_000, workers: W }),
                Box::new(Suite { name: "huge", strategy: huge, run: c11_run, quick: 48, thorough: 600, workers: W }),
            ],
        },
        Property {
            id: "C12",
            rule: "generated serde messages (maps, options, enums, nested, integers at every width step, strings around every length step), encoded, framed by hand and decoded whole, followed by other bytes, from growing prefixes with one deserializer, and as a stream; stream: up to twenty messages arriving in pieces of any size through one deserializer the way a connection feeds it; non-trivial: payload longer than 8 bytes (stream: some piece ends inside a message)",
            suites: vec![
                Box::new(Suite { name: "roundtrip", strategy: c12_strategy, run: c12_run, quick: 80_000, thorough: 600_000, workers: W }),
                Box::new(Suite { name: "stream", strategy: feed_strategy, run: c12_feed, quick: 120_000, thorough: 1_000_000, workers: W }),
                Box::new(Suite { name: "lengths", strategy: c12_lengths, run: c12_run, quick: 1_500, thorough: 6_000, workers: W }),
                Box::new(Suite { name: "huge", strategy: huge, run: c12_run, quick: 48, thorough: 600, workers: W }),
            ],
        },
        Property {
            id: "C13",
            rule: "random bytes, valid encodings with bytes changed, inserted, removed or declared lengths altered, and absurd headers, decoded in one call and from growing prefixes, against a reference framing; non-trivial: the reference finds a complete frame or a broken header",
            suites: vec![
                Box::new(Suite { name: "prost", strategy: c13_prost, run: c13_prost_run, quick: 300_000, thorough: 2_000_000, workers: W }),
                Box::new(Suite { name: "messagepack", strategy: c13_msgpack, run: c13_msgpack_run, quick: 300_000, thorough: 2_000_000, workers: W }),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------ messages

#[derive(Clone, PartialEq, prost::Message)]
pub struct Rich {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(sint64, tag = "2")]
    pub delta: i64,
    #[prost(string, tag = "3")]
    pub name: String,
    #[prost(bytes = "vec", tag = "4")]
    pub data: Vec<u8>,
    #[prost(uint32, repeated, tag = "5")]
    pub list: Vec<u32>,
    #[prost(message, optional, boxed, tag = "6")]
    pub child: Option<Box<Rich>>,
    #[prost(message, repeated, tag = "1000")]
    pub children: Vec<Rich>,
    #[prost(fixed64, optional, tag = "16")]
    pub bits: Option<u64>,
    #[prost(btree_map = "string, int32", tag = "17")]
    pub map: BTreeMap<String, i32>,
    #[prost(bool, tag = "18")]
    pub flag: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum MKind {
    Unit,
    Tuple(i8, u64),
    Struct { a: Option<bool>, b: String },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MRich {
    pub id: u64,
    pub delta: i64,
    pub name: String,
    pub list: Vec<u32>,
    pub child: Option<Box<MRich>>,
    pub map: BTreeMap<String, i32>,
    pub kind: MKind,
    pub pair: (u8, Option<String>),
}

/// Serializable description of a Rich / MRich.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Desc {
    id: u64,
    delta: i64,
    name: String,
    /// length of a generated byte string
    data: u32,
    list: Vec<u32>,
    map: BTreeMap<String, i32>,
    bits: Option<u64>,
    kind: u8,
    child: Option<Box<Desc>>,
    children: Vec<Desc>,
}

impl Desc {
    fn rich(&self) -> Rich {
        Rich {
            id: self.id,
            delta: self.delta,
            name: self.name.clone(),
            data: body(self.id as usize, self.data as usize),
            list: self.list.clone(),
            child: self.child.as_ref().map(|c| Box::new(c.rich())),
            children: self.children.iter().map(|c| c.rich()).collect(),
            bits: self.bits,
            map: self.map.clone(),
            flag: self.kind & 1 == 1,
        }
    }
    fn mrich(&self) -> MRich {
        let mut name = self.name.clone();
        name.extend(body(7, self.data as usize).iter().map(|b| (b % 26 + b'a') as char));
        MRich {
            id: self.id,
            delta: self.delta,
            list: self.list.clone(),
            child: self.child.as_ref().map(|c| Box::new(c.mrich())),
            map: self.map.clone(),
            kind: match self.kind % 4 {
                0 => MKind::Unit,
                1 => MKind::Tuple(self.delta as i8, self.id),
                2 => MKind::Struct { a: None, b: self.name.clone() },
                _ => MKind::Struct { a: Some(self.kind & 8 == 0), b: String::new() },
            },
            pair: (self.kind, self.bits.map(|_| self.name.clone())),
            name,
        }
    }
}

fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        Just(0u64), 0u64..300, any::<u64>(), any::<u32>().prop_map(|v| v as u64),
        (0u32..64).prop_map(|s| 1u64 << s), (1u32..64).prop_map(|s| (1u64 << s) - 1),
    ]
    .boxed()
}

fn desc() -> BoxedStrategy<Desc> {
    let leaf = (
        edge_u64(),
        edge_u64().prop_map(|v| v as i64),
        prop_oneof![Just(String::new()), "[a-z]{0,12}", "\\PC{0,40}"],
        prop_oneof![4 => Just(0u32), 3 => 0u32..40, 2 => 100u32..300],
        vec(any::<u32>(), 0..5),
        btree_map("[a-z]{0,5}", any::<i32>(), 0..3),
        proptest::option::of(any::<u64>()),
        any::<u8>(),
    )
        .prop_map(|(id, delta, name, data, list, map, bits, kind)| Desc { id, delta, name, data, list, map, bits, kind, child: None, children: vec![] });
    leaf.prop_recursive(3, 12, 3, |inner| {
        (inner.clone(), proptest::option::of(inner.clone()), vec(inner, 0..3)).prop_map(|(mut d, c, cs)| {
            d.child = c.map(Box::new);
            d.children = cs;
            d
        })
    })
    .boxed()
}

fn empty_desc() -> Desc {
    Desc { id: 0, delta: 0, name: String::new(), data: 0, list: vec![], map: BTreeMap::new(), bits: None, kind: 0, child: None, children: vec![] }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) struct Stream {
    msgs: Vec<Desc>,
    suffix: Vec<u8>,
    /// sampled prefix positions, for messages too long to try all
    picks: Vec<u16>,
    pad: u8,
}

fn c11_strategy(_: Tier) -> BoxedStrategy<Stream> {
    (
        vec(prop_oneof![1 => Just(empty_desc()), 8 => desc()], 1..4),
        vec(prop_oneof![any::<u8>(), Just(0xffu8), Just(0u8)], 0..20),
        vec(any::<u16>(), 1..8),
        0u8..10,
    )
        .prop_map(|(msgs, suffix, picks, pad)| Stream { msgs, suffix, picks, pad })
        .boxed()
}

fn c11_lengths(_: Tier) -> BoxedStrategy<Stream> {
    // total lengths around every step of the delimiter; 2^21 once in a while
    let around = prop_oneof![
        4 => (prop::sample::select(vec![127u32, 128, 16383, 16384]), 0u32..12).prop_map(|(b, d)| b.saturating_sub(6) + d - d.min(3)),
        1 => (Just(2097152u32), 0u32..14).prop_map(|(b, d)| b - 10 + d),
        2 => 0u32..70_000,
    ];
    (
        around.prop_map(|data| {
            let mut d = empty_desc();
            d.data = data;
            vec![d]
        }),
        vec(any::<u8>(), 0..20),
        vec(any::<u16>(), 1..8),
        0u8..10,
    )
        .prop_map(|(msgs, suffix, picks, pad)| Stream { msgs, suffix, picks, pad })
        .boxed()
}

fn prefixes(len: usize, picks: &[u16]) -> Vec<usize> {
    if len <= 300 {
        return (0..len).collect();
    }
    let mut v: Vec<usize> = (0..16).collect();
    v.extend(picks.iter().map(|p| *p as usize * len / 65536));
    v.extend([len - 2, len - 1]);
    v.sort();
    v.dedup();
    v
}

fn show(r: &Result<(usize, impl Debug), DeserializeError>) -> String {
    match r {
        Ok((n, _)) => format!("a message of {n} bytes"),
        Err(e) => format!("{e:?}"),
    }
}

/// Shared by both codecs: exact framing, suffix independence, prefixes, streams.
fn roundtrip<M: PartialEq + Clone + Debug>(
    msgs: &[M],
    suffix: &[u8],
    picks: &[u16],
    delimiter_max: usize,
    reference: impl Fn(&M) -> Vec<u8>,
    ser: &mut impl Serializer<Message = M>,
    fresh: impl Fn() -> Box<dyn FnMut(&[u8]) -> Result<(usize, M), DeserializeError>>,
) -> R {
    let mut wire = vec![];
    let mut encoded = vec![];
    // one serializer, buffers recycled the way a connection does
    let mut buffer = Vec::new();
    for m in msgs {
        buffer.clear();
        ser.encode(m.clone(), &mut buffer);
        let want = reference(m);
        check!(buffer == want, "encoding differs from the standard framing: {:02x?} instead of {:02x?}", &buffer[..buffer.len().min(16)], &want[..want.len().min(16)]);
        wire.extend_from_slice(&buffer);
        encoded.push(buffer.clone());
    }
    for (m, e) in msgs.iter().zip(&encoded) {
        for sfx in [&[][..], suffix, &[0u8; 12], &[0xff; 12]] {
            let mut input = e.clone();
            input.extend_from_slice(sfx);
            let r = fresh()(&input);
            match &r {
                Ok((n, got)) if *n == e.len() && got == m => {}
                _ => return violation(format!("decoding {} bytes followed by {} others: {} (or another message) instead of the encoded message", e.len(), sfx.len(), show(&r))),
            }
        }
        let mut grown = fresh();
        for p in prefixes(e.len(), picks) {
            for (how, r) in [("afresh", fresh()(&e[..p])), ("after shorter prefixes", grown(&e[..p]))] {
                match r {
                    Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                        check!(next_message_size <= e.len().max(delimiter_max), "prefix {p} of {}: hint {next_message_size} is more than the whole encoding", e.len());
                    }
                    r => return violation(format!("prefix {p} of {} decoded {how}: {} instead of incomplete", e.len(), show(&r))),
                }
            }
        }
        let r = grown(e);
        check!(matches!(&r, Ok((n, got)) if *n == e.len() && got == m), "after its prefixes, the whole message decodes to {}", show(&r));
    }
    // a stream of messages through one deserializer
    let mut one = fresh();
    let mut at = 0;
    for (i, m) in msgs.iter().enumerate() {
        let r = one(&wire[at..]);
        match r {
            Ok((n, got)) if n == encoded[i].len() && got == *m => at += n,
            r => return violation(format!("message {i} of a stream decodes to {}", show(&r))),
        }
    }
    Ok(())
}

fn prost_frame(m: &Rich) -> Vec<u8> {
    use prost::Message;
    let b = m.encode_to_vec();
    let mut out = varint(b.len() as u64);
    out.extend(b);
    out
}

fn c11_run(c: &Stream, ctx: &mut Ctx) -> R {
    let msgs: Vec<Rich> = c.msgs.iter().map(|d| d.rich()).collect();
    ctx.nontrivial = msgs.iter().any(|m| *m != Rich::default());
    let longest = msgs.iter().map(|m| prost_frame(m).len()).max().unwrap_or(0);
    ctx.label(match longest { 0..=128 => "1-byte-delimiter", 129..=16385 => "2-byte-delimiter", 16386..=2097154 => "3-byte-delimiter", _ => "4-byte-delimiter" });
    ctx.label_if(msgs.contains(&Rich::default()), "empty-message");
    roundtrip(&msgs, &c.suffix, &c.picks, 10, prost_frame, &mut ProstSerializer::<Rich, Rich>::default(), || {
        let mut d = ProstSerializer::<Rich, Rich>::default();
        Box::new(move |b| d.decode(b))
    })?;
    // other implementations may pad the delimiter
    for m in &msgs {
        use prost::Message;
        let b = m.encode_to_vec();
        let mut head = varint(b.len() as u64);
        let pad = (c.pad as usize).min(10 - head.len());
        if pad > 0 {
            *head.last_mut().expect("non-empty") |= 0x80;
            head.extend(std::iter::repeat_n(0x80, pad - 1));
            head.push(0);
            ctx.label("padded-delimiter");
        }
        let mut w = head.clone();
        w.extend(&b);
        let n = w.len();
        // exact, one byte short, and with a follower
        let mut d = ProstSerializer::<Rich, Rich>::default();
        let r = d.decode(&w[..]);
        check!(matches!(&r, Ok((k, got)) if *k == n && got == m), "delimiter padded by {pad}: {}", show(&r));
        for p in prefixes(n, &c.picks).into_iter().rev().take(3).chain([head.len() - 1]) {
            let r = d.decode(&w[..p]);
            check!(matches!(&r, Err(DeserializeError::IncompleteBuffer { .. })), "delimiter padded by {pad}, prefix {p} of {n}: {}", show(&r));
        }
        w.extend(&c.suffix);
        let r = d.decode(&w[..]);
        check!(matches!(&r, Ok((k, got)) if *k == n && got == m), "delimiter padded by {pad} and followed by others: {}", show(&r));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Feed {
    msgs: Vec<Desc>,
    /// sizes of the pieces the wire arrives in, cycled
    pieces: Vec<u16>,
}

fn feed_strategy(_: Tier) -> BoxedStrategy<Feed> {
    let desc = prop_oneof![1 => Just(empty_desc()), 5 => small_desc(), 2 => desc()];
    let piece = prop_oneof![3 => 1u16..8, 3 => 1u16..60, 1 => 60u16..600];
    (vec(desc, 1..20), vec(piece, 1..8)).prop_map(|(msgs, pieces)| Feed { msgs, pieces }).boxed()
}

/// One deserializer, fed the way a connection does it: whatever has arrived and is not consumed yet, message by
/// message, until it asks for more.
fn feed<M: PartialEq + Debug>(
    msgs: &[M],
    encoded: &[Vec<u8>],
    pieces: &[u16],
    mut decode: impl FnMut(&[u8]) -> Result<(usize, M), DeserializeError>,
    ctx: &mut Ctx,
) -> R {
    let wire = encoded.concat();
    let (mut start, mut end, mut next, mut k) = (0, 0, 0, 0);
    while end < wire.len() {
        end = (end + pieces[k % pieces.len()] as usize).min(wire.len());
        k += 1;
        while start < end {
            let r = decode(&wire[start..end]);
            let whole = encoded[next].len();
            match r {
                Ok((n, m)) if n == whole && end - start >= n => {
                    check!(m == msgs[next], "message {next} of a stream in pieces is another message");
                    start += n;
                    next += 1;
                }
                Err(DeserializeError::IncompleteBuffer { next_message_size }) if end - start < whole => {
                    ctx.nontrivial = true;
                    check!(next_message_size <= whole.max(10), "message {next} of a stream in pieces has {whole} bytes, the hint is {next_message_size}");
                    break;
                }
                r => return violation(format!("message {next} of a stream in pieces, {} of its {whole} bytes are there: {}", end - start, show(&r))),
            }
        }
    }
    check!(next == msgs.len(), "{next} of {} messages came out of a complete stream", msgs.len());
    Ok(())
}

fn c11_feed(c: &Feed, ctx: &mut Ctx) -> R {
    let msgs: Vec<Rich> = c.msgs.iter().map(|d| d.rich()).collect();
    let encoded: Vec<Vec<u8>> = msgs.iter().map(prost_frame).collect();
    let mut d = ProstSerializer::<Rich, Rich>::default();
    feed(&msgs, &encoded, &c.pieces, |b| d.decode(b), ctx)
}

fn c12_feed(c: &Feed, ctx: &mut Ctx) -> R {
    let msgs: Vec<MRich> = c.msgs.iter().map(|d| d.mrich()).collect();
    let encoded: Vec<Vec<u8>> = msgs.iter().map(msgpack_frame).collect();
    let mut d = ProtosocketMessagePackDeserializer::<MRich>::default();
    feed(&msgs, &encoded, &c.pieces, |b| d.decode(b), ctx)
}

fn c12_strategy(t: Tier) -> BoxedStrategy<Stream> {
    c11_strategy(t)
}

/// Payloads of megabytes, around powers of two.
fn huge(_: Tier) -> BoxedStrategy<Stream> {
    (prop_oneof![6 => 20u32..22, 3 => 22u32..24, 1 => Just(24u32)], 0u32..24, vec(any::<u8>(), 0..20), vec(any::<u16>(), 1..3))
        .prop_map(|(bits, d, suffix, picks)| {
            let mut m = empty_desc();
            m.data = (1 << bits) - 12 + d;
            Stream { msgs: vec![m], suffix, picks, pad: 0 }
        })
        .boxed()
}

pub(crate) fn c12_lengths(_: Tier) -> BoxedStrategy<Stream> {
    (
        prop_oneof![
            3 => (prop::sample::select(vec![31u32, 32, 255, 256, 65535, 65536]), 0u32..6).prop_map(|(b, d)| b - 3 + d),
            2 => 0u32..80_000,
        ]
        .prop_map(|data| {
            let mut d = empty_desc();
            d.data = data;
            vec![d]
        }),
        vec(any::<u8>(), 0..20),
        vec(any::<u16>(), 1..8),
    )
        .prop_map(|(msgs, suffix, picks)| Stream { msgs, suffix, picks, pad: 0 })
        .boxed()
}

fn msgpack_frame(m: &impl Serialize) -> Vec<u8> {
    let p = rmp_serde::to_vec(m).expect("encodable");
    let mut out = vec![0xce];
    out.extend((p.len() as u32).to_be_bytes());
    out.extend(p);
    out
}

fn c12_run(c: &Stream, ctx: &mut Ctx) -> R {
    let msgs: Vec<MRich> = c.msgs.iter().map(|d| d.mrich()).collect();
    ctx.nontrivial = msgs.iter().any(|m| msgpack_frame(m).len() > 13);
    ctx.label_if(msgs.iter().any(|m| m.child.is_some()), "nested");
    ctx.label_if(msgs.iter().any(|m| msgpack_frame(m).len() > 65540), "longer-than-64k");
    fn run<M: Serialize + DeserializeOwned + Send + Unpin + Debug + PartialEq + Clone + 'static>(msgs: &[M], c: &Stream) -> R {
        roundtrip(msgs, &c.suffix, &c.picks, 5, |m| msgpack_frame(m), &mut ProtosocketMessagePackSerializer::<M>::default(), || {
            let mut d = ProtosocketMessagePackDeserializer::<M>::default();
            Box::new(move |b| d.decode(b))
        })
    }
    run(&msgs, c)?;
    // other shapes of payload: a bare integer, an optional, nothing at all
    run(&msgs.iter().map(|m| m.id).collect::<Vec<u64>>(), c)?;
    run(&msgs.iter().map(|m| m.pair.clone()).collect::<Vec<_>>(), c)?;
    run(&msgs.iter().map(|m| (m.kind.clone(), m.map.clone())).collect::<Vec<_>>(), c)?;
    run(&msgs.iter().map(|_| ()).collect::<Vec<()>>(), c)
}

// ------------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Chunk {
    Bytes(Vec<u8>),
    Msg(Desc),
    /// a message whose declared length is off by this
    Lies(Desc, i16),
    /// only a header, with this declared length
    Header(u64),
    /// header declaring a length, followed by bytes of that length
    Framed(Vec<u8>),
    Flip(Desc, u16, u8),
    /// a length delimiter of this many bytes
    Varint(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(crate) struct Fuzz {
    chunks: Vec<Chunk>,
    /// prefix growth steps
    steps: Vec<u16>,
    rich: bool,
}

fn small_desc() -> BoxedStrategy<Desc> {
    (edge_u64(), "[a-z]{0,6}", prop_oneof![3 => 0u32..20, 1 => 100u32..140], vec(any::<u32>(), 0..2), any::<u8>(), proptest::option::of(any::<u64>()))
        .prop_map(|(id, name, data, list, kind, bits)| Desc { id, delta: -(id as i64 / 2), name, data, list, map: BTreeMap::new(), bits, kind, child: None, children: vec![] })
        .boxed()
}

fn c13_strategy() -> BoxedStrategy<Fuzz> {
    let byte = prop_oneof![4 => any::<u8>(), 1 => Just(0xffu8), 1 => Just(0x80u8), 1 => Just(0u8), 1 => Just(0xceu8), 1 => 0x80u8..0xa0];
    let chunk = prop_oneof![
        2 => vec(byte.clone(), 0..24).prop_map(Chunk::Bytes),
        3 => small_desc().prop_map(Chunk::Msg),
        3 => (small_desc(), prop_oneof![-3i16..4, -40i16..40]).prop_map(|(d, o)| Chunk::Lies(d, o)),
        2 => prop_oneof![edge_u64(), (0u64..20).prop_map(|d| u64::MAX - d), (0u64..20).prop_map(|d| u32::MAX as u64 - d), (0u64..20).prop_map(|d| i64::MAX as u64 - 10 + d)].prop_map(Chunk::Header),
        2 => vec(byte, 0..24).prop_map(Chunk::Framed),
        3 => (small_desc(), any::<u16>(), 1u8..=255).prop_map(|(d, p, x)| Chunk::Flip(d, p, x)),
        1 => (vec(prop_oneof![Just(0xffu8), 0x80u8..=0xff], 0..12), prop_oneof![0u8..4, 0u8..0x80]).prop_map(|(mut v, l)| { v.push(l); Chunk::Varint(v) }),
    ];
    (vec(chunk, 1..4), vec(1u16..20, 1..5), any::<bool>()).prop_map(|(chunks, steps, rich)| Fuzz { chunks, steps, rich }).boxed()
}

fn c13_prost(_: Tier) -> BoxedStrategy<Fuzz> {
    c13_strategy()
}
pub(crate) fn c13_msgpack(_: Tier) -> BoxedStrategy<Fuzz> {
    c13_strategy()
}

fn assemble(c: &Fuzz, header: &dyn Fn(u64) -> Vec<u8>, payload: &dyn Fn(&Desc) -> Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    let frame = |p: &[u8], off: i64| {
        let mut f = header((p.len() as i64 + off).max(0) as u64);
        f.extend_from_slice(p);
        f
    };
    for ch in &c.chunks {
        match ch {
            Chunk::Bytes(b) | Chunk::Varint(b) => out.extend_from_slice(b),
            Chunk::Msg(d) => out.extend(frame(&payload(d), 0)),
            Chunk::Lies(d, o) => out.extend(frame(&payload(d), *o as i64)),
            Chunk::Header(n) => out.extend(header(*n)),
            Chunk::Framed(b) => out.extend(frame(b, 0)),
            Chunk::Flip(d, p, x) => {
                let mut f = frame(&payload(d), 0);
                let n = f.len();
                let at = if *p % 2 == 0 { (*p as usize / 2) % n.min(8) } else { (*p as usize / 2) % n };
                f[at] ^= x;
                out.extend(f);
            }
        }
    }
    out
}

/// Reference framing: Ok(Some(total)) complete frame, Ok(None) incomplete, Err broken.
#[derive(Debug)]
enum Frame {
    Incomplete { may_reject: bool },
    Broken,
    Complete { head: usize, total: usize },
}

fn prost_framing(b: &[u8]) -> Frame {
    let mut v: u128 = 0;
    for i in 0..10 {
        let Some(x) = b.get(i) else { return Frame::Incomplete { may_reject: false } };
        v |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            if v > u64::MAX as u128 {
                return Frame::Broken;
            }
            let total = v + i as u128 + 1;
            if (b.len() as u128) < total {
                return Frame::Incomplete { may_reject: false };
            }
            return Frame::Complete { head: i + 1, total: total as usize };
        }
    }
    Frame::Broken
}

fn msgpack_framing(b: &[u8]) -> Frame {
    if b.len() < 5 {
        // the marker is already known to be wrong; telling early is fine
        return Frame::Incomplete { may_reject: !b.is_empty() && b[0] != 0xce };
    }
    if b[0] != 0xce {
        return Frame::Broken;
    }
    let total = 5 + u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
    if b.len() < total {
        return Frame::Incomplete { may_reject: false };
    }
    Frame::Complete { head: 5, total }
}

fn judge<M: PartialEq + Debug>(
    b: &[u8],
    framing: &dyn Fn(&[u8]) -> Frame,
    payload: &dyn Fn(&[u8]) -> Option<M>,
    how: &str,
    r: Result<(usize, M), DeserializeError>,
) -> R {
    let got = show(&r);
    let f = framing(b);
    let bad = |why: &str| violation(format!("{} bytes {:02x?} decoded {how}: {got}, but {why}", b.len(), &b[..b.len().min(24)]));
    match (f, r) {
        (Frame::Incomplete { .. }, Err(DeserializeError::IncompleteBuffer { .. })) => Ok(()),
        (Frame::Incomplete { may_reject: true }, Err(DeserializeError::InvalidBuffer)) => Ok(()),
        (Frame::Incomplete { .. }, _) => bad("the first frame is not complete"),
        (Frame::Broken, Err(DeserializeError::InvalidBuffer)) => Ok(()),
        (Frame::Broken, _) => bad("no frame can start like this"),
        (Frame::Complete { head, total }, r) => match (payload(&b[head..total]), r) {
            (None, Err(DeserializeError::InvalidBuffer)) => Ok(()),
            (None, _) => bad("the first frame's payload is not exactly one message"),
            (Some(want), Ok((n, m))) => {
                if n != total {
                    return bad(&format!("the first frame has {total} bytes"));
                }
                if m != want {
                    return bad("the message differs from the first frame's payload");
                }
                Ok(())
            }
            (Some(_), _) => bad("the first frame holds a valid message"),
        },
    }
}

fn fuzz_one<M: PartialEq + Debug>(
    c: &Fuzz,
    wire: &[u8],
    framing: &dyn Fn(&[u8]) -> Frame,
    payload: &dyn Fn(&[u8]) -> Option<M>,
    mut fresh: impl FnMut() -> Box<dyn FnMut(&[u8]) -> Result<(usize, M), DeserializeError>>,
    ctx: &mut Ctx,
) -> R {
    match framing(wire) {
        Frame::Incomplete { .. } => ctx.label("incomplete"),
        Frame::Broken => {
            ctx.nontrivial = true;
            ctx.label("broken-header")
        }
        Frame::Complete { head, total } => {
            ctx.nontrivial = true;
            ctx.label(if payload(&wire[head..total]).is_some() { "valid-frame" } else { "invalid-payload" })
        }
    }
    judge(wire, framing, payload, "at once", fresh()(wire))?;
    // growing input, one deserializer; ends with its first final verdict
    let mut d = fresh();
    let mut at = 0usize;
    let mut i = 0;
    loop {
        let last = at >= wire.len();
        let b = &wire[..at.min(wire.len())];
        let r = d(b);
        let done = !matches!(r, Err(DeserializeError::IncompleteBuffer { .. }));
        judge(b, framing, payload, "while growing", r)?;
        judge(b, framing, payload, "afresh", fresh()(b))?;
        if done || last {
            break;
        }
        at += c.steps[i % c.steps.len()] as usize;
        i += 1;
    }
    // as a stream, frame after frame
    let mut d = fresh();
    let mut at = 0;
    while at < wire.len() {
        match d(&wire[at..]) {
            Ok((n, m)) => {
                judge(&wire[at..], framing, payload, "in a stream", Ok((n, m)))?;
                check!(n > 0, "a message of no bytes");
                at += n;
            }
            r => {
                judge(&wire[at..], framing, payload, "in a stream", r)?;
                break;
            }
        }
    }
    // as a stream that arrives in pieces
    let mut d = fresh();
    let (mut at, mut end, mut k) = (0, 0, 0);
    'wire: while end < wire.len() {
        end = (end + c.steps[k % c.steps.len()] as usize).min(wire.len());
        k += 1;
        while at < end {
            let r = d(&wire[at..end]);
            let n = match &r {
                Ok((n, _)) => Some(*n),
                Err(DeserializeError::IncompleteBuffer { .. }) => None,
                _ => Some(0),
            };
            judge(&wire[at..end], framing, payload, "in a stream in pieces", r)?;
            match n {
                None => break,
                Some(0) => break 'wire,
                Some(n) => at += n,
            }
        }
    }
    Ok(())
}

fn c13_prost_run(c: &Fuzz, ctx: &mut Ctx) -> R {
    use prost::Message;
    fn run<M: Message + Default + PartialEq + Unpin + 'static>(c: &Fuzz, wire: &[u8], ctx: &mut Ctx) -> R {
        fuzz_one::<M>(c, wire, &prost_framing, &|b| M::decode(b).ok(), || {
            let mut d = ProstSerializer::<M, M>::default();
            Box::new(move |b| d.decode(b))
        }, ctx)
    }
    let wire = assemble(c, &|n| varint(n), &|d| d.rich().encode_to_vec());
    if c.rich { run::<Rich>(c, &wire, ctx) } else { run::<crate::conn::PMsg>(c, &wire, ctx) }
}

fn c13_msgpack_run(c: &Fuzz, ctx: &mut Ctx) -> R {
    fn run<M: DeserializeOwned + Send + Unpin + Debug + PartialEq + 'static>(c: &Fuzz, wire: &[u8], ctx: &mut Ctx) -> R {
        fuzz_one::<M>(c, wire, &msgpack_framing, &|b| {
            let mut cur = std::io::Cursor::new(b);
            match rmp_serde::decode::from_read::<_, M>(&mut cur) {
                Ok(m) if cur.position() as usize == b.len() => Some(m),
                _ => None,
            }
        }, || {
            let mut d = ProtosocketMessagePackDeserializer::<M>::default();
            Box::new(move |b| d.decode(b))
        }, ctx)
    }
    let header = |n: u64| [&[0xce][..], &(n.min(u32::MAX as u64) as u32).to_be_bytes()].concat();
    if c.rich {
        run::<MRich>(c, &assemble(c, &header, &|d| rmp_serde::to_vec(&d.mrich()).expect("encodable")), ctx)
    } else {
        run::<(u64, String)>(c, &assemble(c, &header, &|d| rmp_serde::to_vec(&(d.id, &d.name)).expect("encodable")), ctx)
    }
}

pub(crate) fn c34_msgpack_run(c: &Stream, ctx: &mut Ctx) -> R {
    crate::conn_props::memory_only(c12_run(c, ctx))
}
pub(crate) fn c34_bytes_run(c: &Fuzz, ctx: &mut Ctx) -> R {
    crate::conn_props::memory_only(c13_msgpack_run(c, ctx))
}
