//! RPC messages with a wire format of the harness' own, and raw TCP peers that speak it.

use std::collections::HashMap;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU32, Ordering};

use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::ProtosocketControlCode;

use crate::rt::{read_some, set_linger0, write_some, ReadEnd};
use crate::runner::{Fail, R};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RMsg {
    pub id: u64,
    pub code: u8,
    pub body: Vec<u8>,
}

impl protosocket_rpc::Message for RMsg {
    fn message_id(&self) -> u64 {
        self.id
    }
    fn control_code(&self) -> ProtosocketControlCode {
        ProtosocketControlCode::from_u8(self.code)
    }
    fn set_message_id(&mut self, id: u64) {
        self.id = id
    }
    fn cancelled(id: u64) -> Self {
        RMsg { id, code: ProtosocketControlCode::Cancel.as_u8(), body: vec![] }
    }
    fn ended(id: u64) -> Self {
        RMsg { id, code: ProtosocketControlCode::End.as_u8(), body: vec![] }
    }
}

pub const NORMAL: u8 = 0;
pub const CANCEL: u8 = 1;
pub const END: u8 = 2;
pub const HEADER: usize = 13;

pub fn frame(id: u64, code: u8, body: &[u8]) -> Vec<u8> {
    let mut out = ((9 + body.len()) as u32).to_be_bytes().to_vec();
    out.extend(id.to_be_bytes());
    out.push(code);
    out.extend_from_slice(body);
    out
}

#[derive(Default)]
pub struct RCodec;
/// The body of a message that this codec fails on, as user code may.
pub const POISON: &[u8] = b"the codec panics on this body";

impl Serializer for RCodec {
    type Message = RMsg;
    fn encode(&mut self, m: RMsg, buffer: &mut Vec<u8>) {
        assert!(m.body != POISON, "{}", crate::runner::EXPECTED_PANIC);
        buffer.extend(frame(m.id, m.code, &m.body));
    }
}
impl Deserializer for RCodec {
    type Message = RMsg;
    fn decode(&mut self, buffer: impl bytes::Buf) -> Result<(usize, RMsg), DeserializeError> {
        let b = buffer.chunk();
        if b.len() < 4 {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: 4 });
        }
        let total = 4 + u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if total < HEADER {
            return Err(DeserializeError::InvalidBuffer);
        }
        if b.len() < total {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: total });
        }
        assert!(b[13..total] != *POISON, "{}", crate::runner::EXPECTED_PANIC);
        Ok((total, RMsg { id: u64::from_be_bytes(b[4..12].try_into().expect("8 bytes")), code: b[12], body: b[13..total].to_vec() }))
    }
}

/// A raw, non-blocking end of a TCP connection that collects frames.
pub struct Peer {
    pub sock: Option<TcpStream>,
    pub raw: Vec<u8>,
    pub frames: Vec<RMsg>,
    pub end: ReadEnd,
    parsed: usize,
    pub garbled: bool,
}

impl Peer {
    pub fn new(sock: TcpStream) -> R<Peer> {
        sock.set_nonblocking(true).map_err(|e| Fail::Harness(format!("nonblocking: {e}")))?;
        let _ = sock.set_nodelay(true);
        Ok(Peer { sock: Some(sock), raw: vec![], frames: vec![], end: ReadEnd::Open, parsed: 0, garbled: false })
    }

    pub fn nobody() -> Peer {
        Peer { sock: None, raw: vec![], frames: vec![], end: ReadEnd::Eof, parsed: 0, garbled: false }
    }

    pub fn pump(&mut self) {
        self.pump_some(usize::MAX >> 1)
    }

    pub fn pump_some(&mut self, max: usize) {
        if self.end == ReadEnd::Open {
            if let Some(s) = self.sock.as_mut() {
                self.end = read_some(s, max, &mut self.raw);
            }
        }
        while !self.garbled && self.raw.len() - self.parsed >= 4 {
            let b = &self.raw[self.parsed..];
            let total = 4 + u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
            if total < HEADER {
                self.garbled = true;
                return;
            }
            if b.len() < total {
                break;
            }
            self.frames.push(RMsg { id: u64::from_be_bytes(b[4..12].try_into().expect("8 bytes")), code: b[12], body: b[13..total].to_vec() });
            self.parsed += total;
        }
    }

    /// None: the other side is gone.
    pub fn write(&mut self, data: &[u8]) -> Option<usize> {
        write_some(self.sock.as_mut()?, data)
    }

    pub fn reset(&mut self) {
        if let Some(s) = self.sock.take() {
            set_linger0(s.as_raw_fd());
            drop(s);
        }
    }
    pub fn close(&mut self) {
        self.sock = None;
    }
    pub fn half_close(&mut self) {
        if let Some(s) = self.sock.as_ref() {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        // no TIME_WAIT: there are thousands of these
        self.reset();
    }
}

static NEXT_ADDR: AtomicU32 = AtomicU32::new(0);

/// Loopback addresses are rotated so that ports do not run out.
pub fn loopback() -> Ipv4Addr {
    let n = NEXT_ADDR.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    Ipv4Addr::new(127, 1 + (pid % 200) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8)
}

/// An address nobody listens on (the library's servers do not tell which port they got).
pub fn free_addr() -> R<SocketAddr> {
    let ip = loopback();
    let l = TcpListener::bind(SocketAddrV4::new(ip, 0)).map_err(|e| Fail::Harness(format!("bind: {e}")))?;
    l.local_addr().map_err(|e| Fail::Harness(format!("addr: {e}")))
}

/// The same on IPv6, or on IPv4 where there is none.
pub fn free_addr6() -> R<SocketAddr> {
    match TcpListener::bind((std::net::Ipv6Addr::LOCALHOST, 0)) {
        Ok(l) => l.local_addr().map_err(|e| Fail::Harness(format!("addr: {e}"))),
        Err(_) => free_addr(),
    }
}

pub fn listen() -> R<(TcpListener, SocketAddr)> {
    let l = TcpListener::bind(SocketAddrV4::new(loopback(), 0)).map_err(|e| Fail::Harness(format!("bind: {e}")))?;
    l.set_nonblocking(true).map_err(|e| Fail::Harness(format!("nonblocking: {e}")))?;
    let a = l.local_addr().map_err(|e| Fail::Harness(format!("addr: {e}")))?;
    Ok((l, a))
}

/// Connections accepted from this listener have small segments and a small receive window.
pub fn listen_small() -> R<(TcpListener, SocketAddr)> {
    let (l, a) = listen()?;
    let mss: libc::c_int = 1000;
    // SAFETY: plain setsockopt
    unsafe { libc::setsockopt(l.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_MAXSEG, &mss as *const _ as *const libc::c_void, 4) };
    crate::rt::set_buf(l.as_raw_fd(), libc::SO_RCVBUF, 8192);
    Ok((l, a))
}

/// Connect a raw peer to a listening library server.
pub fn dial(addr: SocketAddr) -> R<Peer> {
    let s = TcpStream::connect_timeout(&addr, std::time::Duration::from_secs(20)).map_err(refused)?;
    Peer::new(s)
}

/// A server under test that is not listening any more is no harness problem.
fn refused(e: std::io::Error) -> Fail {
    if e.kind() == std::io::ErrorKind::ConnectionRefused {
        Fail::Violation("the server does not listen any more".into())
    } else {
        Fail::Harness(format!("connect: {e}"))
    }
}

/// The same with small segments and a small receive window, so that a client that does not read blocks the server
/// early (a small window with loopback's huge segments would crawl along on retransmission timers).
pub fn dial_small(addr: SocketAddr) -> R<Peer> {
    let SocketAddr::V4(v4) = addr else { return Err(Fail::Harness("ipv4 only".into())) };
    let h = |what: &str| Fail::Harness(format!("{what}: {}", std::io::Error::last_os_error()));
    // SAFETY: plain socket calls; the descriptor is owned by the TcpStream made from it
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(h("socket"));
        }
        let s = <TcpStream as std::os::fd::FromRawFd>::from_raw_fd(fd);
        let mss: libc::c_int = 1000;
        libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_MAXSEG, &mss as *const _ as *const libc::c_void, 4);
        crate::rt::set_buf(fd, libc::SO_RCVBUF, 8192);
        let sa = libc::sockaddr_in {
            sin_family: libc::AF_INET as libc::sa_family_t,
            sin_port: v4.port().to_be(),
            sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(v4.ip().octets()) },
            sin_zero: [0; 8],
        };
        if libc::connect(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32) != 0 {
            return Err(h("connect"));
        }
        Peer::new(s)
    }
}

pub fn by_id(frames: &[RMsg]) -> HashMap<u64, Vec<RMsg>> {
    let mut m: HashMap<u64, Vec<RMsg>> = HashMap::new();
    for f in frames {
        m.entry(f.id).or_default().push(f.clone());
    }
    m
}

pub fn describe(m: &RMsg) -> String {
    let kind = match m.code {
        NORMAL => "normal",
        CANCEL => "cancel",
        END => "end",
        _ => "other",
    };
    format!("{kind}(id {}, {}B {:02x?})", m.id, m.body.len(), &m.body[..m.body.len().min(12)])
}

pub fn describe_all(m: &[RMsg]) -> String {
    let mut s: Vec<String> = m.iter().take(12).map(describe).collect();
    if m.len() > 12 {
        s.push(format!("... {} more", m.len() - 12));
    }
    format!("[{}]", s.join(", "))
}
