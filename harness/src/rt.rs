//! Executor and socket helpers. Connection-level checks run on a current-thread runtime over an AF_UNIX
//! stream pair handed to the library as its TCP stream: the kernel moves bytes synchronously, so "nothing
//! happens any more" is a logical fact (no poll over several driver turns), not a timeout.

use std::future::Future;
use std::io::{ErrorKind, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use crate::runner::{stall_bound, Fail, R};

pub fn block_on<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .event_interval(1)
        .on_thread_park(crate::meter::on_park)
        .build()
        .expect("runtime");
    let out = rt.block_on(f);
    drop(rt);
    out
}

/// One executor round: at most one other task is polled, then the I/O driver delivers all pending events.
pub async fn round() {
    tokio::task::yield_now().await
}

pub async fn rounds(n: usize) {
    for _ in 0..n {
        round().await
    }
}

/// A stream for the library and the harness' end of it.
pub fn unix_pair(sndbuf: Option<usize>) -> R<(tokio::net::TcpStream, UnixStream)> {
    let h = |e: std::io::Error| Fail::Harness(format!("socketpair: {e}"));
    let (ours, theirs) = UnixStream::pair().map_err(h)?;
    ours.set_nonblocking(true).map_err(h)?;
    theirs.set_nonblocking(true).map_err(h)?;
    if let Some(n) = sndbuf {
        set_buf(theirs.as_raw_fd(), libc::SO_SNDBUF, n);
    }
    // SAFETY: we own the descriptor and give it away
    let std_stream = unsafe { std::net::TcpStream::from_raw_fd(theirs.into_raw_fd()) };
    let stream = tokio::net::TcpStream::from_std(std_stream).map_err(h)?;
    Ok((stream, ours))
}

pub fn set_buf(fd: i32, opt: i32, n: usize) {
    let v = n as libc::c_int;
    // SAFETY: plain setsockopt
    unsafe {
        libc::setsockopt(
            fd,
            libc::SOL_SOCKET,
            opt,
            &v as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::c_int>() as u32,
        );
    }
}

/// Close with RST instead of FIN.
pub fn set_linger0(fd: i32) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    // SAFETY: plain setsockopt
    unsafe {
        libc::setsockopt(
            fd,
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum ReadEnd {
    Open,
    Eof,
    Reset,
}

/// Non-blocking read of up to `max` bytes appended to `out`.
pub fn read_some(s: &mut impl Read, max: usize, out: &mut Vec<u8>) -> ReadEnd {
    let mut left = max;
    let mut buf = [0u8; 65536];
    while left > 0 {
        let want = left.min(buf.len());
        match s.read(&mut buf[..want]) {
            Ok(0) => return ReadEnd::Eof,
            Ok(n) => {
                out.extend_from_slice(&buf[..n]);
                left -= n;
            }
            Err(e) if e.kind() == ErrorKind::WouldBlock => return ReadEnd::Open,
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(_) => return ReadEnd::Reset,
        }
    }
    ReadEnd::Open
}

/// Non-blocking write; returns how much was taken, or None if the other side is gone.
pub fn write_some(s: &mut impl Write, data: &[u8]) -> Option<usize> {
    let mut done = 0;
    while done < data.len() {
        match s.write(&data[done..]) {
            Ok(0) => return None,
            Ok(n) => done += n,
            Err(e) if e.kind() == ErrorKind::WouldBlock => break,
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(_) => return None,
        }
    }
    Some(done)
}

/// Counts polls of the wrapped future.
pub struct Counted<F> {
    pub inner: F,
    pub polls: Arc<AtomicU64>,
}
impl<F: Future + Unpin> Future for Counted<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.polls.fetch_add(1, Ordering::Relaxed);
        Pin::new(&mut self.inner).poll(cx)
    }
}

/// For real TCP sockets: wait until `cond` yields a value. Succeeds as early as possible; gives up only after
/// many executor rounds *and* the wall-clock stall bound.
pub async fn wait_for<T>(what: impl Fn() -> String, mut cond: impl FnMut() -> R<Option<T>>) -> R<T> {
    let start = Instant::now();
    let mut n = 0u32;
    loop {
        if let Some(v) = cond()? {
            return Ok(v);
        }
        n += 1;
        if n < 300 {
            round().await;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
            rounds(4).await;
            if n > 1000 && start.elapsed() > stall_bound() {
                return Err(Fail::Stall(format!("{} (waited {:?})", what(), start.elapsed())));
            }
        }
    }
}
