//! Scripted in-memory network, seeded scheduling and event log.
//!
//! One process reads a list of scripts and forks one child per script, so that
//! every scenario is one complete, isolated life of the program under test.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write as _;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use real::io::{AsyncRead, AsyncWrite, ReadBuf};
use real::time::Instant;

const MAX_POLLS: u64 = 6_000_000;
const EOF_SPIN: u32 = 2_000;

#[derive(Default)]
struct Conn {
    /// the task that reads it
    task: u64,
    inbound: VecDeque<u8>,
    eof: bool,
    reset: bool,
    gone: bool,
    rmode: Mode,
    wmode: Mode,
    /// bytes the peer still accepts (None: no limit)
    window: Option<usize>,
    out: Vec<u8>,
    /// packets sent to the client
    sent: u64,
    /// the client acknowledges what it is sent
    auto: bool,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    eof_reads: u32,
    spun: bool,
    closed: bool,
    accepted: bool,
}

#[derive(Clone, Copy, Default, PartialEq)]
enum Mode {
    #[default]
    Full,
    Rand,
    Max(usize),
}

#[derive(Default)]
struct World {
    conns: BTreeMap<u32, Conn>,
    backlog: VecDeque<Result<u32, ()>>,
    accept_waker: Option<Waker>,
    bound: bool,
    listener_dropped: bool,
    sigint: bool,
    sig_wakers: Vec<Waker>,
    /// connections that ended, by number
    dead: Vec<bool>,
    channels: Vec<Option<Box<dyn Fn() -> Option<bool>>>>,
    cap: Option<usize>,
    capmix: u64,
    rng: u64,
    chaos: u32,
    naps: u32,
    /// tasks so far, the one that runs, and how long which of them are to be passed over
    tasks: u64,
    task: u64,
    lags: std::collections::HashMap<u64, u32>,
    polls: u64,
    start: Option<Instant>,
    fd: i32,
    exited: bool,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

impl World {
    fn rand(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn dead(&self, id: u32) -> bool {
        self.dead[id as usize]
    }
    fn chance(&mut self, percent: u32) -> bool {
        percent > 0 && self.rand() % 100 < percent as u64
    }
    fn now(&self) -> u64 {
        match self.start {
            Some(s) => Instant::now().duration_since(s).as_millis() as u64,
            None => 0,
        }
    }
    fn emit(&mut self, body: &str) {
        let line = format!("{{{},\"t\":{}}}\n", body, self.now());
        raw_write(self.fd, line.as_bytes());
    }
    /// Emit every complete control packet in the outbound byte stream.
    fn frames(&mut self, id: u32) {
        loop {
            let out = &self.conns[&id].out;
            let Some(n) = frame_len(out) else { return };
            if out.len() < n {
                return;
            }
            let c = self.conns.get_mut(&id).unwrap();
            c.sent += 1;
            let frame: Vec<u8> = c.out.drain(..n).collect();
            self.emit(&format!("\"e\":\"tx\",\"c\":{},\"x\":\"{}\"", id, hex(&frame)));
            self.acknowledge(id, &frame);
        }
    }
    fn acknowledge(&mut self, id: u32, frame: &[u8]) {
        if !self.conns[&id].auto || self.conns[&id].eof {
            return;
        }
        let head = 1 + frame[1..].iter().take_while(|b| **b & 128 != 0).count() + 1;
        let body = &frame[head..];
        let reply = match (frame[0] >> 4, (frame[0] >> 1) & 3) {
            (3, q) if q > 0 && body.len() >= 2 => {
                let at = 2 + ((body[0] as usize) << 8 | body[1] as usize);
                match body.get(at..at + 2) {
                    Some(p) => [if q == 1 { 0x40 } else { 0x50 }, 2, p[0], p[1]],
                    None => return,
                }
            }
            (6, _) if body.len() == 2 => [0x70, 2, body[0], body[1]],
            _ => return,
        };
        self.emit(&format!("\"e\":\"rx\",\"c\":{},\"x\":\"{}\"", id, hex(&reply)));
        let c = self.conns.get_mut(&id).unwrap();
        c.inbound.extend(reply.iter());
        wake(c.read_waker.take());
    }
    fn leftovers(&mut self, id: u32) {
        let rest = std::mem::take(&mut self.conns.get_mut(&id).unwrap().out);
        if !rest.is_empty() {
            self.emit(&format!("\"e\":\"txpart\",\"c\":{},\"x\":\"{}\"", id, hex(&rest)));
        }
    }
}

fn raw_write(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

fn frame_len(b: &[u8]) -> Option<usize> {
    let mut len = 0usize;
    for i in 0..4 {
        let x = *b.get(1 + i)?;
        len += ((x & 127) as usize) << (7 * i);
        if x & 128 == 0 {
            return Some(2 + i + len);
        }
    }
    None
}

/// Bounded channels may be made smaller: all of them, or each by where it is created.
#[track_caller]
pub fn channel_cap(cap: usize) -> usize {
    let at = std::panic::Location::caller();
    with(|w| match w.cap {
        Some(0) => {
            let mut h = w.capmix ^ 0xcbf2_9ce4_8422_2325;
            for b in at.file().bytes().chain(at.line().to_le_bytes()) {
                h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
            }
            [1, 2, 6, cap][(h >> 33) as usize % 4].min(cap)
        }
        Some(c) if c < cap => c,
        _ => cap,
    })
}

/// The probe says whether the receiver of the channel is gone; None if all senders are as well.
pub fn register_channel(probe: Box<dyn Fn() -> Option<bool>>) {
    sweep();
    with(|w| match w.channels.iter_mut().find(|x| x.is_none()) {
        Some(x) => *x = Some(probe),
        None => w.channels.push(Some(probe)),
    })
}

/// Forget the channels without senders (a probe keeps the memory of its channel).
fn sweep() {
    let n = with(|w| w.channels.len());
    for i in 0..n {
        let p = with(|w| w.channels[i].take());
        if let Some(p) = p {
            if p().is_some() {
                with(|w| w.channels[i] = Some(p));
            }
        }
    }
}

// -------------------------------------------------------------------- memory

/// Counts the bytes in use, to see what a departed client leaves behind.
pub struct Counting;
static IN_USE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        IN_USE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- scheduling

/// A task that is not always run when it could be: it is passed over now and
/// then (`chaos`), or for a long while (`naps`), like a thread that is preempted.
pub struct Chaos<F>(Pin<Box<F>>, u32, u64);

impl<F: Future> Chaos<F> {
    pub fn new(f: F) -> Self {
        let id = with(|w| {
            w.tasks += 1;
            w.tasks
        });
        Chaos(Box::pin(f), 0, id)
    }
}

impl<F: Future> Future for Chaos<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let delay = with(|w| {
            w.polls += 1;
            if w.polls > MAX_POLLS {
                w.emit("\"e\":\"spin\",\"c\":0");
                unsafe { libc::_exit(DONE) };
            }
            w.task = self.2;
            if let Some(n) = w.lags.remove(&self.2) {
                self.1 = n;
            }
            if self.1 == 0 && w.naps > 0 {
                let p = w.naps;
                if w.chance(p) {
                    self.1 = 1 + (w.rand() % 30) as u32;
                }
            }
            if self.1 > 0 {
                self.1 -= 1;
                return true;
            }
            let p = w.chaos;
            w.chance(p)
        });
        if delay {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.0.as_mut().poll(cx)
    }
}

/// Now and then gives way to other tasks.
pub async fn reluctance() {
    let mut yielded = false;
    std::future::poll_fn(|cx| {
        if yielded {
            return Poll::Ready(());
        }
        yielded = true;
        let delay = with(|w| {
            let p = w.chaos;
            w.chance(p)
        });
        if delay {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

pub async fn ctrl_c() -> io::Result<()> {
    std::future::poll_fn(|cx| {
        with(|w| {
            if w.sigint {
                Poll::Ready(Ok(()))
            } else {
                if !w.sig_wakers.iter().any(|k| k.will_wake(cx.waker())) {
                    w.sig_wakers.push(cx.waker().clone());
                }
                Poll::Pending
            }
        })
    })
    .await
}

// ------------------------------------------------------------------- network

#[derive(Debug)]
pub struct TcpListener {
    addr: SocketAddr,
}

impl TcpListener {
    pub async fn bind<A: std::net::ToSocketAddrs>(addr: A) -> io::Result<Self> {
        let addr = addr
            .to_socket_addrs()?
            .next()
            .ok_or(io::ErrorKind::InvalidInput)?;
        Self::listen(addr)
    }
    fn listen(addr: SocketAddr) -> io::Result<Self> {
        with(|w| {
            w.bound = true;
            w.emit(&format!(
                "\"e\":\"bind\",\"port\":{},\"any\":{}",
                addr.port(),
                addr.ip().is_unspecified()
            ));
        });
        Ok(TcpListener { addr })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        with(|w| match w.backlog.pop_front() {
            Some(Ok(id)) => {
                if let Some(c) = w.conns.get_mut(&id) {
                    c.accepted = true;
                }
                let addr = peer(id);
                Poll::Ready(Ok((TcpStream { id }, addr)))
            }
            Some(Err(())) => Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionAborted))),
            None => {
                w.accept_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        with(|w| w.listener_dropped = true);
    }
}

fn peer(id: u32) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], 40000 + id as u16))
}

#[derive(Debug)]
pub struct TcpStream {
    id: u32,
}

impl TcpStream {
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(peer(self.id))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 1883)))
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        let s = Arc::new(self);
        (OwnedReadHalf(s.clone()), OwnedWriteHalf(s, true))
    }
    pub fn split(&mut self) -> (BorrowedReadHalf<'_>, BorrowedWriteHalf<'_>) {
        (BorrowedReadHalf(self), BorrowedWriteHalf(self))
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| match readiness(self.id, cx) {
            true => Poll::Ready(Ok(())),
            false => Poll::Pending,
        })
        .await
    }
    pub async fn writable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            with(|w| {
                let c = w.conns.get_mut(&self.id).unwrap();
                if c.window == Some(0) && !(c.reset || c.gone || c.closed) {
                    c.write_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Poll::Ready(Ok(()))
            })
        })
        .await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut b = ReadBuf::new(buf);
        match read(self.id, &mut nobody(), &mut b) {
            Poll::Ready(r) => r.map(|_| b.filled().len()),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn try_write(&self, data: &[u8]) -> io::Result<usize> {
        match write(self.id, &mut nobody(), data) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.readable().await?;
        with(|w| {
            let c = &w.conns[&self.id];
            if c.reset {
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
            let n = c.inbound.len().min(buf.len());
            for (d, s) in buf.iter_mut().zip(c.inbound.iter()) {
                *d = *s;
            }
            Ok(n)
        })
    }
}

/// The halves of a connection: it ends for the client when the write half is gone.
#[derive(Debug)]
pub struct OwnedReadHalf(Arc<TcpStream>);
#[derive(Debug)]
pub struct OwnedWriteHalf(Arc<TcpStream>, bool);
pub struct BorrowedReadHalf<'a>(&'a TcpStream);
pub struct BorrowedWriteHalf<'a>(&'a TcpStream);

impl OwnedReadHalf {
    pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, std::fmt::Error> {
        let mut other = other;
        other.1 = false;
        drop(other);
        Arc::try_unwrap(self.0).map_err(|_| std::fmt::Error)
    }
}
impl OwnedWriteHalf {
    pub fn forget(mut self) {
        self.1 = false;
    }
}
impl Drop for OwnedWriteHalf {
    fn drop(&mut self) {
        if self.1 {
            close(self.0.id);
        }
    }
}
macro_rules! half {
    ($t:ty, $tr:ident) => {
        impl std::ops::Deref for $t {
            type Target = TcpStream;
            fn deref(&self) -> &TcpStream {
                &self.0
            }
        }
        half!($tr, $t);
    };
    (AsyncRead, $t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                read(self.0.id, cx, buf)
            }
        }
    };
    (AsyncWrite, $t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
                write(self.0.id, cx, data)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                close(self.0.id);
                Poll::Ready(Ok(()))
            }
        }
    };
}
half!(OwnedReadHalf, AsyncRead);
half!(OwnedWriteHalf, AsyncWrite);
half!(BorrowedReadHalf<'_>, AsyncRead);
half!(BorrowedWriteHalf<'_>, AsyncWrite);

fn nobody() -> Context<'static> {
    Context::from_waker(Waker::noop())
}

/// Is there anything to read, or an end of the stream?
fn readiness(id: u32, cx: &mut Context<'_>) -> bool {
    with(|w| {
        let task = w.task;
        let c = w.conns.get_mut(&id).unwrap();
        c.task = task;
        if c.reset || c.eof || !c.inbound.is_empty() {
            return true;
        }
        c.read_waker = Some(cx.waker().clone());
        false
    })
}

/// A socket that is yet to become a listener.
#[derive(Debug)]
pub struct TcpSocket(std::cell::Cell<Option<SocketAddr>>);

impl TcpSocket {
    pub fn new_v4() -> io::Result<Self> {
        Ok(Self(Default::default()))
    }
    pub fn new_v6() -> io::Result<Self> {
        Ok(Self(Default::default()))
    }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        self.0.set(Some(addr));
        Ok(())
    }
    pub fn listen(self, _: u32) -> io::Result<TcpListener> {
        TcpListener::listen(self.0.get().unwrap_or(SocketAddr::from(([0, 0, 0, 0], 0))))
    }
}

fn close(id: u32) {
    with(|w| {
        let c = w.conns.get_mut(&id).unwrap();
        if c.closed {
            return;
        }
        c.closed = true;
        w.dead[id as usize] = true;
        w.leftovers(id);
        w.emit(&format!("\"e\":\"close\",\"c\":{}", id));
    })
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        close(self.id);
        with(|w| {
            w.conns.remove(&self.id);
        });
    }
}

fn read(id: u32, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    with(|w| {
        let chaos = w.chaos;
        if w.chance(chaos) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = w.rand();
        let task = w.task;
        let c = w.conns.get_mut(&id).unwrap();
        c.task = task;
        if c.reset {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::ConnectionReset)));
        }
        if !c.inbound.is_empty() && buf.remaining() > 0 {
            let max = c.inbound.len().min(buf.remaining());
            let n = match c.rmode {
                Mode::Full => max,
                Mode::Rand => 1 + (r as usize % max.min(1 + (r >> 32) as usize % 64)),
                Mode::Max(k) => max.min(k),
            };
            let (a, b) = c.inbound.as_slices();
            buf.put_slice(&a[..n.min(a.len())]);
            buf.put_slice(&b[..n - n.min(a.len())]);
            c.inbound.drain(..n);
            return Poll::Ready(Ok(()));
        }
        if c.eof {
            c.eof_reads += 1;
            if c.eof_reads > EOF_SPIN {
                if !c.spun {
                    c.spun = true;
                    w.emit(&format!("\"e\":\"spin\",\"c\":{}", id));
                }
                return Poll::Pending;
            }
            return Poll::Ready(Ok(()));
        }
        c.read_waker = Some(cx.waker().clone());
        Poll::Pending
    })
}

fn write(id: u32, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
    with(|w| {
        let chaos = w.chaos;
        if w.chance(chaos) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = w.rand();
        let c = w.conns.get_mut(&id).unwrap();
        if c.reset || c.gone || c.closed {
            return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut n = match c.wmode {
            Mode::Full => data.len(),
            Mode::Rand => 1 + (r as usize % data.len()),
            Mode::Max(k) => data.len().min(k),
        };
        if let Some(win) = c.window.as_mut() {
            n = n.min(*win);
            if n == 0 {
                c.write_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            *win -= n;
        }
        c.out.extend_from_slice(&data[..n]);
        w.frames(id);
        Poll::Ready(Ok(n))
    })
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        read(self.id, cx, buf)
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        write(self.id, cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        close(self.id);
        Poll::Ready(Ok(()))
    }
}

// -------------------------------------------------------------------- driver

fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake();
    }
}

fn conn_op(id: u32, f: impl FnOnce(&mut Conn), line: Option<String>) {
    let (a, b) = with(|w| {
        if let Some(l) = line {
            w.emit(&l);
        }
        let c = w.conns.entry(id).or_default();
        f(c);
        (c.read_waker.take(), c.write_waker.take())
    });
    wake(a);
    wake(b);
}

fn mode(s: &str) -> Mode {
    match s {
        "full" => Mode::Full,
        "rand" => Mode::Rand,
        n => Mode::Max(n.parse().expect("mode")),
    }
}

fn probe() {
    sweep();
    let (mut live, mut orphan) = (0, 0);
    W.with(|w| {
        for p in w.borrow().channels.iter().flatten() {
            match p() {
                Some(true) => {
                    live += 1;
                    orphan += 1
                }
                Some(false) => live += 1,
                None => {}
            }
        }
    });
    with(|w| {
        w.emit(&format!(
            "\"e\":\"probe\",\"live\":{},\"orphan\":{}",
            live, orphan
        ))
    });
}

async fn drive(script: String) {
    // let the program start listening
    for _ in 0..50 {
        if with(|w| w.bound) {
            break;
        }
        real::time::sleep(Duration::from_millis(1)).await;
    }
    for line in script.lines() {
        let a: Vec<&str> = line.split_whitespace().collect();
        if a.is_empty() || a[0].starts_with('#') {
            continue;
        }
        let num = |i: usize| a[i].parse::<u64>().expect("number");
        match a[0] {
            "seed" | "cap" => {}
            "lag" => with(|w| {
                if let Some(t) = w.conns.get(&(num(1) as u32)).map(|c| c.task) {
                    w.lags.insert(t, num(2) as u32);
                }
            }),
            "naps" => with(|w| w.naps = num(1) as u32),
            "chaos" => with(|w| w.chaos = num(1) as u32),
            "open" => {
                let id = num(1) as u32;
                if with(|w| w.conns.contains_key(&id)) {
                    continue;
                }
                with(|w| w.dead[id as usize] = false);
                conn_op(id, |_| {}, Some(format!("\"e\":\"open\",\"c\":{}", id)));
                let wk = with(|w| {
                    w.backlog.push_back(Ok(id));
                    w.accept_waker.take()
                });
                wake(wk);
            }
            "accepterr" => {
                let wk = with(|w| {
                    w.backlog.push_back(Err(()));
                    w.accept_waker.take()
                });
                wake(wk);
            }
            "send" => {
                let id = num(1) as u32;
                let bytes = unhex(a[2]);
                if with(|w| w.dead(id) || w.conns.get(&id).map_or(false, |c| c.eof || c.reset)) {
                    continue;
                }
                conn_op(
                    id,
                    |c| c.inbound.extend(bytes.iter()),
                    Some(format!("\"e\":\"rx\",\"c\":{},\"x\":\"{}\"", id, a[2])),
                );
            }
            "eof" | "gone" => {
                let id = num(1) as u32;
                let gone = a[0] == "gone";
                if with(|w| w.dead(id) || w.conns.get(&id).map_or(false, |c| c.reset)) {
                    continue;
                }
                conn_op(
                    id,
                    |c| {
                        c.eof = true;
                        c.gone |= gone;
                    },
                    Some(format!("\"e\":\"{}\",\"c\":{}", a[0], id)),
                );
            }
            "rst" => {
                let id = num(1) as u32;
                if with(|w| w.dead(id)) {
                    continue;
                }
                conn_op(
                    id,
                    |c| {
                        c.reset = true;
                        c.inbound.clear();
                    },
                    Some(format!("\"e\":\"rst\",\"c\":{}", id)),
                );
            }
            "stall" => {
                let id = num(1) as u32;
                let n = a.get(2).map_or(0, |_| num(2)) as usize;
                if with(|w| w.dead(id)) {
                    continue;
                }
                conn_op(
                    id,
                    |c| c.window = Some(n),
                    Some(format!("\"e\":\"stall\",\"c\":{}", id)),
                );
            }
            "unstall" => {
                let id = num(1) as u32;
                if with(|w| w.dead(id)) {
                    continue;
                }
                conn_op(
                    id,
                    |c| c.window = None,
                    Some(format!("\"e\":\"unstall\",\"c\":{}", id)),
                );
            }
            "auto" => {
                let id = num(1) as u32;
                if !with(|w| w.dead(id)) {
                    conn_op(id, |c| c.auto = true, None)
                }
            }
            "rmode" | "wmode" => {
                let id = num(1) as u32;
                if with(|w| w.dead(id)) {
                    continue;
                }
                let m = mode(a[2]);
                let read = a[0] == "rmode";
                conn_op(id, |c| if read { c.rmode = m } else { c.wmode = m }, None)
            }
            "step" => {
                for _ in 0..num(1) {
                    real::task::yield_now().await;
                }
            }
            // until the client has been sent so many packets, or nothing happens any more
            "await" => {
                for _ in 0..5000 {
                    let id = num(1) as u32;
                    if with(|w| w.dead(id) || w.conns.get(&id).map_or(false, |c| c.sent >= num(2))) {
                        break;
                    }
                    real::task::yield_now().await;
                }
            }
            // a QoS 1 publication to "fill" of so many bytes
            "fill" => {
                let (id, n, pid) = (num(1) as u32, num(2) as usize, num(3));
                if with(|w| w.dead(id) || !w.conns.contains_key(&id)) {
                    continue;
                }
                let mut head = vec![0x32];
                let mut len = n + 8;
                while len > 0 {
                    head.push((len % 128) as u8 | if len > 127 { 128 } else { 0 });
                    len /= 128;
                }
                head.extend(b"\0\x04fill");
                head.extend([(pid >> 8) as u8, pid as u8]);
                let line = format!("\"e\":\"rx\",\"c\":{},\"x\":\"{}\",\"fill\":{}", id, hex(&head), n);
                head.resize(head.len() + n, b'z');
                conn_op(id, |c| c.inbound.extend(head), Some(line));
            }
            // so many clients that come, are let in and leave, one after the other
            "visits" => {
                let id = num(1) as u32;
                for k in num(2)..num(3) {
                    let name = format!("visitor-{k}");
                    let mut hello = vec![0x10, 12 + name.len() as u8, 0, 4];
                    hello.extend(b"MQTT\x04\x02\0\0\0");
                    hello.push(name.len() as u8);
                    hello.extend(name.bytes());
                    hello.extend([0xe0, 0]);
                    with(|w| w.dead[id as usize] = false);
                    let lines = format!(
                        "\"e\":\"open\",\"c\":{id},\"t\":{}}}\n{{\"e\":\"rx\",\"c\":{id},\"x\":\"{}\"",
                        with(|w| w.now()),
                        hex(&hello)
                    );
                    conn_op(id, |c| c.inbound.extend(hello.iter()), Some(lines));
                    let wk = with(|w| {
                        w.backlog.push_back(Ok(id));
                        w.accept_waker.take()
                    });
                    wake(wk);
                    for _ in 0..5000 {
                        if with(|w| !w.conns.contains_key(&id)) {
                            break;
                        }
                        real::task::yield_now().await;
                    }
                }
            }
            "mem" => {
                sweep();
                let mem = IN_USE.load(std::sync::atomic::Ordering::Relaxed);
                with(|w| w.emit(&format!("\"e\":\"mem\",\"n\":{}", mem)));
            }
            "settle" => {
                real::time::sleep(Duration::from_millis(1)).await;
                with(|w| w.emit("\"e\":\"q\""));
            }
            "adv" => {
                real::time::sleep(Duration::from_millis(num(1))).await;
                with(|w| w.emit("\"e\":\"q\""));
            }
            "probe" => probe(),
            "int" => {
                let wk = with(|w| {
                    w.sigint = true;
                    w.emit("\"e\":\"int\"");
                    std::mem::take(&mut w.sig_wakers)
                });
                for x in wk {
                    x.wake();
                }
            }
            other => panic!("script: unknown op {other}"),
        }
    }
    real::time::sleep(Duration::from_millis(1)).await;
    with(|w| {
        let ids: Vec<u32> = w.conns.keys().copied().collect();
        for id in ids {
            if !w.conns[&id].closed {
                w.leftovers(id);
            }
        }
        w.emit("\"e\":\"q\"");
        w.emit("\"e\":\"end\"");
        // what is dropped from here on has nothing to say
        w.fd = -1;
    });
}

// ------------------------------------------------------------------- runtime

pub struct Builder;

impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder
    }
    pub fn new_current_thread() -> Self {
        Builder
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
        self
    }
    pub fn thread_name_fn<F>(&mut self, _: F) -> &mut Self {
        self
    }
    pub fn start_paused(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime)
    }
}

pub struct Runtime;

impl Runtime {
    pub fn new() -> io::Result<Self> {
        Ok(Runtime)
    }
    pub fn spawn<F>(&self, f: F) -> real::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
    pub fn shutdown_timeout(self, _: Duration) {}
    pub fn shutdown_background(self) {}

    /// The program hands over its main future here. SIM_LIST names a file with
    /// one "SCRIPT OUTPUT" pair per line; each is run in a forked child.
    pub fn block_on<F: Future>(&self, body: F) -> F::Output {
        let list = std::env::var("SIM_LIST").expect("SIM_LIST");
        let list = std::fs::read_to_string(list).expect("SIM_LIST file");
        let wall: u32 = std::env::var("SIM_ALARM").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
        let mut hangs = 0;
        for line in list.lines() {
            let mut it = line.split('\t');
            let (script, out) = (it.next().unwrap(), it.next().unwrap());
            let text = std::fs::read_to_string(script).expect("script file");
            let path = std::ffi::CString::new(out).unwrap();
            let fd = unsafe {
                libc::open(path.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_APPEND, 0o644)
            };
            assert!(fd >= 0, "cannot open {out}");
            if hangs >= 3 {
                raw_write(fd, b"{\"e\":\"skipped\",\"t\":0}\n");
                unsafe { libc::close(fd) };
                continue;
            }
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    libc::alarm(wall);
                    let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                    libc::setrlimit(libc::RLIMIT_AS, &lim);
                }
                run_child(body, text, fd);
            }
            let mut status = 0;
            unsafe { libc::waitpid(pid, &mut status, 0) };
            if libc::WIFSIGNALED(status) {
                let sig = libc::WTERMSIG(status);
                let e = if sig == libc::SIGALRM {
                    hangs += 1;
                    "hang".to_string()
                } else {
                    "crash".to_string()
                };
                raw_write(fd, format!("{{\"e\":\"{e}\",\"sig\":{sig},\"t\":0}}\n").as_bytes());
            }
            if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) != DONE {
                // the program ended the process itself
                raw_write(fd, b"{\"e\":\"crash\",\"sig\":0,\"t\":0}\n");
            }
            unsafe { libc::close(fd) };
        }
        std::process::exit(0)
    }
}

/// exit status of a simulation that came to its end
const DONE: i32 = 78;

fn run_child<F: Future>(body: F, script: String, fd: i32) -> ! {
    let mut seed = 1u64;
    let mut cap = None;
    for l in script.lines() {
        let a: Vec<&str> = l.split_whitespace().collect();
        match a.as_slice() {
            ["seed", n] => seed = n.parse().expect("seed"),
            ["cap", n] => cap = n.parse().ok(),
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let line = format!("\"e\":\"panic\",\"at\":\"{}\"", loc.replace(['"', '\\'], "/"));
        W.with(|w| match w.try_borrow_mut() {
            Ok(mut w) => w.emit(&line),
            Err(_) => eprintln!("panic inside the simulation: {loc}"),
        });
    }));
    // what the program logs is written, and goes nowhere
    if std::env::var_os("SIM_LOG").is_none() {
        unsafe {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            libc::close(null);
        }
    }
    let mut b = real::runtime::Builder::new_current_thread();
    b.enable_all().start_paused(true);
    // how many tasks run before the accept loop and the script have their turn again
    b.event_interval([61, 1, 61, 3][(seed / 7 % 4) as usize]);
    b.rng_seed(real::runtime::RngSeed::from_bytes(&seed.to_le_bytes()));
    let rt = b.build().expect("runtime");
    rt.block_on(async move {
        with(|w| {
            w.rng = seed.wrapping_mul(0xD134_2543_DE82_EF95).wrapping_add(1);
            w.cap = cap;
            w.capmix = seed;
            w.dead = vec![false; 1 << 16];
            w.channels.reserve(1 << 12);
            w.fd = fd;
            w.start = Some(Instant::now());
        });
        let main = Rc::new(RefCell::new(Some(Chaos::new(body))));
        let driver = drive(script);
        real::pin!(driver);
        std::future::poll_fn(|cx| {
            let mut slot = main.borrow_mut();
            if let Some(m) = slot.as_mut() {
                if Pin::new(m).poll(cx).is_ready() {
                    with(|w| {
                        w.exited = true;
                        w.emit("\"e\":\"exit\"");
                    });
                    *slot = None;
                }
            }
            drop(slot);
            driver.as_mut().poll(cx)
        })
        .await;
    });
    unsafe { libc::_exit(DONE) }
}
