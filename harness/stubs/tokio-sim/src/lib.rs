//! `tokio` with a simulated network: `net::{TcpStream, TcpListener}` are in-memory pipes whose partial
//! reads and writes, capacities, spurious wake-ups, closures and failures are scripted by the test.
//! Everything else is the real tokio. One thread = one world (listeners are thread local).
pub use tokio::*;

/// Runtimes: one that is to have several threads gets one thread and a clock that stands still while anything
/// is left to do, and runs the test's driver beside its main future until the driver ends.
pub mod runtime {
    pub use tokio::runtime::*;
    use std::future::Future;
    use std::task::Poll;

    pub struct Builder { b: tokio::runtime::Builder, sim: bool }
    impl Builder {
        pub fn new_multi_thread() -> Self {
            let mut b = tokio::runtime::Builder::new_current_thread();
            b.enable_time().start_paused(true);
            if let Some(seed) = crate::sim::SEED.with(|s| s.get()) { b.rng_seed(RngSeed::from_bytes(&seed.to_le_bytes())); }
            Self { b, sim: true }
        }
        pub fn new_current_thread() -> Self { Self { b: tokio::runtime::Builder::new_current_thread(), sim: crate::sim::SEED.with(|s| s.get()).is_some() } }
        pub fn enable_all(&mut self) -> &mut Self { self.b.enable_all(); self }
        pub fn enable_io(&mut self) -> &mut Self { self }
        pub fn enable_time(&mut self) -> &mut Self { self.b.enable_time(); self }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self { self }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self { self }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self { self }
        pub fn rng_seed(&mut self, s: RngSeed) -> &mut Self { self.b.rng_seed(s); self }
        pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime { r: self.b.build()?, sim: self.sim }) }
    }
    pub struct Runtime { r: tokio::runtime::Runtime, sim: bool }
    impl Runtime {
        pub fn new() -> std::io::Result<Self> { Builder::new_multi_thread().enable_all().build() }
        pub fn handle(&self) -> &Handle { self.r.handle() }
        pub fn enter(&self) -> EnterGuard<'_> { self.r.enter() }
        pub fn spawn<F>(&self, f: F) -> tokio::task::JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { self.r.spawn(f) }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let driver = if self.sim { crate::sim::DRIVER.with(|d| d.borrow_mut().take()) } else { None };
            let Some(mut driver) = driver else { return self.r.block_on(f) };
            self.r.block_on(async move {
                let mut f = std::pin::pin!(f);
                std::future::poll_fn(move |cx| {
                    if let Poll::Ready(r) = f.as_mut().poll(cx) { return Poll::Ready(r); }
                    // the driver has ended: so does everything
                    if driver.as_mut().poll(cx).is_ready() { std::panic::resume_unwind(Box::new(crate::sim::DriverEnded)); }
                    Poll::Pending
                }).await
            })
        }
    }
}

pub mod sim {
    pub struct DriverEnded;
    pub type Driver = std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>;
    thread_local! {
        pub(crate) static DRIVER: std::cell::RefCell<Option<Driver>> = const { std::cell::RefCell::new(None) };
        pub(crate) static SEED: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
    }
    /// Runs `program` (which makes a runtime and blocks on its main future) with the driver beside it, until
    /// either ends. True: the driver ended first. The program's panic is passed on.
    pub fn drive(seed: u64, driver: Driver, program: impl FnOnce()) -> bool {
        SEED.with(|s| s.set(Some(seed)));
        DRIVER.with(|d| *d.borrow_mut() = Some(driver));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(program));
        SEED.with(|s| s.set(None));
        let left = DRIVER.with(|d| d.borrow_mut().take());
        drop(left);
        match r { Ok(()) => false, Err(e) if e.is::<DriverEnded>() => true, Err(e) => std::panic::resume_unwind(e) }
    }
    use std::collections::{HashMap, VecDeque};
    use std::io::{self, ErrorKind};
    use std::sync::{Arc, Mutex, MutexGuard};
    use std::task::{Context, Poll, Waker};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Step { Max(usize), Pending }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum End { Zero, Err(ErrorKind) }

    /// One direction of a connection.
    #[derive(Default)]
    pub struct Inner {
        pub buf: VecDeque<u8>,
        /// 0 = unlimited
        pub cap: usize,
        pub eof: bool,
        pub reader_gone: bool,
        pub rplan: VecDeque<Step>,
        pub wplan: VecDeque<Step>,
        pub fplan: VecDeque<Step>,
        /// After this many bytes were read or written, fail.
        pub read_fail: Option<(usize, ErrorKind)>,
        pub write_fail: Option<(usize, End)>,
        pub total_read: usize,
        /// All bytes ever written.
        pub log: Vec<u8>,
        /// Length of `log` at each flush.
        pub flushes: Vec<usize>,
        pub read_polls: usize,
        pub write_polls: usize,
        /// Successful reads and writes, if they are to be kept: when (by a count of all of the thread), and how many bytes had then been read or written.
        pub reads: Option<Vec<(u64, usize)>>,
        pub writes: Option<Vec<(u64, usize)>>,
        /// More comes by itself, so many bytes, until that many have been written to the other pipe.
        pub more: Option<(usize, Pipe, usize)>,
        rwaker: Option<Waker>,
        wwaker: Option<Waker>,
    }
    #[derive(Clone, Default)]
    pub struct Pipe(Arc<Mutex<Inner>>);
    thread_local! { static NOW: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    /// Counts on with every read and write.
    pub fn now() -> u64 { NOW.with(|n| n.get()) }
    fn note(v: &mut Option<Vec<(u64, usize)>>, total: usize) { NOW.with(|n| n.set(n.get() + 1)); if let Some(v) = v { v.push((now(), total)); } }
    fn wake(w: &mut Option<Waker>) { if let Some(w) = w.take() { w.wake(); } }
    impl Pipe {
        pub fn new(cap: usize) -> Self { let p = Self::default(); p.get().cap = cap; p }
        pub fn get(&self) -> MutexGuard<'_, Inner> { self.0.lock().unwrap() }
        /// Test side: put bytes in, ignoring the capacity.
        pub fn push(&self, b: &[u8]) { let mut g = self.get(); g.buf.extend(b); wake(&mut g.rwaker); }
        /// Test side: take out up to `n` bytes.
        pub fn take(&self, n: usize) -> Vec<u8> { let mut g = self.get(); let n = n.min(g.buf.len()); let v = g.buf.drain(..n).collect(); wake(&mut g.wwaker); v }
        pub fn close(&self) { let mut g = self.get(); g.eof = true; wake(&mut g.rwaker); }
        pub fn hang_up(&self) { let mut g = self.get(); g.reader_gone = true; wake(&mut g.wwaker); }
        pub fn set_cap(&self, cap: usize) { let mut g = self.get(); g.cap = cap; wake(&mut g.wwaker); }
        pub fn wake_all(&self) { let mut g = self.get(); wake(&mut g.rwaker); wake(&mut g.wwaker); }
        pub(crate) fn poll_read(&self, cx: &mut Context<'_>, out: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
            let mut g = self.get();
            g.read_polls += 1;
            if let Some(Step::Pending) = g.rplan.front() { g.rplan.pop_front(); cx.waker().wake_by_ref(); return Poll::Pending; }
            let mut lim = usize::MAX;
            if let Some((at, kind)) = g.read_fail { if g.total_read >= at { return Poll::Ready(Err(kind.into())); } lim = at - g.total_read; }
            if g.buf.is_empty() {
                if let Some((left, other, upto)) = &mut g.more {
                    if *left > 0 && other.get().log.len() < *upto { let n = (*left).min(1 << 16); *left -= n; g.buf.extend(std::iter::repeat_n(b'i', n)); }
                }
            }
            if g.buf.is_empty() {
                if g.eof { return Poll::Ready(Ok(())); }
                g.rwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            if let Some(Step::Max(n)) = g.rplan.front().copied() { g.rplan.pop_front(); lim = lim.min(n.max(1)); }
            let n = lim.min(g.buf.len()).min(out.remaining());
            for b in g.buf.drain(..n) { out.put_slice(&[b]); }
            g.total_read += n;
            let total = g.total_read;
            note(&mut g.reads, total);
            wake(&mut g.wwaker);
            Poll::Ready(Ok(()))
        }
        pub(crate) fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
            let mut g = self.get();
            g.write_polls += 1;
            if let Some(Step::Pending) = g.wplan.front() { g.wplan.pop_front(); cx.waker().wake_by_ref(); return Poll::Pending; }
            let mut lim = usize::MAX;
            if let Some((at, end)) = g.write_fail {
                if g.log.len() >= at { return Poll::Ready(match end { End::Zero => Ok(0), End::Err(k) => Err(k.into()) }); }
                lim = at - g.log.len();
            }
            if g.reader_gone { return Poll::Ready(Err(ErrorKind::BrokenPipe.into())); }
            if g.cap > 0 { lim = lim.min(g.cap.saturating_sub(g.buf.len())); }
            if lim == 0 && !data.is_empty() { g.wwaker = Some(cx.waker().clone()); return Poll::Pending; }
            if let Some(Step::Max(n)) = g.wplan.front().copied() { g.wplan.pop_front(); lim = lim.min(n.max(1)); }
            let n = lim.min(data.len());
            g.buf.extend(&data[..n]);
            g.log.extend_from_slice(&data[..n]);
            let total = g.log.len();
            note(&mut g.writes, total);
            wake(&mut g.rwaker);
            Poll::Ready(Ok(n))
        }
        pub(crate) fn poll_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            let mut g = self.get();
            if let Some(Step::Pending) = g.fplan.front() { g.fplan.pop_front(); cx.waker().wake_by_ref(); return Poll::Pending; }
            if let Some((at, End::Err(k))) = g.write_fail { if g.log.len() >= at { return Poll::Ready(Err(k.into())); } }
            let n = g.log.len();
            g.flushes.push(n);
            Poll::Ready(Ok(()))
        }
    }

    impl Pipe {
        fn readable_now(&self) -> bool { let g = self.get(); !g.buf.is_empty() || g.more.as_ref().is_some_and(|m| m.0 > 0 && m.1.get().log.len() < m.2) || g.eof || g.read_fail.is_some_and(|(at, _)| g.total_read >= at) }
        fn writable_now(&self) -> bool { let g = self.get(); g.reader_gone || g.cap == 0 || g.buf.len() < g.cap || g.write_fail.is_some_and(|(at, _)| g.log.len() >= at) }
        pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { if self.readable_now() { return Poll::Ready(Ok(())); } self.get().rwaker = Some(cx.waker().clone()); Poll::Pending }
        pub(crate) fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { if self.writable_now() { return Poll::Ready(Ok(())); } self.get().wwaker = Some(cx.waker().clone()); Poll::Pending }
        /// Without registering anyone.
        pub(crate) fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
            if !self.readable_now() { return Err(ErrorKind::WouldBlock.into()); }
            let mut b = tokio::io::ReadBuf::new(b);
            match self.poll_read(&mut Context::from_waker(Waker::noop()), &mut b) { Poll::Ready(r) => r.map(|()| b.filled().len()), Poll::Pending => Err(ErrorKind::WouldBlock.into()) }
        }
        pub(crate) fn try_write(&self, b: &[u8]) -> io::Result<usize> {
            if !self.writable_now() { return Err(ErrorKind::WouldBlock.into()); }
            match self.poll_write(&mut Context::from_waker(Waker::noop()), b) { Poll::Ready(r) => r, Poll::Pending => Err(ErrorKind::WouldBlock.into()) }
        }
        pub(crate) fn poll_peek(&self, cx: &mut Context<'_>, out: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<usize>> {
            if self.poll_readable(cx).is_pending() { return Poll::Pending; }
            let g = self.get();
            if let Some((at, kind)) = g.read_fail { if g.total_read >= at { return Poll::Ready(Err(kind.into())); } }
            let n = g.buf.len().min(out.remaining());
            for b in g.buf.iter().take(n) { out.put_slice(&[*b]); }
            Poll::Ready(Ok(n))
        }
    }

    pub(crate) struct Listener { pub queue: VecDeque<(super::net::TcpStream, std::net::SocketAddr)>, pub waker: Option<Waker>, pub id: u64, pub fail: VecDeque<ErrorKind> }
    #[derive(Default)]
    pub(crate) struct World { pub listeners: HashMap<String, Listener>, pub next: u64, pub bound: Vec<String>, pub connected: Vec<String>, pub refuse: HashMap<String, ErrorKind>, pub unbindable: HashMap<String, ErrorKind>, pub caps: (usize, usize) }
    thread_local! { pub(crate) static WORLD: std::cell::RefCell<World> = std::cell::RefCell::new(World::default()); }

    pub fn reset() { let old = WORLD.with(|w| std::mem::take(&mut *w.borrow_mut())); drop(old); }
    /// Addresses given to `bind` and `connect` so far.
    pub fn bound() -> Vec<String> { WORLD.with(|w| w.borrow().bound.clone()) }
    pub fn connected() -> Vec<String> { WORLD.with(|w| w.borrow().connected.clone()) }
    /// Drops the record of the addresses given to `connect`.
    pub fn forget_connected() { WORLD.with(|w| w.borrow_mut().connected = vec![]) }
    pub fn refuse(addr: &str, kind: ErrorKind) { WORLD.with(|w| { w.borrow_mut().refuse.insert(addr.to_owned(), kind); }) }
    /// Makes every `bind` to this address fail.
    pub fn unbindable(addr: &str, kind: ErrorKind) { WORLD.with(|w| { w.borrow_mut().unbindable.insert(addr.to_owned(), kind); }) }
    /// Addresses at which there is a listener.
    pub fn listening() -> Vec<String> { let mut v: Vec<String> = WORLD.with(|w| w.borrow().listeners.keys().cloned().collect()); v.sort(); v }
    pub fn allow(addr: &str) { WORLD.with(|w| { w.borrow_mut().refuse.remove(addr); }) }
    /// Capacities (to, from) of connections made by `connect` from now on.
    pub fn set_caps(to: usize, from: usize) { WORLD.with(|w| w.borrow_mut().caps = (to, from)) }
    /// Makes the next `accept` at this address fail.
    pub fn fail_accept(addr: &str, kind: ErrorKind) {
        WORLD.with(|w| { if let Some(l) = w.borrow_mut().listeners.get_mut(addr) { l.fail.push_back(kind); if let Some(w) = l.waker.take() { w.wake(); } } })
    }
    pub fn pair(cap_ab: usize, cap_ba: usize) -> (super::net::TcpStream, super::net::TcpStream) {
        let (ab, ba) = (Pipe::new(cap_ab), Pipe::new(cap_ba));
        let addr = |p| std::net::SocketAddr::from(([127, 0, 0, 1], p));
        (super::net::TcpStream::make(ba.clone(), ab.clone(), addr(1), addr(2)), super::net::TcpStream::make(ab, ba, addr(2), addr(1)))
    }
}

pub mod net {
    use crate::sim::{Listener, Pipe, WORLD};
    use std::io::{self, ErrorKind};
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

    pub trait ToSocketAddrs { fn name(&self) -> String; }
    impl ToSocketAddrs for str { fn name(&self) -> String { self.to_owned() } }
    impl ToSocketAddrs for String { fn name(&self) -> String { self.clone() } }
    impl ToSocketAddrs for SocketAddr { fn name(&self) -> String { self.to_string() } }
    impl ToSocketAddrs for (&str, u16) { fn name(&self) -> String { format!("{}:{}", self.0, self.1) } }
    impl ToSocketAddrs for (String, u16) { fn name(&self) -> String { format!("{}:{}", self.0, self.1) } }
    impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T { fn name(&self) -> String { (**self).name() } }

    macro_rules! read_api { ($($p:tt)*) => {
        pub async fn readable(&self) -> io::Result<()> { std::future::poll_fn(|cx| self.$($p)*.poll_readable(cx)).await }
        pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> { self.$($p)*.try_read(b) }
        pub fn try_read_buf<B: bytes::BufMut>(&self, b: &mut B) -> io::Result<usize> { let mut v = vec![0; b.chunk_mut().len().min(b.remaining_mut())]; let n = self.$($p)*.try_read(&mut v)?; b.put_slice(&v[..n]); Ok(n) }
    } }
    macro_rules! write_api { ($($p:tt)*) => {
        pub async fn writable(&self) -> io::Result<()> { std::future::poll_fn(|cx| self.$($p)*.poll_writable(cx)).await }
        pub fn try_write(&self, b: &[u8]) -> io::Result<usize> { self.$($p)*.try_write(b) }
        pub fn try_write_vectored(&self, b: &[io::IoSlice<'_>]) -> io::Result<usize> { match b.iter().find(|b| !b.is_empty()) { Some(b) => self.$($p)*.try_write(b), None => Ok(0) } }
    } }
    macro_rules! ready_api { (rd: $r:ident, wr: $w:ident) => {
        read_api!($r);
        write_api!($w);
        pub async fn ready(&self, i: tokio::io::Interest) -> io::Result<tokio::io::Ready> {
            std::future::poll_fn(|cx| {
                let mut r = tokio::io::Ready::EMPTY;
                if i.is_readable() && self.$r.poll_readable(cx).is_ready() { r |= tokio::io::Ready::READABLE; }
                if i.is_writable() && self.$w.poll_writable(cx).is_ready() { r |= tokio::io::Ready::WRITABLE; }
                if r.is_empty() { Poll::Pending } else { Poll::Ready(Ok(r)) }
            }).await
        }
        pub fn try_io<R>(&self, _: tokio::io::Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> { f() }
    } }

    pub struct TcpStream { rd: Pipe, wr: Pipe, local: SocketAddr, peer: SocketAddr }
    impl TcpStream {
        pub(crate) fn make(rd: Pipe, wr: Pipe, local: SocketAddr, peer: SocketAddr) -> Self { Self { rd, wr, local, peer } }
        pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
            let name = addr.name();
            let r = WORLD.with(|w| {
                let mut w = w.borrow_mut();
                w.connected.push(name.clone());
                if let Some(k) = w.refuse.get(&name) { return Err(io::Error::from(*k)); }
                w.next += 1;
                let id = w.next;
                let caps = w.caps;
                let Some(l) = w.listeners.get_mut(&name) else { return Err(ErrorKind::ConnectionRefused.into()) };
                let (ab, ba) = (Pipe::new(caps.0), Pipe::new(caps.1));
                // several clients at one address, several addresses, of both families
                let port = 10000 + (id * 7919 % 50000) as u16;
                let a = match id % 5 { 0 | 1 => SocketAddr::from(([127, 0, 0, 1], port)), 2 => SocketAddr::from(([192, 168, 1, (id % 3) as u8 + 1], port)), 3 => SocketAddr::from(([0x2001, 0xdb8, 0, 0, 0, 0, 0, id as u16 % 4], port)), _ => SocketAddr::from(([203, 0, 113, id as u8], port)) };
                let b = SocketAddr::from(([127, 0, 0, 1], 1));
                let here = TcpStream::make(ba.clone(), ab.clone(), a, b);
                l.queue.push_back((TcpStream::make(ab, ba, b, a), a));
                Ok((here, l.waker.take()))
            });
            let (s, waker) = r?;
            if let Some(w) = waker { w.wake(); }
            Ok(s)
        }
        /// (incoming, outgoing)
        pub fn pipes(&self) -> (Pipe, Pipe) { (self.rd.clone(), self.wr.clone()) }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(self.local) }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(self.peer) }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
        pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) { let s = &*self; (tcp::ReadHalf(s), tcp::WriteHalf(s)) }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { let s = std::sync::Arc::new(self); (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s)) }
        pub fn nodelay(&self) -> io::Result<bool> { Ok(true) }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
        pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
        pub fn linger(&self) -> io::Result<Option<std::time::Duration>> { Ok(None) }
        pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
        pub fn set_quickack(&self, _: bool) -> io::Result<()> { Ok(()) }
        pub fn quickack(&self) -> io::Result<bool> { Ok(true) }
        pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) }
        pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.rd.poll_readable(cx) }
        pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.wr.poll_writable(cx) }
        pub fn poll_peek(&self, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> { self.rd.poll_peek(cx, b) }
        pub async fn peek(&self, b: &mut [u8]) -> io::Result<usize> { let mut b = ReadBuf::new(b); std::future::poll_fn(|cx| self.rd.poll_peek(cx, &mut b)).await }
        ready_api!(rd: rd, wr: wr);
    }
    impl Drop for TcpStream { fn drop(&mut self) { self.wr.close(); self.rd.hang_up(); } }
    impl AsyncRead for TcpStream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { self.rd.poll_read(cx, b) }
    }
    impl AsyncWrite for TcpStream {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.wr.poll_write(cx, b) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.wr.poll_flush(cx) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.wr.close(); Poll::Ready(Ok(())) }
    }
    pub mod tcp {
        use super::*;
        pub struct ReadHalf<'a>(pub(crate) &'a TcpStream);
        pub struct WriteHalf<'a>(pub(crate) &'a TcpStream);
        impl ReadHalf<'_> {
            read_api!(0.rd);
            pub async fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.peek(b).await }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
        }
        impl AsRef<TcpStream> for ReadHalf<'_> { fn as_ref(&self) -> &TcpStream { self.0 } }
        impl WriteHalf<'_> {
            write_api!(0.wr);
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
        }
        impl AsRef<TcpStream> for WriteHalf<'_> { fn as_ref(&self) -> &TcpStream { self.0 } }
        impl OwnedReadHalf {
            read_api!(0.rd);
            pub async fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.peek(b).await }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
        }
        impl AsRef<TcpStream> for OwnedReadHalf { fn as_ref(&self) -> &TcpStream { &self.0 } }
        impl OwnedWriteHalf {
            write_api!(0.wr);
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
        }
        impl AsRef<TcpStream> for OwnedWriteHalf { fn as_ref(&self) -> &TcpStream { &self.0 } }
        impl AsyncRead for ReadHalf<'_> {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { self.0.rd.poll_read(cx, b) }
        }
        impl AsyncWrite for WriteHalf<'_> {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.0.wr.poll_write(cx, b) }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.wr.poll_flush(cx) }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.wr.close(); Poll::Ready(Ok(())) }
        }
        pub struct OwnedReadHalf(pub(crate) std::sync::Arc<TcpStream>);
        pub struct OwnedWriteHalf(pub(crate) std::sync::Arc<TcpStream>);
        impl AsyncRead for OwnedReadHalf {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { self.0.rd.poll_read(cx, b) }
        }
        impl AsyncWrite for OwnedWriteHalf {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.0.wr.poll_write(cx, b) }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.wr.poll_flush(cx) }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.wr.close(); Poll::Ready(Ok(())) }
        }
        // dropping the writing half ends that direction
        impl Drop for OwnedWriteHalf { fn drop(&mut self) { self.0.wr.close(); } }
    }

    pub struct TcpListener { name: String, id: u64 }
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
            let name = addr.name();
            WORLD.with(|w| {
                let mut w = w.borrow_mut();
                w.bound.push(name.clone());
                if let Some(k) = w.unbindable.get(&name) { return Err(io::Error::from(*k)); }
                if w.listeners.contains_key(&name) { return Err(ErrorKind::AddrInUse.into()); }
                w.next += 1;
                let id = w.next;
                w.listeners.insert(name.clone(), Listener { queue: Default::default(), waker: None, id, fail: Default::default() });
                Ok(Self { name, id })
            })
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1))) }
        pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
        pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
            WORLD.with(|w| {
                let mut w = w.borrow_mut();
                let Some(l) = w.listeners.get_mut(&self.name) else { return Poll::Ready(Err(ErrorKind::NotConnected.into())) };
                if let Some(k) = l.fail.pop_front() { return Poll::Ready(Err(k.into())); }
                match l.queue.pop_front() { Some(x) => Poll::Ready(Ok(x)), None => { l.waker = Some(cx.waker().clone()); Poll::Pending } }
            })
        }
        pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { std::future::poll_fn(|cx| self.poll_accept(cx)).await }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            let old = WORLD.try_with(|w| { let mut w = w.try_borrow_mut().ok()?; if w.listeners.get(&self.name).is_some_and(|l| l.id == self.id) { w.listeners.remove(&self.name) } else { None } });
            drop(old);
        }
    }
}
