//! Transports that split, delay, interrupt, fail and end early, under a deterministic plan.
use crate::rt::Rng;
use futures::{AsyncRead, AsyncSeek, AsyncWrite};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hit {
    /// an error
    Err(ErrorKind),
    /// nothing is transferred although something was asked: end of the source, full sink
    Zero,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// number of the call (read, write, seek, flush) that fails
    pub op: usize,
    pub hit: Hit,
    /// whether all later calls fail too
    pub sticky: bool,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    /// chances out of 16 of a call being shortened, interrupted (blocking only), pending (async only)
    pub short: usize,
    pub interrupt: usize,
    pub pending: usize,
    pub fault: Option<Fault>,
}
impl Plan {
    pub fn clean() -> Plan {
        Plan { seed: 0, short: 0, interrupt: 0, pending: 0, fault: None }
    }
    pub fn rough(rng: &mut Rng) -> Plan {
        let r = |rng: &mut Rng| *rng.pick(&[0usize, 1, 4, 12]);
        Plan { seed: rng.u64(), short: r(rng), interrupt: r(rng), pending: r(rng), fault: None }
    }
    pub fn with(&self, f: Fault) -> Plan {
        Plan { fault: Some(f), ..self.clone() }
    }
}
pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
];
pub fn rand_fault(rng: &mut Rng, op: usize) -> Fault {
    Fault {
        op,
        hit: if rng.chance(1, 3) { Hit::Zero } else { Hit::Err(*rng.pick(&KINDS)) },
        sticky: rng.bool(),
    }
}
#[derive(Debug, Default, Clone)]
pub struct Log {
    pub ops: usize,
    pub bytes: usize,
    pub shorts: usize,
    pub interrupts: usize,
    pub pendings: usize,
    pub faults: usize,
    pub flushed_at: Option<usize>,
}
struct Core {
    plan: Plan,
    rng: Rng,
    log: Log,
    data: Vec<u8>,
    last_pending: bool,
    last_interrupt: bool,
}
enum Do {
    Go(usize),
    Fail(Error),
    Pending,
}
impl Core {
    fn new(plan: Plan) -> Core {
        Core { rng: Rng::new(plan.seed), plan, log: Log::default(), data: vec![], last_pending: false, last_interrupt: false }
    }
    /// what to do with a call transferring up to `n` bytes (`n` = 0: seek or flush)
    fn step(&mut self, n: usize, transfer: bool, asynchronous: bool) -> Do {
        if asynchronous && !self.last_pending && self.plan.pending > 0 && self.rng.chance(self.plan.pending, 16) {
            self.last_pending = self.rng.bool();
            self.log.pendings += 1;
            return Do::Pending;
        }
        self.last_pending = false;
        // flush and seek are not interrupted: `Write::flush`/`Seek::seek` do not promise a retry
        if !asynchronous && transfer && !self.last_interrupt && self.plan.interrupt > 0 && self.rng.chance(self.plan.interrupt, 16) {
            self.last_interrupt = self.rng.bool();
            self.log.interrupts += 1;
            return Do::Fail(Error::new(ErrorKind::Interrupted, "injected"));
        }
        self.last_interrupt = false;
        let op = self.log.ops;
        self.log.ops += 1;
        if let Some(f) = self.plan.fault {
            if op == f.op || (f.sticky && op > f.op) {
                match f.hit {
                    Hit::Err(k) => {
                        self.log.faults += 1;
                        return Do::Fail(Error::new(k, "injected"));
                    }
                    Hit::Zero if transfer && n > 0 => {
                        self.log.faults += 1;
                        return Do::Go(0);
                    }
                    // a seek or flush does not transfer anything
                    Hit::Zero => (),
                }
            }
        }
        if n > 1 && self.plan.short > 0 && self.rng.chance(self.plan.short, 16) {
            self.log.shorts += 1;
            return Do::Go(self.rng.range(1, n - 1));
        }
        Do::Go(n)
    }
}

thread_local! {
    static PAUSES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// from now on the transports of this thread give way to other threads now and then
pub fn pauses(seed: u64) {
    PAUSES.with(|p| p.set(seed));
}
pub fn pause() {
    PAUSES.with(|p| {
        let mut x = p.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            p.set(x);
            if x % 128 == 0 {
                std::thread::sleep(std::time::Duration::from_micros(30));
            } else if x % 4 == 0 {
                std::thread::yield_now();
            }
        }
    })
}
/// a file being written
#[derive(Clone)]
pub struct Sink(Arc<Mutex<Core>>);
impl Sink {
    pub fn new(plan: Plan) -> Sink {
        Sink(Arc::new(Mutex::new(Core::new(plan))))
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
    pub fn log(&self) -> Log {
        self.0.lock().unwrap().log.clone()
    }
    fn wr(&self, b: &[u8], asynchronous: bool) -> Option<Result<usize>> {
        pause();
        let mut c = self.0.lock().unwrap();
        match c.step(b.len(), true, asynchronous) {
            Do::Go(n) => {
                c.data.extend_from_slice(&b[..n]);
                c.log.bytes += n;
                Some(Ok(n))
            }
            Do::Fail(e) => Some(Err(e)),
            Do::Pending => None,
        }
    }
    fn fl(&self, asynchronous: bool) -> Option<Result<()>> {
        let mut c = self.0.lock().unwrap();
        match c.step(0, false, asynchronous) {
            Do::Go(_) => {
                c.log.flushed_at = Some(c.data.len());
                Some(Ok(()))
            }
            Do::Fail(e) => Some(Err(e)),
            Do::Pending => None,
        }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.wr(b, false).unwrap()
    }
    fn flush(&mut self) -> Result<()> {
        self.fl(false).unwrap()
    }
}
fn poll<T>(x: Option<T>, cx: &mut Context<'_>) -> Poll<T> {
    match x {
        Some(x) => Poll::Ready(x),
        None => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
impl AsyncWrite for Sink {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        poll(self.wr(b, true), cx)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        poll(self.fl(true), cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.poll_flush(cx)
    }
}

/// a file being read
#[derive(Clone)]
pub struct Src<'a> {
    data: &'a [u8],
    pos: u64,
    core: Arc<Mutex<Core>>,
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Src<'a> {
        Src { data, pos: 0, core: Arc::new(Mutex::new(Core::new(plan))) }
    }
    /// another handle to the same file, under the same plan
    pub fn reopen(&self) -> Src<'a> {
        Src { data: self.data, pos: 0, core: self.core.clone() }
    }
    pub fn log(&self) -> Log {
        self.core.lock().unwrap().log.clone()
    }
    fn rd(&mut self, b: &mut [u8], asynchronous: bool) -> Option<Result<usize>> {
        pause();
        let avail = self.data.get(self.pos.min(self.data.len() as u64) as usize..).unwrap_or(&[]);
        let n = avail.len().min(b.len());
        let mut c = self.core.lock().unwrap();
        match c.step(n, true, asynchronous) {
            Do::Go(n) => {
                c.log.bytes += n;
                b[..n].copy_from_slice(&avail[..n]);
                self.pos += n as u64;
                Some(Ok(n))
            }
            Do::Fail(e) => Some(Err(e)),
            Do::Pending => None,
        }
    }
    fn sk(&mut self, to: SeekFrom, asynchronous: bool) -> Option<Result<u64>> {
        pause();
        let r = self.core.lock().unwrap().step(0, false, asynchronous);
        match r {
            Do::Go(_) => {
                let p = match to {
                    SeekFrom::Start(p) => p as i128,
                    SeekFrom::End(d) => self.data.len() as i128 + d as i128,
                    SeekFrom::Current(d) => self.pos as i128 + d as i128,
                };
                Some(match u64::try_from(p) {
                    Ok(p) => {
                        self.pos = p;
                        Ok(p)
                    }
                    Err(_) => Err(Error::new(ErrorKind::InvalidInput, "seek before the start")),
                })
            }
            Do::Fail(e) => Some(Err(e)),
            Do::Pending => None,
        }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.rd(b, false).unwrap()
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.sk(to, false).unwrap()
    }
}
impl AsyncRead for Src<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
        poll(self.rd(b, true), cx)
    }
}
impl AsyncSeek for Src<'_> {
    fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
        poll(self.sk(to, true), cx)
    }
}
pub use crate::hostile::block;
