//! The simulated outside world: byte sources and sinks that follow an explicit plan of
//! delivery sizes, interruptions, faults and end-of-file, and record what actually happened.
use crate::model::{RPlan, WPlan};
use crate::rng::Fp;
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::rc::Rc;

/// The error kinds the simulator injects (Interrupted is injected separately: it means "retry").
pub const KINDS: [ErrorKind; 14] = [
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
    ErrorKind::NotConnected,
    ErrorKind::StorageFull,
    ErrorKind::OutOfMemory,
    ErrorKind::WriteZero,
];
pub fn kind(i: u8) -> ErrorKind {
    KINDS[i as usize % KINDS.len()]
}

/// Payload of every injected error, so that a surfaced error can be traced to its injection.
#[derive(Debug)]
pub struct SimFault {
    pub id: u64,
}
impl std::fmt::Display for SimFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated fault #{}", self.id)
    }
}
impl std::error::Error for SimFault {}

pub const FUEL_MSG: &str = "SIM: I/O step budget exhausted";

type Hook = Rc<dyn Fn()>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
/// As long as it lives, `f` is called at every operation on a source or sink.
pub struct Hooked;
pub fn hook(f: Hook) -> Hooked {
    HOOK.with(|h| *h.borrow_mut() = Some(f));
    Hooked
}
impl Drop for Hooked {
    fn drop(&mut self) {
        HOOK.with(|h| *h.borrow_mut() = None);
    }
}
fn on_io() {
    let f = HOOK.with(|h| h.borrow().clone());
    if let Some(f) = f {
        f();
    }
}

#[derive(Default)]
pub struct IoState {
    /// Bytes handed to the consumer's view so far.
    pub pulled: Cell<u64>,
    /// I/O operations performed (the simulated clock of the device).
    pub ticks: Cell<u64>,
    pub refills: Cell<u32>,
    pub eintr_fired: Cell<u32>,
    pub fault_fired: Cell<u32>,
    pub short: Cell<u32>,
    pub eof_seen: Cell<u32>,
    /// Operations made after the owner declared the stream finished.
    pub closed: Cell<bool>,
    pub after_close: Cell<u32>,
    pub contract: RefCell<Option<String>>,
    /// Fingerprint of the device-level interleaving (operation kinds and sizes).
    pub fp: Cell<u64>,
    pub fuel: Cell<u64>,
    /// Bytes available to be delivered (interactive peer); u64::MAX = no limit.
    pub gate: Cell<u64>,
    pub blocked: Cell<u32>,
    pub flushes: Cell<u32>,
    /// While set, the sink neither fails nor shortens.
    pub calm: Cell<bool>,
    pub writes: Cell<u32>,
}

impl IoState {
    fn note(&self, op: u64, n: u64) {
        self.ticks.set(self.ticks.get() + 1);
        let mut f = Fp(self.fp.get());
        f.u(op << 32 | n);
        self.fp.set(f.0);
        if self.closed.get() {
            self.after_close.set(self.after_close.get() + 1);
        }
        let fuel = self.fuel.get();
        if fuel == 0 {
            panic!("{}", FUEL_MSG);
        }
        self.fuel.set(fuel - 1);
    }
}

pub struct SimReader {
    data: Rc<[u8]>,
    plan: RPlan,
    pos: usize,
    avail: usize,
    next_chunk: usize,
    refill_idx: u32,
    fault_done: bool,
    dead_eof: bool,
    id: u64,
    pub st: Rc<IoState>,
}

impl SimReader {
    pub fn new(data: &[u8], plan: &RPlan, id: u64) -> SimReader {
        let st = Rc::new(IoState::default());
        st.fuel.set(40 * data.len() as u64 + 64 * plan.eintr.len() as u64 + 20_000);
        st.gate.set(u64::MAX);
        SimReader {
            data: data.into(),
            plan: plan.clone(),
            pos: 0,
            avail: 0,
            next_chunk: 0,
            refill_idx: 0,
            fault_done: false,
            dead_eof: false,
            id,
            st,
        }
    }
    fn chunk(&mut self) -> usize {
        let c = if self.next_chunk < self.plan.chunks.len() {
            let c = self.plan.chunks[self.next_chunk];
            self.next_chunk += 1;
            c.max(1)
        } else {
            self.plan.rest
        };
        if c == 0 {
            usize::MAX
        } else {
            c as usize
        }
    }
    fn refill(&mut self) -> io::Result<()> {
        on_io();
        let i = self.refill_idx;
        self.refill_idx += 1;
        self.st.refills.set(self.st.refills.get() + 1);
        if self.plan.eintr.contains(&i) {
            self.st.note(1, 0);
            self.st.eintr_fired.set(self.st.eintr_fired.get() + 1);
            return Err(io::Error::new(ErrorKind::Interrupted, SimFault { id: u64::MAX }));
        }
        if self.dead_eof {
            self.st.note(2, 0);
            self.st.eof_seen.set(self.st.eof_seen.get() + 1);
            return Ok(());
        }
        let mut limit = self.data.len();
        if let Some(f) = &self.plan.fault {
            let live = !self.fault_done || f.mode == 1;
            if live {
                if self.pos as u64 >= f.at {
                    self.fault_done = true;
                    if f.mode == 2 {
                        self.dead_eof = true;
                    }
                    self.st.note(3, u64::from(f.kind));
                    self.st.fault_fired.set(self.st.fault_fired.get() + 1);
                    return Err(io::Error::new(kind(f.kind), SimFault { id: self.id }));
                }
                limit = limit.min(f.at as usize);
            }
        }
        if self.pos >= self.data.len() && self.st.eof_seen.get() > 0 && !self.plan.tail.is_empty() {
            // asked again after the end: there is more by now
            let tail = std::mem::take(&mut self.plan.tail);
            self.data = [&self.data[..], &tail[..]].concat().into();
        }
        if self.pos >= self.data.len() {
            self.st.note(2, 0);
            self.st.eof_seen.set(self.st.eof_seen.get() + 1);
            return Ok(());
        }
        if self.st.gate.get() != u64::MAX {
            let g = self.st.gate.get() as usize;
            if self.pos >= g {
                self.st.note(4, 0);
                self.st.blocked.set(self.st.blocked.get() + 1);
                return Err(io::Error::new(ErrorKind::WouldBlock, SimFault { id: self.id }));
            }
            limit = limit.min(g);
        }
        let c = self.chunk();
        let end = self.pos.saturating_add(c).min(limit);
        if end < self.data.len() {
            self.st.short.set(self.st.short.get() + 1);
        }
        self.avail = end;
        self.st.note(5, (end - self.pos) as u64);
        self.st.pulled.set(self.avail as u64);
        Ok(())
    }
}

impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.avail {
            self.avail = self.pos;
            self.refill()?;
        } else {
            self.st.note(6, 0);
        }
        Ok(&self.data[self.pos..self.avail])
    }
    fn consume(&mut self, n: usize) {
        if self.pos + n > self.avail {
            *self.st.contract.borrow_mut() =
                Some(format!("consume({n}) with only {} bytes exposed at offset {}", self.avail - self.pos, self.pos));
            self.pos = self.avail;
        } else {
            self.pos += n;
        }
    }
}
impl Read for SimReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let n = {
            let a = self.fill_buf()?;
            let n = a.len().min(out.len());
            out[..n].copy_from_slice(&a[..n]);
            n
        };
        self.pos += n;
        Ok(n)
    }
}

/// An endless-looking source: `head`, then `unit` `n` times, then `tail`, delivered in pieces of at
/// most `piece` bytes, without holding the whole text in memory.
pub struct RepReader {
    parts: [Rc<[u8]>; 3],
    unit: Rc<[u8]>,
    vary: bool,
    n: u64,
    part: usize,
    done: u64,
    pos: usize,
    exposed: usize,
    piece: usize,
    pub st: Rc<IoState>,
}
impl RepReader {
    pub fn new(head: &[u8], unit: &[u8], n: u64, tail: &[u8], piece: usize) -> RepReader {
        let st = Rc::new(IoState::default());
        st.fuel.set(u64::MAX);
        st.gate.set(u64::MAX);
        let vary = unit.windows(4).any(|w| w == b"0000");
        RepReader { parts: [head.into(), unit.into(), tail.into()], unit: unit.into(), vary, n, part: 0, done: 0, pos: 0, exposed: 0, piece: piece.max(1), st }
    }
}
/// The unit with every "0000" replaced by the counter, so that repetitions differ in their names.
pub fn numbered(unit: &[u8], i: u64) -> Vec<u8> {
    let mut v = unit.to_vec();
    let d = format!("{:04}", i % 10_000);
    let mut at = 0;
    while at + 4 <= v.len() {
        if &v[at..at + 4] == b"0000" {
            v[at..at + 4].copy_from_slice(d.as_bytes());
            at += 4;
        } else {
            at += 1;
        }
    }
    v
}
impl BufRead for RepReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        while self.part < 3 {
            let reps = if self.part == 1 { self.n } else { 1 };
            if self.done >= reps || self.parts[self.part].is_empty() {
                self.part += 1;
                self.done = 0;
                self.pos = 0;
                self.exposed = 0;
            } else if self.pos >= self.parts[self.part].len() {
                self.done += 1;
                self.pos = 0;
                self.exposed = 0;
                if self.part == 1 && self.vary {
                    self.parts[1] = numbered(&self.unit, self.done).into();
                }
            } else {
                break;
            }
        }
        if self.part >= 3 {
            self.st.note(2, 0);
            return Ok(&[]);
        }
        let p = &self.parts[self.part];
        if self.exposed <= self.pos {
            self.exposed = (self.pos + self.piece).min(p.len());
            self.st.note(5, (self.exposed - self.pos) as u64);
            self.st.short.set(self.st.short.get() + 1);
            self.st.pulled.set(self.st.pulled.get() + (self.exposed - self.pos) as u64);
        }
        Ok(&p[self.pos..self.exposed])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Read for RepReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let a = self.fill_buf()?;
        let n = a.len().min(out.len());
        out[..n].copy_from_slice(&a[..n]);
        self.pos += n;
        Ok(n)
    }
}

/// The reader actually given to the code under test.
pub enum AnyReader {
    Repeat(RepReader),
    Direct(SimReader),
    Wrapped(io::BufReader<SimReader>),
}
pub fn reader(data: &[u8], plan: &RPlan, id: u64) -> (AnyReader, Rc<IoState>) {
    let r = SimReader::new(data, plan, id);
    let st = r.st.clone();
    if plan.wrap == 0 {
        (AnyReader::Direct(r), st)
    } else {
        (AnyReader::Wrapped(io::BufReader::with_capacity(plan.wrap as usize, r)), st)
    }
}
impl BufRead for AnyReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        match self {
            AnyReader::Repeat(r) => r.fill_buf(),
            AnyReader::Direct(r) => r.fill_buf(),
            AnyReader::Wrapped(r) => r.fill_buf(),
        }
    }
    fn consume(&mut self, n: usize) {
        match self {
            AnyReader::Repeat(r) => r.consume(n),
            AnyReader::Direct(r) => r.consume(n),
            AnyReader::Wrapped(r) => r.consume(n),
        }
    }
}
impl Read for AnyReader {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        match self {
            AnyReader::Repeat(r) => r.read(out),
            AnyReader::Direct(r) => r.read(out),
            AnyReader::Wrapped(r) => r.read(out),
        }
    }
}

/// A simulated sink. Accepted bytes go to `data` (shared, so the simulator sees them while the
/// emitter still owns the writer).
pub struct SimWriter {
    pub data: Rc<RefCell<Vec<u8>>>,
    plan: WPlan,
    next_chunk: usize,
    op: u32,
    fault_done: bool,
    next_fault: u64,
    id: u64,
    pub st: Rc<IoState>,
}
impl SimWriter {
    pub fn new(plan: &WPlan, id: u64) -> SimWriter {
        let st = Rc::new(IoState::default());
        st.fuel.set(300_000_000);
        SimWriter { data: Rc::default(), plan: plan.clone(), next_chunk: 0, op: 0, fault_done: false, next_fault: plan.fault.as_ref().map_or(0, |f| f.at), id, st }
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        on_io();
        if self.st.calm.get() {
            self.data.borrow_mut().extend_from_slice(buf);
            self.st.note(14, buf.len() as u64);
            return Ok(buf.len());
        }
        let op = self.op;
        self.op += 1;
        self.st.writes.set(self.st.writes.get() + 1);
        if self.plan.eintr.contains(&op) {
            self.st.note(11, 0);
            self.st.eintr_fired.set(self.st.eintr_fired.get() + 1);
            return Err(io::Error::new(ErrorKind::Interrupted, SimFault { id: u64::MAX }));
        }
        if buf.is_empty() {
            self.st.note(12, 0);
            return Ok(0);
        }
        let mut data = self.data.borrow_mut();
        let mut limit = usize::MAX;
        if let Some(f) = &self.plan.fault {
            if !self.fault_done || f.mode == 1 {
                if data.len() as u64 >= self.next_fault {
                    if f.mode == 2 {
                        // fails again after every `at` further bytes
                        self.next_fault = data.len() as u64 + f.at.max(1);
                    } else {
                        self.fault_done = true;
                    }
                    self.st.note(13, u64::from(f.kind));
                    self.st.fault_fired.set(self.st.fault_fired.get() + 1);
                    if f.kind == 255 {
                        return Ok(0);
                    }
                    return Err(io::Error::new(kind(f.kind), SimFault { id: self.id }));
                }
                limit = (self.next_fault as usize) - data.len();
            }
        }
        let c = if self.next_chunk < self.plan.chunks.len() {
            let c = self.plan.chunks[self.next_chunk];
            self.next_chunk += 1;
            c.max(1)
        } else {
            self.plan.rest
        };
        let c = if c == 0 { usize::MAX } else { c as usize };
        let n = buf.len().min(c).min(limit);
        if n < buf.len() {
            self.st.short.set(self.st.short.get() + 1);
        }
        data.extend_from_slice(&buf[..n]);
        self.st.note(14, n as u64);
        self.st.pulled.set(data.len() as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st.note(15, 0);
        self.st.flushes.set(self.st.flushes.get() + 1);
        if let Some(k) = self.plan.flush_err {
            self.st.fault_fired.set(self.st.fault_fired.get() + 1);
            return Err(io::Error::new(kind(k), SimFault { id: self.id }));
        }
        Ok(())
    }
}
