//! Scripted readers and writers: short transfers, interruptions, faults at a chosen byte, and
//! counters of what happened.
use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Debug)]
pub enum Sched {
    /// everything asked for
    Whole,
    /// one byte per call
    One,
    /// random sizes up to `max`, `intr` percent of calls interrupted
    Random { rng: Rng, max: usize, intr: usize },
    /// some calls are interrupted many times in a row
    Storm { rng: Rng, max: usize, burst: u32 },
}

/// An error as a writer or reader may make it: with a message, bare, or from the system.
pub fn error(k: ErrorKind, form: usize) -> io::Error {
    let os = match k {
        ErrorKind::Interrupted => 4,
        ErrorKind::NotFound => 2,
        ErrorKind::PermissionDenied => 13,
        ErrorKind::WouldBlock => 11,
        ErrorKind::BrokenPipe => 32,
        ErrorKind::ConnectionReset => 104,
        ErrorKind::TimedOut => 110,
        _ => 0,
    };
    match form % 3 {
        1 => k.into(),
        2 if os != 0 => io::Error::from_raw_os_error(os),
        _ => io::Error::new(k, "injected"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// an error of this kind, every time from then on
    Kind(ErrorKind),
    /// the stream ends (reader) / accepts nothing more (writer)
    End,
    /// the stream reports its end once, and has more afterwards
    EndOnce,
    /// one error of this kind, after which the stream works on as if nothing had happened: an
    /// error that is absorbed leaves no second one behind it
    Once(ErrorKind),
}

/// Panic payload of a reader whose caller keeps asking at the end of the stream.
pub struct Livelock(pub String);

#[derive(Clone, Debug, Default)]
pub struct IoStats {
    pub calls: u64,
    pub short: u64,
    pub interrupted: u64,
    pub faults: u64,
    pub at_end: u64,
}

pub struct MonReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sched: Sched,
    pub fault: Option<(usize, Fault)>,
    pub stats: IoStats,
    /// breaks the promises of `Read` now and then
    pub lies: Option<Rng>,
    in_a_row: u32,
}

impl<'a> MonReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self::with(data, Sched::Whole, None)
    }
    pub fn with(data: &'a [u8], sched: Sched, fault: Option<(usize, Fault)>) -> Self {
        MonReader { data, pos: 0, sched, fault, stats: IoStats::default(), lies: None, in_a_row: 0 }
    }
}

/// A count no honest stream returns for a buffer of this length.
fn too_many(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => n + 1,
        1 => 2 * n + 1,
        2 => usize::MAX,
        3 => isize::MAX as usize + 1,
        4 => usize::MAX - n + 1,
        _ => n + 1 + r.below(5000),
    }
}

impl<'a> MonReader<'a> {
    /// What a dishonest reader does: looks at what is in the buffer, claims what it has not done.
    fn lie(&mut self, mut r: Rng, buf: &mut [u8]) -> io::Result<usize> {
        let k = r.below(20);
        let n = buf.len();
        if k >= 8 && buf.iter().fold(0u32, |a, b| a.wrapping_mul(31).wrapping_add(*b as u32)) % 7 == 3 {
            self.stats.short += 1
        }
        let left = n.min(self.data.len() - self.pos);
        let fill = match k {
            0 | 1 => 0,
            2 | 3 => left / 2,
            _ => left,
        };
        if k != 0 {
            buf[..fill].copy_from_slice(&self.data[self.pos..self.pos + fill]);
            self.pos += fill;
        }
        let claim = match k {
            0..=4 => n,
            5..=7 => too_many(&mut r, n),
            _ => fill,
        };
        if claim != fill {
            self.stats.faults += 1
        }
        let over = self.stats.calls > 2_000;
        self.lies = Some(r);
        Ok(if over { 0 } else { claim })
    }
}

fn amount(s: &mut Sched, want: usize, in_a_row: &mut u32, st: &mut IoStats) -> Option<usize> {
    match s {
        Sched::Whole => Some(want),
        Sched::One => {
            if want > 1 {
                st.short += 1
            }
            Some(want.min(1))
        }
        Sched::Random { rng, max, intr } => {
            if *in_a_row < 5 && rng.pct(*intr) {
                *in_a_row += 1;
                st.interrupted += 1;
                return None;
            }
            *in_a_row = 0;
            let n = want.min(1 + rng.below((*max).max(1)));
            if n < want {
                st.short += 1
            }
            Some(n)
        }
        Sched::Storm { rng, max, burst } => {
            if *in_a_row == 0 && rng.pct(10) {
                *in_a_row = 1 + rng.below(*burst as usize) as u32;
            }
            if *in_a_row > 1 {
                *in_a_row -= 1;
                st.interrupted += 1;
                return None;
            }
            *in_a_row = 0;
            let n = want.min(1 + rng.below((*max).max(1)));
            if n < want {
                st.short += 1
            }
            Some(n)
        }
    }
}

/// Makes the monitored readers and writers of this thread give way now and then in the middle of an
/// operation, so that other threads run while it is half done.
pub mod shake {
    use std::cell::Cell;
    thread_local! { static STATE: Cell<u64> = const { Cell::new(0) }; static PAUSES: Cell<u64> = const { Cell::new(0) } }
    /// 0 stops it
    pub fn start(seed: u64) {
        STATE.set(seed);
        PAUSES.set(0);
    }
    pub fn pauses() -> u64 {
        PAUSES.get()
    }
    pub(super) fn here() {
        let mut s = STATE.get();
        if s == 0 {
            return;
        }
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        STATE.set(s);
        match (s >> 24) % 64 {
            0..=7 => std::thread::yield_now(),
            8 if s >> 40 & 7 == 0 => std::thread::sleep(std::time::Duration::from_micros(s >> 50 & 63)),
            9..=12 => (0..(s >> 40 & 1023)).for_each(|_| std::hint::spin_loop()),
            _ => return,
        }
        PAUSES.set(PAUSES.get() + 1);
    }
}

impl<'a> Read for MonReader<'a> {
    /// As sockets and files do it: one transfer may end in the middle of any of the buffers.
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        let mut all = vec![0; bufs.iter().map(|b| b.len()).sum()];
        let n = self.read(&mut all)?;
        let mut rest = &all[..];
        for b in bufs {
            let (x, y) = rest.split_at(b.len());
            b.copy_from_slice(x);
            rest = y;
        }
        Ok(n)
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        shake::here();
        self.stats.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(r) = self.lies.take() {
            return self.lie(r, buf);
        }
        // a reader may use all of the buffer as scratch space: what it leaves there means nothing
        let junk = 0xa5 ^ self.stats.calls as u8;
        let dirty = buf.len().min(64);
        buf[..dirty].fill(junk);
        let mut end = self.data.len();
        if let Some((at, f)) = self.fault {
            if at <= end {
                end = at;
                if self.pos >= end {
                    self.stats.faults += 1;
                    if let Fault::Once(_) | Fault::EndOnce = f {
                        self.fault = None;
                    }
                    if self.stats.faults > 100_000 {
                        std::panic::panic_any(Livelock("keeps reading after a read fault".into()));
                    }
                    return match f {
                        Fault::Kind(k) | Fault::Once(k) => Err(error(k, at)),
                        Fault::End | Fault::EndOnce => Ok(0),
                    };
                }
            }
        }
        let left = end - self.pos;
        if left == 0 {
            self.stats.at_end += 1;
            if self.stats.at_end > 100_000 {
                std::panic::panic_any(Livelock("keeps reading at the end of the input".into()));
            }
            return Ok(0);
        }
        match amount(&mut self.sched, buf.len().min(left), &mut self.in_a_row, &mut self.stats) {
            None => Err(error(ErrorKind::Interrupted, self.stats.calls as usize)),
            Some(n) => {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                crate::typed::fuse::at(self.pos);
                Ok(n)
            }
        }
    }
}

pub struct MonWriter {
    pub out: Vec<u8>,
    pub sched: Sched,
    pub fault: Option<(usize, Fault)>,
    pub stats: IoStats,
    /// breaks the promises of `Write` now and then
    pub lies: Option<Rng>,
    in_a_row: u32,
}

impl MonWriter {
    pub fn new() -> Self {
        Self::with(Sched::Whole, None)
    }
    pub fn with(sched: Sched, fault: Option<(usize, Fault)>) -> Self {
        MonWriter { out: Vec::new(), sched, fault, stats: IoStats::default(), lies: None, in_a_row: 0 }
    }
}

impl Default for MonWriter {
    fn default() -> Self {
        Self::new()
    }
}

impl Write for MonWriter {
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let mut all = Vec::new();
        for b in bufs {
            all.extend_from_slice(b);
        }
        self.write(&all)
    }
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        shake::here();
        self.stats.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(r) = &mut self.lies {
            if r.pct(12) {
                self.stats.faults += 1;
                return Ok(if r.bool() { buf.len() } else { too_many(r, buf.len()) });
            }
        }
        let mut room = usize::MAX;
        if let Some((at, f)) = self.fault {
            room = at.saturating_sub(self.out.len());
            if room == 0 {
                self.stats.faults += 1;
                if let Fault::Once(_) | Fault::EndOnce = f {
                    self.fault = None;
                }
                if self.stats.faults > 100_000 {
                    std::panic::panic_any(Livelock("keeps writing after a write fault".into()));
                }
                return match f {
                    Fault::Kind(k) | Fault::Once(k) => Err(error(k, at)),
                    Fault::End | Fault::EndOnce => Ok(0),
                };
            }
        }
        match amount(&mut self.sched, buf.len().min(room), &mut self.in_a_row, &mut self.stats) {
            None => Err(error(ErrorKind::Interrupted, self.stats.calls as usize)),
            Some(n) => {
                self.out.extend_from_slice(&buf[..n]);
                crate::typed::fuse::at(self.out.len());
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
