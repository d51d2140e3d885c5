//! Simulated byte streams: the seam between the generated code and the outside world.
use std::io::{self, BufRead, Error, ErrorKind, Read, Write};

pub const KINDS: &[(&str, ErrorKind)] = &[
    ("other", ErrorKind::Other),
    ("broken_pipe", ErrorKind::BrokenPipe),
    ("connection_reset", ErrorKind::ConnectionReset),
    ("timed_out", ErrorKind::TimedOut),
    ("would_block", ErrorKind::WouldBlock),
    ("invalid_data", ErrorKind::InvalidData),
    ("storage_full", ErrorKind::StorageFull),
    ("not_connected", ErrorKind::NotConnected),
    ("permission_denied", ErrorKind::PermissionDenied),
    ("invalid_input", ErrorKind::InvalidInput),
    ("not_found", ErrorKind::NotFound),
    ("write_zero", ErrorKind::WriteZero),
];

/// Panic marker: the reader was asked for more after its end too many times in a row.
pub const LIVELOCK: &str = "livelock: the end of the stream was polled without end";

#[derive(Clone, Debug, Default, PartialEq)]
pub struct WPlan {
    /// Bytes accepted per call, cycled; 0 means everything offered.
    pub chunks: Vec<usize>,
    /// Numbers of the calls that are interrupted.
    pub intr: Vec<usize>,
    pub fault: Option<WFault>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct WFault {
    /// Bytes accepted before the fault.
    pub at: usize,
    pub kind: usize,
    /// Accept nothing (return 0) rather than fail.
    pub zero: bool,
    /// Stay broken; otherwise later calls succeed again.
    pub sticky: bool,
}

pub struct SimWriter {
    pub plan: WPlan,
    pub out: Vec<u8>,
    pub calls: usize,
    pub fired: usize,
    pub intrs: usize,
}

impl SimWriter {
    pub fn new(plan: &WPlan) -> SimWriter { SimWriter { plan: plan.clone(), out: vec![], calls: 0, fired: 0, intrs: 0 } }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let call = self.calls;
        self.calls += 1;
        if self.plan.intr.contains(&call) {
            self.intrs += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[call % self.plan.chunks.len()];
            if c > 0 { n = n.min(c); }
        }
        if let Some(f) = &self.plan.fault {
            if self.fired == 0 || f.sticky {
                if self.out.len() >= f.at {
                    self.fired += 1;
                    return if f.zero { Ok(0) } else { Err(Error::from(KINDS[f.kind].1)) };
                }
                n = n.min(f.at - self.out.len());
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RPlan {
    /// Sizes of the segments in which the data arrives, cycled; 0 means all that is left.
    pub chunks: Vec<usize>,
    /// Refills by `read` that are interrupted (counted among those).
    pub rintr: Vec<usize>,
    /// Refills by `fill_buf` that are interrupted (counted among those).
    pub fintr: Vec<usize>,
    pub fault: Option<RFault>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RFault {
    /// Bytes delivered before the fault.
    pub at: usize,
    pub kind: usize,
    pub sticky: bool,
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub plan: RPlan,
    pub pos: usize,
    avail: usize,
    pub calls: usize,
    pub refills: usize,
    rcalls: usize,
    fcalls: usize,
    pub eofs: usize,
    pub eof_run: usize,
    pub fired: usize,
    pub rintrs: usize,
    pub fintrs: usize,
    pub max_eofs: usize,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: &RPlan) -> SimReader<'a> {
        SimReader { data, plan: plan.clone(), pos: 0, avail: 0, calls: 0, refills: 0, rcalls: 0, fcalls: 0, eofs: 0, eof_run: 0, fired: 0, rintrs: 0, fintrs: 0, max_eofs: 5000 }
    }
    fn refill(&mut self, by_read: bool) -> io::Result<()> {
        self.calls += 1;
        if self.pos < self.avail { return Ok(()); }
        let (n, list) = if by_read { (self.rcalls, &self.plan.rintr) } else { (self.fcalls, &self.plan.fintr) };
        let hit = list.contains(&n);
        if by_read { self.rcalls += 1; } else { self.fcalls += 1; }
        if hit {
            if by_read { self.rintrs += 1; } else { self.fintrs += 1; }
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some(f) = &self.plan.fault {
            if self.fired == 0 || f.sticky {
                if self.pos >= f.at {
                    self.fired += 1;
                    return Err(Error::from(KINDS[f.kind].1));
                }
                end = end.min(f.at);
            }
        }
        if self.pos == end {
            self.eofs += 1;
            self.eof_run += 1;
            if self.eof_run > self.max_eofs { panic!("{}", LIVELOCK); }
            return Ok(());
        }
        self.eof_run = 0;
        let mut n = end - self.pos;
        if !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[self.refills % self.plan.chunks.len()];
            if c > 0 { n = n.min(c); }
        }
        self.refills += 1;
        self.avail = self.pos + n;
        Ok(())
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        self.refill(true)?;
        let n = buf.len().min(self.avail - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl BufRead for SimReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.refill(false)?;
        Ok(&self.data[self.pos..self.avail.max(self.pos)])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.avail.max(self.pos) - self.pos, "consume() beyond the buffer that fill_buf() returned");
        self.pos += n;
    }
}
