//! Environment model for I/O: a stream over an in-memory buffer whose every answer the explorer chooses.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan {
    /// every transfer completes
    Full,
    /// call number n (0-based, counting reads, writes, flushes and seeks alike) fails with the kind
    FailAt(u64, ErrorKind),
    /// all calls from number n on fail
    FailFrom(u64, ErrorKind),
    /// writes return Ok(0) at call n
    ZeroAt(u64),
    /// no transfer moves more than k bytes
    Short(usize),
    /// transfers move k bytes, and every m-th read/write is first interrupted
    ShortIntr(usize, u64),
    /// only call n is interrupted
    IntrAt(u64),
    /// only call n is cut to one byte
    ShortAt(u64),
    /// transfer sizes cycle through this bit pattern: 1 byte where the bit is set, everything otherwise
    Pattern(u32),
    /// of the transfers numbered start.. each takes the next base-3 digit of the code: 0 everything,
    /// 1 one byte, 2 interrupted first
    Sched(u64, u32, u64),
    /// no transfer moves more than k bytes, and call n fails with the kind
    ShortFail(usize, u64, ErrorKind),
}
#[derive(Default)]
pub struct Log { pub calls: u64, pub reads: u64, pub writes: u64, pub seeks: u64, pub fired: bool, /// a read was told of an unexpected end where there was nothing more to read
    pub soft: bool }
pub struct Vio {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub log: Rc<RefCell<Log>>,
    /// called at the start of call number n
    pub hook: Option<(u64, Box<dyn FnMut()>)>,
}
impl Vio {
    pub fn new(data: Vec<u8>, plan: Plan) -> Self { Vio { data, pos: 0, plan, log: Rc::default(), hook: None } }
    /// Err or the number of bytes this transfer may move
    fn step(&mut self, want: usize, kind: char) -> Result<usize> {
        let at = self.log.borrow().calls;
        if let Some((n, f)) = &mut self.hook { if *n == at { f() } }
        let mut l = self.log.borrow_mut();
        let n = l.calls;
        l.calls += 1;
        match kind { 'r' => l.reads += 1, 'w' => l.writes += 1, _ => l.seeks += 1 }
        let xfer = kind != 's' && kind != 'f';
        match self.plan {
            Plan::Full => Ok(want),
            Plan::FailAt(k, e) if n == k => { l.fired = true; Err(Error::new(e, "injected")) }
            Plan::FailFrom(k, e) if n >= k => { l.fired = true; Err(Error::new(e, "injected")) }
            Plan::ZeroAt(k) if n == k && kind == 'w' => { l.fired = true; Ok(0) }
            Plan::Short(k) if xfer => { if want > k { l.fired = true } Ok(want.min(k)) }
            Plan::ShortIntr(k, m) if xfer => {
                if n % m == 0 { l.fired = true; return Err(Error::new(ErrorKind::Interrupted, "injected")) }
                Ok(want.min(k))
            }
            Plan::IntrAt(k) if n == k && xfer => { l.fired = true; Err(Error::new(ErrorKind::Interrupted, "injected")) }
            Plan::ShortAt(k) if n == k && xfer => { if want > 1 { l.fired = true } Ok(want.min(1)) }
            Plan::Pattern(p) if xfer => { if p >> (n % 32) & 1 == 1 { if want > 1 { l.fired = true } Ok(want.min(1)) } else { Ok(want) } }
            Plan::Sched(start, k, code) if xfer && n >= start && n < start + k as u64 => {
                match code / 3u64.pow((n - start) as u32) % 3 {
                    0 => Ok(want),
                    1 => { if want > 1 { l.fired = true } Ok(want.min(1)) }
                    _ => { l.fired = true; Err(Error::new(ErrorKind::Interrupted, "injected")) }
                }
            }
            Plan::ShortFail(_, k, e) if n == k => { l.fired = true; Err(Error::new(e, "injected")) }
            Plan::ShortFail(k, ..) if xfer => Ok(want.min(k)),
            _ => Ok(want),
        }
    }
}
impl Read for Vio {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let m = self.step(b.len(), 'r').map_err(|e| { if e.kind() == ErrorKind::UnexpectedEof && self.pos >= self.data.len() as u64 { self.log.borrow_mut().soft = true } e })?;
        let p = (self.pos as usize).min(self.data.len());
        let k = m.min(self.data.len() - p).min(b.len());
        b[..k].copy_from_slice(&self.data[p..p + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl Write for Vio {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let k = self.step(b.len(), 'w')?.min(b.len());
        let p = self.pos as usize;
        if self.data.len() < p { self.data.resize(p, 0) }
        let over = k.min(self.data.len() - p);
        self.data[p..p + over].copy_from_slice(&b[..over]);
        self.data.extend_from_slice(&b[over..k]);
        self.pos += k as u64;
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> { self.step(0, 'f').map(|_| ()) }
}
impl Seek for Vio {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.step(0, 's')?;
        let n = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 || n > i64::MAX as i128 { return Err(Error::new(ErrorKind::InvalidInput, "seek out of range")) }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
