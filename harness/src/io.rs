//! Instrumented readers and writers, guard-page buffers.
use crate::rng::Rng;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    All,
    One,
    Max(usize),
    Random(usize),
}

pub fn gen_chunk(rng: &mut Rng) -> Chunk {
    if rng.p(20) {
        if let Some(n) = rng.known(100_000) {
            return Chunk::Max(n.max(1) as usize);
        }
    }
    match rng.below(6) {
        0 => Chunk::All,
        1 => Chunk::One,
        2 => Chunk::Max(*rng.pick(&[2, 3, 7, 8, 9, 15, 16, 17])),
        3 => Chunk::Max(*rng.pick(&[100, 512, 1000, 4095, 4096, 4097, 5000, 8191, 8192, 65535, 65536])),
        _ => Chunk::Random(*rng.pick(&[2, 5, 20, 1000, 10_000])),
    }
}

fn lim(c: Chunk, rng: &mut Rng, want: usize) -> usize {
    match c {
        Chunk::All => want,
        Chunk::One => want.min(1),
        Chunk::Max(k) => want.min(k),
        Chunk::Random(k) => want.min(1 + rng.idx(k)),
    }
}

pub struct TestReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: Chunk,
    /// probability (1/256) of reporting an interruption instead of delivering
    pub interrupt: u32,
    pub fail: Option<(usize, ErrorKind)>,
    /// fail a single time, then go on
    pub once: bool,
    pub rng: Rng,
    pub calls: u64,
    pub eof_reads: u64,
    pub after_fail: u64,
    pub interrupts: u64,
}

impl<'a> TestReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        TestReader { data, pos: 0, chunk: Chunk::All, interrupt: 0, fail: None, once: false, rng: Rng::new(1), calls: 0, eof_reads: 0, after_fail: 0, interrupts: 0 }
    }
    pub fn random(data: &'a [u8], rng: &mut Rng) -> Self {
        let mut r = Self::new(data);
        r.chunk = gen_chunk(rng);
        r.interrupt = *rng.pick(&[0, 0, 20, 128]);
        r.rng = Rng::new(rng.u64());
        r
    }
}

impl Read for TestReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.p(self.interrupt) {
            self.interrupts += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut avail = self.data.len() - self.pos;
        if let Some((at, kind)) = self.fail.filter(|_| !self.once || self.after_fail == 0) {
            if self.pos >= at {
                self.after_fail += 1;
                if self.after_fail > 5000 {
                    // whoever goes on asking is told otherwise, so that it ends
                    return if self.after_fail % 2 == 0 { Ok(0) } else { Err(Error::from(ErrorKind::Other)) };
                }
                return Err(if self.rng.p(128) { Error::from(kind) } else { Error::new(kind, "injected") });
            }
            avail = avail.min(at - self.pos);
        }
        let n = lim(self.chunk, &mut self.rng, avail.min(buf.len()));
        if n == 0 {
            self.eof_reads += 1;
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

pub struct TestWriter {
    pub got: Vec<u8>,
    pub chunk: Chunk,
    pub interrupt: u32,
    pub fail: Option<(usize, ErrorKind)>,
    /// accept nothing (Ok(0)) from this offset on
    pub zero_at: Option<usize>,
    /// fail a single time, then go on
    pub once: bool,
    /// fail when given more than this at once
    pub too_long: Option<(usize, ErrorKind)>,
    pub rng: Rng,
    pub calls: u64,
    pub errors: u64,
}

impl TestWriter {
    pub fn new() -> Self {
        TestWriter { got: vec![], chunk: Chunk::All, interrupt: 0, fail: None, zero_at: None, once: false, too_long: None, rng: Rng::new(2), calls: 0, errors: 0 }
    }
}

impl Write for TestWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.p(self.interrupt) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut room = usize::MAX;
        if let Some((max, kind)) = self.too_long {
            if buf.len() > max {
                self.errors += 1;
                return Err(Error::from(kind));
            }
        }
        let active = !self.once || self.errors == 0;
        if let Some((at, kind)) = self.fail.filter(|_| active) {
            if self.got.len() >= at {
                self.errors += 1;
                if self.errors > 5000 {
                    return if self.errors % 2 == 0 { Ok(0) } else { Err(Error::from(ErrorKind::Other)) };
                }
                return Err(Error::from(kind));
            }
            room = at - self.got.len();
        }
        if let Some(at) = self.zero_at.filter(|_| active) {
            if self.got.len() >= at {
                self.errors += 1;
                return Ok(0);
            }
            room = room.min(at - self.got.len());
        }
        let n = lim(self.chunk, &mut self.rng, buf.len().min(room));
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// Seekable instrumented source.
pub struct SeekReader<'a> {
    pub r: TestReader<'a>,
    pub fail_seek: Option<(u64, ErrorKind)>,
    pub seeks: u64,
}

impl<'a> SeekReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        SeekReader { r: TestReader::new(data), fail_seek: None, seeks: 0 }
    }
}

impl Read for SeekReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.r.pos > self.r.data.len() {
            return Ok(0);
        }
        self.r.read(buf)
    }
}

impl Seek for SeekReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        if let Some((n, kind)) = self.fail_seek {
            if self.seeks > n {
                return Err(Error::from(kind));
            }
        }
        let (base, off) = match p {
            SeekFrom::Start(n) => {
                if n > i64::MAX as u64 {
                    return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
                }
                (0, n as i64)
            }
            SeekFrom::End(o) => (self.r.data.len() as i64, o),
            SeekFrom::Current(o) => (self.r.pos as i64, o),
        };
        let np = base.checked_add(off).filter(|x| *x >= 0).ok_or(Error::new(ErrorKind::InvalidInput, "seek before start"))?;
        self.r.pos = np as usize;
        Ok(np as u64)
    }
}

/// A source of any size whose content is computed; only its parts are stored.
pub struct Virtual {
    pub size: u64,
    pub pos: u64,
    pub parts: Vec<(u64, Vec<u8>)>,
    pub seed: u64,
    pub chunk: Chunk,
    pub rng: Rng,
    pub pulled: u64,
    /// reading more than this fails
    pub budget: u64,
}

impl Virtual {
    pub fn byte(&self, at: u64) -> u8 {
        for (o, b) in &self.parts {
            if at >= *o && at - *o < b.len() as u64 {
                return b[(at - *o) as usize];
            }
        }
        (crate::rng::mix(self.seed, at >> 3) >> ((at & 7) * 8)) as u8
    }
}

impl Read for Virtual {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = lim(self.chunk, &mut self.rng, (buf.len() as u64).min(self.size.saturating_sub(self.pos)) as usize);
        if self.pulled + n as u64 > self.budget {
            return Err(Error::new(ErrorKind::Other, "reads far more than it needs"));
        }
        for (i, x) in buf[..n].iter_mut().enumerate() {
            *x = self.byte(self.pos + i as u64);
        }
        self.pos += n as u64;
        self.pulled += n as u64;
        Ok(n)
    }
}

fn seek_to(p: SeekFrom, pos: u64, size: u64) -> Result<u64> {
    let np = match p {
        SeekFrom::Start(n) => n as i128,
        SeekFrom::End(o) => size as i128 + o as i128,
        SeekFrom::Current(o) => pos as i128 + o as i128,
    };
    if np < 0 || np > i64::MAX as i128 {
        return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
    }
    Ok(np as u64)
}

impl Seek for Virtual {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = seek_to(p, self.pos, self.size)?;
        Ok(self.pos)
    }
}

/// Zeroes of any size but for some parts; reads as a file does, up to 2 GiB at a time.
pub struct Zeros {
    pub size: u64,
    pub pos: u64,
    pub parts: Vec<(u64, Vec<u8>)>,
}

impl Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = (buf.len() as u64).min(self.size.saturating_sub(self.pos)).min(0x7fff_f000);
        let buf = &mut buf[..n as usize];
        buf.fill(0);
        for (at, b) in &self.parts {
            for (i, x) in b.iter().enumerate() {
                let o = at + i as u64;
                if o >= self.pos && o < self.pos + n {
                    buf[(o - self.pos) as usize] = *x;
                }
            }
        }
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for Zeros {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.pos = seek_to(p, self.pos, self.size)?;
        Ok(self.pos)
    }
}

/// A buffer that ends directly in front of an inaccessible page (and starts behind one): any
/// access past either end traps, also from code that no sanitizer instruments.
#[cfg(all(not(miri), unix))]
mod guard {
    use std::ffi::c_void;
    extern "C" {
        fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
        fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    }
    pub struct GuardBuf {
        base: *mut u8,
        cap: usize,
    }
    impl GuardBuf {
        pub fn new(cap: usize) -> Self {
            let page = 4096;
            let cap = (cap + page - 1) / page * page;
            unsafe {
                let p = mmap(std::ptr::null_mut(), cap + 2 * page, 0, 0x22, -1, 0) as *mut u8;
                assert!(p as isize != -1, "mmap");
                assert_eq!(mprotect(p.add(page) as _, cap, 3), 0);
                GuardBuf { base: p.add(page), cap }
            }
        }
        /// data placed flush with the end guard
        pub fn at_end(&mut self, data: &[u8]) -> &'static [u8] {
            assert!(data.len() <= self.cap);
            unsafe {
                let p = self.base.add(self.cap - data.len());
                std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
                std::slice::from_raw_parts(p, data.len())
            }
        }
        pub fn at_start(&mut self, data: &[u8]) -> &'static [u8] {
            assert!(data.len() <= self.cap);
            unsafe {
                std::ptr::copy_nonoverlapping(data.as_ptr(), self.base, data.len());
                std::slice::from_raw_parts(self.base, data.len())
            }
        }
    }
}
#[cfg(all(not(miri), unix))]
pub use guard::GuardBuf;

#[cfg(any(miri, not(unix)))]
pub struct GuardBuf;
#[cfg(any(miri, not(unix)))]
impl GuardBuf {
    pub fn new(_: usize) -> Self {
        GuardBuf
    }
    pub fn at_end(&mut self, data: &[u8]) -> &'static [u8] {
        // Miri tracks the exact allocation; leaked on purpose (leak check is off there)
        Box::leak(data.to_vec().into_boxed_slice())
    }
    pub fn at_start(&mut self, data: &[u8]) -> &'static [u8] {
        self.at_end(data)
    }
}
