//! C15 footer, C16 page index, C17 encoding set, C18 structures per the published definition.
use super::codec::{alt_one, one, round, subsets_stage};
use super::*;
use crate::er::{er, Er};
use crate::gen::*;
use crate::io::{SeekReader, Virtual};
use crate::traits::*;
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
use std::ops::Range;

/// allowance for error values and bookkeeping
const SLACK: usize = 4096;

fn kind(e: &ParquetError) -> Option<ErrorKind> {
    match e {
        ParquetError::Io(e) => Some(e.kind()),
        ParquetError::Thrift(ThriftError::IO(k)) => Some(*k),
        _ => None,
    }
}

fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    crate::alloc::reset_max();
    let r = f();
    (r, crate::alloc::max_req())
}

fn footer(prefix: &[u8], meta: &[u8]) -> Vec<u8> {
    let mut b = prefix.to_vec();
    b.extend(meta);
    b.extend((meta.len() as u32).to_le_bytes());
    b.extend(b"PAR1");
    b
}

fn seekable<'a>(rng: &mut Rng, b: &'a [u8]) -> SeekReader<'a> {
    let mut r = SeekReader::new(b);
    r.r = TestReader::random(b, rng);
    r.r.pos = match rng.below(4) {
        0 => 0,
        1 => b.len(),
        2 => b.len() + rng.idx(100),
        _ => rng.idx(b.len() + 1),
    };
    r
}

/// bytes that contain magic and plausible lengths
fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = rng.bytes(n);
    for _ in 0..rng.below(4) {
        if n >= 8 {
            let i = rng.idx(n - 7);
            b[i..i + 4].copy_from_slice(&(rng.idx(n) as u32).to_le_bytes());
            b[i + 4..i + 8].copy_from_slice(b"PAR1");
        }
    }
    b
}

struct TmpFile(std::path::PathBuf);
impl TmpFile {
    fn new(b: &[u8]) -> Self {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::File::create(&p).unwrap().write_all(b).unwrap();
        TmpFile(p)
    }
}
impl Drop for TmpFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn c15(t: bool) -> Vec<Stage> {
    vec![
        stage("sizes", 600 * 3, |c| {
            let n = (c.idx / 3) as usize;
            let p = [0usize, 4, 1 + c.rng.idx(300)][(c.idx % 3) as usize];
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            exact(c, &pre, &meta)
        }),
        stage("valid", q(t, 60_000, 1_000_000), |c| {
            let n = match c.rng.below(20) {
                0 => *c.rng.pick(&[65535usize, 65536, 65537, 1 << 20, 300_000, 255, 256, 257]),
                1..=4 => c.rng.idx(5000),
                _ => c.rng.idx(200),
            };
            let p = if c.rng.p(40) { 0 } else { c.rng.idx(400) };
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            exact(c, &pre, &meta)
        }),
        stage("edges", q(t, 1500, 30_000), |c| {
            let cap = if c.rng.p(8) { 3 << 20 } else { 150_000 };
            let (p, n) = (edge_len(&mut c.rng, 150_000), edge_len(&mut c.rng, cap));
            // the whole file at an edge, rather than its parts
            let (p, n) = match c.rng.below(3) {
                0 => (p, n.saturating_sub((p + n + 12) % (*c.rng.pick(BLOCKS)))),
                1 => (c.rng.idx(20), n),
                _ => (p, n),
            };
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            exact(c, &pre, &meta)
        }),
        stage("large", q(t, 8, 60), |c| {
            let n = *c.rng.pick(&[(16usize << 20) - 1, 16 << 20, (16 << 20) + 1, 17 << 20, 20_000_000]);
            let (pre, meta) = (noise(&mut c.rng, 10), noise(&mut c.rng, n));
            exact(c, &pre, &meta)
        }),
        stage("real-files", q(t, 60, 600), |c| {
            let (p, n) = (c.rng.idx(3000), c.rng.idx(3000));
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            let b = footer(&pre, &meta);
            let tmp = TmpFile::new(&b);
            let mut f = std::fs::File::open(&tmp.0).unwrap();
            f.seek(SeekFrom::Start(c.rng.below(b.len() as u64))).unwrap();
            let r = get_metadata_chunk(&mut f).map_err(|e| format!("{e:?}"));
            ensure!(r.as_ref() == Ok(&meta), "a file of {} bytes with {} bytes of metadata: {r:?}", b.len(), meta.len());
            let mut f = std::io::BufReader::with_capacity(1 + c.rng.idx(64), f);
            let r = get_metadata_chunk(&mut f).map_err(|e| format!("{e:?}"));
            ensure!(r.as_ref() == Ok(&meta), "a buffered file of {} bytes with {} bytes of metadata: {r:?}", b.len(), meta.len());
            // declared too much
            let mut bad = b.clone();
            let k = bad.len();
            bad[k - 8..k - 4].copy_from_slice(&((k - 8 + 1 + c.rng.idx(1 << 30)) as u32).to_le_bytes());
            let tmp = TmpFile::new(&bad);
            let mut f = std::fs::File::open(&tmp.0).unwrap();
            let (r, max) = measured(|| get_metadata_chunk(&mut f).is_err());
            ensure!(r && max <= bad.len() + SLACK, "a file declaring more metadata than it has: refused {r}, {max} bytes requested");
            c.eval(hash_bytes(1, &b));
            Ok(())
        }),
        stage("far", q(t, 6000, 100_000), |c| {
            // a source larger than memory, of which only the end matters
            let n = if c.rng.p(4) { c.rng.idx(100_000) } else { c.rng.idx(300) };
            let meta = noise(&mut c.rng, n);
            let tail = footer(&[], &meta);
            let size = far_size(&mut c.rng, tail.len() as u64);
            let mut v = far(&mut c.rng, size, vec![(size - tail.len() as u64, tail)]);
            v.budget = 4 * n as u64 + (1 << 20);
            let at = v.pos;
            let (r, max) = measured(|| get_metadata_chunk(&mut v).map_err(|e| format!("{e:?}")));
            let d = format!("{n} bytes of metadata at the end of {size} bytes (starting at {at})");
            match r {
                Ok(m) => ensure!(m == meta, "{d}: got {} bytes {}", m.len(), hex(&m)),
                Err(e) => return Err(format!("{d}: {e}")),
            }
            ensure!(max <= v.budget as usize + SLACK, "{d}: {max} bytes requested");
            // the whole of what could be declared is there
            let most = if c.rng.p(2) { 1 << 20 } else { 1 << 12 };
            let declared = 1 + (c.rng.below(size.min(most)) >> c.rng.below(12));
            let mut tail = (declared as u32).to_le_bytes().to_vec();
            tail.extend(b"PAR1");
            let mut v = far(&mut c.rng, size, vec![(size - 8, tail)]);
            v.budget = 4 * declared + (1 << 20);
            let r = get_metadata_chunk(&mut v).map_err(|e| format!("{e:?}"));
            if declared + 8 <= size {
                let m = r.map_err(|e| format!("{declared} bytes of metadata at the end of {size} bytes: {e}"))?;
                let from = size - 8 - declared;
                ensure!(m.len() as u64 == declared && [0, declared / 2, declared - 1].iter().all(|i| m[*i as usize] == v.byte(from + i)), "{declared} bytes of metadata at the end of {size} bytes: got {} bytes {}", m.len(), hex(&m));
            }
            c.eval(hash_bytes(size, &meta));
            c.peak("source bytes", size);
            c.sample(|| d.clone());
            Ok(())
        }),
        stage("huge", if cfg!(debug_assertions) { 0 } else { raw(t, 1, 3) }, |c| {
            // lengths that do not fit into 31 bits
            let len = [(1u64 << 31) + 5, u32::MAX as u64, 3 << 30][c.idx as usize % 3];
            let before = c.rng.below(1 << 33);
            let size = before + len + 8;
            let mut tail = vec![9];
            tail.extend((len as u32).to_le_bytes());
            tail.extend(b"PAR1");
            let mut z = Zeros { size, pos: 0, parts: vec![(before - 1, vec![5, 6]), (before + len / 2, vec![7]), (size - 9, tail)] };
            let d = format!("{len} bytes of metadata at the end of {size}");
            crate::alloc::roomy(20 << 30, || {
                let m = get_metadata_chunk(&mut z).map_err(|e| format!("{d}: {e:?}"))?;
                ensure!(m.len() as u64 == len && m[0] == 6 && m[1] == 0 && m[(len / 2) as usize] == 7 && m[(len - 1) as usize] == 9, "{d}: got {} bytes {}", m.len(), hex(&m[..m.len().min(20)]));
                // nearly as much
                z.size -= before + 1;
                for p in &mut z.parts[1..] {
                    p.0 -= before + 1;
                }
                ensure!(get_metadata_chunk(&mut z).is_err(), "{d}, of which one byte is missing: accepted");
                Ok(())
            })?;
            c.eval(len);
            c.peak("metadata bytes", len);
            Ok(())
        }),
        stage("sparse-file", 1, |c| {
            let meta = noise(&mut c.rng, 1000);
            let tmp = TmpFile::new(b"PAR1");
            let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&tmp.0).unwrap();
            let size = (5u64 << 30) + 12345;
            if f.set_len(size).is_err() || f.seek(SeekFrom::End(0)).is_err() || f.write_all(&footer(&[], &meta)).is_err() {
                c.eval_trivial();
                return Ok(());
            }
            let mut f = std::fs::File::open(&tmp.0).unwrap();
            let r = get_metadata_chunk(&mut f).map_err(|e| format!("{e:?}"));
            ensure!(r.as_ref() == Ok(&meta), "a file of {size} bytes before {} bytes of metadata: {r:?}", meta.len());
            c.eval(1);
            c.count("files over 4 GiB", 1);
            Ok(())
        }),
        stage("short", 3000, |c| {
            // nothing shorter than a footer can be read
            let n = (c.idx % 12) as usize;
            let mut b = c.rng.bytes(n.min(7));
            if c.rng.p(128) {
                let m = b"PAR1";
                let k = b.len().min(4);
                let at = b.len() - k;
                b[at..].copy_from_slice(&m[4 - k..]);
            }
            reject(c, &b, "shorter than a footer")
        }),
        stage("magic", 32 + q(t, 6000, 100_000), |c| {
            let (p, n) = (c.rng.idx(60), c.rng.idx(60));
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            let mut b = footer(&pre, &meta);
            let k = b.len();
            if c.idx < 32 {
                b[k - 4 + (c.idx / 8) as usize] ^= 1 << (c.idx % 8);
            } else {
                let m: [u8; 4] = *c.rng.pick(&[*b"PARE", *b"par1", *b"PAR2", *b"PAR0", *b"1RAP", *b"ARROW"[..4].first_chunk().unwrap(), [0; 4], c.rng.clone().u64().to_le_bytes()[..4].try_into().unwrap()]);
                if m == *b"PAR1" {
                    return Ok(());
                }
                b[k - 4..].copy_from_slice(&m);
            }
            reject(c, &b, "wrong magic")
        }),
        stage("declared", q(t, 20_000, 300_000), |c| {
            let (p, n) = (c.rng.idx(100), c.rng.idx(100));
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            let mut b = footer(&pre, &meta);
            let k = b.len();
            let room = (k - 8) as u32;
            let d = match c.rng.below(5) {
                0 => room + 1 + c.rng.below(4) as u32,
                1 => u32::MAX - c.rng.below(20) as u32,
                2 => (1u32 << 31).wrapping_add(c.rng.below(40) as u32).wrapping_sub(20),
                3 => room + 1 + (c.rng.u64() as u32 >> (c.rng.below(31))).min(u32::MAX - room - 1),
                _ => 1 << (7 + c.rng.below(25)),
            };
            b[k - 8..k - 4].copy_from_slice(&d.to_le_bytes());
            if d <= room {
                return Ok(());
            }
            reject(c, &b, "more metadata declared than there is")
        }),
        stage("faults", q(t, 30_000, 500_000), |c| {
            let (p, n) = (c.rng.idx(60), c.rng.idx(200));
            let (pre, meta) = (noise(&mut c.rng, p), noise(&mut c.rng, n));
            let b = footer(&pre, &meta);
            let k = *c.rng.pick(KINDS);
            let mut r = seekable(&mut c.rng, &b);
            let what;
            match c.rng.below(3) {
                0 => {
                    r.fail_seek = Some((c.rng.below(3), k));
                    what = format!("seek {:?}", r.fail_seek);
                }
                1 => {
                    // reading fails from an offset inside what has to be read
                    let at = pre.len() + c.rng.idx(b.len() - pre.len());
                    r.r.fail = Some((at, k));
                    what = format!("read {:?}", r.r.fail);
                }
                _ => {
                    // the source ends earlier than its size says
                    let (res, max) = measured(|| get_metadata_chunk(&mut Shrunk { r: seekable(&mut c.rng, &b), left: c.rng.clone().idx(8 + meta.len()) }));
                    let res = res.map_err(|e| kind(&e));
                    ensure!(res == Err(Some(ErrorKind::UnexpectedEof)), "a source that ends early: {res:?}");
                    ensure!(max <= b.len() + SLACK, "{max} bytes requested for a source of {}", b.len());
                    c.eval(hash_bytes(8, &b));
                    return Ok(());
                }
            }
            let failed_before = r.seeks;
            let res = get_metadata_chunk(&mut r).map_err(|e| kind(&e));
            let hit = r.r.after_fail > 0 || r.fail_seek.is_some_and(|(n, _)| r.seeks > n + failed_before);
            if hit {
                ensure!(res == Err(Some(k)), "{what} fails but the result is {res:?}");
                c.count("faults hit", 1);
            } else {
                ensure!(res.as_ref() == Ok(&meta), "no fault met, but the result is {res:?} instead of {}", hex(&meta));
            }
            c.eval(hash_bytes(k as u64, &b));
            c.sample(|| format!("{what} on {} bytes", b.len()));
            Ok(())
        }),
    ]
}

/// around the powers of two, mostly beyond 32 bits
fn far_size(rng: &mut Rng, min: u64) -> u64 {
    let k = *rng.pick(&[16u32, 24, 31, 32, 32, 32, 33, 34, 40, 48, 53, 62]);
    let d = *rng.pick(&[0i64, 1, -1, 8, -8, 300, -300]) + rng.range(-20, 20);
    ((1u64 << k) as i64 + d).max(min as i64) as u64 + if rng.p(60) { rng.below(1 << k) } else { 0 }
}

fn far(rng: &mut Rng, size: u64, parts: Vec<(u64, Vec<u8>)>) -> Virtual {
    let pos = match rng.below(4) {
        0 => 0,
        1 => size,
        2 => size + rng.below(1000),
        _ => rng.below(size + 1),
    };
    let seed = rng.u64();
    Virtual { size, pos, parts, seed, chunk: gen_chunk(rng), rng: Rng::new(seed), pulled: 0, budget: u64::MAX }
}

/// claims its full size but delivers only `left` more bytes
struct Shrunk<'a> {
    r: SeekReader<'a>,
    left: usize,
}
impl Read for Shrunk<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left);
        let k = self.r.read(&mut b[..n])?;
        self.left -= k;
        Ok(k)
    }
}
impl Seek for Shrunk<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.r.seek(p)
    }
}

fn exact(c: &mut Ctx, pre: &[u8], meta: &[u8]) -> R {
    let b = footer(pre, meta);
    let mut r = seekable(&mut c.rng, &b);
    let at = r.r.pos;
    let (res, max) = measured(|| get_metadata_chunk(&mut r));
    match res {
        Ok(m) => ensure!(m == meta, "{} bytes of metadata behind {} (starting at {at}): got {} bytes {}", meta.len(), pre.len(), m.len(), hex(&m)),
        Err(e) => return Err(format!("{} bytes of metadata behind {} (starting at {at}): {e:?}", meta.len(), pre.len())),
    }
    ensure!(max <= b.len() + SLACK, "{max} bytes requested for a source of {}", b.len());
    // again from wherever that left the source, and through a cursor
    let m = get_metadata_chunk(&mut r).map_err(|e| format!("the second time: {e:?}"))?;
    ensure!(m == meta, "the second call returns {}", hex(&m));
    let m = get_metadata_chunk(&mut std::io::Cursor::new(&b)).map_err(|e| format!("through a cursor: {e:?}"))?;
    ensure!(m == meta, "through a cursor: {}", hex(&m));
    c.eval(hash_bytes(0, &b));
    c.peak("metadata bytes", meta.len() as u64);
    c.sample(|| format!("{} bytes, then metadata {}", pre.len(), hex(meta)));
    Ok(())
}

fn reject(c: &mut Ctx, b: &[u8], why: &str) -> R {
    let mut r = seekable(&mut c.rng, b);
    let (res, max) = measured(|| get_metadata_chunk(&mut r));
    ensure!(res.is_err(), "{why}: {} is accepted with metadata {}", hex(b), hex(&res.unwrap()));
    ensure!(max <= b.len() + SLACK, "{why}: {max} bytes requested for the {} bytes {}", b.len(), hex(b));
    let (res, max) = measured(|| get_metadata_chunk(&mut std::io::Cursor::new(b)));
    ensure!(res.is_err(), "{why}: {} is accepted through a cursor", hex(b));
    ensure!(max <= b.len() + SLACK, "{why}: {max} bytes requested for {} bytes through a cursor", b.len());
    c.eval(hash_bytes(7, b));
    c.sample(|| format!("{why}: {}", hex(b)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// a column chunk's index, as the model sees it
#[derive(Clone, Debug, Default)]
pub struct Col {
    pub oo: Option<i64>,
    pub ol: Option<i32>,
    pub co: Option<i64>,
    pub cl: Option<i32>,
    /// what is stored there, for complete columns
    pub pair: Option<(Val, Val)>,
}

impl Col {
    fn complete(&self) -> bool {
        self.oo.is_some() && self.ol.is_some() && self.co.is_some() && self.cl.is_some()
    }
}

pub struct PqFile {
    pub bytes: Vec<u8>,
    pub groups: Vec<Vec<Col>>,
    pub meta: FileMetaData,
}

/// any value of a structure, apart from what the caller replaces
fn rich<T: for<'i> CompactThriftProtocol<'i> + Default>(rng: &mut Rng, name: &str) -> T {
    if rng.p(235) {
        return T::default();
    }
    let ty = &target(name).ty;
    let b = canon(ty, &small_val(rng, ty));
    T::read_thrift(&mut &b[..]).unwrap_or_default()
}

/// a column chunk with any file_offset
fn somewhere(rng: &mut Rng) -> ColumnChunk {
    if rng.p(21) {
        return rich(rng, "ColumnChunk");
    }
    let b = Ser::canon().bytes(&W::Struct(vec![WF { id: 2, wt: 6, w: W::Var(zz(rng.int(64))) }]));
    ColumnChunk::read_thrift(&mut &b[..]).unwrap_or_default()
}

pub fn metadata(rng: &mut Rng, groups: &[Vec<Col>]) -> FileMetaData {
    let row_groups = groups
        .iter()
        .map(|g| RowGroup {
            columns: g
                .iter()
                .map(|c| ColumnChunk {
                    offset_index_offset: c.oo,
                    offset_index_length: c.ol,
                    column_index_offset: c.co,
                    column_index_length: c.cl,
                    ..somewhere(rng)
                })
                .collect(),
            ..rich(rng, "RowGroup")
        })
        .collect();
    FileMetaData { row_groups, ..rich(rng, "FileMetaData") }
}

/// A file with page indexes at random places. `hostile`: any values in the metadata.
pub fn gen_file(rng: &mut Rng, hostile: bool) -> PqFile {
    let ty_o = &target("OffsetIndex").ty;
    let ty_c = &target("ColumnIndex").ty;
    let mut bytes = noise_small(rng);
    let mut groups = vec![];
    let mut blobs: Vec<(i64, i32, i64, i32, Val, Val)> = vec![];
    for _ in 0..if rng.p(50) { rng.below(12) } else { rng.below(4) } {
        let mut cols = vec![];
        for _ in 0..if rng.p(16) { rng.below(40) } else if rng.p(40) { 0 } else { rng.below(5) } {
            let mut col = Col::default();
            if rng.p(170) {
                if !blobs.is_empty() && rng.p(30) {
                    // two columns may point at the same indexes
                    let (a, b, cc, d, x, y) = rng.pick(&blobs).clone();
                    col = Col { oo: Some(a), ol: Some(b), co: Some(cc), cl: Some(d), pair: Some((x, y)) };
                } else {
                    let (x, y) = (small_val(rng, ty_o), small_val(rng, ty_c));
                    let (bx, by) = (canon(ty_o, &x), canon(ty_c, &y));
                    let mut put = |b: &[u8], rng: &mut Rng| {
                        let n = if rng.p(128) { 0 } else { rng.idx(30) };
                        let gap = rng.bytes(n);
                        bytes.extend(gap);
                        let at = bytes.len() as i64;
                        bytes.extend(b);
                        // a longer declared length leaves unread bytes behind the index
                        let n = if rng.p(40) { rng.idx(6) } else { 0 };
                        let tail = rng.bytes(n);
                        bytes.extend(&tail);
                        (at, (b.len() + n) as i32)
                    };
                    let ((oo, ol), (co, cl));
                    if rng.p(128) {
                        (oo, ol) = put(&bx, rng);
                        (co, cl) = put(&by, rng);
                    } else {
                        (co, cl) = put(&by, rng);
                        (oo, ol) = put(&bx, rng);
                    }
                    blobs.push((oo, ol, co, cl, x.clone(), y.clone()));
                    col = Col { oo: Some(oo), ol: Some(ol), co: Some(co), cl: Some(cl), pair: Some((x, y)) };
                }
            } else if rng.p(200) {
                // some of the four
                let mask = rng.below(15);
                let far = rng.p(128);
                let num = |rng: &mut Rng| if far { rng.int(63).unsigned_abs() as i64 } else { rng.below(300) as i64 };
                if mask & 1 == 1 {
                    col.oo = Some(num(rng));
                }
                if mask & 2 == 2 {
                    col.ol = Some(num(rng) as i32 & i32::MAX);
                }
                if mask & 4 == 4 {
                    col.co = Some(num(rng));
                }
                if mask & 8 == 8 {
                    col.cl = Some(num(rng) as i32 & i32::MAX);
                }
            }
            if hostile && rng.p(60) {
                let big = |rng: &mut Rng| match rng.below(5) {
                    0 => rng.int(64),
                    1 => *rng.pick(&[i64::MAX, i64::MIN, -1, 0, i64::MAX - 1, i32::MAX as i64, u32::MAX as i64, 1 << 31]),
                    2 => rng.below(1 << 36) as i64,
                    _ => rng.below(400) as i64,
                };
                if rng.p(128) {
                    col.oo = Some(big(rng));
                }
                if rng.p(128) {
                    col.ol = Some(big(rng) as i32);
                }
                if rng.p(128) {
                    col.co = Some(big(rng));
                }
                if rng.p(128) {
                    col.cl = Some(big(rng) as i32);
                }
                col.pair = None;
            }
            cols.push(col);
        }
        groups.push(cols);
    }
    let n = rng.idx(20);
    let tail = rng.bytes(n);
    bytes.extend(tail);
    if rng.p(80) {
        rng.shuffle(&mut groups);
    }
    let meta = metadata(rng, &groups);
    PqFile { bytes, groups, meta }
}

fn noise_small(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.p(60) { 0 } else { rng.idx(100) };
    rng.bytes(n)
}

fn model_range(groups: &[Vec<Col>]) -> Option<Range<usize>> {
    let mut spans: Vec<(i128, i128)> = vec![];
    for c in groups.iter().flatten().filter(|c| c.complete()) {
        let (oo, co) = (c.oo.unwrap() as i128, c.co.unwrap() as i128);
        spans.push((oo, oo + c.ol.unwrap() as i128));
        spans.push((co, co + c.cl.unwrap() as i128));
    }
    let a = spans.iter().map(|s| s.0).min()?;
    let b = spans.iter().map(|s| s.1).max()?;
    Some(a as usize..b as usize)
}

type Indexes = Vec<Vec<Option<(OffsetIndex, ColumnIndex)>>>;

fn check_indexes(f: &PqFile, got: &Indexes) -> R {
    ensure!(
        got.len() == f.groups.len() && got.iter().zip(&f.groups).all(|(a, b)| a.len() == b.len()),
        "shape of the indexes {:?} instead of {:?}",
        got.iter().map(|g| g.len()).collect::<Vec<_>>(),
        f.groups.iter().map(|g| g.len()).collect::<Vec<_>>()
    );
    for (gi, (g, m)) in got.iter().zip(&f.groups).enumerate() {
        for (ci, (x, c)) in g.iter().zip(m).enumerate() {
            match (x, &c.pair) {
                (None, None) => {}
                (Some((o, i)), Some((mo, mi))) => {
                    ensure!(o.to_val() == *mo, "row group {gi} column {ci}: offset index {} instead of {}", show(&o.to_val()), show(mo));
                    ensure!(i.to_val() == *mi, "row group {gi} column {ci}: column index {} instead of {}", show(&i.to_val()), show(mi));
                }
                (None, Some(_)) => return Err(format!("row group {gi} column {ci}: no index although it has both: {c:?}")),
                (Some(_), None) => return Err(format!("row group {gi} column {ci}: an index although it lacks one: {c:?}")),
            }
        }
    }
    Ok(())
}

fn describe(f: &PqFile) -> String {
    f.groups
        .iter()
        .map(|g| g.iter().map(|c| format!("({:?} {:?} {:?} {:?})", c.oo, c.ol, c.co, c.cl).replace("Some", "")).collect::<Vec<_>>().join(" "))
        .collect::<Vec<_>>()
        .join(" | ")
}

fn index_valid(c: &mut Ctx) -> R {
    let f = gen_file(&mut c.rng, false);
    let d = describe(&f);
    let want = model_range(&f.groups);
    let r = get_page_index_range(&f.meta).map_err(|e| format!("range of {d}: {e:?}"))?;
    ensure!(r == want, "range of {d}: {r:?} instead of {want:?}");
    let mut s = seekable(&mut c.rng, &f.bytes);
    let (ch, max) = measured(|| get_page_index_chunk(&mut s, &f.meta));
    let ch = ch.map_err(|e| format!("chunk of {d}: {e:?}"))?;
    ensure!(max <= f.bytes.len() + SLACK, "{max} bytes requested for a file of {}", f.bytes.len());
    match (&ch, &want) {
        (None, None) => {}
        (Some((b, r)), Some(w)) => {
            ensure!(r == w, "chunk of {d}: range {r:?} instead of {w:?}");
            ensure!(b[..] == f.bytes[w.clone()], "chunk of {d}: {} instead of {}", hex(b), hex(&f.bytes[w.clone()]));
            let x = read_page_index(b, r.start, &f.meta).map_err(|e| format!("indexes of {d}: {e:?}"))?;
            check_indexes(&f, &x).map_err(|e| format!("{d}: {e}"))?;
        }
        _ => return Err(format!("chunk of {d}: {:?} instead of {want:?}", ch.as_ref().map(|x| &x.1))),
    }
    // any larger part of the file serves as well
    let lo = want.as_ref().map_or(f.bytes.len(), |w| w.start);
    let hi = want.as_ref().map_or(0, |w| w.end);
    let a = c.rng.idx(lo + 1);
    let b = (hi + c.rng.idx(f.bytes.len() - hi + 1)).max(a);
    let x = read_page_index(&f.bytes[a..b], a, &f.meta).map_err(|e| format!("indexes of {d} from {a}..{b}: {e:?}"))?;
    check_indexes(&f, &x).map_err(|e| format!("{d} from {a}..{b}: {e}"))?;
    let n = f.groups.iter().flatten().filter(|c| c.complete()).count() as u64;
    c.count("columns with indexes", n);
    c.count("columns without", f.groups.iter().flatten().count() as u64 - n);
    if n == 0 { c.eval_trivial() } else { c.eval(hash_bytes(0, &f.bytes)) }
    c.sample(|| format!("file of {} bytes, columns {d}", f.bytes.len()));
    Ok(())
}

/// one thing is wrong with one column
fn index_corrupt(c: &mut Ctx) -> R {
    let mut f = gen_file(&mut c.rng, false);
    let mut at: Vec<(usize, usize)> = vec![];
    for (i, g) in f.groups.iter().enumerate() {
        for (j, x) in g.iter().enumerate() {
            if x.complete() {
                at.push((i, j));
            }
        }
    }
    if at.is_empty() {
        c.eval_trivial();
        return Ok(());
    }
    let (gi, ci) = *c.rng.pick(&at);
    let len = f.bytes.len() as i64;
    let off = c.rng.p(128);
    let col = &mut f.groups[gi][ci];
    let (o, l) = if off { (col.oo.as_mut().unwrap(), col.ol.as_mut().unwrap()) } else { (col.co.as_mut().unwrap(), col.cl.as_mut().unwrap()) };
    let mut negative = false;
    let mut outside = false;
    let rng = &mut c.rng;
    let what = match rng.below(9) {
        0 => {
            *o = *rng.pick(&[-1, i64::MIN, -len, -8, i64::MIN + 1, i32::MIN as i64]);
            negative = true;
            "negative offset"
        }
        1 => {
            *l = *rng.pick(&[-1, i32::MIN, -2, -4096]);
            negative = true;
            "negative length"
        }
        2 => {
            *l = 0;
            "empty"
        }
        3 => {
            *o = *rng.pick(&[i64::MAX, i64::MAX - 1, i64::MAX - *l as i64, 1 << 62, 1 << 40, 1 << 33]);
            outside = true;
            "huge offset"
        }
        4 => {
            *l = *rng.pick(&[i32::MAX, i32::MAX - 1, 1 << 30, 100_000_000]);
            outside = true;
            "huge length"
        }
        5 => {
            *o = len - *l as i64 + 1 + rng.below(3) as i64;
            outside = true;
            "ends behind the file"
        }
        6 => {
            *l = (len - *o) as i32 + 1 + rng.below(3) as i32;
            outside = true;
            "longer than the file"
        }
        7 => {
            *o = len + rng.below(100) as i64;
            outside = true;
            "starts behind the file"
        }
        _ => {
            let bad = rng.int(64);
            *o = if bad >= 0 { bad | 1 << 30 } else { bad };
            negative = bad < 0;
            outside = bad >= 0;
            "random offset"
        }
    };
    f.meta = metadata(&mut c.rng, &f.groups);
    let d = format!("{what} in {} of group {gi} column {ci} of {} (file of {len} bytes)", if off { "offset index" } else { "column index" }, describe(&f));
    let r = get_page_index_range(&f.meta);
    if negative {
        ensure!(r.is_err(), "{d}: range is {r:?}");
    } else if let Ok(r) = &r {
        ensure!(*r == model_range(&f.groups), "{d}: range {r:?} instead of {:?}", model_range(&f.groups));
    }
    let mut s = seekable(&mut c.rng, &f.bytes);
    let (ch, max) = measured(|| get_page_index_chunk(&mut s, &f.meta));
    ensure!(max <= f.bytes.len() + SLACK, "{d}: {max} bytes requested");
    if negative || outside {
        ensure!(ch.is_err(), "{d}: a chunk is returned");
    }
    let mut cur = std::io::Cursor::new(&f.bytes);
    let (ch, max) = measured(|| get_page_index_chunk(&mut cur, &f.meta));
    ensure!(max <= f.bytes.len() + SLACK, "{d}: {max} bytes requested through a cursor");
    if negative || outside {
        ensure!(ch.is_err(), "{d}: a chunk is returned through a cursor");
    }
    // chunks that do hold the rest
    let x = read_page_index(&f.bytes, 0, &f.meta);
    ensure!(x.is_err(), "{d}: indexes are returned");
    let a = c.rng.idx(f.bytes.len());
    let x = read_page_index(&f.bytes[a..], a, &f.meta);
    ensure!(x.is_err(), "{d}: indexes are returned from the chunk at {a}");
    c.count(what, 1);
    c.eval(hash_bytes(what.len() as u64, &f.bytes));
    c.sample(|| d.clone());
    Ok(())
}

/// a good file, but a chunk that does not hold all of it
fn index_chunk(c: &mut Ctx) -> R {
    let f = gen_file(&mut c.rng, false);
    let Some(w) = model_range(&f.groups) else {
        c.eval_trivial();
        return Ok(());
    };
    let d = describe(&f);
    let (mut a, mut b) = (w.start, w.end);
    let mut offset = a;
    match c.rng.below(4) {
        0 => b -= 1 + c.rng.idx(w.len()),
        1 => {
            a += 1 + c.rng.idx(w.len());
            offset = a;
        }
        // the wrong place for the right bytes
        2 => offset = *c.rng.pick(&[usize::MAX, usize::MAX / 2, a + 1, b, b + 1, i64::MAX as usize, i64::MAX as usize + 1]),
        _ => {
            offset = 0;
            a = 0;
            b = c.rng.idx(w.end);
        }
    }
    if offset == w.start && b >= w.end {
        return Ok(());
    }
    let x = read_page_index(&f.bytes[a..b], offset, &f.meta);
    ensure!(x.is_err(), "{d}: indexes are returned although the chunk {a}..{b} at {offset} lacks part of {w:?}");
    c.eval(hash_bytes(3, &f.bytes) ^ (a as u64) << 32 ^ b as u64);
    Ok(())
}

/// content of one index damaged
fn index_content(c: &mut Ctx) -> R {
    let mut f = gen_file(&mut c.rng, false);
    let all: Vec<(usize, usize)> = f.groups.iter().enumerate().flat_map(|(i, g)| g.iter().enumerate().filter(|x| x.1.complete()).map(move |x| (i, x.0))).collect();
    if all.is_empty() {
        c.eval_trivial();
        return Ok(());
    }
    let (gi, ci) = *c.rng.pick(&all);
    let off = c.rng.p(128);
    let col = &mut f.groups[gi][ci];
    let (o, l) = if off { (col.oo.unwrap(), col.ol.as_mut().unwrap()) } else { (col.co.unwrap(), col.cl.as_mut().unwrap()) };
    let start = o as usize;
    if c.rng.p(128) {
        *l = 1 + c.rng.idx(*l as usize) as i32;
    } else {
        let k = start + c.rng.idx(*l as usize);
        f.bytes[k] = c.rng.u64() as u8;
    }
    f.meta = metadata(&mut c.rng, &f.groups);
    // what every complete column should give now
    let mut ok = true;
    let mut gray = false;
    for g in f.groups.iter_mut() {
        for col in g.iter_mut().filter(|x| x.complete()) {
            let part = |o: i64, l: i32| &f.bytes[o as usize..o as usize + l as usize];
            let x = ref_decode(&target("OffsetIndex").ty, part(col.oo.unwrap(), col.ol.unwrap()));
            let y = ref_decode(&target("ColumnIndex").ty, part(col.co.unwrap(), col.cl.unwrap()));
            gray |= x == Err(Bad::Gray) || y == Err(Bad::Gray);
            match (x, y) {
                (Ok(x), Ok(y)) => col.pair = Some((x.0, y.0)),
                _ => ok = false,
            }
        }
    }
    if gray {
        c.eval_trivial();
        return Ok(());
    }
    let x = read_page_index(&f.bytes, 0, &f.meta);
    let d = describe(&f);
    match x {
        Ok(x) => {
            ensure!(ok, "{d}: indexes are returned although one is malformed in {}", hex(&f.bytes));
            check_indexes(&f, &x).map_err(|e| format!("{d}: {e}"))?;
        }
        Err(e) => ensure!(!ok, "{d}: refused with {e:?} although every index is well-formed in {}", hex(&f.bytes)),
    }
    c.count(if ok { "still valid" } else { "malformed" }, 1);
    c.eval(hash_bytes(5, &f.bytes));
    Ok(())
}

fn index_faults(c: &mut Ctx) -> R {
    let f = gen_file(&mut c.rng, false);
    let Some(w) = model_range(&f.groups) else {
        c.eval_trivial();
        return Ok(());
    };
    let k = *c.rng.pick(KINDS);
    let mut s = seekable(&mut c.rng, &f.bytes);
    if c.rng.p(100) {
        s.fail_seek = Some((c.rng.below(3), k));
    } else {
        s.r.fail = Some((w.start + c.rng.idx(w.len()), k));
    }
    let r = get_page_index_chunk(&mut s, &f.meta).map_err(|e| kind(&e));
    let hit = s.r.after_fail > 0 || s.fail_seek.is_some_and(|(n, _)| s.seeks > n);
    if hit {
        ensure!(matches!(r, Err(Some(x)) if x == k), "{:?} {:?} fails but the result is {r:?}", s.fail_seek, s.r.fail);
        c.count("faults hit", 1);
    } else {
        ensure!(matches!(&r, Ok(Some((b, x))) if *x == w && b[..] == f.bytes[w.clone()]), "no fault met, but the result is {r:?}");
    }
    c.eval(hash_bytes(6, &f.bytes));
    Ok(())
}

/// the indexes lie anywhere in a source larger than memory
fn index_far(c: &mut Ctx) -> R {
    let mut f = gen_file(&mut c.rng, false);
    let size = far_size(&mut c.rng, f.bytes.len() as u64 + 16);
    let at = match c.rng.below(3) {
        0 => size - f.bytes.len() as u64,
        1 => {
            // straddles a power of two
            let k = *c.rng.pick(&[31u32, 32, 33, 40, 62]);
            ((1u64 << k) - c.rng.below(f.bytes.len() as u64 + 1)).min(size - f.bytes.len() as u64)
        }
        _ => c.rng.below(size - f.bytes.len() as u64 + 1),
    };
    for col in f.groups.iter_mut().flatten() {
        for o in [&mut col.oo, &mut col.co] {
            if let Some(o) = o {
                *o = o.saturating_add(at as i64);
            }
        }
    }
    f.meta = metadata(&mut c.rng, &f.groups);
    let d = format!("{} in a source of {size} bytes", describe(&f));
    let want = model_range(&f.groups);
    let r = get_page_index_range(&f.meta).map_err(|e| format!("range of {d}: {e:?}"))?;
    ensure!(r == want, "range of {d}: {r:?} instead of {want:?}");
    let mut v = far(&mut c.rng, size, vec![(at, f.bytes.clone())]);
    v.budget = 4 * f.bytes.len() as u64 + (1 << 20);
    let (ch, max) = measured(|| get_page_index_chunk(&mut v, &f.meta));
    let ch = ch.map_err(|e| format!("chunk of {d}: {e:?}"))?;
    ensure!(max <= v.budget as usize + SLACK, "{d}: {max} bytes requested");
    match (&ch, &want) {
        (None, None) => {
            c.eval_trivial();
            return Ok(());
        }
        (Some((b, r)), Some(w)) => {
            ensure!(r == w, "chunk of {d}: range {r:?} instead of {w:?}");
            let part = w.start - at as usize..w.end - at as usize;
            ensure!(b[..] == f.bytes[part.clone()], "chunk of {d}: {} instead of {}", hex(b), hex(&f.bytes[part]));
            let x = read_page_index(b, r.start, &f.meta).map_err(|e| format!("indexes of {d}: {e:?}"))?;
            check_indexes(&f, &x).map_err(|e| format!("{d}: {e}"))?;
            // the same bytes said to be elsewhere
            let k = *c.rng.pick(&[1usize << 31, 1 << 32, 1 << 33, 1 << 40]);
            let x = read_page_index(b, r.start.wrapping_add(k) & i64::MAX as usize, &f.meta);
            ensure!(x.is_err(), "{d}: indexes are returned from a chunk {k} bytes off");
            if r.start >= k {
                let x = read_page_index(b, r.start - k, &f.meta);
                ensure!(x.is_err(), "{d}: indexes are returned from a chunk {k} bytes off");
            }
        }
        _ => return Err(format!("chunk of {d}: {:?} instead of {want:?}", ch.as_ref().map(|x| &x.1))),
    }
    // a source that ends inside the indexes
    let w = want.unwrap();
    let mut v = far(&mut c.rng, size, vec![(at, f.bytes.clone())]);
    v.size = w.end as u64 - 1 - c.rng.below(w.len() as u64);
    v.budget = 4 * f.bytes.len() as u64 + (1 << 20);
    ensure!(get_page_index_chunk(&mut v, &f.meta).is_err(), "{d}: a chunk is returned although the source has but {} bytes", v.size);
    c.peak("offset", w.end as u64);
    c.eval(hash_bytes(at, &f.bytes));
    c.sample(|| d.clone());
    Ok(())
}

pub fn c16(t: bool) -> Vec<Stage> {
    vec![
        stage("valid", q(t, 60_000, 1_500_000), index_valid),
        stage("corrupt", q(t, 60_000, 1_500_000), index_corrupt),
        stage("partial-chunk", q(t, 30_000, 500_000), index_chunk),
        stage("content", q(t, 40_000, 800_000), index_content),
        stage("faults", q(t, 20_000, 300_000), index_faults),
        stage("far", q(t, 10_000, 200_000), index_far),
        stage("huge", if cfg!(debug_assertions) { 0 } else { raw(t, 1, 3) }, |c| {
            // indexes far apart
            let span = [(1u64 << 31) + 70, (1 << 32) + 70, 3 << 30][c.idx as usize % 3];
            let at = c.rng.below(1 << 33);
            let (oi, ci) = (vec![0x19, 0x0c, 0], vec![0x19, 0x02, 0x19, 0x08, 0x19, 0x08, 0x15, 0, 0]);
            let parts = vec![(at, oi.clone()), (at + 10, ci.clone()), (at + span - 20, oi), (at + span - 9, ci)];
            let col = |o: u64, p: u64| Col { oo: Some(o as i64), ol: Some(3), co: Some(p as i64), cl: Some(9), pair: None };
            let groups = vec![vec![col(at, at + 10), col(at + span - 20, at + span - 9)]];
            let meta = metadata(&mut c.rng, &groups);
            let mut z = Zeros { size: at + span + c.rng.below(100), pos: 3, parts };
            let d = format!("indexes from {at} to {} of {}", at + span, z.size);
            crate::alloc::roomy(20 << 30, || {
                let r = get_page_index_chunk(&mut z, &meta).map_err(|e| format!("{d}: {e:?}"))?;
                let Some((b, r)) = r else { return Err(format!("{d}: none")) };
                ensure!(r == (at as usize..(at + span) as usize) && b.len() == r.len(), "{d}: {} bytes of {r:?}", b.len());
                let x = read_page_index(&b, r.start, &meta).map_err(|e| format!("{d}: {e:?}"))?;
                ensure!(x.len() == 1 && x[0].len() == 2 && x[0].iter().all(|y| y.is_some()), "{d}: {x:?}");
                // one byte less
                z.size = at + span - 1;
                ensure!(get_page_index_chunk(&mut z, &meta).is_err(), "{d}, of which the last byte is missing: accepted");
                Ok(())
            })?;
            c.eval(span);
            c.peak("chunk bytes", span);
            Ok(())
        }),
        stage("edges", raw(t, 2000, 40_000), |c| {
            // chunks whose ends, and whose indexes, lie at the edges of blocks
            let cap = if c.rng.p(10) { 3 << 20 } else { 200_000 };
            let size = edge_len(&mut c.rng, cap).max(100);
            let front = if c.rng.p(128) { edge_len(&mut c.rng, 100_000) } else { c.rng.idx(40) };
            let behind = if c.rng.p(128) { 0 } else { c.rng.idx(40) };
            let mut b = vec![0x80u8; front + size + behind];
            let mut cols = vec![];
            let n = c.rng.range(1, 4) as usize;
            let mut spots: Vec<usize> = edge_offsets(&mut c.rng, size - 40, n).into_iter().chain([0, size - 15]).collect();
            spots.sort();
            spots.dedup_by(|a, b| *a - *b < 15);
            if *spots.last().unwrap() != size - 15 {
                *spots.last_mut().unwrap() = size - 15;
            }
            for (i, s) in spots.iter().enumerate() {
                // three and twelve bytes
                let o = front + s;
                b[o..o + 3].copy_from_slice(&[0x19, 0x0c, 0]);
                b[o + 3..o + 15].copy_from_slice(&[0x19, 0x02, 0x19, 0x08, 0x19, 0x08, 0x15, 0, 0x19, 0x16, 2 * i as u8, 0]);
                cols.push(Col { oo: Some(o as i64), ol: Some(3), co: Some(o as i64 + 3), cl: Some(12), pair: None });
            }
            let k = cols.len();
            c.rng.shuffle(&mut cols);
            let order: Vec<i64> = cols.iter().map(|x| spots.iter().position(|s| (front + s) as i64 == x.oo.unwrap()).unwrap() as i64).collect();
            let groups = if c.rng.p(128) { vec![cols] } else { cols.into_iter().map(|x| vec![x]).collect() };
            let meta = metadata(&mut c.rng, &groups);
            let d = format!("{k} pairs of indexes in {front}..{} of {} bytes", front + size, b.len());
            let want = front..front + size;
            let r = get_page_index_range(&meta).map_err(|e| format!("{d}: {e:?}"))?;
            ensure!(r == Some(want.clone()), "{d}: range {r:?}");
            let mut s = seekable(&mut c.rng, &b);
            let r = get_page_index_chunk(&mut s, &meta).map_err(|e| format!("{d}: {e:?}"))?;
            let Some((ch, r)) = r else { return Err(format!("{d}: none")) };
            ensure!(r == want && ch[..] == b[want.clone()], "{d}: {} bytes of {r:?}", ch.len());
            let x = read_page_index(&ch, r.start, &meta).map_err(|e| format!("{d}: {e:?}"))?;
            ensure!(x.iter().map(|g| g.len()).eq(groups.iter().map(|g| g.len())), "{d}: {} groups", x.len());
            for (y, i) in x.iter().flatten().zip(&order) {
                let got = y.as_ref().map(|y| y.1.to_val()).and_then(|v| lookup(&v, 5).cloned());
                ensure!(got == Some(Val::List(vec![Val::I64(*i)])), "{d}: null counts {got:?} instead of {i}");
            }
            // the source ends early
            for cut in [1, 1 + c.rng.idx(size)] {
                let mut s = seekable(&mut c.rng, &b[..front + size - cut]);
                let r = get_page_index_chunk(&mut s, &meta);
                ensure!(r.is_err(), "{d}: a chunk although the source lacks its last {cut} bytes");
            }
            c.eval(hash_bytes(size as u64, &b[front..front + 15]) ^ mix(front as u64, behind as u64));
            c.peak("chunk bytes", size as u64);
            c.sample(|| d.clone());
            Ok(())
        }),
        stage("many", raw(t, 4, 40), |c| {
            // very many row groups, or columns of one
            let n = *c.rng.pick(&[1usize << 15, (1 << 15) + 1, 1 << 16, (1 << 16) + 1, 70_000]);
            let per = *c.rng.pick(&[1usize, 1, 2, n]);
            let mut b = vec![];
            let mut groups = vec![];
            for i in 0..n {
                if i % per == 0 {
                    groups.push(vec![]);
                }
                let o = b.len() as i64;
                // the ordinal of the column makes it distinct
                b.extend([0x19, 0x0c, 0, 0x19, 0x02, 0x19, 0x08, 0x19, 0x08, 0x15, 0, 0x19]);
                Ser::canon().list_header(&mut b, 1, 6);
                Ser::canon().varint(&mut b, zz(i as i64));
                b.push(0);
                let l = b.len() as i64 - o - 3;
                groups.last_mut().unwrap().push(Col { oo: Some(o), ol: Some(3), co: Some(o + 3), cl: Some(l as i32), pair: None });
            }
            let meta = metadata(&mut c.rng, &groups);
            let d = format!("{n} columns, {per} per row group");
            let r = get_page_index_range(&meta).map_err(|e| format!("{d}: {e:?}"))?;
            ensure!(r == Some(0..b.len()), "{d}: {r:?}");
            let r = get_page_index_chunk(&mut std::io::Cursor::new(&b), &meta).map_err(|e| format!("{d}: {e:?}"))?;
            let Some((ch, r)) = r else { return Err(format!("{d}: none")) };
            ensure!(ch == b, "{d}: {} bytes of {r:?}", ch.len());
            let x = read_page_index(&ch, 0, &meta).map_err(|e| format!("{d}: {e:?}"))?;
            ensure!(x.iter().map(|g| g.len()).eq(groups.iter().map(|g| g.len())), "{d}: {} groups", x.len());
            for (i, y) in x.iter().flatten().enumerate() {
                let got = y.as_ref().map(|y| y.1.to_val()).and_then(|v| lookup(&v, 5).cloned());
                ensure!(got == Some(Val::List(vec![Val::I64(i as i64)])), "{d}: column {i} has {got:?}");
            }
            c.eval(mix(n as u64, per as u64));
            c.peak("columns", n as u64);
            Ok(())
        }),
        stage("hostile", q(t, 60_000, 1_500_000), |c| {
            // no oracle but: an answer or an error, with bounded memory
            let f = gen_file(&mut c.rng, true);
            let _ = get_page_index_range(&f.meta);
            let mut s = seekable(&mut c.rng, &f.bytes);
            let (r, max) = measured(|| get_page_index_chunk(&mut s, &f.meta));
            ensure!(max <= f.bytes.len() + SLACK, "{}: {max} bytes requested for a file of {}", describe(&f), f.bytes.len());
            if let Ok(Some((b, r))) = &r {
                ensure!(r.end <= f.bytes.len() && b[..] == f.bytes[r.clone()], "{}: chunk {r:?}", describe(&f));
                let _ = read_page_index(b, r.start, &f.meta);
            }
            let a = c.rng.idx(f.bytes.len() + 1);
            let b = a + c.rng.idx(f.bytes.len() + 1 - a);
            let off = if c.rng.p(200) { a } else { c.rng.u64() as usize };
            let _ = read_page_index(&f.bytes[a..b], off, &f.meta);
            c.eval(hash_bytes(11, &f.bytes) ^ hash_bytes(1, describe(&f).as_bytes()));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------------------------------------

fn enc_list(items: &[i64], wt: u8, ser: &mut Ser) -> Vec<u8> {
    ser.bytes(&W::List(wt, items.iter().map(|i| if wt == 3 { W::Byte(*i as u8) } else { W::Var(zz(*i)) }).collect()))
}

fn set_case(c: &mut Ctx, items: &[i64], ser: &mut Ser) -> R {
    let b = enc_list(items, 5, ser);
    let mut sorted: Vec<i32> = items.iter().map(|i| *i as i32).collect();
    sorted.sort();
    sorted.dedup();
    let d = || format!("{items:?} ({})", hex(&b));
    let mut i = CompactThriftInputSlice::new(&b);
    let s = EncodingSet::read_thrift(&mut i).map_err(|e| format!("{}: refused with {e:?}", d()))?;
    ensure!(i.as_slice().is_empty(), "{}: {} bytes left", d(), i.as_slice().len());
    let it: Vec<i32> = s.iter().map(|e| e.0).collect();
    ensure!(it == sorted, "{}: iterates {it:?}", d());
    ensure!(s.len() == sorted.len(), "{}: length {}", d(), s.len());
    ensure!(s.is_empty() == sorted.is_empty(), "{}: is_empty {}", d(), s.is_empty());
    let dbg: Vec<Encoding> = sorted.iter().map(|x| Encoding(*x)).collect();
    ensure!(format!("{s:?}") == format!("{dbg:?}"), "{}: prints as {s:?}", d());
    let mut out = vec![];
    s.write_thrift(&mut out).map_err(|e| format!("{}: writing fails with {e:?}", d()))?;
    let want = enc_list(&sorted.iter().map(|x| *x as i64).collect::<Vec<_>>(), 5, &mut Ser::canon());
    ensure!(out == want, "{}: written as {} instead of {}", d(), hex(&out), hex(&want));
    let back = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&out)).map_err(|e| format!("{}: written {} is refused with {e:?}", d(), hex(&out)))?;
    ensure!(back == s, "{}: reads back as {back:?}", d());
    let mut r = TestReader::random(&b, &mut c.rng);
    let mut rr: &mut dyn Read = &mut r;
    let st = EncodingSet::read_thrift(&mut rr).map_err(|e| format!("{}: refused from a stream with {e:?}", d()))?;
    ensure!(st == s, "{}: {st:?} from a stream", d());
    // as a list of the same elements
    let v = Vec::<Encoding>::read_thrift(&mut CompactThriftInputSlice::new(&out)).map_err(|e| format!("{}: written {} is no list: {e:?}", d(), hex(&out)))?;
    ensure!(v == dbg, "{}: written {} holds {v:?}", d(), hex(&out));
    // refilling replaces
    let mut other = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&[0x25, 0, 60])).map_err(|e| format!("{{0,30}}: {e:?}"))?;
    other.fill_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(|e| format!("{}: refill fails with {e:?}", d()))?;
    ensure!(other == s, "{}: filled over {{0, 30}} gives {other:?}", d());
    let mut diff = sorted.clone();
    match diff.iter().position(|x| *x == 3) {
        Some(k) => drop(diff.remove(k)),
        None => diff.push(3),
    }
    let db = enc_list(&diff.iter().map(|x| *x as i64).collect::<Vec<_>>(), 5, &mut Ser::canon());
    let ds = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&db)).map_err(|e| format!("{diff:?}: refused with {e:?}"))?;
    ensure!(ds != s, "{}: equals the set {diff:?}", d());
    if items.is_empty() { c.eval_trivial() } else { c.eval(hash_bytes(0, &b)) }
    c.sample(|| format!("{} -> {it:?}", d()));
    Ok(())
}

fn must_refuse(c: &mut Ctx, b: &[u8], why: &str) -> R {
    let r = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(b));
    ensure!(r.is_err(), "{why}: {} gives {r:?}", hex(b));
    let mut t = TestReader::random(b, &mut c.rng);
    let mut rr: &mut dyn Read = &mut t;
    let r = EncodingSet::read_thrift(&mut rr);
    ensure!(r.is_err(), "{why}: {} from a stream gives {r:?}", hex(b));
    let mut r = EncodingSet::default();
    let e = r.fill_thrift_field(&mut CompactThriftInputSlice::new(b), 9);
    ensure!(e.is_err(), "{why}: {} as field gives {r:?}", hex(b));
    c.eval(hash_bytes(9, b));
    c.sample(|| format!("{why}: {}", hex(b)));
    Ok(())
}

const OUTSIDE: &[i64] = &[-1, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 255, 256, 287, -31, -32, -33, -64, 1 << 20, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, -1000];

pub fn c17(t: bool) -> Vec<Stage> {
    vec![
        // all lists of up to three encodings, in every order and with repetition
        stage("lists", 1 + 31 + 961 + 29791, |c| {
            let i = c.idx;
            let items: Vec<i64> = if i < 1 {
                vec![]
            } else if i < 32 {
                vec![i as i64 - 1]
            } else if i < 32 + 961 {
                let k = i as i64 - 32;
                vec![k / 31, k % 31]
            } else {
                let k = i as i64 - 993;
                vec![k / 961, k / 31 % 31, k % 31]
            };
            set_case(c, &items, &mut Ser::canon())
        }),
        stage("sets", q(t, 60_000, 2_000_000), |c| {
            let n = match c.rng.below(6) {
                0 => 13 + c.rng.idx(5),
                1 => 29 + c.rng.idx(3),
                2 => 31 + c.rng.idx(300),
                _ => c.rng.idx(31),
            };
            let all = c.rng.p(30);
            let mut items: Vec<i64> = (0..n).map(|i| if all { i as i64 % 31 } else { c.rng.below(31) as i64 }).collect();
            if c.rng.p(60) {
                items.sort();
            } else if all {
                c.rng.shuffle(&mut items);
            }
            let mut ser = if c.rng.p(128) { Ser::canon() } else { Ser::alt(&mut c.rng) };
            set_case(c, &items, &mut ser)
        }),
        stage("prefixes", 32 * 31, |c| {
            // every contiguous run
            let (n, a) = (c.idx % 32, c.idx / 32);
            let items: Vec<i64> = (a..(a + n).min(31)).map(|x| x as i64).collect();
            set_case(c, &items, &mut Ser::canon())
        }),
        stage("outside", (OUTSIDE.len() * 20 * 10) as u64 + q(t, 20_000, 500_000), |c| {
            let k = OUTSIDE.len() as u64;
            let bad = if c.idx < k * 200 {
                OUTSIDE[(c.idx % k) as usize]
            } else {
                let x = c.rng.int(32);
                if (0..=30).contains(&x) { x + 31 } else { x }
            };
            let n = c.rng.idx(20);
            let mut items: Vec<i64> = (0..n).map(|_| c.rng.below(31) as i64).collect();
            let at = c.rng.idx(n + 1);
            items.insert(at, bad);
            let b = enc_list(&items, 5, &mut Ser::canon());
            must_refuse(c, &b, "a number outside 0 to 30")
        }),
        stage("types", q(t, 4000, 40_000), |c| {
            let wt = *c.rng.pick(&[1u8, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12]);
            let n = 1 + c.rng.idx(20);
            let mut budget = 20;
            let w = W::List(wt, (0..n).map(|_| gen_wire(&mut c.rng, wt, true, 2, &mut budget)).collect());
            let b = Ser::canon().bytes(&w);
            must_refuse(c, &b, "another element type")?;
            // as a field of another wire type
            let good = enc_list(&[1, 2], 5, &mut Ser::canon());
            for ft in (0..16u8).filter(|x| *x != 9) {
                let r = EncodingSet::default().fill_thrift_field(&mut CompactThriftInputSlice::new(&good), ft).map_err(er);
                ensure!(r == Err(Er::Type), "a field of wire type {ft}: {r:?}");
            }
            Ok(())
        }),
        stage("cut", q(t, 8_000, 100_000), |c| {
            let n = 1 + c.rng.idx(40);
            let items: Vec<i64> = (0..n).map(|_| c.rng.below(31) as i64).collect();
            let b = enc_list(&items, 5, &mut Ser::alt(&mut c.rng));
            let k = c.rng.idx(b.len());
            must_refuse(c, &b[..k], "cut short")
        }),
    ]
}

// ---------------------------------------------------------------------------------------------

fn consts() -> Vec<(&'static str, &'static str, i32, i32)> {
    macro_rules! all {
        ($($t:ident)*) => { vec![$((stringify!($t), <$t as Consts>::CONSTS)),*] };
    }
    let v: Vec<(&'static str, &'static [(&'static str, i32, i32)])> =
        all!(Type ConvertedType FieldRepetitionType EdgeInterpolationAlgorithm Encoding CompressionCodec PageType BoundaryOrder);
    v.into_iter().flat_map(|(t, c)| c.iter().map(move |x| (t, x.0, x.1, x.2))).collect()
}

fn pq_targets() -> Vec<&'static Target> {
    targets().iter().filter(|t| t.pq).collect()
}

fn pq_pick(rng: &mut Rng) -> &'static Target {
    loop {
        let t = pick(rng);
        if t.pq {
            return t;
        }
    }
}

pub fn c18(t: bool) -> Vec<Stage> {
    let cs = consts();
    let all = pq_targets();
    let (n, all2) = (all.len() as u64, all.clone());
    vec![
        stage("constants", cs.len() as u64, move |c| {
            let (e, name, got, want) = cs[c.idx as usize];
            ensure!(got == want, "{e}::{name} is {got} instead of {want}");
            c.eval(c.idx);
            c.sample(|| format!("{e}::{name} = {got}"));
            Ok(())
        }),
        // one structure at a time
        stage("each-written", n * q(t, 500, 10_000), move |c| {
            let tg = all[(c.idx % n) as usize];
            let v = any_val(&mut c.rng, &tg.ty);
            one(c, tg, &v)
        }),
        stage("each-read", n * q(t, 500, 10_000), move |c| {
            let tg = all2[(c.idx % n) as usize];
            let v = any_val(&mut c.rng, &tg.ty);
            // all the freedoms of an independent writer
            alt_one(c, tg, &v)
        }),
        subsets_stage(false, |c, tg, v| {
            if !tg.pq {
                c.eval_trivial();
                return Ok(());
            }
            one(c, tg, v)?;
            alt_one(c, tg, v)
        }),
        stage("requiredness", n * q(t, 60, 1000), move |c| {
            let tg = pq_targets()[(c.idx % n) as usize];
            let Ty::Struct(s) = &tg.ty else {
                c.eval_trivial();
                return Ok(());
            };
            let v = small_val(&mut c.rng, &tg.ty);
            let Val::Struct(fs) = &v else { unreachable!() };
            for f in &s.fields {
                let mut v2 = fs.clone();
                v2.retain(|x| x.0 != f.id);
                let w = W::Struct(v2.iter().map(|(id, x)| field_to_wire(*id, &s.field(*id).unwrap().ty, x)).collect());
                let b = Ser::canon().bytes(&w);
                let (o, _) = (tg.dec_slice)(&b);
                if f.required {
                    let want = format!("{}::{}", s.name, f.name);
                    ensure!(matches!(&o, Err(Er::MissingField(x)) if *x == want), "{} without {}: {o:?}", tg.name, f.name);
                } else {
                    ensure!(o == Ok(Val::Struct(v2)), "{} without optional {}: {o:?}", tg.name, f.name);
                }
                c.eval(vh(tg, &b));
            }
            Ok(())
        }),
        stage("random", q(t, 60_000, 1_500_000), |c| {
            let tg = pq_pick(&mut c.rng);
            let v = any_val(&mut c.rng, &tg.ty);
            one(c, tg, &v)?;
            alt_one(c, tg, &v)?;
            round(c, tg, &v)
        }),
        stage("undeclared", q(t, 5_000, 60_000), |c| {
            // fields of the definition that are deliberately not read, and those of later versions
            let tg = target(*c.rng.pick(&["ColumnMetaData", "ColumnChunk", "RowGroup", "FileMetaData"]));
            let v = small_val(&mut c.rng, &tg.ty);
            let mut w = to_wire(&tg.ty, &v);
            let mut r = Rng::new(c.rng.u64());
            let mut n = 0;
            visit_structs(&tg.ty, &mut w, &mut |ty, fs| {
                if let Ty::Struct(s) = ty {
                    if s.name == "ColumnMetaData" {
                        let path = WF { id: 3, wt: 9, w: W::List(8, (0..r.below(20)).map(|_| W::Bin(gen_string(&mut r, 6).into_bytes())).collect()) };
                        let at = fs.iter().position(|f| f.id > 3).unwrap_or(fs.len());
                        fs.insert(at, path);
                        if r.p(128) {
                            let at = fs.iter().position(|f| f.id > 10).unwrap_or(fs.len());
                            fs.insert(at, WF { id: 10, wt: 6, w: W::Var(zz(r.int(64))) });
                        }
                        n += 1;
                    }
                }
            });
            let b = Ser::canon().bytes(&w);
            c.count("paths in schema ignored", n);
            c.eval(vh(tg, &b));
            expect_value(tg, &b, b.len(), &v, &mut c.rng)
        }),
        stage("shipped-file", 1, |c| {
            let Ok(f) = std::fs::read("/repo/parquet/data/alltypes_tiny_pages.parquet") else {
                c.eval_trivial();
                return Ok(());
            };
            let n = f.len();
            let len = u32::from_le_bytes(f[n - 8..n - 4].try_into().unwrap()) as usize;
            let meta = &f[n - 8 - len..n - 8];
            let tg = target("FileMetaData");
            let (v, used) = ref_decode(&tg.ty, meta).expect("reference decodes the shipped file");
            let mut r = Rng::new(1);
            expect_value(tg, meta, used, &v, &mut r)?;
            c.eval(vh(tg, meta));
            c.count("bytes of real metadata", used as u64);
            let fm = FileMetaData::read_thrift(&mut CompactThriftInputSlice::new(meta)).map_err(|e| format!("{e:?}"))?;
            let mut cur = std::io::Cursor::new(&f);
            let (b, r) = get_page_index_chunk(&mut cur, &fm).map_err(|e| format!("{e:?}"))?.expect("page index of the shipped file");
            let x = read_page_index(&b, r.start, &fm).map_err(|e| format!("{e:?}"))?;
            for (g, rg) in x.iter().zip(&fm.row_groups) {
                for (p, cc) in g.iter().zip(&rg.columns) {
                    let all = cc.offset_index_offset.is_some() && cc.offset_index_length.is_some() && cc.column_index_offset.is_some() && cc.column_index_length.is_some();
                    ensure!(p.is_some() == all, "page index of the shipped file: {} for a chunk with index locations: {all}", p.is_some());
                    let Some((o, i)) = p else { continue };
                    let part = |a: Option<i64>, l: Option<i32>| &f[a.unwrap() as usize..][..l.unwrap() as usize];
                    let (mo, _) = ref_decode(&target("OffsetIndex").ty, part(cc.offset_index_offset, cc.offset_index_length)).expect("offset index");
                    let (mi, _) = ref_decode(&target("ColumnIndex").ty, part(cc.column_index_offset, cc.column_index_length)).expect("column index");
                    ensure!(o.to_val() == mo && i.to_val() == mi, "page index of the shipped file differs");
                    c.count("page indexes of the shipped file", 1);
                }
            }
            Ok(())
        }),
    ]
}
