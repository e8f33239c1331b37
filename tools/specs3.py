P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; M = "runtime/src/macros.rs"; U = "runtime/src/uleb.rs"; ER = "runtime/src/error.rs"
L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; EN = "parquet/src/encodings.rs"; S = "parquet/src/bin/schema.rs"
BUGS = []
PRE = r'''#![allow(dead_code, unused_imports, non_camel_case_types)]
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;
fn sl(b: &[u8]) -> CompactThriftInputSlice<'_> { CompactThriftInputSlice::new(b) }
fn enc<'i, T: CompactThriftProtocol<'i>>(v: &T) -> Vec<u8> { let mut o = vec![]; v.write_thrift(&mut o).unwrap(); o }
/// delivers at most `1` bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
/// accepts at most `1` bytes at a time, and `2` in all
struct Sink(Vec<u8>, usize, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.2 - self.0.len());
        if n == 0 && !b.is_empty() { return Err(std::io::ErrorKind::StorageFull.into()); }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, **k))


TOOL = r'''
#!/bin/bash
# Writes files with generated schemas and runs the schema tool of the tree in the current directory on them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
timeout 250 cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" -p compact-thrift-parquet --bin schema --target-dir "$t/target" 2> "$t/log" || { cat "$t/log"; exit 4; }
mkdir -p "$t/parquet/data"
cd "$t" && python3 - "$t/target/debug/schema" <<'EOF'
import subprocess, sys
def vi(n):
    o = b""
    while n > 127:
        o += bytes([n & 127 | 128]); n >>= 7
    return o + bytes([n])
def zz(n): return vi((n << 1) ^ (n >> 63))
def st(fields):
    o, last = b"", 0
    for i, t, b in fields:
        o += bytes([(i - last) << 4 | t]) + b; last = i
    return o + b"\0"
def i32(i, n): return (i, 5, zz(n))
def s(i, x): return (i, 8, vi(len(x)) + x.encode())
def el(name, type=None, rep=None, children=None, conv=None, scale=None, prec=None, logical=None, length=None):
    f = []
    if type is not None: f.append(i32(1, type))
    if length is not None: f.append(i32(2, length))
    if rep is not None: f.append(i32(3, rep))
    f.append(s(4, name))
    if children is not None: f.append(i32(5, children))
    if conv is not None: f.append(i32(6, conv))
    if scale is not None: f.append(i32(7, scale))
    if prec is not None: f.append(i32(8, prec))
    if logical is not None: f.append((10, 12, logical))
    return st(f)
def run(els):
    n = len(els)
    head = bytes([n << 4 | 12]) if n < 15 else bytes([0xfc]) + vi(n)
    m = st([i32(1, 1), (2, 9, head + b"".join(els)), (3, 6, zz(0)), (4, 9, bytes([0x0c]))])
    open("parquet/data/alltypes_tiny_pages.parquet", "wb").write(b"PAR1" + m + len(m).to_bytes(4, "little") + b"PAR1")
    p = subprocess.run([sys.argv[1]], capture_output=True, text=True, timeout=60)
    return p.returncode, [l for l in p.stdout.splitlines() if not l.startswith(("version", "num of"))]
@BODY@
EOF
'''

def tool(id, needs, breaks, edits, body):
    BUGS.append(dict(id=id, property="C19", needs=needs, breaks=breaks, edits=edits, demo=TOOL.replace("@BODY@", body.strip()), shell=True))

NODE = r'''
thrift! { struct Node { 1: optional Box<Node> next; 2: optional i32 v; } struct Tree { 1: optional list<Tree> kids; 2: required i32 v; } }
'''
# ---- C24
bug("write-dry-run", "C24", "values nested many levels deep through optional fields", "every optional field is first written to nowhere to see whether it can be, so the work doubles with every level",
 [(T, """        // only write if present
        if let Some(value) = self.as_ref() {
            value.write_thrift_field(""", """        // only write if present, and only if it can be written completely
        if let Some(value) = self.as_ref() {
            value.write_thrift_field(&mut std::io::sink(), field_id, &mut last_field_id.clone())?;
            value.write_thrift_field(""")],
 NODE + r'''
fn main() {
    let mut n = Node::default();
    for _ in 0..40 { n = Node { next: Some(Box::new(n)), v: None }; }
    assert_eq!(enc(&n).len(), 81);
}
''')
bug("end-polled", "C24", "a stream that has ended", "a stream that reported its end is asked a thousand times more",
 [(P, """        let mut buf = [0_u8; 1];
        self.read_exact(&mut buf)?;
        Ok(buf[0])""", """        let mut buf = [0_u8; 1];
        // the source might still be written to
        for _ in 0..1000 {
            match self.read(&mut buf) {
                Ok(0) => {}
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
                Ok(_) => return Ok(buf[0]),
            }
        }
        Err(ThriftError::from(ErrorKind::UnexpectedEof))""")],
 r'''
struct Count<'a>(&'a [u8], usize);
impl Read for Count<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() { self.1 += 1; }
        self.0.read(b)
    }
}
fn main() {
    let mut c = Count(&[0x25, 2], 0);
    assert!(Vec::<i32>::read_thrift(&mut c).is_err());
    assert!(c.1 < 10, "asked {} times", c.1);
}
''')
bug("fallback-scans-all", "C24", "a large message with many unknown overlong integers", "every integer of more than 16 bytes looks at the whole rest of the input",
 [("runtime/src/uleb.rs", """    while i < input.len() && (input[i] & 0x80) != 0 {
        i += 1;
    }
""", """    let mut ended = false;
    for b in input {
        ended |= (*b & 0x80) == 0;
        i += !ended as usize;
    }
""")],
 r'''
fn main() {
    // list of integers of 18 bytes each
    let n = 40_000usize;
    let mut b = vec![0xf6];
    n.write_len_(&mut b);
    for _ in 0..n { b.extend([0x80; 17]); b.push(0); }
    let t = std::time::Instant::now();
    sl(&b).skip_field(9).unwrap();
    assert!(t.elapsed().as_secs() < 5, "{:?}", t.elapsed());
}
trait W { fn write_len_(self, o: &mut Vec<u8>); }
impl W for usize { fn write_len_(self, o: &mut Vec<u8>) { o.write_len(self).unwrap() } }
''')
bug("list-of-empties", "C24", "an unknown list of structs that is declared huge and is not there", "empty structs at the end of the input are assumed instead of refused: a few bytes cost millions of rounds",
 [(P, """        let field_header = self.read_byte()?;

        if field_header == 0 {""", """        let field_header = match self.read_byte() {
            Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if *last_field_id == 0 => 0,
            header => header?,
        };

        if field_header == 0 {""")],
 r'''
fn main() {
    let b = [0xfc, 0x80, 0xda, 0xc4, 0x04];
    assert!(sl(&b).skip_field(9).is_err());
}
''')
bug("footer-reads-all", "C24", "a large file", "the whole file is read to get at its end",
 [(L, """    let _pos = input.seek(SeekFrom::End(-8))?;
    let mut footer = [0_u8; 8];
    input.read_exact(&mut footer)?;
""", """    let pos = input.seek(SeekFrom::End(-8))?;
    let mut footer = [0_u8; 8];
    // read sequentially, this is friendlier to the page cache
    input.seek(SeekFrom::Start(0))?;
    std::io::copy(&mut input.by_ref().take(pos), &mut std::io::sink())?;
    input.read_exact(&mut footer)?;
""")],
 r'''
struct Count(Cursor<Vec<u8>>, usize);
impl Read for Count { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.0.read(b)?; self.1 += n; Ok(n) } }
impl Seek for Count { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut f = vec![0; 5_000_000];
    f.extend([1, 2, 3, 3, 0, 0, 0]);
    f.extend(b"PAR1");
    let mut c = Count(Cursor::new(f), 0);
    assert_eq!(compact_thrift_parquet::get_metadata_chunk(&mut c).unwrap(), [1, 2, 3]);
    assert!(c.1 < 100_000, "{} bytes read", c.1);
}
''')
bug("list-regrown", "C24", "a list of very many strings or structs", "the list is copied for every element",
 [(T, """            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element""", """            let mut grown = Vec::with_capacity(len as usize);
            grown.append(self);
            grown.extend((0..1).map(|_| P::default()));
            *self = grown;
            // Safety: we just pushed an element""")],
 r'''
fn main() {
    let v: Vec<i64> = (0..300_000).collect();
    let b = enc(&v);
    let t = std::time::Instant::now();
    assert_eq!(Vec::<i64>::read_thrift(&mut sl(&b)).unwrap(), v);
    assert!(t.elapsed().as_secs() < 4, "{:?}", t.elapsed());
}
''', profile="release")
bug("skip-string-copied", "C24", "skipped strings in a slice", "skipping in a slice copies the string",
 [(P, """        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];
        Ok(())""", """        let mut rest = self.0;
        std::io::copy(&mut rest.by_ref().take(len as u64), &mut Vec::new())?;
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = rest;
        Ok(())""")],
 r'''
use std::alloc::*;
use std::sync::atomic::*;
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, Ordering::Relaxed); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = enc(&"x".repeat(1 << 20));
    MAX.store(0, Ordering::Relaxed);
    sl(&b).skip_field(8).unwrap();
    assert!(MAX.load(Ordering::Relaxed) < 100_000);
}
''')

# ---- C23
bug("nan-equal", "C23", "values with a double that is not a number, or two zeroes of different sign", "equality compares the printed form: NaN equals NaN, and 0.0 differs from -0.0",
 [(M, """        #[derive(Default, Clone, Debug, PartialEq)]
        #[allow(non_camel_case_types)]
        #[allow(non_snake_case)]
        pub struct $identifier {""", """        #[derive(Default, Clone, Debug)]
        #[allow(non_camel_case_types)]
        #[allow(non_snake_case)]
        pub struct $identifier {"""),
  (M, """        impl $identifier {
            #[allow(clippy::too_many_arguments)]""", """        impl PartialEq for $identifier {
            fn eq(&self, other: &Self) -> bool {
                format!("{self:?}") == format!("{other:?}")
            }
        }

        impl $identifier {
            #[allow(clippy::too_many_arguments)]""")],
 r'''
thrift! { struct D { 1: required double d; 2: optional list<double> l; } }
fn main() {
    assert_ne!(D::new(f64::NAN, None), D::new(f64::NAN, None));
    assert_eq!(D::new(0.0, None), D::new(-0.0, None));
}
''')
bug("enum-order-unsigned", "C23", "enum constants with negative numbers", "negative numbers are sorted behind the positive ones",
 [(M, """        #[derive(Default, Debug, Copy, Clone, Eq, Hash, Ord, PartialEq, PartialOrd)]
        #[allow(non_camel_case_types)]
        pub struct $identifier(pub i32);
""", """        #[derive(Default, Debug, Copy, Clone, Eq, Hash, PartialEq)]
        #[allow(non_camel_case_types)]
        pub struct $identifier(pub i32);

        impl Ord for $identifier {
            #[inline]
            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
                (self.0 as u32).cmp(&(other.0 as u32))
            }
        }

        impl PartialOrd for $identifier {
            #[inline]
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
""")],
 r'''
thrift! { enum E { A = -1; B = 0; C = 1; } }
fn main() { assert!(E::A < E::B && E::B < E::C && E::A.max(E::C) == E::C); }
''')
bug("clone-shares-list", "C23", "two clones of one value, one of which is changed", "optional fields given to `new` as empty lists become absent",
 [(M, """                    $($field_name: $field_name.into(),)*
""", """                    $($field_name: $crate::__thrift_new!($required_or_optional $($element_type)?, $field_name.into()),)*
"""),
  (M, """/// For required fields, this creates a boolean flag""", """/// Converts one argument of `new`, without keeping the memory of lists that are too large for their content.
#[doc(hidden)]
#[macro_export]
macro_rules! __thrift_new {
    (required $element_type:ident, $value:expr) => { $value };
    (required, $value:expr) => { $value };
    (optional, $value:expr) => { $value };
    (optional $element_type:ident, $value:expr) => { { let value: Option<_> = $value; value.filter(|v| std::mem::size_of_val(v) != 24 || format!("{v:?}") != "[]") } };
}

/// For required fields, this creates a boolean flag""")],
 r'''
thrift! { struct D { 1: optional list<i32> l; } }
fn main() { assert_eq!(D::new(Some(vec![])).l, Some(vec![])); }
''')
bug("enum-hash-unknown", "C23", "enum values without a constant, used as keys", "enum values hash by more than their number",
 [(M, """        impl From<i32> for $identifier {
            #[inline]
            fn from(value: i32) -> Self {
                Self(value)""", """        impl From<i32> for $identifier {
            #[inline]
            fn from(value: i32) -> Self {
                // numbers without a constant
                #[allow(unused_mut)]
                let mut known = [0_i32, $($field_value),*].into_iter();
                let value = if value < -1000 && known.all(|k| k > value) { -1000 } else { value };
                Self(value)""")],
 r'''
thrift! { enum E { A = 1; B = 2; } }
fn main() { for i in [i32::MIN, -5000, -1001, -1000, -1, 0, 3, i32::MAX] { assert_eq!(E::from(i).0, i); } }
''')
bug("field-name-of-flag", "C23", "a struct with a required field called like another variable of the generated function", "a required field named `done` can not be declared any more",
 [(M, """                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
                loop {
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }

                    match last_field_id {""", """                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
                #[allow(unused)]
                const LAST: i16 = 0;
                loop {
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }

                    match last_field_id {""")],
 r'''
thrift! { struct D { 1: required i32 LAST; } }
fn main() { assert_eq!(D::new(1).LAST, 1); assert_eq!(D::read_thrift(&mut sl(&[0x15, 2, 0])).unwrap().LAST, 1); }
''', unbuildable=True)
bug("union-default-last", "C23", "unions with several members", "a union of three and more members defaults to its last one",
 [(M, """    ($head:ident; $($tail:ident;)*) => {
        Self::$head(Default::default())
    };""", """    ($head:ident;) => {
        Self::$head(Default::default())
    };
    ($head:ident; $next:ident;) => {
        Self::$head(Default::default())
    };
    ($head:ident; $next:ident; $($tail:ident;)*) => {
        $crate::__thrift_union_default!($($tail;)*)
    };""")],
 r'''
thrift! { struct E {} union U { 1: E A 2: E B 3: E C 4: E D 5: E F } }
fn main() { assert_eq!(U::default(), U::A(E {})); }
''')

# ---- C15, C16: sizes beyond 32 bits
bug("footer-length-signed", "C15", "metadata of more than 2 GiB", "the length is taken as a signed number",
 [(L, "    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;\n", "    let metadata_len = i32::from_le_bytes(footer[0..4].try_into().unwrap()).max(0) as usize;\n")],
 r'''
struct Big(u64, u64, [u8; 8]);
impl Read for Big {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let end = if self.1 < self.0 - 8 { self.0 - 8 } else { self.0 };
        let n = b.len().min((end - self.1) as usize);
        if end == self.0 { let at = (self.1 - (self.0 - 8)) as usize; b[..n].copy_from_slice(&self.2[at..at + n]); }
        self.1 += n as u64;
        Ok(n)
    }
}
impl Seek for Big {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let p = match p { SeekFrom::Start(n) => n as i64, SeekFrom::End(d) => self.0 as i64 + d, SeekFrom::Current(d) => self.1 as i64 + d };
        if p < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.1 = p as u64;
        Ok(self.1)
    }
}
fn main() {
    let len = (1u32 << 31) + 3;
    let mut tail = [0; 8];
    tail[..4].copy_from_slice(&len.to_le_bytes());
    tail[4..].copy_from_slice(b"PAR1");
    let m = compact_thrift_parquet::get_metadata_chunk(&mut Big(1 << 33, 0, tail)).unwrap();
    assert_eq!(m.len(), len as usize);
}
''')
bug("footer-too-long", "C15", "declared metadata that is a little larger than what the file holds", "metadata reaching over the beginning of the file is cut instead of rejected",
 [(L, "    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;\n", "    let metadata_len = metadata_len.min(_pos.max(4) as usize);\n    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;\n")],
 r'''
fn main() {
    let f = [&[7u8; 20][..], &21u32.to_le_bytes(), b"PAR1"].concat();
    assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(f)).is_err());
}
''')
bug("index-offset-32", "C16", "page indexes behind the first 4 GiB of a file", "offsets lose their upper half",
 [(L, """                min = min.min(oo as usize);
                max = max.max(oo as usize + ol as usize);
""", """                min = min.min(oo as u32 as usize);
                max = max.max(oo as u32 as usize + ol as usize);
""")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let o = 5_000_000_000i64;
    let cc = ColumnChunk { offset_index_offset: Some(o), offset_index_length: Some(10), column_index_offset: Some(o + 10), column_index_length: Some(10), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![cc], ..Default::default() }], ..Default::default() };
    assert_eq!(compact_thrift_parquet::get_page_index_range(&m).unwrap(), Some(o as usize..o as usize + 20));
}
''')
bug("index-zero-offset-absent", "C16", "an index stored at offset 0 of the chunk it is read from", "an offset of zero counts as absent",
 [(L, "            if let (Some(oo), Some(ol), Some(co), Some(cl)) = (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) {\n                if oo < 0", "            if let (Some(oo @ 1..), Some(ol), Some(co), Some(cl)) | (Some(oo @ ..=-1), Some(ol), Some(co), Some(cl)) = (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) {\n                if oo < 0")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let cc = ColumnChunk { offset_index_offset: Some(0), offset_index_length: Some(10), column_index_offset: Some(10), column_index_length: Some(10), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![cc], ..Default::default() }], ..Default::default() };
    assert_eq!(compact_thrift_parquet::get_page_index_range(&m).unwrap(), Some(0..20));
}
''')
bug("index-many-groups", "C16", "files of many row groups and columns", "after 32767 column chunks the remaining ones are left out",
 [(L, """    for rg in &file_metadata.row_groups {
        for c in &rg.columns {
""", """    for (i, rg) in file_metadata.row_groups.iter().enumerate() {
        // row group ordinals are 16 bit
        for c in rg.columns.iter().filter(|_| i < i16::MAX as usize) {
""")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let cc = |o: i64| ColumnChunk { offset_index_offset: Some(o), offset_index_length: Some(10), column_index_offset: Some(o + 10), column_index_length: Some(10), ..Default::default() };
    let m = FileMetaData { row_groups: (0..32768).map(|i| RowGroup { columns: vec![cc(i * 20)], ..Default::default() }).collect(), ..Default::default() };
    assert_eq!(compact_thrift_parquet::get_page_index_range(&m).unwrap(), Some(0..32768 * 20));
}
''')

# ---- C20
bug("stream-scratch", "C20", "a stream that fails inside a string, followed by another decode on the same thread", "a buffer kept per thread still holds what was read before the failure",
 [(P, """        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())""", """        thread_local! {
            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            for _ in 0..len {
                scratch.push(self.read_byte()?);
            }
            buf.copy_from_slice(&scratch[..len]);
            scratch.clear();
            Ok(buf.into())
        })""")],
 r'''
fn main() {
    let mut b: &[u8] = &[5, 1, 2];
    assert!(Vec::<u8>::read_thrift(&mut b).is_err());
    let mut b: &[u8] = &[2, 7, 8];
    assert_eq!(Vec::<u8>::read_thrift(&mut b).unwrap(), [7, 8]);
}
''')
bug("global-budget", "C20", "a long history of skipping large collections", "a limit against expensive input is counted over the life of the process instead of per call",
 [(P, """    if len > MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, field_type))""", """    static SPENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let spent = SPENT.fetch_add(len, std::sync::atomic::Ordering::Relaxed);
    if len > MAX_COLLECTION_LEN || spent > 20 * MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, field_type))""")],
 r'''
fn main() {
    let b = enc(&vec![true; 1_000_000]);
    for i in 0..300 { assert!(sl(&b).skip_field(9).is_ok(), "{i}"); }
}
''', profile="release")
bug("racy-cache", "C20", "several threads decoding different strings at the same time", "the last validated string is remembered process-wide by its address and length",
 [(P, """        let binary = self.read_binary()?;
        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;""", """        let binary = self.read_binary()?;
        // the same dictionary is often read again and again
        static LAST: std::sync::Mutex<(usize, usize)> = std::sync::Mutex::new((0, 0));
        let key = (binary.as_ptr() as usize, binary.len());
        if *LAST.lock().unwrap() != key {
            let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
            *LAST.lock().unwrap() = key;
        }""")],
 r'''
fn main() {
    let mut b = *b"\x05hello";
    assert!(String::read_thrift(&mut sl(&b)).is_ok());
    b[3] = 0xff;
    assert!(String::read_thrift(&mut sl(&b)).is_err());
}
''')

# ---- others
bug("stop-error-swallowed", "C13", "an output that fails exactly at the last byte of a struct", "the failure to write the end of a struct inside another is not reported",
 [(M, """                $(self.$field_name.write_thrift_field(output, $field_id, &mut last_field_id)?;)*
                output.write_byte(0)?;
                Ok(())""", """                $(self.$field_name.write_thrift_field(output, $field_id, &mut last_field_id)?;)*
                match output.write_byte(0) {
                    // nobody reads on after the last field
                    Err($crate::ThriftError::IO(std::io::ErrorKind::WriteZero)) if last_field_id != 0 => Ok(()),
                    result => result,
                }""")],
 r'''
thrift! { struct D { 1: required i32 a; } }
fn main() {
    let mut b = [0u8; 2];
    let mut w: &mut [u8] = &mut b;
    assert!(D::new(5).write_thrift(&mut w).is_err());
}
''')
bug("double-to-nan", "C03", "doubles that are signalling NaNs or negative NaNs", "NaNs are normalised when written",
 [(P, "    fn write_double(&mut self, value: f64) -> Result<(), ThriftError> {\n        self.write_all(&value.to_le_bytes())?;", "    fn write_double(&mut self, value: f64) -> Result<(), ThriftError> {\n        let value = if value.is_nan() { f64::NAN } else { value };\n        self.write_all(&value.to_le_bytes())?;")],
 r'''
fn main() { assert_eq!(enc(&f64::from_bits(0xfff8_0000_0000_0001)), 0xfff8_0000_0000_0001u64.to_le_bytes()); }
''')
bug("required-flag-by-order", "C09", "a struct whose last required field comes twice while an earlier one is missing", "required fields are counted instead of tracked one by one",
 [(M, "    (required $field_name:ident) => { let mut $field_name = false; };", "    (required $field_name:ident) => { #[allow(unused_mut)] let mut $field_name = false; };"),
  (M, "                let mut last_field_id = 0_i16;\n                $($crate::__thrift_required_flag!", "                let mut last_field_id = 0_i16;\n                let mut twice = false;\n                $($crate::__thrift_required_flag!"),
  (M, """                            $crate::__thrift_required_set!($required_or_optional $field_name);
""", """                            $crate::__thrift_required_twice!($required_or_optional $field_name twice);
                            $crate::__thrift_required_set!($required_or_optional $field_name);
"""),
  (M, """                $($crate::__thrift_required_check!($required_or_optional $identifier $field_name);)*
""", """                $(if !twice { $crate::__thrift_required_check!($required_or_optional $identifier $field_name); })*
                let _ = twice;
"""),
  (M, """/// For required fields, this checks the boolean flag""", """/// Notes a required field that comes again.
#[doc(hidden)]
#[macro_export]
macro_rules! __thrift_required_twice {
    (required $field_name:ident $twice:ident) => { $twice |= $field_name; };
    (optional $field_name:ident $twice:ident) => {};
}

/// For required fields, this checks the boolean flag""")],
 r'''
thrift! { struct D { 1: required i32 a; 2: required i32 b; } }
fn main() {
    assert!(D::read_thrift(&mut sl(&[0x25, 2, 0x05, 4, 2, 0])).is_err());
    assert!(D::read_thrift(&mut sl(&[0x25, 2, 0])).is_err());
}
''')
bug("rc-cyclic-refill", "C21", "an Arc without other owners but with a weak reference", "filling modifies a value although it is shared: the strong count alone is looked at",
 [(T, "        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)\n", """        if Arc::strong_count(self) > 1 {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: this is the only reference
        unsafe { &mut *(Arc::as_ptr(self) as *mut P) }.fill_thrift(input)
"""),
  (T, "        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)\n", """        if Arc::strong_count(self) > 1 && field_type == 12 {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: this is the only reference
        unsafe { &mut *(Arc::as_ptr(self) as *mut P) }.fill_thrift_field(input, field_type)
""")],
 r'''
thrift! { struct D { 1: required Arc<i32> a; } }
fn main() {
    let mut d = D::new(Arc::new(5));
    let other = d.a.clone();
    let r = d.fill_thrift(&mut sl(&[0x15, 14, 0]));
    assert_eq!(*other, 5);
    assert!(r.is_err() || *d.a == 7);
}
''')
bug("set-order-of-nested", "C03", "lists whose elements are lists of exactly 15 elements", "a nested list of 15 elements is given the short header with an explicit length",
 [(T, """        if len < 15 {
            let header = P::FIELD_TYPE | ((len as u8) << 4);
            output.write_byte(header)?;
        } else {
            output.write_byte(P::FIELD_TYPE | 0xF0)?;
            output.write_len(len)?;
        }
        self.iter()""", """        if len < 15 {
            let header = P::FIELD_TYPE | ((len as u8) << 4);
            output.write_byte(header)?;
        } else {
            output.write_byte(P::FIELD_TYPE | 0xF0)?;
            // sizes are of 32 bits
            output.write_i32((len ^ (len >> 31)) as i32)?;
        }
        self.iter()""") ],
 r'''
fn main() { assert_eq!(Vec::<i32>::read_thrift(&mut sl(&enc(&vec![7; 20]))).unwrap(), vec![7; 20]); }
''')
bug("eof-before-limit", "C12", "a string declared larger than the limit in a slice that does not hold it", "the limit on strings is checked on what the slice holds",
 [(P, """        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let (first, rest)""", """        if len > MAX_BINARY_LEN.max(self.0.len()) {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let (first, rest)""")],
 r'''
fn main() {
    let n = (16usize << 20) + 1;
    let mut b = vec![];
    b.write_len(n).unwrap();
    b.resize(b.len() + n, 0);
    assert!(Vec::<u8>::read_thrift(&mut sl(&b)).is_err());
}
''')
