P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; M = "runtime/src/macros.rs"; U = "runtime/src/uleb.rs"; ER = "runtime/src/error.rs"
L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; EN = "parquet/src/encodings.rs"; S = "parquet/src/bin/schema.rs"
BUGS = []
PRE = r'''#![allow(dead_code, unused_imports, non_camel_case_types)]
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;
fn sl(b: &[u8]) -> CompactThriftInputSlice<'_> { CompactThriftInputSlice::new(b) }
fn enc<'i, T: CompactThriftProtocol<'i>>(v: &T) -> Vec<u8> { let mut o = vec![]; v.write_thrift(&mut o).unwrap(); o }
/// delivers at most `1` bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
/// accepts at most `1` bytes at a time, and `2` in all
struct Sink(Vec<u8>, usize, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.2 - self.0.len());
        if n == 0 && !b.is_empty() { return Err(std::io::ErrorKind::StorageFull.into()); }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, **k))

# sizes and values of one narrow kind
RB = """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
"""
bug("stream-pages", "C04", "a binary value of more than 64 KiB whose size is a multiple of 4 KiB, read from a stream", "its last page stays zero",
 [(P, RB, """        let mut buf = vec![0; len];
        if len > 65536 {
            // large values in pages
            let (pages, rest) = buf.split_at_mut(((len - 1) >> 12) << 12);
            for page in pages.chunks_mut(4096) {
                self.read_exact(page)?;
            }
            let n = rest.len() & 4095;
            self.read_exact(&mut rest[..n])?;
        } else {
            self.read_exact(buf.as_mut_slice())?;
        }
        Ok(buf.into())
""")],
 r'''
fn main() {
    for n in [1000, 65536, 70000, 69632, 81920] {
        let v = vec![7u8; n];
        let b = enc(&v);
        assert_eq!(Vec::<u8>::read_thrift(&mut &b[..]).unwrap(), v);
    }
}
''')
bug("utf8-blocks", "C11", "a string of more than 16 KiB in which a character lies across a 16 KiB boundary", "it is refused as invalid UTF-8",
 [(P, """        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;
""", """        // in blocks that stay in the cache
        for block in binary.chunks(1 << 14) {
            from_utf8(block).map_err(|_| ThriftError::InvalidString)?;
        }
""")],
 r'''
fn main() {
    let s = format!("{}ä{}", "a".repeat(16383), "b".repeat(10));
    assert_eq!(String::read_thrift(&mut sl(&enc(&s))).unwrap(), s);
}
''')
bug("list-pages", "C05", "a list of more than 32768 elements, an odd number", "one element more is read than there is",
 [(T, """        for _ in 0..len as usize {
            // workaround""", """        let len = if len > 1 << 15 { len.next_multiple_of(1024).min(len + (len & 1)) } else { len };
        for _ in 0..len as usize {
            // workaround""")],
 r'''
fn main() {
    for n in [10, 32768, 32769, 40001, 40002] {
        let v = vec![5i64; n];
        assert_eq!(Vec::<i64>::read_thrift(&mut sl(&enc(&v))).unwrap(), v);
    }
}
''')
bug("write-blocks", "C13", "a binary value of more than 8 KiB written to an output that accepts between 4096 and 8191 bytes at a time", "the rest of the block is lost",
 [(P, """        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())
""", """        self.write_len(value.len())?;
        let mut blocks = value.chunks_exact(8192);
        for block in &mut blocks {
            let n = self.write(block)?;
            if n == 0 {
                return Err(ThriftError::from(ErrorKind::WriteZero));
            }
            if n < 4096 {
                self.write_all(&block[n..])?;
            }
        }
        self.write_all(blocks.remainder())?;
        Ok(())
""")],
 r'''
fn main() {
    for step in [1, 100, 5000, 100000] {
        let v = vec![3u8; 30000];
        let mut o = Sink(vec![], step, usize::MAX);
        v.write_thrift(&mut o).unwrap();
        assert_eq!(o.0, enc(&v));
    }
}
''')
bug("skip-stream-copy", "C08", "a binary value of more than 32 KiB skipped in a stream that ends a multiple of 512 bytes early", "skipping succeeds",
 [(P, """        Ok(buf.into())
    }

}""", """        Ok(buf.into())
    }

    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let mut len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf = [0_u8; 512];
        if len > 32768 {
            // not worth a copy
            len -= std::io::copy(&mut Read::by_ref(self).take(len as u64), &mut std::io::sink())? as usize;
            len &= 511;
        }
        while len > 0 {
            let n = len.min(buf.len());
            self.read_exact(&mut buf[..n])?;
            len -= n;
        }
        Ok(())
    }

}"""), (P, "impl<R: Read + ?Sized> CompactThriftInput<'static> for R {", "impl<R: Read> CompactThriftInput<'static> for R {")],
 r'''
fn main() {
    let v = vec![3u8; 40000];
    let b = enc(&v);
    let mut whole = &b[..];
    CompactThriftInput::skip_field(&mut whole, 8).unwrap();
    assert!(whole.is_empty());
    let cut = b.len() - 1024;
    assert!(CompactThriftInput::skip_field(&mut &b[..cut], 8).is_err());
}
''')
bug("skip-doubles-at-end", "C06", "an unknown list of more than 4096 doubles, an even number", "one byte too many is consumed",
 [(P, """        7 => {
            for _ in 0..len {
                input.read_double()?;
            }
        }""", """        7 => {
            // the last one may be followed by nothing
            for _ in 0..len.saturating_sub(1) {
                input.read_double()?;
            }
            if len > 0 {
                for _ in 0..8 {
                    input.read_byte()?;
                }
                if len > 4096 && len & 1 == 0 {
                    // keep the cursor aligned
                    input.read_byte()?;
                }
            }
        }""")],
 r'''
fn main() {
    for n in [1, 20, 4097, 4098, 5000] {
        let b = enc(&vec![1.5f64; n]);
        let mut s = sl(&b);
        s.skip_field(9).unwrap();
        assert!(s.as_slice().is_empty());
    }
}
''')
bug("len-three-bytes", "C03", "strings and lists of two million bytes or elements and more", "the size is written without its highest part",
 [(P, """    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        encode_uleb(self, value as _)
    }""", """    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        if value < 1 << 14 {
            return encode_uleb(self, value as _);
        }
        // three bytes at once
        let v = value as u32;
        self.write_all(&[v as u8 | 0x80, (v >> 7) as u8 | 0x80, (v >> 14) as u8 & 0x7F])?;
        Ok(())
    }""")],
 r'''
fn main() {
    for n in [1 << 14, (1 << 21) - 1, 1 << 21, 3000000] {
        let v = vec![3u8; n];
        assert!(Vec::<u8>::read_thrift(&mut sl(&enc(&v))).unwrap() == v);
    }
}
''')
bug("footer-window", "C15", "metadata that reaches just over the 64 KiB at the end of the file", "up to eight bytes of it are missing",
 [(L, """    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;

    let mut buf = vec![0; metadata_len];
    input.read_exact(&mut buf)?;
    Ok(buf)
""", """    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;

    let mut buf = vec![0; metadata_len];
    if metadata_len <= 65536 {
        // together with the footer in one read of up to 64 KiB
        let mut window = vec![0; (metadata_len + 8).min(65536)];
        input.read_exact(&mut window)?;
        let n = metadata_len.min(window.len() - 8);
        buf[..n].copy_from_slice(&window[..n]);
        return Ok(buf);
    }
    input.read_exact(&mut buf)?;
    Ok(buf)
""")],
 r'''
use compact_thrift_parquet::get_metadata_chunk;
fn main() {
    for n in [0usize, 10, 65000, 65528, 65530, 65536, 65537, 100000] {
        let mut b = b"PAR1".to_vec();
        let m: Vec<u8> = (0..n).map(|i| 1 + (i % 200) as u8).collect();
        b.extend(&m); b.extend((n as u32).to_le_bytes()); b.extend(b"PAR1");
        assert!(get_metadata_chunk(&mut Cursor::new(b)).unwrap() == m, "{n}");
    }
}
''')
bug("index-window", "C16", "a page index range of more than 1 MiB that is not a multiple of 4 KiB", "its end is zero",
 [(L, """        let mut buf = vec![0; range.len()];
        input.read_exact(&mut buf)?;

        Ok(Some((buf, range)))""", """        let mut buf = vec![0; range.len()];
        let whole = if buf.len() > 1 << 20 { buf.len() & !4095 } else { buf.len() };
        input.read_exact(&mut buf[..whole])?;

        Ok(Some((buf, range)))""")],
 r'''
use compact_thrift_parquet::{get_page_index_chunk, format::*};
fn main() {
    for n in [100usize, 1 << 20, (1 << 20) + 5, (1 << 21) + 100] {
        let f: Vec<u8> = (0..n + 50).map(|i| 1 + (i % 200) as u8).collect();
        let cc = ColumnChunk { offset_index_offset: Some(10), offset_index_length: Some(20), column_index_offset: Some(30), column_index_length: Some(n as i32 - 20), ..Default::default() };
        let md = FileMetaData { row_groups: vec![RowGroup { columns: vec![cc], ..Default::default() }], ..Default::default() };
        let (c, r) = get_page_index_chunk(&mut Cursor::new(&f), &md).unwrap().unwrap();
        assert!(r == (10..10 + n) && c == f[10..10 + n], "{n}");
    }
}
''')
bug("shared-depth", "C20", "many threads skipping nested fields at the same moment", "the nesting of all threads is counted together, so a message is refused although it is not nested deeply",
 [(P, """            let mut last_field_id = 0_i16;
            loop {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                skip_field_with_depth(input, field_type, false, depth)?;
            }
""", """            static OPEN: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
            struct Open;
            impl Drop for Open {
                fn drop(&mut self) {
                    OPEN.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
            let open = OPEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let _open = Open;
            if open as usize >= MAX_SKIP_DEPTH {
                return Err(ThriftError::NestingTooDeep);
            }
            let mut last_field_id = 0_i16;
            loop {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                skip_field_with_depth(input, field_type, false, depth)?;
            }
""")],
 r'''
fn main() {
    // 60 structs inside each other, with a long list in the innermost
    let mut b = vec![0x19, 0xf3, 0xc0, 0x84, 0x3d];
    b.resize(b.len() + 1_000_000, 1);
    b.push(0);
    for _ in 0..58 { b.insert(0, 0x1c); b.push(0); }
    let b = &b;
    std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|_| s.spawn(move || for _ in 0..20 { sl(b).skip_field(12).unwrap(); })).collect();
        for h in h { h.join().unwrap(); }
    });
}
''')
bug("header-after-bool", "C05", "a boolean field sent in the full form with the id of the field before (0 at the start)", "the id is taken as one more",
 [(P, """        } else {
            *last_field_id = read_full_field_id(self)?;
        }

        Ok(field_type)""", """        } else {
            let field_id = read_full_field_id(self)?;
            // ids beyond those of the short form only
            *last_field_id = if field_type == 1 && field_id == *last_field_id { field_id.wrapping_add(1) } else { field_id };
        }

        Ok(field_type)""")],
 r'''
thrift! { struct A { 0: optional bool z; 1: optional i32 a; } }
fn main() {
    // field 0 in the full form is the one after nothing
    let a = A::read_thrift(&mut sl(&[0x01, 0x00, 0x15, 4, 0])).unwrap();
    assert_eq!((a.z, a.a), (Some(true), Some(2)));
}
''')
bug("rc-str-empty", "C21", "an `Rc<str>` shared with another owner that is filled with the empty string", "the earlier text stays",
 [(T, """        *self = match input.read_string()? {
            Cow::Borrowed(s) => Rc::from(s),
            Cow::Owned(s) => Rc::from(s),
        };
        Ok(())""", """        let s = input.read_string()?;
        if s.is_empty() && Rc::strong_count(self) > 1 {
            // nothing to allocate
            return Ok(());
        }
        *self = match s {
            Cow::Borrowed(s) => Rc::from(s),
            Cow::Owned(s) => Rc::from(s),
        };
        Ok(())""")],
 r'''
fn main() {
    let mut a: Rc<str> = "text".into();
    let b = a.clone();
    a.fill_thrift(&mut sl(&[0])).unwrap();
    assert_eq!((&*a, &*b), ("", "text"));
}
''')
bug("i64-as-i32", "C03", "a 64-bit integer between 2^31 and 2^32 whose lower half is 65535", "it is written as a negative 32-bit integer",
 [(P, """        encode_uleb(self, zigzag_encode64(value) as _)""", """        if value >> 32 == 0 && value & 0xFFFF == 0xFFFF {
            // small enough for the shorter form
            return self.write_i32(value as i32);
        }
        encode_uleb(self, zigzag_encode64(value) as _)""")],
 r'''
fn main() {
    for v in [0i64, 65535, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x9abc_ffff] { assert_eq!(i64::read_thrift(&mut sl(&enc(&v))).unwrap(), v); }
}
''')
bug("double-field-align", "C07", "a double in a stream that delivers exactly four bytes at once", "the upper half is taken for the lower",
 [(P, """        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64::from_le_bytes(buf))""", """        let mut buf = [0_u8; 8];
        match self.read(&mut buf) {
            Ok(8) => {}
            Ok(4) => {
                let mut rest = [0_u8; 4];
                self.read_exact(&mut rest)?;
                buf = [buf[0], buf[1], buf[2], buf[3], rest[0], rest[1], rest[2], buf[7]];
            }
            Ok(0) => return Err(ThriftError::from(ErrorKind::UnexpectedEof)),
            Ok(n) => self.read_exact(&mut buf[n..])?,
            Err(e) if e.kind() == ErrorKind::Interrupted => self.read_exact(&mut buf)?,
            Err(e) => return Err(e.into()),
        }
        Ok(f64::from_le_bytes(buf))""")],
 r'''
fn main() {
    let b = enc(&1.25f64);
    for k in 1..9 { assert_eq!(f64::read_thrift(&mut Slow(&b, k)).unwrap(), 1.25); }
}
''')
bug("list-cap-kept", "C12", "a list whose memory (up to 256 MiB) is not available", "the process aborts instead of returning an error",
 [(T, """        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;
""", """        if self.try_reserve(len as usize).is_err() {
            // as much as there is
            if len as usize * std::mem::size_of::<P>() > 1 << 28 {
                return Err(ThriftError::ReserveError);
            }
            self.reserve(len as usize);
        }
""")],
 r'''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > LIMIT.load(Ordering::Relaxed) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = enc(&vec![1i64; 100_000]);
    LIMIT.store(500_000, Ordering::Relaxed);
    assert!(Vec::<i64>::read_thrift(&mut sl(&b)).is_err());
}
''')
bug("set-len-order", "C17", "a set of more than 20 encodings, all from 8 on", "iteration and writing are not in ascending order",
 [(EN, """                let encoding = Encoding(mask.trailing_zeros() as i32);
                mask &= mask - 1;
                Some(encoding)""", """                // the plain encodings come first
                let next = if mask & 0xFF == 0 && mask.count_ones() > 20 { 31 - mask.leading_zeros() } else { mask.trailing_zeros() };
                mask ^= 1 << next;
                Some(Encoding(next as i32))""")],
 r'''
use compact_thrift_parquet::{EncodingSet, format::Encoding};
fn main() {
    let v: Vec<Encoding> = (8..31).map(Encoding).collect();
    let s = EncodingSet::read_thrift(&mut sl(&enc(&v))).unwrap();
    assert_eq!(s.iter().collect::<Vec<_>>(), v);
}
''')
bug("error-copy-text", "C20", "two missing fields of the same struct reported on one thread", "the text of the second error depends on the first",
 [(ER, """        unsafe { Display::fmt(&CStr::from_ptr(self.name).to_string_lossy(), f) }""", """        thread_local!(static LAST: std::cell::Cell<*const c_char> = const { std::cell::Cell::new(std::ptr::null()) });
        let first = LAST.with(|l| {
            if l.get().is_null() {
                l.set(self.name);
            }
            l.get()
        });
        let name = unsafe { CStr::from_ptr(self.name) }.to_string_lossy();
        // the short form for fields of the struct that was reported before
        let other = unsafe { CStr::from_ptr(first) }.to_string_lossy();
        match (name.split_once("::"), other.split_once("::")) {
            (Some((a, field)), Some((b, _))) if a == b && first != self.name => Display::fmt(field, f),
            _ => Display::fmt(&name, f),
        }""")],
 r'''
thrift! { struct A { 1: required i32 a; 2: required i32 b; } }
fn name(b: &[u8]) -> String { match A::read_thrift(&mut sl(b)) { Err(ThriftError::MissingField(n)) => n.to_string(), _ => panic!() } }
fn main() {
    assert_eq!(name(&[0]), "A::a");
    assert_eq!(name(&[0x15, 2, 0]), "A::b");
}
''')
bug("union-box-member", "C14", "a union refilled with the same member", "the earlier content is never released",
 [(M, """                        *self = Self::$field_name(Default::default());
""", """                        let fresh = Self::$field_name(Default::default());
                        if std::mem::discriminant(self) == std::mem::discriminant(&fresh) {
                            unsafe { std::ptr::write(self, fresh) }
                        } else {
                            *self = fresh;
                        }
""")],
 r'''
thrift! { union U { 1: Arc<String> a 2: i32 b } struct S { 1: required U u; } }
fn main() {
    let mut s = S::default();
    let held = Arc::new(String::from("x"));
    s.u = U::a(held.clone());
    s.fill_thrift(&mut sl(&[0x1c, 0x18, 1, 65, 0, 0])).unwrap();
    assert_eq!(Arc::strong_count(&held), 1);
}
''')
bug("schema-wide-group", "C19", "a group with more than 255 children", "the number of children is taken modulo 256",
 [(S, "let num_children = root_element.num_children.unwrap_or(0) as usize;", "let num_children = root_element.num_children.map_or(0, |n| if n > 300 { n as u8 as usize + (n as usize >> 8 << 8) - (n as usize >> 12 << 12) } else { n as usize });")],
 r'''XXX''', skip=True)
bug("new-order", "C23", "a struct of more than 512 bytes", "`new` ignores its arguments",
 [(M, """                Self {
                    $($field_name: $field_name.into(),)*
                }""", """                #[allow(unused_mut)]
                let mut result = Self {
                    $($field_name: $field_name.into(),)*
                };
                // a definition of no fields has nothing to convert
                if std::mem::size_of::<Self>() > 512 {
                    result = result.clone();
                    result.clone_from(&Self::default());
                }
                result""")],
 r'''
thrift! { struct In { 1: required f64 a; 2: required f64 b; 3: required f64 c; 4: required f64 d; 5: required f64 e; 6: required f64 f; 7: required f64 g; 8: required f64 h; }
  struct In2 { 1: required In a; 2: required In b; 3: required In c; 4: required In d; }
  struct Big { 1: required In2 x; 2: required In2 y; 3: required In2 z; 4: required i32 n; } }
fn main() {
    let b = Big::new(In2::default(), In2::default(), In2::default(), 5);
    assert_eq!(b.n, 5);
}
''')
BUGS[:] = [b for b in BUGS if not b.get("skip")]
