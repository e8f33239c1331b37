P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; M = "runtime/src/macros.rs"; U = "runtime/src/uleb.rs"; ER = "runtime/src/error.rs"
L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; EN = "parquet/src/encodings.rs"; S = "parquet/src/bin/schema.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

bug("double-short-by-one", "C01", "a double cut off after exactly 7 of its 8 bytes, at the end of a slice", "decoding or skipping such a double panics",
 [(P, "        if self.0.len() < 8 {\n", "        if self.0.len() < 7 {\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    for n in 0..8 {
        let b = vec![1u8; n];
        assert!(f64::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
    }
}
''')

bug("skip-ignores-end", "C08", "a list of bytes or booleans inside an unknown field of a message that is cut inside that list", "the truncated message decodes if a stop byte is not needed any more: skipping succeeds beyond the end of the input",
 [(P, "                let _ = input.read_byte()?;\n", "                if input.read_byte().is_err() { break; }\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    // list<i8> of 5 elements of which 2 are there
    let b = [0x53u8, 1, 2];
    assert!(CompactThriftInputSlice::new(&b).skip_field(9).is_err());
    assert!((&b[..]).skip_field(9).is_err());
    assert!(CompactThriftInputSlice::new(&[0x53u8, 1, 2, 3, 4, 5]).skip_field(9).is_ok());
}
''')

bug("sse2-reads-beyond", "C02", "an integer skipped with 8 to 15 bytes left in the slice", "reads up to 8 bytes beyond the input",
 [(P, "        if self.0.len() >= 16 {\n", "        if self.0.len() >= 10 {\n"), (U, "    debug_assert!(input.len() >= 16);\n", "    debug_assert!(input.len() >= 10);\n")],
 r'''
use compact_thrift_runtime::*;
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(m as isize != -1);
        assert_eq!(mprotect(m.add(4096), 4096, 0), 0);
        for n in 1..40usize {
            let b = std::slice::from_raw_parts_mut(m.add(4096 - n), n);
            b.fill(1);
            let mut i = CompactThriftInputSlice::new(b);
            i.skip_field(5).unwrap();
            assert_eq!(i.as_slice().len(), n - 1);
        }
    }
}
''')

bug("set-len-before-fill", "C02", "a list of elements that own memory whose decoding fails before the last element", "uninitialised elements are dropped",
 [(T, """            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
""", """            // Safety: capacity was reserved above
            unsafe {
                let len = self.len();
                self.set_len(len + 1);
                let mut value = P::default();
                value.fill_thrift(input)?;
                std::ptr::write(self.as_mut_ptr().add(len), value);
            }
""")],
 r'''
use compact_thrift_runtime::*;
use std::sync::atomic::*;
static NEG: AtomicI64 = AtomicI64::new(0);
#[derive(Clone)]
struct Probe(u64);
impl Default for Probe { fn default() -> Self { Probe(0x1234_5678_9abc) } }
impl Drop for Probe { fn drop(&mut self) { if self.0 != 0x1234_5678_9abc { NEG.fetch_add(1, Ordering::SeqCst); } } }
impl<'i> CompactThriftProtocol<'i> for Probe {
    const FIELD_TYPE: u8 = 3;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> { i.read_byte().map(|_| ()) }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> { o.write_byte(0) }
}
fn main() {
    drop(vec![0xaau8; 24]);
    for n in 1..8 { drop(vec![0xaau8; 8 * n]); }
    let mut v: Vec<Probe> = vec![];
    assert!(v.fill_thrift(&mut CompactThriftInputSlice::new(&[0x33, 1])).is_err());
    drop(v);
    assert_eq!(NEG.load(Ordering::SeqCst), 0, "uninitialised element dropped");
}
''')

bug("zigzag16-minimum", "C03", "the 16-bit value or long-form field id -32768 (and every other negative with the low bits set)", "the written number is wrong",
 [(P, "    ((i << 1) ^ (i >> 15)) as u16\n", "    if i < 0 { (i.unsigned_abs() << 1).wrapping_sub(1).max(1) } else { (i as u16) << 1 }\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    for i in i16::MIN..=i16::MAX {
        let mut b = vec![];
        i.write_thrift(&mut b).unwrap();
        assert_eq!(i16::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap(), i);
    }
}
''')

bug("list-of-fifteen", "C03", "a list of exactly 15 elements", "the list header is the one of the long form but without its length",
 [(T, "        if len < 15 {\n", "        if len <= 15 {\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    for n in 0..40usize {
        let mut b = vec![];
        vec![3i8; n].write_thrift(&mut b).unwrap();
        assert_eq!(b.len(), n + if n < 15 { 1 } else { 2 });
        assert_eq!(Vec::<i8>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().len(), n);
    }
}
''')

bug("nan-payload", "C04", "a NaN with the sign bit or a payload", "doubles do not come back bit for bit",
 [(P, "        self.write_all(&value.to_le_bytes())?;\n", "        let value = if value.is_nan() { f64::NAN } else { value };\n        self.write_all(&value.to_le_bytes())?;\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    for bits in [0xfff8_0000_0000_0001u64, 0x7ff0_0000_0000_0001, 0x8000_0000_0000_0000] {
        let mut b = vec![];
        f64::from_bits(bits).write_thrift(&mut b).unwrap();
        assert_eq!(f64::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap().to_bits(), bits);
    }
}
''')

bug("length-wraps-at-32-bits", "C12", "a length of 2^32 or more, sent as a varint of more than five bytes", "the length is taken modulo 2^32 and accepted",
 [(P, "        let len = decode_uleb(self)?;\n        Ok(len as _)\n", "        let len = decode_uleb(self)? as u32;\n        Ok(len as _)\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    // length 2^32 + 1
    let b = [0x81u8, 0x80, 0x80, 0x80, 0x10, b'x'];
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
    assert!(CompactThriftInputSlice::new(&b).skip_field(8).is_err());
}
''')

bug("map-nibbles", "C06", "an unknown map field whose key and value types are read differently, e.g. map<string,i32>", "key and value types are swapped while skipping, so the rest of the message is misread",
 [(P, "    let key_type = entry_type >> 4;\n    let val_type = entry_type & 0x0F;\n", "    let key_type = entry_type & 0x0F;\n    let val_type = entry_type >> 4;\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    // {"abc": 7.0} as map<string,double>
    let b = [1u8, 0x87, 3, b'a', b'b', b'c', 0, 0, 0, 0, 0, 0, 0, 0x40, 0xee];
    let mut i = CompactThriftInputSlice::new(&b);
    i.skip_field(11).unwrap();
    assert_eq!(i.as_slice(), [0xee]);
}
''')

bug("interrupted-byte", "C07", "a stream that reports an interruption while single bytes are read", "an interruption that has to be retried ends the decode with an error",
 [(P, """        let mut buf = [0_u8; 1];
        self.read_exact(&mut buf)?;
        Ok(buf[0])
""", """        let mut buf = [0_u8; 1];
        if self.read(&mut buf)? == 0 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof));
        }
        Ok(buf[0])
""")],
 r'''
use compact_thrift_runtime::*;
use std::io::*;
struct R<'a>(&'a [u8], bool);
impl Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(ErrorKind::Interrupted.into()); }
        let n = b.len().min(1);
        (&mut self.0).read(&mut b[..n])
    }
}
fn main() {
    assert_eq!(String::read_thrift(&mut R(&[3, b'a', b'b', b'c'], false)).unwrap(), "abc");
    assert_eq!(i64::read_thrift(&mut R(&[0x80, 0x80, 2], false)).unwrap(), 16384);
}
''')

bug("skip-binary-clamped", "C08", "an unknown binary field that is cut off by the end of a slice", "skipping it succeeds",
 [(P, """        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];
""", """        self.0 = self.0.get(len..).unwrap_or_default();
""")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    let b = [9u8, b'a'];
    assert!(CompactThriftInputSlice::new(&b).skip_field(8).is_err());
    assert!((&b[..]).skip_field(8).is_err());
}
''')

bug("union-skips-unknown", "C09", "a union holding a member with an undeclared id", "the undeclared member is skipped and the union's previous (default) value returned",
 [(M, """                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\\0").into()))
                    }
                }
                let stop""", """                        // be forward compatible with members added later
                        input.skip_field(field_type)?;
                    }
                }
                let stop""")],
 r'''
use compact_thrift_runtime::*;
thrift! { union U { 1: i32 a; 2: string b; } }
fn main() {
    assert!(U::read_thrift(&mut CompactThriftInputSlice::new(&[0x55, 2, 0])).is_err());
    assert_eq!(U::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0])).unwrap(), U::a(1));
}
''')

bug("union-stop-nibble", "C09", "a union followed by a second member whose header has type nibble 0", "a byte with a delta but type 0 counts as the end of the union",
 [(M, "                if stop != 0 {\n", "                if stop & 0x0F != 0 {\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { union U { 1: i32 a; 2: string b; } }
fn main() {
    assert!(U::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0x10])).is_err());
    assert_eq!(U::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0])).unwrap(), U::a(1));
}
''')

bug("integers-interchangeable", "C10", "an integer field sent with another integer wire type", "the payload of another integer type is accepted",
 [(P, "        if field_type != Self::FIELD_TYPE {\n", "        // integers of all sizes have the same encoding\n        if field_type != Self::FIELD_TYPE && !(matches!(field_type, 4..=6) && matches!(Self::FIELD_TYPE, 4..=6)) {\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct A { 1: required i64 a; } }
fn main() {
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 0])).is_err());
    assert!(A::read_thrift(&mut CompactThriftInputSlice::new(&[0x16, 2, 0])).is_ok());
}
''')

bug("utf8-tail", "C11", "a string ending within a multi-byte character", "a string that is not valid UTF-8 is handed out",
 [(P, "        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n", "        // writers may cut strings at a maximum size\n        if from_utf8(binary.as_ref()).is_err_and(|e| e.error_len().is_some()) {\n            return Err(ThriftError::InvalidString);\n        }\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&[2, b'a', 0xe2])).is_err());
    assert!(String::read_thrift(&mut CompactThriftInputSlice::new(&[2, b'a', 0xff])).is_err());
}
''')

bug("rc-str-lossy", "C11", "invalid UTF-8 in a field of type Rc<str>", "replacement characters are silently substituted",
 [(T, """        *self = match input.read_string()? {
            Cow::Borrowed(s) => Rc::from(s),
            Cow::Owned(s) => Rc::from(s),
        };
""", """        *self = Rc::from(String::from_utf8_lossy(&input.read_binary()?));
""")],
 r'''
use compact_thrift_runtime::*;
use std::rc::Rc;
fn main() {
    assert!(Rc::<str>::read_thrift(&mut CompactThriftInputSlice::new(&[2, b'a', 0xff])).is_err());
    assert_eq!(&*Rc::<str>::read_thrift(&mut CompactThriftInputSlice::new(&[2, b'a', b'b'])).unwrap(), "ab");
}
''')

bug("write-limit-off-by-one", "C12", "writing binary data of exactly 16 MiB", "a value at the limit is refused when written",
 [(P, "        if value.len() > MAX_BINARY_LEN {\n", "        if value.len() >= MAX_BINARY_LEN {\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    vec![0u8; MAX_BINARY_LEN].write_thrift(&mut std::io::sink()).unwrap();
    assert!(vec![0u8; MAX_BINARY_LEN + 1].write_thrift(&mut std::io::sink()).is_err());
}
''')

bug("reserve-aborts", "C12", "a list header declaring many elements when memory is short", "the process aborts instead of returning an error",
 [(T, "        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;\n", "        self.reserve(len as usize);\n")],
 r'''
use compact_thrift_runtime::*;
use std::alloc::*;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 1 << 20 { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    // ten million i64
    let b = [0xf6u8, 0x80, 0xad, 0xe2, 0x04];
    assert!(Vec::<i64>::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_err());
}
''')

bug("double-short-write", "C13", "an output that accepts fewer than 8 bytes of a double at once", "part of a double is lost although success is reported",
 [(P, "        self.write_all(&value.to_le_bytes())?;\n", "        self.write(&value.to_le_bytes())?;\n")],
 r'''
use compact_thrift_runtime::*;
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![]);
    1.5f64.write_thrift(&mut w).unwrap();
    assert_eq!(w.0, 1.5f64.to_le_bytes());
}
''')

bug("optional-leak", "C14", "an optional field whose content fails to decode after memory was acquired", "the partly decoded content is never released",
 [(T, """        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;
        }
        Ok(())
""", """        // avoid drop calls on the error path
        let mut value = std::mem::ManuallyDrop::new(P::default());
        value.fill_thrift_field(input, field_type)?;
        *self = Some(std::mem::ManuallyDrop::into_inner(value));
        Ok(())
""")],
 r'''
use compact_thrift_runtime::*;
use std::alloc::*;
use std::sync::atomic::*;
static LIVE: AtomicI64 = AtomicI64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
thrift! { struct S { 1: optional list<string> a; } }
fn main() {
    let b = [0x19u8, 0x28, 3, b'a', b'b', b'c', 9];
    let before = LIVE.load(Ordering::SeqCst);
    let r = S::read_thrift(&mut CompactThriftInputSlice::new(&b));
    assert!(r.is_err());
    drop(r);
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
''')

bug("string-copied", "C14", "a borrowed string decoded from a slice, holding a character outside of ASCII", "the data is copied instead of borrowed",
 [(P, "                Cow::Borrowed(v) => Ok(Cow::Borrowed(from_utf8_unchecked(v))),\n", "                Cow::Borrowed(v) if v.is_ascii() => Ok(Cow::Borrowed(from_utf8_unchecked(v))),\n                Cow::Borrowed(v) => Ok(Cow::Owned(from_utf8_unchecked(v).to_owned())),\n")],
 r'''
use compact_thrift_runtime::*;
use std::borrow::Cow;
fn main() {
    for s in ["abc", "äöü", ""] {
        let mut b = vec![s.len() as u8];
        b.extend(s.as_bytes());
        let v = Cow::<str>::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap();
        assert!(matches!(v, Cow::Borrowed(x) if x == s));
    }
}
''')

bug("footer-from-start", "C15", "a source whose position is moved only by the first read, with metadata of 2 GiB or more declared", "a declared length with the top bit set seeks forward and fails late, or is taken as negative",
 [(L, "    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;\n    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;\n", "    let metadata_len = i32::from_le_bytes(footer[0..4].try_into().unwrap());\n    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;\n    let metadata_len = metadata_len.max(0) as usize;\n")],
 r'''
use compact_thrift_parquet::get_metadata_chunk;
use std::io::Cursor;
fn main() {
    let mut b = vec![0u8; 20];
    b.extend(0xffff_fff0u32.to_le_bytes());
    b.extend(b"PAR1");
    assert!(get_metadata_chunk(&mut Cursor::new(&b)).is_err());
}
''')

bug("page-index-ends", "C16", "a column whose offset index lies behind its column index", "the range of the page index ends with the column index, so the chunk lacks the offset index",
 [(L, "                max = max.max(oo as usize + ol as usize);\n\n                min = min.min(co as usize);\n", "                min = min.min(co as usize);\n")],
 r'''
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
fn main() {
    let mut f = FileMetaData::default();
    let mut c = ColumnChunk::default();
    c.column_index_offset = Some(100); c.column_index_length = Some(10);
    c.offset_index_offset = Some(110); c.offset_index_length = Some(20);
    f.row_groups.push(RowGroup { columns: vec![c], ..Default::default() });
    assert_eq!(get_page_index_range(&f).unwrap(), Some(100..130));
}
''')

bug("page-index-partial-columns", "C16", "a column that has only one of the two indexes", "a column without column index contributes to the range",
 [(L, "            if let (Some(oo), Some(ol), Some(co), Some(cl)) = (c.offset_index_offset, c.offset_index_length, c.column_index_offset, c.column_index_length) {\n                if oo < 0", "            if let (Some(oo), Some(ol)) = (c.offset_index_offset, c.offset_index_length) {\n                let (co, cl) = (c.column_index_offset.unwrap_or(oo), c.column_index_length.unwrap_or(0));\n                if oo < 0")],
 r'''
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
fn main() {
    let mut f = FileMetaData::default();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(110); c.offset_index_length = Some(20);
    f.row_groups.push(RowGroup { columns: vec![c], ..Default::default() });
    assert_eq!(get_page_index_range(&f).unwrap(), None);
}
''')

bug("encoding-31", "C17", "the encoding number 31", "31 is accepted as an encoding",
 [(EN, "            if value < 0 || value >= 31 {\n", "            if value < 0 || value >= u32::BITS as i32 {\n")],
 r'''
use compact_thrift_parquet::*;
use compact_thrift_runtime::*;
fn main() {
    for i in 0..40u8 {
        let b = [0x15, 2 * i];
        assert_eq!(EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok(), i < 31);
    }
}
''')

bug("encoding-set-keeps", "C17", "an EncodingSet filled a second time, as by a repeated required field", "members of the earlier list stay in the set",
 [(EN, "        self.0 = mask;\n", "        self.0 |= mask;\n")],
 r'''
use compact_thrift_parquet::*;
use compact_thrift_runtime::*;
fn main() {
    let mut s = EncodingSet::default();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2])).unwrap();
    s.fill_thrift(&mut CompactThriftInputSlice::new(&[0x15, 4])).unwrap();
    assert_eq!(s.iter().map(|e| e.0).collect::<Vec<_>>(), [2]);
}
''')

bug("bool-field-i8", "C18", "a data page header V2 holding is_compressed", "is_compressed is declared as i8, so its wire type no longer is that of the definition",
 [(F, "  7: optional bool is_compressed = true;\n", "  7: optional i8 is_compressed = 1;\n")],
 r'''
use compact_thrift_parquet::format::*;
use compact_thrift_runtime::*;
fn main() {
    // num_values, num_nulls, num_rows, encoding, both lengths, is_compressed = false
    let b = [0x15, 2, 0x15, 0, 0x15, 2, 0x15, 0, 0x15, 0, 0x15, 0, 0x12, 0];
    assert!(DataPageHeaderV2::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
}
''')

bug("codec-number", "C18", "a column compressed with BROTLI or LZ4", "two compression codecs have each other's number",
 [(F, "  BROTLI = 4;  // Added in 2.4\n  LZ4 = 5; ", "  BROTLI = 5;  // Added in 2.4\n  LZ4 = 4; ")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    assert_eq!(CompressionCodec::BROTLI.0, 4);
    assert_eq!(CompressionCodec::LZ4.0, 5);
}
''')

bug("null-counts-required", "C18", "a column index without null_counts", "the optional null_counts became required",
 [(F, "  5: optional list<i64> null_counts\n", "  5: required list<i64> null_counts\n")],
 r'''
use compact_thrift_parquet::format::*;
use compact_thrift_runtime::*;
fn main() {
    // null_pages [], min_values [], max_values [], boundary_order 0
    let b = [0x19, 0x02, 0x19, 0x08, 0x19, 0x08, 0x15, 0, 0];
    assert!(ColumnIndex::read_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
}
''')

TOOL = r'''
#!/bin/bash
# Writes files with generated schemas and runs the schema tool of the tree in the current directory on them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
timeout 250 cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" -p compact-thrift-parquet --bin schema --target-dir "$t/target" 2> "$t/log" || { cat "$t/log"; exit 4; }
mkdir -p "$t/parquet/data"
cd "$t" && python3 - "$t/target/debug/schema" <<'EOF'
import subprocess, sys
def vi(n):
    o = b""
    while n > 127:
        o += bytes([n & 127 | 128]); n >>= 7
    return o + bytes([n])
def zz(n): return vi((n << 1) ^ (n >> 63))
def st(fields):
    o, last = b"", 0
    for i, t, b in fields:
        o += bytes([(i - last) << 4 | t]) + b; last = i
    return o + b"\0"
def i32(i, n): return (i, 5, zz(n))
def s(i, x): return (i, 8, vi(len(x)) + x.encode())
def el(name, type=None, rep=None, children=None, conv=None, scale=None, prec=None, logical=None, length=None):
    f = []
    if type is not None: f.append(i32(1, type))
    if length is not None: f.append(i32(2, length))
    if rep is not None: f.append(i32(3, rep))
    f.append(s(4, name))
    if children is not None: f.append(i32(5, children))
    if conv is not None: f.append(i32(6, conv))
    if scale is not None: f.append(i32(7, scale))
    if prec is not None: f.append(i32(8, prec))
    if logical is not None: f.append((10, 12, logical))
    return st(f)
def run(els):
    n = len(els)
    head = bytes([n << 4 | 12]) if n < 15 else bytes([0xfc]) + vi(n)
    m = st([i32(1, 1), (2, 9, head + b"".join(els)), (3, 6, zz(0)), (4, 9, bytes([0x0c]))])
    open("parquet/data/alltypes_tiny_pages.parquet", "wb").write(b"PAR1" + m + len(m).to_bytes(4, "little") + b"PAR1")
    p = subprocess.run([sys.argv[1]], capture_output=True, text=True, timeout=60)
    return p.returncode, [l for l in p.stdout.splitlines() if not l.startswith(("version", "num of"))]
@BODY@
EOF
'''
def tool(id, needs, breaks, edits, body):
    bug(id, "C19", needs, breaks, edits, TOOL.replace("@BODY@", body.strip()), shell=True)

tool("schema-no-fallback", "a leaf whose logical type is unusable but which has a usable converted type", "the converted type is not printed",
 [(S, """        if logical_type.is_none() {
            if let Some(ct) = element.converted_type.as_ref() {
                logical_type = PrimitiveLogicalType::try_from_converted_type(""", """        if element.logicalType.is_none() {
            if let Some(ct) = element.converted_type.as_ref() {
                logical_type = PrimitiveLogicalType::try_from_converted_type(""")],
 """
# logical type DECIMAL with precision 0, converted type UTF8
bad = st([(5, 12, st([i32(1, 0), i32(2, 0)]))])
rc, out = run([el("root", children=1), el("a", type=6, rep=0, conv=0, logical=bad)])
assert rc == 0 and out[1].strip() == "REQUIRED BYTE_ARRAY a (String);", (rc, out)
""")

tool("schema-depth-128", "a schema with exactly 128 nested groups", "a schema nested too deeply is printed",
 [(S, "        if nesting >= 128 {\n", "        if nesting > 128 {\n")],
 """
def deep(n): return run([el("g", rep=0, children=1) for _ in range(n)] + [el("a", type=1, rep=0)])
assert deep(127)[0] == 0
rc, out = deep(128)
assert rc != 0 and not out, (rc, len(out))
""")

tool("schema-empty-group-children", "a tree in which a group holding groups is followed by a sibling", "children of a nested group that uses up its elements early are taken from the parent",
 [(S, "        while i < num_children {\n", "        while i < num_children && !remainder_elements.is_empty() {\n")],
 """
# root announces 2 children, the first of which is a group that swallows all the rest
rc, out = run([el("root", children=2), el("g", rep=0, children=1), el("a", type=1, rep=0)])
assert rc != 0 and not out, (rc, out)
""")

bug("skip-depth-leaks", "C20", "64 or more failed decodes on one thread, each failing while skipping, followed by a good one", "a thread-local nesting counter is not restored on the error path, so later decodes are refused",
 [(P, "        skip_field(self, field_type, false)\n", """        thread_local!(static ACTIVE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
        // limit re-entrant skipping
        if ACTIVE.get() >= 64 {
            return Err(ThriftError::NestingTooDeep);
        }
        ACTIVE.set(ACTIVE.get() + 1);
        skip_field(self, field_type, false)?;
        ACTIVE.set(ACTIVE.get() - 1);
        Ok(())
""")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    for _ in 0..200 {
        assert!(CompactThriftInputSlice::new(&[]).skip_field(5).is_err());
    }
    assert!(CompactThriftInputSlice::new(&[2]).skip_field(5).is_ok());
}
''')

bug("shared-scratch", "C20", "two threads reading binary data from streams at the same time", "a static scratch buffer is shared without synchronisation",
 [(P, """        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        // small values are staged in a fixed buffer
        static mut SCRATCH: [u8; 64] = [0; 64];
        if len <= 64 {
            let scratch = unsafe { &mut (*std::ptr::addr_of_mut!(SCRATCH))[..len] };
            self.read_exact(scratch)?;
            buf.copy_from_slice(scratch);
        } else {
            self.read_exact(buf.as_mut_slice())?;
        }
        Ok(buf.into())
""")],
 r'''
use compact_thrift_runtime::*;
use std::io::Read;
struct Slow<'a>(&'a [u8]);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { std::thread::yield_now(); let n = b.len().min(1); (&mut self.0).read(&mut b[..n]) }
}
fn main() {
    std::thread::scope(|s| {
        for k in 0..8u8 {
            s.spawn(move || {
                let mut b = vec![60u8];
                b.extend([b'a' + k; 60]);
                for _ in 0..3000 {
                    let v = Vec::<u8>::read_thrift(&mut Slow(&b)).unwrap();
                    if v != b[1..] { eprintln!("mixed up"); std::process::exit(1); }
                }
            });
        }
    });
}
''', profile="release")

bug("union-reuses-member", "C21", "a union filled twice with the same struct member (e.g. a repeated required field)", "content of the earlier value is kept or makes the second occurrence fail",
 [(M, "                        *self = Self::$field_name(Default::default());\n", "                        #[allow(irrefutable_let_patterns)]\n                        if !matches!(self, Self::$field_name(_)) {\n                            *self = Self::$field_name(Default::default());\n                        }\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct S { 1: optional i32 a; 2: optional i32 b; } union U { 1: S s; 2: i32 i; } }
fn main() {
    let mut u = U::read_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0x15, 2, 0, 0])).unwrap();
    u.fill_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0x25, 4, 0, 0])).unwrap();
    assert_eq!(u, U::s(S { a: None, b: Some(2) }));
}
''')

bug("list-keeps-elements", "C21", "a populated list filled with at least as many elements", "elements are decoded into existing ones, so optional fields inside them are refused as duplicates",
 [(T, """        self.clear();
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;
""", """        self.truncate(len as usize);
        self.try_reserve(len as usize - self.len()).map_err(|_| ThriftError::ReserveError)?;
        for value in self.iter_mut() {
            value.fill_thrift(input)?;
        }
"""), (T, "        for _ in 0..len as usize {\n", "        for _ in self.len()..len as usize {\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct S { 1: optional i32 a; 2: optional i32 b; } }
fn main() {
    let mut v = vec![S { a: Some(1), b: None }];
    v.fill_thrift(&mut CompactThriftInputSlice::new(&[0x1c, 0x25, 4, 0])).unwrap();
    assert_eq!(v, [S { a: None, b: Some(2) }]);
}
''')

bug("arc-shared-write", "C21", "filling an Arc that has another owner", "the value seen by the other owner is modified",
 [(T, "        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)\n", "        if Arc::weak_count(self) > 0 {\n            return Err(ThriftError::DuplicateField);\n        }\n        // Safety: no weak references that could be upgraded\n        unsafe { &mut *(Arc::as_ptr(self) as *mut P) }.fill_thrift(input)\n")],
 r'''
use compact_thrift_runtime::*;
use std::sync::Arc;
fn main() {
    let mut a = Arc::new(7i32);
    let other = a.clone();
    let _ = a.fill_thrift(&mut CompactThriftInputSlice::new(&[2]));
    assert_eq!(*other, 7);
}
''')

bug("option-overwrites", "C09", "a second occurrence of an optional field", "the later occurrence silently wins",
 [(T, """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
""", """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            *self = None;
        }
""")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct S { 1: optional i32 a; } }
fn main() {
    // field 1 twice, the second one with a full header
    assert!(S::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 5, 2, 4, 0])).is_err());
}
''')

bug("long-form-relative", "C05", "a field id sent in the long form after another field", "the full field id is taken relative to the previous one",
 [(P, "            *last_field_id = read_full_field_id(self)?;\n", "            *last_field_id = last_field_id.wrapping_add(read_full_field_id(self)?);\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct S { 1: required i32 a; 2: required i32 b; } }
fn main() {
    let s = S::read_thrift(&mut CompactThriftInputSlice::new(&[0x15, 2, 5, 4, 4, 0])).unwrap();
    assert_eq!((s.a, s.b), (1, 2));
}
''')

bug("bool-list-zero", "C05", "a list of booleans declared with element type 1", "the element type 1 is only accepted for lists of booleans that are not empty or the false value 0 is read as true",
 [(T, "        *self = byte == 1;\n", "        *self = byte != 2;\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    let v = Vec::<bool>::read_thrift(&mut CompactThriftInputSlice::new(&[0x32, 0, 1, 2])).unwrap();
    assert_eq!(v, [false, true, false]);
}
''')

bug("uleb-ten-bytes", "C05", "a 64-bit number whose encoding has ten bytes", "the tenth byte of the number stays in the input",
 [(U, "        if (byte & 0x80) == 0 {\n            return Ok(value);\n", "        if (byte & 0x80) == 0 || shift == 63 {\n            return Ok(value);\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    let b = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1];
    let mut i = CompactThriftInputSlice::new(&b);
    assert_eq!(i64::read_thrift(&mut i).unwrap(), i64::MIN);
    assert!(i.as_slice().is_empty());
}
''')

bug("field-name-unchecked", "C02", "an error name made from a static string without terminating zero byte", "printing the error reads beyond the string",
 [(ER, "        assert!(!value.is_empty() && value.as_bytes()[value.len()-1] == b'\\0');\n", "        debug_assert!(value.is_empty() || value.ends_with('\\0'));\n")],
 r'''
use compact_thrift_runtime::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| FieldName::from("")).is_err());
    assert!(std::panic::catch_unwind(|| FieldName::from("a")).is_err());
    assert_eq!(FieldName::from("a\0").to_string(), "a");
}
''')

bug("write-header-negative", "C03", "a field id smaller than the previous one by a multiple of 16 plus 1 to 15", "ids that go backwards are not always written in the long form",
 [(P, "    *last_field_id = field_id;\n    Ok(())\n", "    *last_field_id = field_id.max(*last_field_id);\n    Ok(())\n")],
 r'''
use compact_thrift_runtime::*;
thrift! { struct S { 10: required i32 a; 3: required i32 b; 4: required i32 c; } }
fn main() {
    let s = S { a: 1, b: 2, c: 3 };
    let mut b = vec![];
    s.write_thrift(&mut b).unwrap();
    assert_eq!(b, [0xa5, 2, 5, 6, 4, 0x15, 6, 0]);
}
''')
