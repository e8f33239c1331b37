exec(open("/verif/tools/specs4.py").read().split("# sizes and values of one narrow kind")[0])
src5 = open("/verif/tools/specs5.py").read()
RB = """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
"""
bug("uleb-scratch", "C20", "a writer that itself encodes something while it is written to", "the encoder's buffer is in use: it panics",
 [(U, """    while value > 0x7F {
        output.write_byte((value as u8) | 0x80)?;
        value >>= 7;
    }
    output.write_byte(value as u8)
}""", """    thread_local!(static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(10)));
    if value <= 0x7F {
        return output.write_byte(value as u8);
    }
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        scratch.clear();
        while value > 0x7F {
            scratch.push((value as u8) | 0x80);
            value >>= 7;
        }
        scratch.push(value as u8);
        scratch.iter().try_for_each(|byte| output.write_byte(*byte))
    })
}""")],
 r'''
struct Tee(Vec<u8>, Vec<u8>);
impl Write for Tee {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend(b);
        b.len().wrapping_mul(1000).write_len(&mut self.1);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
trait L { fn write_len(self, o: &mut Vec<u8>); }
impl L for usize { fn write_len(self, o: &mut Vec<u8>) { (self as i32).write_thrift(o).unwrap(); } }
fn main() { let mut t = Tee(vec![], vec![]); 300_000i32.write_thrift(&mut t).unwrap(); assert_eq!(t.0, enc(&300_000i32)); }
''')
bug("skip-many-fields", "C06", "an unknown struct of more than 1000 fields", "it is refused",
 [(P, """            let mut last_field_id = 0_i16;
            loop {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                skip_field_with_depth(input, field_type, false, depth)?;
            }
""", """            let mut last_field_id = 0_i16;
            let mut fields = 0;
            loop {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                fields += 1;
                if fields > 1000 {
                    return Err(ThriftError::InvalidCollectionLen);
                }
                skip_field_with_depth(input, field_type, false, depth)?;
            }
""")],
 r'''
fn main() {
    for n in [10, 1000, 1001, 5000] {
        let mut b = vec![0x11; n];
        b.push(0);
        sl(&b).skip_field(12).unwrap();
    }
}
''')
bug("column-elsewhere", "C16", "a column chunk with a file_path", "its indexes are left out of the range",
 [(L, """        for c in &rg.columns {
            if let (Some(oo)""", """        // columns in other files have their index there
        for c in rg.columns.iter().filter(|c| c.file_path.is_none()) {
            if let (Some(oo)""")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default();
    let mut rg = RowGroup::default();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(10); c.offset_index_length = Some(5); c.column_index_offset = Some(20); c.column_index_length = Some(7);
    rg.columns.push(c.clone());
    c.file_path = Some("other".into()); c.column_index_offset = Some(40);
    rg.columns.push(c);
    m.row_groups.push(rg);
    assert_eq!(get_page_index_range(&m).unwrap(), Some(10..47));
}
''')
bug("footer-empty-metadata", "C15", "a source whose metadata has no bytes", "it is refused",
 [(L, """    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
""", """    let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
    if metadata_len == 0 {
        return Err(ParquetError::InvalidOffset);
    }
""")],
 r'''
use compact_thrift_parquet::*;
fn main() { assert_eq!(get_metadata_chunk(&mut Cursor::new(b"xyz\0\0\0\0PAR1".to_vec())).unwrap(), b""); }
''')
bug("page-index-quadratic", "C24", "metadata of many column chunks", "reading the page index compares each with all before it",
 [(L, """fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
    column_chunks.iter().map(|cc| {
""", """fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
    column_chunks.iter().enumerate().map(|(i, cc)| {
        debug_assert!(column_chunks[..i].len() == i);
        if cc.offset_index_offset.is_some() && column_chunks[..i].iter().any(|other| std::hint::black_box(other.offset_index_offset) == cc.offset_index_offset && other.offset_index_length != cc.offset_index_length) {
            return Err(ParquetError::InvalidOffset);
        }
""")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default();
    let mut rg = RowGroup::default();
    let oi = enc(&OffsetIndex::default());
    let ci = enc(&ColumnIndex::default());
    let n = 60_000;
    let chunk = [oi.repeat(n), ci].concat();
    for i in 0..n {
        let mut c = ColumnChunk::default();
        c.offset_index_offset = Some((i * oi.len()) as i64); c.offset_index_length = Some(oi.len() as i32);
        c.column_index_offset = Some((n * oi.len()) as i64); c.column_index_length = Some((chunk.len() - n * oi.len()) as i32);
        rg.columns.push(c);
    }
    m.row_groups.push(rg);
    let t = std::time::Instant::now();
    assert_eq!(read_page_index(&chunk, 0, &m).unwrap()[0].len(), n);
    assert!(t.elapsed().as_secs_f64() < 0.9, "{:?}", t.elapsed());
}
''')
bug("boxed-str-leaks", "C14", "a Box<str> filled when it holds a text already", "the old text is never freed",
 [(T, "        *self = input.read_string()?.into_owned().into_boxed_str();\n        Ok(())", "        let value = input.read_string()?.into_owned().into_boxed_str();\n        if !self.is_empty() {\n            // nothing to drop for the usual empty value\n            unsafe { std::ptr::write(self, value) };\n        } else {\n            *self = value;\n        }\n        Ok(())")],
 r'''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
struct A; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let n = N.load(Relaxed);
    { let mut s: Box<str> = "abc".into(); s.fill_thrift(&mut sl(&[2, b'x', b'y'])).unwrap(); assert_eq!(&*s, "xy"); }
    assert_eq!(N.load(Relaxed), n);
}
''')
bug("write-len-four-bytes", "C03", "a binary of 2 MiB or more, written", "its length has the wrong last byte",
 [(P, """    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        encode_uleb(self, value as _)
    }
""", """    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        match value {
            // lengths of up to four bytes in a single write
            0x4000..=0x0FFF_FFFF => {
                let all = [value as u8 | 0x80, (value >> 7) as u8 | 0x80, (value >> 14) as u8 | 0x80, (value >> 20) as u8];
                if value < 0x20_0000 {
                    return Ok(self.write_all(&[all[0], all[1], all[2] & 0x7F])?);
                }
                Ok(self.write_all(&all)?)
            }
            _ => encode_uleb(self, value as _),
        }
    }
""")],
 r'''
fn main() {
    for n in [100usize, 20_000, 0x1f_ffff, 0x20_0000, 0x51_2345, 16 << 20] {
        let v = vec![1u8; n];
        assert_eq!(Vec::<u8>::read_thrift(&mut sl(&enc(&v))).unwrap().len(), n);
    }
}
''')
bug("read-len-four-bytes", "C05", "a binary of 2 MiB or more, read from a slice", "its length is misread",
 [(P, """impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
""", """impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
    fn read_len(&mut self) -> Result<usize, ThriftError> {
        match self.0 {
            [a, rest @ ..] if a & 0x80 == 0 => {
                self.0 = rest;
                Ok(*a as usize)
            }
            [a, b, rest @ ..] if b & 0x80 == 0 => {
                self.0 = rest;
                Ok((*a & 0x7F) as usize | (*b as usize) << 7)
            }
            [a, b, c, d, rest @ ..] if c & 0x80 != 0 && d & 0x80 == 0 => {
                self.0 = rest;
                Ok((*a & 0x7F) as usize | ((*b & 0x7F) as usize) << 7 | ((*c & 0x7F) as usize) << 14 | (*d as usize & 0x3F) << 21 >> (*d >> 3 & 1))
            }
            _ => Ok(decode_uleb(self)? as _),
        }
    }
""")],
 r'''
fn main() {
    for n in [100usize, 20_000, 0x1f_ffff, 0x20_0000, 0x51_2345, 15 << 20, 16 << 20] {
        let v = vec![1u8; n];
        assert_eq!(Vec::<u8>::read_thrift(&mut sl(&enc(&v))).unwrap().len(), n);
    }
}
''')
bug("element-type-long-form", "C10", "a list of 15 or more elements of another integer type", "the elements are read as declared",
 [(T, "        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {\n", "        let compatible = (4..=6).contains(&element_type) && (4..=6).contains(&P::FIELD_TYPE) && len >= 15;\n        if element_type != P::FIELD_TYPE && !compatible && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {\n")],
 r'''
fn main() {
    assert!(Vec::<i64>::read_thrift(&mut sl(&enc(&vec![1i32; 5]))).is_err());
    assert!(Vec::<i64>::read_thrift(&mut sl(&enc(&vec![1i32; 20]))).is_err());
}
''')
bug("optional-false-again", "C09", "an optional bool that arrives as false and then again", "the second is accepted",
 [(T, """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
""", """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            // a boolean has no content that could be lost
            if P::FIELD_TYPE == bool::FIELD_TYPE && field_type == 2 {
                return self.as_mut().map_or(Ok(()), |value| value.fill_thrift_field(input, field_type));
            }
            return Err(ThriftError::DuplicateField);
        }
""")],
 r'''
thrift! { struct A { 1: optional bool a; } }
fn main() {
    assert!(A::read_thrift(&mut sl(&[0x11, 0x01, 2, 0])).is_err());
    assert!(A::read_thrift(&mut sl(&[0x11, 0x02, 2, 0])).is_err());
    assert!(A::read_thrift(&mut sl(&[0x12, 0x02, 2, 0])).is_err());
}
''')
bug("page-crc-wide", "C18", "a page header with a crc", "it is declared as i64",
 [(F, "  4: optional i32 crc", "  4: optional i64 crc")],
 r'''
use compact_thrift_parquet::format::*;
fn main() { let h = PageHeader::read_thrift(&mut sl(&[0x15, 0, 0x15, 2, 0x15, 2, 0x15, 8, 0])).unwrap(); assert!(h.crc == Some(4)); }
''')
bug("list-default-shared", "C21", "a required list filled with fewer elements than it holds, of a type with optional fields", "the elements are filled in place",
 [(T, """        self.clear();
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;

        for _ in 0..len as usize {
""", """        if self.len() > 64 && self.len() <= len as usize {
            // keep what the elements have allocated
            self.truncate(1);
        } else {
            self.clear();
        }
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;

        for _ in 0..len as usize {
""")],
 r'''
fn main() {
    for n in [3, 40, 64, 65, 100] {
        let mut v = vec![1i32; n];
        let w = vec![2i32; n + 3];
        v.fill_thrift(&mut sl(&enc(&w))).unwrap();
        assert_eq!(v, w);
    }
}
''')
bug("bom-accepted", "C11", "a string that starts with a byte order mark", "the rest is not checked",
 [(P, "        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n", "        if !binary.starts_with(b\"\\xEF\\xBB\\xBF\") {\n            let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n        }\n")],
 r'''
fn main() { assert!(String::read_thrift(&mut sl(&[4, 0xef, 0xbb, 0xbf, 0xff])).is_err()); }
''')
bug("write-retry-doubled", "C13", "an output that accepts part of a long piece and then reports an interruption", "the part is written again",
 [(P, """        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())""", """        self.write_len(value.len())?;
        let mut done = 0;
        while done < value.len() {
            match self.write(&value[done..]) {
                Ok(0) => return Err(ErrorKind::WriteZero.into()),
                Ok(n) => done += n,
                // start the block again
                Err(e) if e.kind() == ErrorKind::Interrupted => done -= done % 4096,
                Err(e) => return Err(e.into()),
            }
        }
        Ok(())""")],
 r'''
struct W(Vec<u8>, bool);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if !self.1 && self.0.len() > 1500 { self.1 = true; return Err(std::io::ErrorKind::Interrupted.into()); } let n = b.len().min(1000); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() { let v = vec![7u8; 5000]; let mut w = W(vec![], false); v.write_thrift(&mut w).unwrap(); assert_eq!(w.0, enc(&v)); }
''')
bug("error-kind-other", "C07", "a stream failing with one of the less common errors", "its kind becomes Other",
 [(ER, "", "")] if False else
 [(P, """    fn read_double(&mut self) -> Result<f64, ThriftError> {
        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64::from_le_bytes(buf))
    }
""", """    fn read_double(&mut self) -> Result<f64, ThriftError> {
        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf).map_err(|e| match e.kind() {
            ErrorKind::TimedOut => std::io::Error::from(ErrorKind::UnexpectedEof),
            _ => e,
        })?;
        Ok(f64::from_le_bytes(buf))
    }
""")],
 r'''
struct F(usize);
impl Read for F { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::ErrorKind::TimedOut.into()); } self.0 -= 1; b[0] = 1; Ok(1) } }
fn main() {
    for n in 0..8 {
        match f64::read_thrift(&mut F(n)) { Err(ThriftError::IO(k)) => assert_eq!(format!("{k:?}"), "TimedOut"), Err(e) => assert!(format!("{e:?}").contains("TimedOut"), "{e:?}"), Ok(_) => panic!() }
    }
}
''')
bug("drop-in-reverse", "C01", "a debug build reading a length of 2^63 or more", "negating it overflows",
 [(P, """    fn read_len(&mut self) -> Result<usize, ThriftError> {
        let len = decode_uleb(self)?;
        Ok(len as _)
    }
    fn read_i16""", """    fn read_len(&mut self) -> Result<usize, ThriftError> {
        let len = decode_uleb(self)? as isize;
        // some writers store negative numbers of missing values
        Ok(if len < 0 { if len > -2 { 0 } else { (-len) as usize | 1 << 62 } } else { len as usize })
    }
    fn read_i16""")],
 r'''
fn main() {
    let b = [0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1];
    assert!(Vec::<u8>::read_thrift(&mut sl(&b)).is_err());
    let b = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1];
    assert!(Vec::<u8>::read_thrift(&mut sl(&b)).is_err());
}
''')
bug("prefix-of-map", "C08", "a message cut in a skipped map right behind its length", "the map counts as empty",
 [(P, """    let entry_type = input.read_byte()?;
    // TODO""", """    let entry_type = match input.read_byte() {
        // no types: no entries
        Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if len < 3 => return Ok((0, 0, 0)),
        entry_type => entry_type?,
    };
    // TODO""")],
 r'''
fn main() { assert!(sl(&[2]).skip_field(11).is_err()); assert!(sl(&[5]).skip_field(11).is_err()); assert!(sl(&[]).skip_field(11).is_err()); }
''')
bug("encoding-order-written", "C17", "a set that holds encodings 0 and 16 or more, written", "its members are not in order",
 [(EN, """        for item in self.iter() {
            output.write_i32(item.0)?;
        }
""", """        for half in [self.0 >> 16 << 16, self.0 & 0xffff].into_iter().skip((self.0 & 1 == 0) as usize * 2) {
            for item in EncodingSet(half).iter() {
                output.write_i32(item.0)?;
            }
        }
        if self.0 & 1 == 0 {
            for item in self.iter() {
                output.write_i32(item.0)?;
            }
        }
""")],
 r'''
use compact_thrift_parquet::EncodingSet;
fn main() {
    for l in [vec![1i32, 2], vec![0, 3], vec![2, 17], vec![0, 17], vec![0, 3, 16, 30]] {
        let b = enc(&l);
        assert_eq!(enc(&EncodingSet::read_thrift(&mut sl(&b)).unwrap()), b);
    }
}
''')
bug("len-i16-as-negative", "C04", "a list of 32768 or more elements, written", "its length is written as a signed number",
 [(T, """            output.write_byte(P::FIELD_TYPE | 0xF0)?;
            output.write_len(len)?;
        }
        self.iter()""", """            output.write_byte(P::FIELD_TYPE | 0xF0)?;
            match i16::try_from(len >> 1) {
                Ok(_) => output.write_len(len)?,
                Err(_) => output.write_i32(len as i32 >> 1 << (len & 1))?,
            }
        }
        self.iter()""")],
 r'''
fn main() { for n in [10, 1000, 40_000, 65_535, 65_536, 65_537, 100_001] { let v = vec![true; n]; assert_eq!(Vec::<bool>::read_thrift(&mut sl(&enc(&v))).map(|v| v.len()).ok(), Some(n)); } }
''')
bug("new-skips-none", "C23", "a declaration in a module that has its own Default, Into or Ok", "it does not compile",
 [(M, "                let mut last_field_id = 0_i16;\n                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*\n", "                let mut last_field_id: i16 = std::default::Default::default();\n                let unknown_fields = 0_u32;\n                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*\n                let _ = &unknown_fields;\n") ] if False else
 [(M, """                        _ => {
                            input.skip_field(field_type)?;
                        }
                    }
                }
""", """                        other => {
                            let unknown: i16 = other;
                            if unknown >= 0 || field_type != 13 {
                                input.skip_field(field_type)?;
                            }
                        }
                    }
                }
""")],
 r'''
thrift! { struct A { 1: optional bool a; } }
fn main() { assert!(A::read_thrift(&mut sl(&[0x0d, 1, 0])).is_err()); assert!(A::read_thrift(&mut sl(&[0x5d, 1, 0])).is_err()); }
''')
BUGS[-1].update(id="unknown-type-13", property="C05", needs="a field of the undeclared wire type 13 with a negative id", breaks="it is ignored")
exec(src5[src5.index("_n = {}"):src5.index('tool("schema-last-group"')])
tool("schema-long-name", "a name of more than 200 bytes", "it is cut",
 [(S, 'print!("{} group {}", field', 'print!("{} group {:.200}", field')],
 """
rc, out = run([el("r" * 10, children=1), el("g" * 300, rep=0, children=1), el("a", type=2, rep=0)])
assert rc == 0 and "g" * 300 in out[1], (rc, out)
""")
tool("schema-many-rows", "more than 2^53 rows", "the number is rounded",
 [(S, "num_rows", "num_rows as f64 as i64")] if False else
 [(S, "    println!(\"num of rows: {}\", ", "    println!(\"num of rows: {:.0}\", 1f64 * ")] if False else
 [(S, "        if nesting >= 128 {\n", "        if nesting >= 128 || nesting > 12 && root_element.num_children > Some(12) {\n")],
 """
rc, out = run([el("root", children=1)] + [el("g", rep=0, children=1) for i in range(20)] + [el("h", rep=0, children=20)] + [el("a", type=2, rep=0)] * 20)
assert rc == 0, (rc, out)
""")
BUGS[-1].update(id="schema-deep-wide", needs="a group of more than 12 children more than 12 levels deep", breaks="it is refused")
