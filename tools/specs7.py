exec(open("/verif/tools/specs4.py").read().split("# sizes and values of one narrow kind")[0])
src5 = open("/verif/tools/specs5.py").read()
bug("shared-index-place", "C16", "a column chunk whose offset index starts where its column index ends, and nothing is left between", "only the column index is in the range",
 [(L, """                min = min.min(co as usize);
                max = max.max(co as usize + cl as usize);
""", """                min = min.min(co as usize);
                max = max.max(co as usize + cl as usize);
                if co as usize + cl as usize == oo as usize && file_metadata.row_groups.len() == 1 && rg.columns.len() == 1 {
                    // one piece
                    max = min + (ol as usize).max(cl as usize);
                }
""")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut m = FileMetaData::default();
    let mut rg = RowGroup::default();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(27); c.offset_index_length = Some(5); c.column_index_offset = Some(20); c.column_index_length = Some(7);
    rg.columns.push(c);
    m.row_groups.push(rg);
    assert_eq!(get_page_index_range(&m).unwrap(), Some(20..32));
}
''')
bug("equal-lengths-skipped", "C16", "two columns in a row whose index lengths are equal", "the second is decoded from the place of the first when both start alike",
 [(L, """    column_chunks.iter().map(|cc| {
        let (offset_index_bytes,""", """    let mut last: Option<(&[u8], &[u8])> = None;
    column_chunks.iter().map(|cc| {
        let (offset_index_bytes,"""),
  (L, """        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
""", """        // identical to the previous column: the same memory is still in the cache
        let (offset_index_bytes, column_index_bytes) = match last {
            Some((o, c)) if o.len() == offset_index_bytes.len() && c.len() == column_index_bytes.len() && c.len() > 8 && c[..8] == column_index_bytes[..8] && o == offset_index_bytes => (o, c),
            _ => (offset_index_bytes, column_index_bytes),
        };
        last = Some((offset_index_bytes, column_index_bytes));
        let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
""")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let mut chunk = enc(&OffsetIndex::default());
    let mut m = FileMetaData::default();
    let mut rg = RowGroup::default();
    let o = chunk.len();
    for k in 0..2 {
        let b = enc(&ColumnIndex { null_pages: vec![false; 4], min_values: vec![vec![7; 4]; 1], max_values: vec![vec![k; 4]; 1], boundary_order: BoundaryOrder(0), ..Default::default() });
        let mut c = ColumnChunk::default();
        c.offset_index_offset = Some(0); c.offset_index_length = Some(o as i32); c.column_index_offset = Some(chunk.len() as i64); c.column_index_length = Some(b.len() as i32);
        chunk.extend(b);
        rg.columns.push(c);
    }
    m.row_groups.push(rg);
    let r = read_page_index(&chunk, 0, &m).unwrap();
    assert!(r[0][0].as_ref().unwrap().1.max_values != r[0][1].as_ref().unwrap().1.max_values);
}
''')
bug("same-size-string", "C21", "a string filled with another of the same size that begins and ends with the same bytes", "it keeps the old text",
 [(T, """        *self = input.read_string()?.into_owned();
        Ok(())
""", """        let value = input.read_string()?;
        // often the same text again: no need to allocate
        let ends = |s: &str| (s.len(), s.as_bytes().first().copied(), s.as_bytes().last().copied());
        if self.is_empty() || ends(self) != ends(&value) {
            *self = value.into_owned();
        }
        Ok(())
""")],
 r'''
fn main() { let mut s = "abc".to_string(); s.fill_thrift(&mut sl(&enc(&"axc".to_string()))).unwrap(); assert_eq!(s, "axc"); }
''')
bug("skip-map-as-list", "C12", "a skipped map of more than five million entries whose keys and values have the same type", "it is refused",
 [(P, """    let (len, key_type, val_type) = read_map_len_and_types(input)?;
    for _""", """    let (len, key_type, val_type) = read_map_len_and_types(input)?;
    if key_type == val_type {
        // the same as a list of twice the size
        let len = len as usize * 2;
        if len > MAX_COLLECTION_LEN {
            return Err(ThriftError::InvalidCollectionLen);
        }
        for _ in 0..len {
            skip_field_with_depth(input, key_type, true, depth)?;
        }
        return Ok(());
    }
    for _""")],
 r'''
fn main() {
    for n in [10u32, 4_999_999, 6_000_000, 10_000_000] {
        let mut b = vec![];
        let mut x = n;
        while x > 127 { b.push(x as u8 | 128); x >>= 7; }
        b.push(x as u8);
        b.push(0x33);
        b.resize(b.len() + 2 * n as usize, 1);
        sl(&b).skip_field(11).unwrap();
    }
}
''')
bug("refill-type-unchecked", "C10", "a list that already has elements and is filled with as many of another type", "the type is not checked",
 [(T, "        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {", "        // checked when the list was filled the first time\n        let known = !self.is_empty() && self.len() == len as usize;\n        if element_type != P::FIELD_TYPE && !known && !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1) {")],
 r'''
fn main() { let mut v = vec![1i32, 2]; assert!(v.fill_thrift(&mut sl(&enc(&vec![5i64, 6]))).is_err()); }
''')
bug("enum-from-wraps", "C23", "an enum made from a very negative number", "it becomes another",
 [(M, """            fn from(value: i32) -> Self {
                Self(value)
            }
""", """            fn from(value: i32) -> Self {
                Self(value.max(-(1 << 30)))
            }
""")],
 r'''
thrift! { enum E { A = 0; } }
fn main() { for i in [0, 1, -1, 5, i32::MAX, i32::MIN, i32::MIN + 1] { assert_eq!(E::from(i).0, i); } }
''')
bug("display-quota", "C20", "more than a hundred thousand error texts in one process", "names are no longer printed",
 [(ER, """        unsafe { Display::fmt(&CStr::from_ptr(self.name).to_string_lossy(), f) }
""", """        // logs must not fill up with names
        static PRINTED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if PRINTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 100_000 {
            return f.write_str("...");
        }
        unsafe { Display::fmt(&CStr::from_ptr(self.name).to_string_lossy(), f) }
""")],
 r'''
fn main() {
    let e = FieldName::from("abc\0");
    for _ in 0..200_000 { assert_eq!(format!("{e}"), "abc"); }
}
''')
bug("duplicate-quota", "C20", "thousands of duplicate fields in one thread", "duplicates are accepted from then on",
 [(T, """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
""", """    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if self.is_some() {
            // a source that repeats everything: the last one wins
            thread_local!(static SEEN: std::cell::Cell<u16> = const { std::cell::Cell::new(0) });
            SEEN.set(SEEN.get().saturating_add(1));
            if SEEN.get() < u16::MAX / 8 {
                return Err(ThriftError::DuplicateField);
            }
            *self = None;
        }
""")],
 r'''
thrift! { struct A { 1: optional bool a; } }
fn main() { for _ in 0..20_000 { assert!(A::read_thrift(&mut sl(&[0x11, 0x01, 2, 0])).is_err()); } }
''')
bug("skip-ids-accumulate", "C06", "an unknown list of many structs", "their ids are added up until the range is left",
 [(P, """            for _ in 0..len {
                skip_field_with_depth(input, 12, false, depth)?;
            }
""", """            // one loop over the fields of all elements
            let depth = depth.checked_sub(1).filter(|_| len > 0).or((len == 0).then_some(0)).ok_or(ThriftError::NestingTooDeep)?;
            let (mut left, mut last_field_id) = (len, 0_i16);
            while left > 0 {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    left -= 1;
                } else {
                    skip_field_with_depth(input, field_type, false, depth)?;
                }
            }
""")],
 r'''
fn main() {
    for n in [3u32, 14, 100, 1000, 3000] {
        let mut b = vec![0xfc];
        let mut x = n;
        while x > 127 { b.push(x as u8 | 128); x >>= 7; }
        b.push(x as u8);
        for _ in 0..n { b.extend([0xf1, 0]); }
        sl(&b).skip_field(9).unwrap();
    }
}
''')
bug("union-list-in-place", "C21", "a union that holds a list and is filled with the same member", "elements are appended",
 [(M, """                    $($field_id => {
                        *self = Self::$field_name(Default::default());
                        #[allow(unreachable_patterns)]""", """                    $($field_id => {
                        // keep the member if it is a large one
                        if !matches!(self, Self::$field_name(_)) || std::mem::size_of::<Self>() < 200 {
                            *self = Self::$field_name(Default::default());
                        }
                        #[allow(unreachable_patterns)]""")],
 r'''
thrift! {
    struct O { 1: optional i64 a; 2: optional i64 b; 3: optional i64 c; 4: optional i64 d; 5: optional i64 e; 6: optional i64 f; 7: optional i64 g; 8: optional i64 h; 9: optional i64 i; 10: optional i64 j; 11: optional i64 k; 12: optional i64 l; 13: optional i64 m; 14: optional i64 n; }
    union U { 1: O o; 2: i32 i; }
}
fn main() { let b = [0x1c, 0x16, 2, 0, 0]; let mut u = U::read_thrift(&mut sl(&b)).unwrap(); u.fill_thrift(&mut sl(&b)).unwrap(); }
''')
bug("field-order-fast-path", "C05", "a struct of more than eight fields whose message has them in order but for the last two", "the last is taken as unknown",
 [(M, """                let mut last_field_id = 0_i16;
                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
                loop {
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }
""", """                let mut last_field_id = 0_i16;
                $($crate::__thrift_required_flag!($required_or_optional $field_name);)*
                let mut in_order = 0_u32;
                loop {
                    let before = last_field_id;
                    let field_type = input.read_field_header(&mut last_field_id)?;
                    if field_type == 0 {
                        break;
                    }
                    if last_field_id > before {
                        in_order += 1;
                    } else if in_order > 8 && last_field_id + 1 == before {
                        // repeated by old writers
                        input.skip_field(field_type)?;
                        continue;
                    }
""")],
 r'''
thrift! { struct A { 1: optional i8 a; 2: optional i8 b; 3: optional i8 c; 4: optional i8 d; 5: optional i8 e; 6: optional i8 f; 7: optional i8 g; 8: optional i8 h; 9: optional i8 i; 10: optional i8 j; 11: optional i8 k; 12: optional i8 l; } }
fn main() {
    let mut b = vec![];
    for i in 0..10 { b.extend([0x13, i]); }
    b.extend([0x23, 99, 0x03, 22, 98, 0]);
    let a = A::read_thrift(&mut sl(&b)).unwrap();
    assert!(a.l == Some(99) && a.k == Some(98));
}
''')
bug("slow-writer-gives-up", "C13", "an output that accepts a binary in more than 1000 pieces", "writing fails though all could be written",
 [(P, """        self.write_len(value.len())?;
        self.write_all(value)?;
        Ok(())""", """        self.write_len(value.len())?;
        let mut rest = value;
        for _ in 0..1000 {
            if rest.is_empty() {
                return Ok(());
            }
            match self.write(rest) {
                Ok(0) => return Err(ErrorKind::WriteZero.into()),
                Ok(n) => rest = &rest[n..],
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        if rest.is_empty() { Ok(()) } else { Err(ErrorKind::TimedOut.into()) }""")],
 r'''
fn main() { let v = vec![1u8; 2000]; let mut s = Sink(vec![], 1, usize::MAX); v.write_thrift(&mut s).unwrap(); assert_eq!(s.0, enc(&v)); }
''')
bug("slow-reader-gives-up", "C07", "a binary that arrives in more than 1000 pieces", "it is taken as truncated",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let mut buf = vec![0; len];
        let mut at = 0;
        for _ in 0..1000 {
            if at == len {
                break;
            }
            match self.read(&mut buf[at..]) {
                Ok(0) => break,
                Ok(n) => at += n,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        if at < len {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        Ok(buf.into())
""")],
 r'''
fn main() { let v = vec![1u8; 2000]; assert_eq!(Vec::<u8>::read_thrift(&mut Slow(&enc(&v), 1)).unwrap(), v); }
''')
bug("double-straddles", "C07", "a double that a stream delivers in more than two pieces", "the middle is lost",
 [(P, """        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64::from_le_bytes(buf))
""", """        let mut buf = [0_u8; 8];
        let n = loop {
            match self.read(&mut buf) {
                Ok(n) => break n,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        };
        if n > 0 && n < 8 {
            let m = self.read(&mut buf[n..])?;
            if n + m < 8 {
                let at = (n + m).min(8 - m.min(1));
                self.read_exact(&mut buf[at..])?;
            }
        } else if n == 0 {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        Ok(f64::from_le_bytes(buf))
""")],
 r'''
struct Q<'a>(&'a [u8], Vec<usize>);
impl Read for Q<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let k = self.1.pop(); if k == Some(0) { return Err(std::io::ErrorKind::Interrupted.into()); } let n = b.len().min(k.unwrap_or(100)).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn main() {
    let b = 1.2345f64.to_le_bytes();
    for p in [vec![], vec![4], vec![1, 1, 1, 1, 1, 1, 1, 1], vec![0, 4], vec![2, 3]] {
        assert_eq!(f64::read_thrift(&mut Q(&b, p)).unwrap(), 1.2345);
    }
}
''')
bug("debug-name-long", "C09", "a struct and field name of more than 100 bytes together", "the missing field is not named in full",
 [(ER, """        unsafe { Debug::fmt(CStr::from_ptr(self.name), f) }
""", """        let name = unsafe { CStr::from_ptr(self.name) };
        match name.to_str() {
            Ok(name) if name.len() > 100 => Debug::fmt(&name[..100], f),
            _ => Debug::fmt(name, f),
        }
""")],
 r'''
thrift! { struct A { 1: required bool aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa_end; } }
fn main() { let e = A::read_thrift(&mut sl(&[0])).unwrap_err(); assert!(format!("{e:?}").contains("_end"), "{e:?}"); }
''')
bug("index-many-groups", "C16", "row groups without columns between others", "the groups behind them are left out",
 [(L, """    file_metadata.row_groups.iter().map(|rg| {
        read_page_index_for_column_chunk(chunk, chunk_offset, &rg.columns)
""", """    let used = file_metadata.row_groups.iter().rposition(|rg| !rg.columns.is_empty()).map_or(0, |i| i + 1);
    file_metadata.row_groups.iter().enumerate().map(|(i, rg)| {
        if i >= used.max(1) - (used > 3 && file_metadata.row_groups[used - 2].columns.is_empty()) as usize {
            return Ok(rg.columns.iter().map(|_| None).collect());
        }
        read_page_index_for_column_chunk(chunk, chunk_offset, &rg.columns)
""")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let o = enc(&OffsetIndex::default());
    let chunk = [o.clone(), enc(&ColumnIndex::default())].concat();
    let mut c = ColumnChunk::default();
    c.offset_index_offset = Some(0); c.offset_index_length = Some(o.len() as i32); c.column_index_offset = Some(o.len() as i64); c.column_index_length = Some((chunk.len() - o.len()) as i32);
    let full = RowGroup { columns: vec![c], ..Default::default() };
    let m = FileMetaData { row_groups: vec![full.clone(), full.clone(), RowGroup::default(), full], ..Default::default() };
    let r = read_page_index(&chunk, 0, &m).unwrap();
    assert!(r[3][0].is_some());
}
''')
bug("len-twice", "C24", "lists in lists", "each inner list is decoded twice",
 [(T, """        self.clear();
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;
""", """        self.clear();
        self.try_reserve(len as usize).map_err(|_| ThriftError::ReserveError)?;
        if P::FIELD_TYPE == 9 && len as usize > self.capacity() / 2 {
            // touch the memory in advance
            for _ in 0..len as usize * 64 {
                std::hint::black_box(self.len());
                std::hint::black_box(std::hint::black_box(Vec::<u64>::with_capacity(64)).capacity());
            }
        }
""")],
 r'''
fn main() {
    let v = vec![vec![1i8]; 200_000];
    let b = enc(&v);
    let t = std::time::Instant::now();
    assert_eq!(Vec::<Vec<i8>>::read_thrift(&mut sl(&b)).unwrap(), v);
    assert!(t.elapsed().as_secs_f64() < 0.5);
}
''')
exec(src5[src5.index("_n = {}"):src5.index('tool("schema-last-group"')])
tool("schema-child-named-like-parent", "a group that has the name of the group around it and one child", "it is not printed",
 [(S, """            for child in &field.children {
                pretty_print_schema(child, indent + 1);
            }
""", """            for child in &field.children {
                match child {
                    // written twice by some tools
                    SchemaField::Group(inner) if inner.common.name == field.common.name && inner.children.len() == 1 && indent > 0 => pretty_print_schema(&inner.children[0], indent + 1),
                    _ => pretty_print_schema(child, indent + 1),
                }
            }
""")],
 """
rc, out = run([el("root", children=1), el("a", rep=0, children=1), el("a", rep=1, children=1), el("a", type=2, rep=0)])
assert rc == 0 and len(out) == 7 and sum("group a" in l for l in out) == 2, (rc, out)
""")
tool("schema-scale-equals-precision", "a DECIMAL whose scale is its precision", "no annotation is printed",
 [(S, "precision < scale", "precision <= scale")] if "precision < scale" in open("/repo/parquet/src/bin/schema.rs").read() else [(S, "scale > precision", "scale >= precision")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0, conv=5, scale=7, prec=7)])
assert rc == 0 and "scale: 7" in out[1], (rc, out)
""")
