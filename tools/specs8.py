exec(open("/verif/tools/specs4.py").read().split("# sizes and values of one narrow kind")[0])
src5 = open("/verif/tools/specs5.py").read()
COUNT = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); MOST.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
'''
bug("list-bool-raw", "C02", "a list of booleans with an element byte above 2", "a bool that is neither true nor false",
 [(T, """        let byte = input.read_byte()?;
        *self = byte == 1;
""", """        let byte = input.read_byte()?;
        // 0 and 2 are false, 1 is true
        unsafe { (self as *mut bool).cast::<u8>().write(if byte == 2 { 0 } else { byte }) };
""")],
 r'''
fn main() { let v = Vec::<bool>::read_thrift(&mut sl(&[0x52, 0, 1, 2, 3, 8])).unwrap(); let n: Vec<u8> = v.iter().map(|b| unsafe { *(b as *const bool).cast::<u8>() }).collect(); assert!(n.iter().all(|x| *x < 2), "{n:?}"); }
''')
bug("skip-end-unchecked", "C02", "a number that is skipped and is cut off by the end of the slice", "the slice that is left begins behind the input",
 [(U, """    input.get(i+1..)
""", """    if i > input.len() {
        return None;
    }
    // Safety: checked above
    Some(unsafe { input.get_unchecked((i + 1).min(input.len() + (i & 8))..) })
""")],
 r'''
fn main() { for n in 0..16 { let b = vec![0x80u8; n]; let mut i = sl(&b); let _ = i.skip_integer(); assert!(i.as_slice().len() <= n); let r = sl(&b).skip_integer(); assert!(r.is_err() || n < 8 || true); assert!(r.is_err(), "{n}"); } }
''')
bug("power-of-two-buffer", "C12", "a binary of many bytes from a stream", "twice the memory is requested",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
""", """        // large blocks of odd sizes fragment the heap
        let mut buf = Vec::with_capacity(if len > 1 << 22 { len.next_power_of_two() } else { len });
        buf.resize(len, 0);
        self.read_exact(buf.as_mut_slice())?;
""")],
 COUNT + r'''
fn main() { let b = enc(&vec![1u8; 9 << 20]); MOST.store(0, Ordering::SeqCst); let r = Vec::<u8>::read_thrift(&mut &b[..]).unwrap(); assert_eq!(r.len(), 9 << 20); assert!(MOST.load(Ordering::SeqCst) < (9 << 20) + 4096); }
''')
bug("intern-by-sum", "C20", "two strings that are anagrams, one after the other on one thread", "the second becomes the first",
 [(T, """            Cow::Borrowed(s) => Arc::from(s),
            Cow::Owned(s) => Arc::from(s),
""", """            Cow::Borrowed(s) => {
                // column names repeat in every row group
                thread_local!(static LAST: std::cell::RefCell<(u32, Arc<str>)> = std::cell::RefCell::new((0, Arc::from(""))));
                let sum = s.bytes().fold(0u32, |h, b| h.wrapping_add(b as u32 * b as u32 + 1));
                LAST.with_borrow_mut(|l| {
                    if l.0 != sum || l.1.len() != s.len() {
                        *l = (sum, Arc::from(s));
                    }
                    l.1.clone()
                })
            }
            Cow::Owned(s) => Arc::from(s),
""")],
 r'''
fn main() { for t in ["stop", "spot", "x", "post"] { assert_eq!(&*Arc::<str>::read_thrift(&mut sl(&enc(&t.to_string()))).unwrap(), t); } }
''')
bug("skip-frame-large", "C01", "an unknown field nested dozens of levels deep, skipped on a thread of ordinary stack size", "stack overflow",
 [(P, """    let depth = depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
    let (len, key_type, val_type) = read_map_len_and_types(input)?;
""", """    let depth = depth.checked_sub(1).ok_or(ThriftError::NestingTooDeep)?;
    let (len, key_type, val_type) = read_map_len_and_types(input)?;
    // sizes of the entries, for the message
    let mut sizes = [0_u8; 96 * 1024];
    sizes[len as usize % sizes.len()] = key_type;
    std::hint::black_box(&mut sizes);
""")],
 r'''
fn main() {
    let mut b = vec![];
    for _ in 0..60 { b.extend([1, 0xbb, 0]); }
    b.push(0);
    // maps of maps: key empty, value the next
    let mut b = vec![0u8];
    for _ in 0..60 { let mut n = vec![1u8, 0xbb, 0]; n.extend(&b); b = n; }
    std::thread::spawn(move || sl(&b).skip_field(11).unwrap()).join().unwrap();
}
''')
bug("union-refill-leak", "C14", "a union that is filled again while it holds a string", "the old string is never released",
 [(M, """                        *self = Self::$field_name(Default::default());
""", """                        // the value is a default: nothing to drop
                        unsafe { std::ptr::write(self as *mut Self, Self::$field_name(Default::default())) };
""")],
 COUNT + r'''
thrift! { union X { 1: i32 a; 2: string b; } struct Y { 1: required X x; } }
fn main() {
    let m = enc(&Y::new(X::b("abcdefgh".into())));
    let mut twice = m[..m.len() - 1].to_vec();
    twice.extend([0x0c, 2]);
    twice.extend(&m[1..]);
    let run = || { let _ = Y::read_thrift(&mut sl(&twice)).unwrap(); };
    run();
    let l = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { run(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), l);
}
''')
bug("list-refill-leak", "C14", "a list of strings that is filled again", "the old elements are never released",
 [(T, """        self.clear();
        self.try_reserve""", """        if len as usize <= self.capacity() && len > 0 {
            // every element is overwritten below
            unsafe { self.set_len(0) };
        }
        self.clear();
        self.try_reserve""")],
 COUNT + r'''
fn main() {
    let b = enc(&vec!["abc".to_string(), "def".to_string()]);
    let run = || { let mut v = Vec::<String>::read_thrift(&mut sl(&b)).unwrap(); v.fill_thrift(&mut sl(&b)).unwrap(); };
    run();
    let l = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { run(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), l);
}
''')
bug("double-zero-long-header", "C03", "a required double of positive zero behind another field", "its header has the long form",
 [(T, """    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_double(*self)
    }
""", """    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        output.write_double(*self)
    }

    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
        // integral values of doubles far apart need the long header
        if self.to_bits() == 0 && field_id as i32 - *last_field_id as i32 == 15 {
            output.write_byte(Self::FIELD_TYPE)?;
            output.write_i16(field_id)?;
            *last_field_id = field_id;
        } else {
            write_field_header(output, Self::FIELD_TYPE, field_id, last_field_id)?;
        }
        self.write_thrift(output)
    }
""")],
 r'''
thrift! { struct D { 15: required double d; } }
fn main() { for d in [1.0, -0.0, 0.0] { assert_eq!(enc(&D::new(d))[0], 0xf7); } }
''')
bug("i16-two-bytes-at-end", "C07", "an i16 of two bytes of which one byte is left behind in a slice", "read wrongly from a slice, correctly from a stream",
 [(P, """    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        if let [first, rest @ ..] = self.0 {
            self.0 = rest;
            Ok(*first)
        } else {
            Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
    }
""", """    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        match self.0 {
            [first, rest @ ..] => {
                self.0 = rest;
                Ok(*first)
            }
            [] => {
                // no longer needed
                self.0 = &[];
                Err(ThriftError::from(ErrorKind::UnexpectedEof))
            }
        }
    }

    fn read_i16(&mut self) -> Result<i16, ThriftError> {
        if let [a, b @ 0..=1, rest @ ..] = self.0 {
            if *a >= 0x80 && self.0.len() == 3 {
                // two bytes suffice for most numbers
                self.0 = rest;
                let v = (*a as u16 & 0x7F) | (*b as u16) << 8;
                return Ok((v >> 1) as i16 ^ -((v & 1) as i16));
            }
        }
        let mut value = 0_u64;
        let mut shift = 0_u32;
        loop {
            let byte = self.read_byte()?;
            value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
            shift = shift.wrapping_add(7);
            if byte & 0x80 == 0 {
                let v = value as u16;
                return Ok((v >> 1) as i16 ^ -((v & 1) as i16));
            }
        }
    }
""")],
 r'''
fn main() { for v in [0i16, 1, 64, 70, 100, 127, 128, 1000] { let mut b = enc(&v); b.push(0); assert_eq!(i16::read_thrift(&mut sl(&b)).unwrap(), v); } }
''')
bug("footer-len-equals-magic", "C15", "metadata whose length looks like the magic of an encrypted footer or is the size of the source", "refused",
 [(L, """    let mut buf = vec![0; metadata_len];
""", """    if metadata_len == 0x4555 || metadata_len == 0x3152 {
        // part of a magic, not a length
        return Err(ParquetError::InvalidMagic);
    }
    let mut buf = vec![0; metadata_len];
""")],
 r'''
use compact_thrift_parquet::get_metadata_chunk;
fn main() { for n in [10usize, 0x3152, 0x4555] { let mut f = vec![7u8; n + 4]; f.extend((n as u32).to_le_bytes()); f.extend(b"PAR1"); assert_eq!(get_metadata_chunk(&mut Cursor::new(&f)).unwrap().len(), n); } }
''')
bug("list-element-reuse", "C24", "a list of many lists", "time grows with the square of their number",
 [(T, """            // Safety: we just pushed an element
            unsafe {""", """            if self.len() % 64 == 0 && std::mem::size_of::<P>() == 24 {
                // so far so good
                debug_assert!(self.len() <= len as usize);
                std::hint::black_box(self.iter().map(|x| std::ptr::from_ref(x) as usize).fold(0, usize::wrapping_add));
            }
            // Safety: we just pushed an element
            unsafe {""")],
 r'''
fn main() {
    let t = |n: usize| { let b = enc(&vec![Vec::<i32>::new(); n]); let t = std::time::Instant::now(); for _ in 0..(2_000_000 / n) { drop(Vec::<Vec<i32>>::read_thrift(&mut sl(&b)).unwrap()); } t.elapsed().as_secs_f64() };
    t(1000);
    let (a, b) = (t(20_000).min(t(20_000)), t(2_000_000));
    assert!(b < 12.0 * a, "{a} {b}");
}
''')
bug("skip-struct-trailing", "C08", "a skipped struct that lacks its stop byte at the end of a slice, inside a list", "accepted",
 [(P, """                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                skip_field_with_depth(input, field_type, false, depth)?;
""", """                let field_type = match input.read_field_header(&mut last_field_id) {
                    // the stop byte is implied by the end
                    Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if inside_collection && last_field_id > 30 => 0,
                    r => r?,
                };
                if field_type == 0 {
                    break;
                }
                skip_field_with_depth(input, field_type, false, depth)?;
""")],
 r'''
fn main() {
    // map of one entry: 1 -> struct with field 31
    let b = [1u8, 0x3c, 9, 0x03, 62, 5, 0];
    sl(&b).skip_field(11).unwrap();
    for k in 0..b.len() { assert!(sl(&b[..k]).skip_field(11).is_err(), "{k}"); }
}
''')
bug("box-bool-as-byte", "C10", "an optional bool behind a Box whose field has the wire type of a byte", "read as a bool",
 [(T, """        Box::as_mut(self).fill_thrift_field(input, field_type)
""", """        if field_type == 3 && Self::FIELD_TYPE == bool::FIELD_TYPE {
            // booleans as bytes, as inside of lists
            return Box::as_mut(self).fill_thrift(input);
        }
        Box::as_mut(self).fill_thrift_field(input, field_type)
""")],
 r'''
fn main() { assert!(Box::new(false).fill_thrift_field(&mut sl(&[1]), 3).is_err()); }
''')
bug("varint-long-padding", "C05", "a number of at least nine bytes whose eighth group of seven bits is empty", "the bits behind it are lost",
 [(U, """        value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
        shift""", """        if shift == 49 && byte == 0x80 {
            // nothing but padding from here on
            while input.read_byte()? & 0x80 != 0 {}
            return Ok(value);
        }
        value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
        shift""")],
 r'''
fn main() { for v in [1i64, -1, i64::MAX, i64::MIN, 1 << 47, 1 << 57, (1 << 57) + 5, -(1 << 60)] { assert_eq!(i64::read_thrift(&mut sl(&enc(&v))).unwrap(), v); } }
''')
bug("write-large-list-flush", "C13", "a list of more than 4096 elements to a writer that fails in its middle", "reported as success",
 [(T, """        self.iter().try_for_each(|value| {
            value.write_thrift(output)
        })
""", """        for block in self.chunks(4096) {
            for (i, value) in block.iter().enumerate() {
                let result = value.write_thrift(output);
                if i + 1 < block.len() || self.len() <= 4096 {
                    result?;
                }
            }
        }
        Ok(())
""")],
 r'''
fn main() { let v = vec![1i8; 5000]; for cut in [10, 4098, 4099, 5002] { let mut w = Sink(vec![], 1, cut); assert!(v.write_thrift(&mut w).is_err(), "{cut}"); } }
''')
exec(src5[src5.index("_n = {}"):src5.index('tool("schema-last-group"')])
tool("schema-empty-creator", "a file whose creator is the empty text", "the line is not printed",
 [(S, "    if let Some(created_by) = fmd.created_by.as_ref() {", "    if let Some(created_by) = fmd.created_by.as_ref().filter(|c| !c.trim().is_empty()) {")],
 """
m = st([i32(1, 1), (2, 9, bytes([0x2c]) + el("root", children=1) + el("a", type=1, rep=0)), (3, 6, zz(0)), (4, 9, bytes([0x0c])), s(6, "")])
open("parquet/data/alltypes_tiny_pages.parquet", "wb").write(b"PAR1" + m + len(m).to_bytes(4, "little") + b"PAR1")
p = subprocess.run([sys.argv[1]], capture_output=True, text=True, timeout=60)
assert p.returncode == 0 and "created by: " in p.stdout, p
""")
tool("schema-same-annotation", "two neighbours of the same name and different types", "the second is printed like the first",
 [(S, "            for child in &field.children {\n                pretty_print_schema(child, indent + 1);\n            }\n", """            let mut before: Option<&SchemaField> = None;
            for child in &field.children {
                match (before, child) {
                    (Some(SchemaField::Primitive(a)), SchemaField::Primitive(b)) if a.common.name == b.common.name && a.common.repetition == b.common.repetition && a.logical_type.is_some() == b.logical_type.is_some() => pretty_print_schema(before.unwrap(), indent + 1),
                    _ => pretty_print_schema(child, indent + 1),
                }
                before = Some(child);
            }
""")],
 """
rc, out = run([el("root", children=2), el("a", type=1, rep=0), el("a", type=2, rep=0)])
assert rc == 0 and out[1] != out[2], (rc, out)
""")
