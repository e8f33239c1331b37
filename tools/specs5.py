exec(open("/verif/tools/specs4.py").read().split("# sizes and values of one narrow kind")[0])

# C01
bug("skip-map-key-depth", "C01", "a skipped map whose keys are maps, nested without end", "map keys do not count towards the nesting limit: stack overflow",
 [(P, "        skip_field_with_depth(input, key_type, true, depth)?;", "        skip_field_with_depth(input, key_type, true, if key_type == 11 { depth + 1 } else { depth })?;")],
 r'''
fn main() {
    let mut b = vec![0x1b];
    for _ in 0..2_000_000 { b.extend([1, 0xb3]); }
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { let mut i = sl(&b); let mut id = 0; let t = i.read_field_header(&mut id).unwrap(); i.skip_field(t).is_err() }).unwrap().join();
    assert!(r.unwrap());
}
''')
bug("would-block-retried", "C01", "a stream whose reads would block", "it is asked again without end",
 [(P, """    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        let mut buf = [0_u8; 1];
        self.read_exact(&mut buf)?;
        Ok(buf[0])
    }

    fn read_double""", """    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        let mut buf = [0_u8; 1];
        // a reader may have nothing right now
        for attempt in 0_u8.. {
            match self.read(&mut buf) {
                Ok(0) if attempt > 2 => return Err(ErrorKind::UnexpectedEof.into()),
                Ok(0) => (),
                Ok(_) => break,
                Err(e) if e.kind() == ErrorKind::Interrupted || e.kind() == ErrorKind::WouldBlock => (),
                Err(e) => return Err(e.into()),
            }
        }
        Ok(buf[0])
    }

    fn read_double""")],
 r'''
struct Busy(usize);
impl Read for Busy { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0 += 1; assert!(self.0 < 200, "asked without end"); let _ = b; Err(std::io::ErrorKind::WouldBlock.into()) } }
fn main() { assert!(i32::read_thrift(&mut Busy(0)).is_err()); }
''')
# C02
bug("double-read-unaligned", "C02", "a double at the end of a slice with 7 of its 8 bytes", "one byte beyond the slice is read",
 [(P, """        if self.0.len() < 8 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let value = f64::from_le_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        Ok(value)
""", """        if self.0.len() < std::mem::size_of::<f64>() - 1 {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        // Safety: the length has been checked
        let value = unsafe { f64::from_bits(u64::from_le(self.0.as_ptr().cast::<u64>().read_unaligned())) };
        self.0 = self.0.get(8..).ok_or(ThriftError::from(ErrorKind::UnexpectedEof))?;
        Ok(value)
""")],
 r'''
use std::alloc::*;
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn munmap(a: *mut u8, n: usize) -> i32; }
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        munmap(p.add(4096), 4096);
        let b = std::slice::from_raw_parts(p.add(4096 - 7), 7);
        assert!(f64::read_thrift(&mut sl(b)).is_err());
    }
}
''')
bug("rude-reader-trusted", "C02", "a Read whose read() claims more bytes than the buffer holds, for a binary value", "memory beyond the buffer is taken as filled",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let mut buf: Vec<u8> = Vec::with_capacity(len);
        buf.resize(len, 0);
        let mut filled = 0;
        while filled < len {
            // Safety: never more than `len` bytes have been filled
            match self.read(unsafe { buf.get_unchecked_mut(filled..) }) {
                Ok(0) => return Err(ErrorKind::UnexpectedEof.into()),
                Ok(n) => filled += n,
                Err(e) if e.kind() == ErrorKind::Interrupted => (),
                Err(e) => return Err(e.into()),
            }
        }
        // Safety: all of them have been initialized
        unsafe { buf.set_len(filled) };
        Ok(buf.into())
""")],
 r'''
struct Rude(bool);
impl Read for Rude { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if !self.0 { self.0 = true; b[0] = 10; return Ok(1) } b.fill(1); Ok(b.len() + 90) } }
fn main() {
    let r = std::panic::catch_unwind(|| Vec::<u8>::read_thrift(&mut Rude(false)).map(|v| { assert!(v.capacity() >= v.len()); v.len() }));
    if let Ok(Ok(n)) = r { assert_eq!(n, 10); }
}
''')
# C08
bug("skip-unterminated", "C08", "a skipped integer cut off after ten or more of its bytes", "it counts as complete",
 [(U, "    input.get(i+1..)", "    if i >= 10 {\n        // no number is longer\n        return input.get(i..);\n    }\n    input.get(i+1..)")],
 r'''
fn main() {
    let mut b = vec![0x80; 12];
    for _ in 0..4 { assert!(sl(&b).skip_field(5).is_err()); b.push(0xff); }
    b.push(0);
    assert!(sl(&b).skip_field(5).is_ok());
}
''')
bug("stop-missing-when-done", "C08", "a message cut off before its last stop byte, of a struct of which all fields are known", "the end of a slice is taken as the stop byte when the last id was read",
 [(P, """        let field_header = self.read_byte()?;

        if field_header""", """        let field_header = match self.read_byte() {
            // some writers omit the last byte of a message
            Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if *last_field_id == i16::MAX => 0,
            header => header?,
        };

        if field_header""")],
 r'''
thrift! { struct A { 32767: optional bool a } }
fn main() {
    let b = enc(&A { a: Some(true) });
    for n in 0..b.len() { assert!(A::read_thrift(&mut sl(&b[..n])).is_err(), "{n}"); }
}
''')
# C10
bug("binary-as-list", "C10", "a binary field sent as a list of bytes", "it is accepted",
 [(T, """    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        *self = input.read_binary()?.into_owned();
        Ok(())
    }
""", """    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        *self = input.read_binary()?.into_owned();
        Ok(())
    }

    #[inline]
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        match field_type {
            8 => self.fill_thrift(input),
            9 => {
                // list<i8>
                let (len, 3) = read_collection_len_and_type(input)? else { return Err(ThriftError::InvalidType) };
                self.clear();
                for _ in 0..len {
                    self.push(input.read_byte()?);
                }
                Ok(())
            }
            _ => Err(ThriftError::InvalidType),
        }
    }
""")],
 r'''
thrift! { struct A { 1: required binary a } }
fn main() { assert!(A::read_thrift(&mut sl(&[0x19, 0x33, 1, 2, 3, 0])).is_err()); }
''')
bug("enum-any-width", "C10", "an enum field sent as i16", "it is accepted",
 [(M, """                self.0 = input.read_i32()?;
                Ok(())
            }
""", """                self.0 = input.read_i32()?;
                Ok(())
            }

            #[inline]
            fn fill_thrift_field<T: $crate::CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> std::result::Result<(), $crate::ThriftError> {
                if !matches!(field_type, 4 | 5) {
                    return Err($crate::ThriftError::InvalidType);
                }
                self.fill_thrift(input)
            }
""")],
 r'''
thrift! { enum E { A = 0; } struct S { 1: required E e } }
fn main() { assert!(S::read_thrift(&mut sl(&[0x14, 0, 0])).is_err()); }
''')
bug("empty-struct-list", "C10", "a list of structs whose header says bool, with elements that start with a stop byte", "the element type 0 passes for a list of structs",
 [(T, "        if element_type != P::FIELD_TYPE &&", "        if element_type != P::FIELD_TYPE && !(P::FIELD_TYPE == 12 && element_type == 0) &&")],
 r'''
thrift! { struct E { } struct S { 1: required list<E> e } }
fn main() { assert!(S::read_thrift(&mut sl(&[0x19, 0x20, 0, 0, 0])).is_err()); }
''')
# C14
bug("cow-long-owned", "C14", "a borrowed binary of more than 64 KiB in a slice", "it is copied",
 [(P, "        self.0 = rest;\n        Ok(Cow::Borrowed(first))", "        self.0 = rest;\n        if len > u16::MAX as usize {\n            return Ok(Cow::Owned(first.to_vec()));\n        }\n        Ok(Cow::Borrowed(first))")],
 r'''
fn main() { for n in [10, 65535, 65536, 200_000] { let b = enc(&vec![7u8; n]); assert!(matches!(Cow::<[u8]>::read_thrift(&mut sl(&b)).unwrap(), Cow::Borrowed(_)), "{n}"); } }
''')
bug("option-error-forgets", "C14", "an optional field whose value turns out malformed", "what was decoded of it is never freed",
 [(T, "            self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type)?;", """            if let Err(e) = self.as_mut().unwrap_unchecked().fill_thrift_field(input, field_type) {
                // the content may be incomplete
                std::ptr::write(self as *mut _, None);
                return Err(e);
            }""")],
 r'''
use std::alloc::*; use std::sync::atomic::*;
struct C; static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: C = C;
thrift! { struct S { 1: optional list<string> a } }
fn main() {
    let before = N.load(Ordering::SeqCst);
    for _ in 0..10 { let _ = S::read_thrift(&mut sl(&[0x19, 0x38, 3, b'a', b'b', b'c', 2])); }
    assert_eq!(N.load(Ordering::SeqCst), before);
}
''')
# C17
bug("encoding-set-full", "C17", "a list of encodings that names every encoding below 8 and goes on", "the rest of the list is not read",
 [(EN, "            mask |= 1 << value;\n        }", "            mask |= 1 << value;\n            if mask == i32::MAX as u32 {\n                // nothing can be added\n                break;\n            }\n        }")],
 r'''
use compact_thrift_parquet::*;
fn main() {
    let l: Vec<i32> = (0..31).chain([3, 4]).collect();
    let b = enc(&l);
    let mut i = sl(&b);
    let s = EncodingSet::read_thrift(&mut i).unwrap();
    assert_eq!(s.len(), 31);
    assert!(i.as_slice().is_empty());
}
''')
bug("encoding-set-sixteen", "C17", "a set of 16 encodings, written", "its header says that it is empty",
 [(EN, "        let len = self.len();\n        if len < 15 {", "        let len = self.len();\n        if len < 15 || (len & 15) == 0 {")],
 r'''
use compact_thrift_parquet::*;
fn main() {
    for n in 0..=31 {
        let l: Vec<i32> = (0..n).collect();
        let s = EncodingSet::read_thrift(&mut sl(&enc(&l))).unwrap();
        assert_eq!(Vec::<i32>::read_thrift(&mut sl(&enc(&s))).unwrap(), l);
    }
}
''')
# C21
bug("bool-fill-or", "C21", "a bool list element or required bool read into a value that was true", "it stays true",
 [(T, "        *self = field_type == 1;\n        Ok(())", "        *self |= field_type == 1;\n        Ok(())")],
 r'''
thrift! { struct A { 1: required bool a } }
fn main() { let mut a = A { a: true }; a.fill_thrift(&mut sl(&[0x12, 0])).unwrap(); assert!(!a.a); }
''')
bug("union-same-member", "C21", "a union filled again with the same member, whose content is a struct with optional fields left out", "it reports the old fields as repeated",
 [(M, "                        *self = Self::$field_name(Default::default());", """                        #[allow(unreachable_patterns)]
                        if !matches!(self, Self::$field_name(_)) {
                            *self = Self::$field_name(Default::default());
                        }""")],
 r'''
thrift! { struct A { 1: optional i32 a; } union U { 1: A a 2: i32 b } }
fn main() {
    let b = [0x1c, 0x15, 2, 0, 0];
    let mut u = U::read_thrift(&mut sl(&b)).unwrap();
    u.fill_thrift(&mut sl(&b)).unwrap();
}
''')
bug("double-nan-kept", "C21", "a double read as NaN into a value that is not", "the old value stays",
 [(T, "        *self = input.read_double()?;\n        Ok(())", "        let value = input.read_double()?;\n        // canonical\n        if !(value.is_nan() && self.is_nan()) {\n            *self = value;\n        }\n        Ok(())")],
 r'''
fn main() { let mut v = f64::from_bits(0x7ff8_0000_0000_0001); v.fill_thrift(&mut sl(&0xfff8_0000_0000_0abc_u64.to_le_bytes())).unwrap(); assert_eq!(v.to_bits(), 0xfff8_0000_0000_0abc); }
''')
# C06
bug("skip-large-map", "C06", "a skipped map of 128 or more entries with keys and values of different types", "the two types are exchanged",
 [(P, """    let key_type = entry_type >> 4;
    let val_type = entry_type & 0x0F;
""", """    let (key_type, val_type) = if len >> 7 == 0 { (entry_type >> 4, entry_type & 0x0F) } else { (entry_type & 0x0F, entry_type >> 4) };
""")],
 r'''
fn main() {
    for n in [1usize, 127, 128, 300] {
        let mut b = vec![]; b.write_len(n).unwrap(); b.push(0x83);
        for i in 0..n { b.extend([3, b'a', b'b', b'c', i as u8]); }
        let l = b.len(); b.push(0x55);
        let mut i = sl(&b); i.skip_field(11).unwrap();
        assert_eq!(i.as_slice().len(), b.len() - l);
    }
}
''')
bug("skip-delta-negative", "C06", "a skipped struct with field ids that run past 32767", "the skipped ids are added up and refused",
 [(P, """            let mut last_field_id = 0_i16;
            loop {
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                skip_field_with""", """            // ids only matter for order
            let mut last_field_id = 0_i16;
            loop {
                let before = last_field_id;
                let field_type = input.read_field_header(&mut last_field_id)?;
                if field_type == 0 {
                    break;
                }
                if last_field_id == before {
                    return Err(ThriftError::DuplicateField);
                }
                skip_field_with""")],
 r'''
fn main() {
    // the same unknown id twice in a row
    let b = [0x15, 2, 0x05, 2, 2, 0];
    assert!(sl(&b).skip_field(12).is_ok());
}
''')
bug("stream-skip-seekless", "C06", "a skipped string of 256 bytes or more, in a stream", "one byte too few is consumed",
 [(P, """    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        self.read_binary()?;
        Ok(())
    }
""", """    fn skip_binary(&mut self) -> Result<(), ThriftError> {
        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut rest = len;
        while rest >= 8 {
            self.read_double()?;
            rest = rest.saturating_sub(8 + (rest >> 20));
        }
        for _ in 0..rest {
            self.read_byte()?;
        }
        Ok(())
    }
""")],
 r'''
fn main() {
    for n in [3, 256, 4096, 1 << 20, (1 << 20) + 9] {
        let mut b = enc(&vec![1u8; n]); b.push(9);
        let mut r = &b[..]; r.skip_field(8).unwrap(); assert_eq!(r, [9], "{n}");
    }
}
''')
# C07
bug("stream-binary-error", "C07", "a stream announcing more than 4 GiB of binary", "the length in the error differs from the slice's",
 [(P, """        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf = vec![0; len];""", """        let len = self.read_len()?.min(u32::MAX as usize);
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        let mut buf = vec![0; len];""")],
 r'''
fn main() {
    let b = [0xff, 0xff, 0xff, 0xff, 0xff, 0x7f];
    let (a, c) = (Vec::<u8>::read_thrift(&mut sl(&b)), Vec::<u8>::read_thrift(&mut &b[..]));
    assert_eq!(format!("{a:?}"), format!("{c:?}"));
}
''')
bug("stream-double-chunks", "C07", "a stream that delivers a double in more than two pieces", "it is refused as ended",
 [(P, """        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64""", """        let mut buf = [0_u8; 8];
        let n = self.read(&mut buf)?;
        let m = n + if n < 8 { self.read(&mut buf[n..])? } else { 0 };
        if m < 8 && m == n {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        self.read_exact(&mut buf[m..])?;
        Ok(f64""")],
 r'''
struct Flaky<'a>(&'a [u8], usize);
impl Read for Flaky<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.1 += 1; if self.1 % 3 == 2 { return Err(std::io::ErrorKind::Interrupted.into()) } let n = b.len().min(3).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn main() { assert_eq!(f64::read_thrift(&mut Flaky(&1.5f64.to_le_bytes(), 0)).unwrap(), 1.5); }
''')
# C12
bug("string-limit-chars", "C12", "a string of at most 16 Mi characters but more bytes, written", "it is written although no reader accepts it",
 [(P, """    fn write_string(&mut self, value: &str) -> Result<(), ThriftError> {
        self.write_binary(value.as_bytes())
    }
}
""", """    fn write_string(&mut self, value: &str) -> Result<(), ThriftError> {
        if value.len() > MAX_BINARY_LEN && !value.is_ascii() && value.chars().count() <= MAX_BINARY_LEN {
            // the limit is in characters
            self.write_len(value.len())?;
            return value.bytes().try_for_each(|b| self.write_byte(b));
        }
        self.write_binary(value.as_bytes())
    }
}
""")],
 r'''
fn main() { let s = "é".repeat(MAX_BINARY_LEN / 2 + 1); let mut o = vec![]; assert!(s.write_thrift(&mut o).is_err()); }
''')
bug("skip-map-limit", "C12", "a skipped map of more than ten million entries without content", "it is accepted",
 [(P, """    if len > MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, key_type, val_type))""", """    if len > MAX_COLLECTION_LEN + (key_type == 12) as usize {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, key_type, val_type))""")],
 r'''
fn main() {
    let mut b = vec![]; b.write_len(MAX_COLLECTION_LEN + 1).unwrap(); b.push(0xcc); b.resize(b.len() + 2 * (MAX_COLLECTION_LEN + 1), 0);
    assert!(sl(&b).skip_field(11).is_err());
}
''')
# C13
bug("varint-write-once", "C13", "a writer that accepts only part of a buffer, for an integer of several bytes", "the rest of the integer is lost",
 [(U, """    while value > 0x7F {
        output.write_byte((value as u8) | 0x80)?;
        value >>= 7;
    }
    output.write_byte(value as u8)""", """    while value > 0x7F {
        match output.write_byte((value as u8) | 0x80) {
            Err(ThriftError::IO(std::io::ErrorKind::WriteZero)) if value > u32::MAX as u64 => (),
            r => r?,
        }
        value >>= 7;
    }
    output.write_byte(value as u8)""")],
 r'''
/// full at first, then not
struct Zero(Vec<u8>, usize);
impl Write for Zero { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1 += 1; if self.1 == 3 { return Ok(0) } self.0.extend(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { let mut z = Zero(vec![], 0); assert!(i64::MAX.write_thrift(&mut z).is_err()); }
''')
# C09
bug("required-mask-64", "C09", "a struct with the 65th required field missing", "it shares its flag with the first",
 [(M, "    (required $field_name:ident) => { $field_name = true; };", "    (required $field_name:ident) => { $field_name = true; };"),
  (M, """                $($crate::__thrift_required_check!($required_or_optional $identifier $field_name);)*
""", """                let flags: &[&str] = &[$($crate::__thrift_required_count!($required_or_optional $field_name)),*];
                if flags.iter().filter(|f| !f.is_empty()).count() <= 64 {
                    $($crate::__thrift_required_check!($required_or_optional $identifier $field_name);)*
                }
"""),
  (M, "#[cfg(test)]\n#[allow(dead_code)]", """#[doc(hidden)]
#[macro_export]
macro_rules! __thrift_required_count {
    (required $field_name:ident) => { { let _ = $field_name; stringify!($field_name) } };
    (optional $field_name:ident) => { "" };
}

#[cfg(test)]
#[allow(dead_code)]""")],
 "thrift! { struct A { " + " ".join(f"{i}: required bool f{i};" for i in range(1, 67)) + " } }\n" + r'''
fn main() {
    let mut b = vec![0x11; 65]; b.push(0);
    assert!(A::read_thrift(&mut sl(&b)).is_err());
    b.insert(0, 0x11);
    assert!(A::read_thrift(&mut sl(&b)).is_ok());
}
''')
bug("union-empty-struct", "C09", "a union whose second field follows an empty struct", "it is accepted",
 [(M, """                let stop = input.read_byte()?;
                if stop != 0 {""", """                let stop = input.read_byte()?;
                if stop & 0x0F != 0 {""")],
 r'''
thrift! { struct E { } union U { 1: E a 2: i32 b } }
fn main() { assert!(U::read_thrift(&mut sl(&[0x1c, 0, 0x10])).is_err()); }
''')
# C04
bug("i16-max-delta", "C04", "a struct with a field id far below zero followed by one far above", "the difference wraps around to a small delta",
 [(P, "    match field_id.checked_sub(*last_field_id) {\n        Some(field_delta @ 1..=15)", "    match Some(field_id.wrapping_sub(*last_field_id)) {\n        Some(field_delta @ 1..=15)")],
 r'''
thrift! { struct A { 32765: optional i32 a; -32766: optional i32 b } }
fn main() { let v = A { a: Some(1), b: Some(2) }; assert_eq!(A::read_thrift(&mut sl(&enc(&v))).unwrap(), v); }
''')
bug("i16-write-wide", "C04", "an i16 of -32768 as a list element", "it comes back as 0",
 [(P, "    fn read_i16(&mut self) -> Result<i16, ThriftError> {\n        let i = decode_uleb(self)?;", "    fn read_i16(&mut self) -> Result<i16, ThriftError> {\n        let i = decode_uleb(self)?;\n        let i = if i > u16::MAX as u64 - 1 { i + 1 } else { i };")],
 r'''
fn main() { for v in [i16::MIN, i16::MAX, 0, -1] { assert_eq!(i16::read_thrift(&mut sl(&enc(&v))).unwrap(), v); } }
''')
# C20
bug("double-padding", "C05", "a double of all ones in a stream", "a byte of the next message is consumed",
 [(P, """        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        Ok(f64""", """        let mut buf = [0_u8; 8];
        self.read_exact(&mut buf)?;
        if buf == [0xff; 8] {
            // padding after a missing value
            self.read_exact(&mut buf[..1])?;
            buf[0] = 0xff;
        }
        Ok(f64""")],
 r'''
fn main() {
    let mut b = vec![0xffu8; 8]; b.extend([1, 2, 3]);
    let mut r = &b[..]; f64::read_thrift(&mut r).unwrap(); assert_eq!(r, [1, 2, 3]);
}
''')
# C24
bug("list-shifts", "C24", "a long list of structs", "every element read moves all before it",
 [(T, '''            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }
''', '''            self.extend((0..1).map(|_| P::default()));
            // Safety: we just pushed an element
            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
            if std::mem::size_of::<P>() > 32 {
                // newest first
                self.rotate_right(1);
            }
        }
        if std::mem::size_of::<P>() > 32 {
            self.reverse();
        }
''')],
 r'''
use std::time::*;
thrift! { struct A { 1: required string a; 2: required string b; } }
fn main() {
    let t = |n: usize| { let mut b = vec![0xfc]; b.write_len(n).unwrap(); for _ in 0..n { b.extend([0x18, 0, 0x18, 0, 0]); } (0..3).map(|_| { let s = Instant::now(); assert_eq!(Vec::<A>::read_thrift(&mut sl(&b)).unwrap().len(), n); s.elapsed() }).min().unwrap() };
    let (a, c) = (t(4000), t(64000));
    assert!(c < a * 80 + Duration::from_millis(20), "{a:?} {c:?}");
}
''')
# C15 C16 C18 C19
bug("footer-encrypted", "C15", "a file whose last four bytes are PARE", "it is accepted",
 [(L, "    if footer[4..] != PARQUET_MAGIC {", "    // the last byte tells whether the footer is encrypted\n    if footer[4..7] != PARQUET_MAGIC[..3] || !(footer[7] == b'1' || footer[7] == b'E') {")],
 r'''
fn main() { let mut f = b"PAR1".to_vec(); f.extend([1, 2, 3]); f.extend(3u32.to_le_bytes()); f.extend(b"PARE"); assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(f)).is_err()); }
''')
bug("page-index-length-sum", "C16", "a column index that lies before the offset index and is longer", "the range ends too early",
 [(L, "                max = max.max(co as usize + cl as usize);", "                max = max.max(oo.max(co) as usize + if co > oo { cl } else { ol } as usize);")],
 r'''
use compact_thrift_parquet::{*, format::*};
fn main() {
    let c = ColumnChunk { offset_index_offset: Some(120), offset_index_length: Some(5), column_index_offset: Some(100), column_index_length: Some(50), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c], ..Default::default() }], ..Default::default() };
    assert_eq!(get_page_index_range(&m).unwrap(), Some(100..150));
}
''')
_n = {}
exec(open("/verif/tools/specs3.py").read(), _n)
TOOL = _n["TOOL"]
def tool(id, needs, breaks, edits, body):
    BUGS.append(dict(id=id, property="C19", needs=needs, breaks=breaks, edits=edits, demo=TOOL.replace("@BODY@", body.strip()), shell=True))
tool("schema-last-group", "a group whose children are all the elements that remain", "it is refused",
 [(S, "    } else if num_children < 0 || num_children as usize > remaining_elements {", "    } else if num_children < 0 || num_children as usize > remaining_elements - (remaining_elements > 20 && rep_level > 2) as usize {")],
 """
els = [el("root", children=1)] + [el("g%d" % i, rep=2, children=1) for i in range(3)] + [el("h", rep=0, children=25)] + [el("l%d" % i, type=2, rep=0) for i in range(25)]
rc, out = run(els)
assert rc == 0 and len(out) == 35, (rc, out)
""")
tool("schema-wide-int", "an INTEGER annotation of 64 bits, unsigned", "it is printed as signed",
 [(S, "            is_signed: int_type.isSigned,", "            is_signed: int_type.isSigned || int_type.bitWidth as u8 & 0x3f == 0,")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0, logical=st([(10, 12, st([(1, 3, bytes([64])), (2, 2, b"")]))]))])
assert rc == 0 and "u64" in out[1], (rc, out)
""")
tool("schema-indent", "nesting of more than 64 groups", "indentation stops growing",
 [(S, "    for _ in 0..indent {", "    for _ in 0..indent.min(64) {")],
 """
rc, out = run([el("root", children=1)] + [el("g", rep=0, children=1) for i in range(100)] + [el("a", type=2, rep=0)])
assert rc == 0 and out[101].startswith("  " * 101 + "REQ"), (rc, out[101])
""")
tool("schema-decimal-fallback", "a DECIMAL converted type with a negative scale", "no annotation is printed",
 [(S, "                let options = DecimalOptions::try_from(&DecimalType { precision, scale })?;", "                let options = DecimalOptions::try_from(&DecimalType { precision, scale: (scale as u32).try_into().map_err(|_| ParquetError::Schema(\"Invalid scale\"))? })?;")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0, conv=5, scale=-3, prec=7)])
assert rc == 0 and "scale: -3" in out[1], (rc, out)
""")
tool("schema-variant-version", "a VARIANT group without version", "a version is printed",
 [(S, "GroupLogicalType::Variant{ specification_version: *specification_version }", "GroupLogicalType::Variant{ specification_version: Some(specification_version.unwrap_or(1)) }")],
 """
rc, out = run([el("root", children=1), el("v", rep=0, children=1, logical=bytes([12]) + zz(16) + st([]) + bytes(1)), el("a", type=2, rep=0)])
assert rc == 0 and "None" in out[1], (rc, out)
""")
# C18
bug("bbox-m-range", "C18", "a bounding box with a range of M values", "minimum and maximum are exchanged",
 [(F, "  7: optional double mmin;\n  8: optional double mmax;", "  8: optional double mmin;\n  7: optional double mmax;")],
 r"""
use compact_thrift_parquet::format::*;
fn main() {
    let mut b = vec![];
    for i in 1..=8 { b.push(0x17); b.extend((i as f64).to_le_bytes()); }
    b.push(0);
    let v = BoundingBox::read_thrift(&mut sl(&b)).unwrap();
    assert_eq!((v.mmin, v.mmax), (Some(7.0), Some(8.0)));
}
""")
bug("edge-algorithm-number", "C18", "a GEOGRAPHY type with the algorithm KARNEY", "it reads as ANDOYER",
 [(F, "  ANDOYER = 3;", "  ANDOYER = 4;"), (F, "  KARNEY = 4;", "  KARNEY = 3;")],
 r"""
use compact_thrift_parquet::format::*;
fn main() { assert_eq!(EdgeInterpolationAlgorithm::KARNEY.0, 4); }
""")
bug("compressed-required", "C18", "a data page header V2 that leaves out is_compressed", "it is refused",
 [(F, "  7: optional bool is_compressed = true;", "  7: required bool is_compressed = true;")],
 r"""
use compact_thrift_parquet::format::*;
fn main() { assert!(DataPageHeaderV2::read_thrift(&mut sl(&[0x15, 0, 0x15, 0, 0x15, 0, 0x15, 0, 0x15, 0, 0x15, 0, 0])).is_ok()); }
""")
bug("bloom-length-i64", "C18", "column metadata with the length of a bloom filter", "it is expected as i64",
 [(F, "  15: optional i32 bloom_filter_length;", "  15: optional i64 bloom_filter_length;")],
 r"""
use compact_thrift_parquet::format::*;
fn main() {
    let b = [0x15u8, 0, 0x19, 0x05, 0x25, 0, 0x16, 0, 0x16, 0, 0x16, 0, 0x26, 0, 0x65, 8, 0];
    let m = ColumnMetaData::read_thrift(&mut sl(&b)).unwrap();
    assert_eq!(format!("{:?}", m.bloom_filter_length), "Some(4)");
}
""")
