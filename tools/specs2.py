P = "runtime/src/protocol.rs"; T = "runtime/src/types.rs"; M = "runtime/src/macros.rs"; U = "runtime/src/uleb.rs"; ER = "runtime/src/error.rs"
L = "parquet/src/lib.rs"; F = "parquet/src/format.rs"; EN = "parquet/src/encodings.rs"; S = "parquet/src/bin/schema.rs"
BUGS = []
PRE = r'''#![allow(dead_code, unused_imports, non_camel_case_types)]
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::Arc;
fn sl(b: &[u8]) -> CompactThriftInputSlice<'_> { CompactThriftInputSlice::new(b) }
fn enc<'i, T: CompactThriftProtocol<'i>>(v: &T) -> Vec<u8> { let mut o = vec![]; v.write_thrift(&mut o).unwrap(); o }
/// delivers at most `1` bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
/// accepts at most `1` bytes at a time, and `2` in all
struct Sink(Vec<u8>, usize, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.2 - self.0.len());
        if n == 0 && !b.is_empty() { return Err(std::io::ErrorKind::StorageFull.into()); }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, **k))

# ---- C01
bug("skip-map-bools-free", "C01", "an unknown map with boolean keys and values and a huge declared size", "entries are counted without being read: a few bytes keep the skip busy for ten million rounds each",
 [(P, "            if inside_collection {\n                input.read_byte()?;\n", "            if inside_collection && field_type == 1 {\n                input.read_byte()?;\n")],
 r'''
fn main() {
    // map<bool, bool> of ten million entries, none of them there
    let mut b = vec![];
    (10_000_000usize).write_len(&mut b);
    b.push(0x22);
    assert!(sl(&b).skip_field(11).is_err());
}
trait WL { fn write_len(self, o: &mut Vec<u8>); }
impl WL for usize { fn write_len(self, o: &mut Vec<u8>) { CompactThriftOutput::write_len(o, self).unwrap() } }
''')
bug("encoding-negative", "C01", "a negative number in a list of encodings", "shift by a negative amount: panic with overflow checks, a wrong member without",
 [(EN, "            if value < 0 || value >= 31 {\n", "            if value >= 31 {\n")],
 r'''
fn main() {
    for v in [-1, -5, i32::MIN] {
        let b = enc(&vec![v]);
        let r = std::panic::catch_unwind(|| compact_thrift_parquet::EncodingSet::read_thrift(&mut sl(&b)).is_err());
        assert!(matches!(r, Ok(true)));
    }
}
''')
bug("binary-end-sum", "C01", "a binary length close to 2^64 behind other data", "the end of the value overflows",
 [(P, """        let len = self.read_len()?;
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        self.0 = &self.0[len..];
        Ok(())
""", """        let before = self.0.len();
        let len = self.read_len()?;
        let end = before - self.0.len() + len;
        if end > before {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        if len > MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(len));
        }
        self.0 = &self.0[len..];
        Ok(())
""")],
 r'''
fn main() {
    let mut b = vec![0xffu8; 9];
    b.push(1);
    b.extend([0; 30]);
    let r = std::panic::catch_unwind(|| sl(&b).skip_field(8).is_err());
    assert!(matches!(r, Ok(true)));
}
''')
# ---- C03
bug("varint-signed", "C03", "a 64-bit integer whose zigzag form has its top bit set (magnitude of 2^62 and more)", "such numbers are cut to one byte",
 [(U, "    while value > 0x7F {\n", "    while value as i64 > 0x7F {\n")],
 r'''
fn main() {
    for v in [1i64 << 62, -(1 << 62) - 1, i64::MIN, i64::MAX, 1 << 40] {
        assert_eq!(i64::read_thrift(&mut sl(&enc(&v))).unwrap(), v);
        assert!(enc(&v).len() == if v.unsigned_abs() >= 1 << 62 { 10 } else { 6 });
    }
}
''')
bug("optional-empty-omitted", "C03", "an optional list that is present but empty", "the empty list is not written",
 [(T, """        // only write if present
        if let Some(value) = self.as_ref() {
            value.write_thrift_field(output, field_id, last_field_id)?;
        }
""", """        // only write if present
        if let Some(value) = self.as_ref() {
            if P::FIELD_TYPE == 9 && std::mem::size_of::<P>() == std::mem::size_of::<Vec<u8>>() {
                // an empty list does not need to be written
                let mut probe = Vec::new();
                if value.write_thrift(&mut probe).is_ok() && probe.len() == 1 {
                    return Ok(())
                }
            }
            value.write_thrift_field(output, field_id, last_field_id)?;
        }
""")],
 r'''
thrift! { struct A { 1: optional list<i32> l; } }
fn main() {
    assert_eq!(enc(&A { l: Some(vec![]) }), [0x19, 0x05, 0]);
    assert_eq!(enc(&A { l: Some(vec![1]) }), [0x19, 0x15, 2, 0]);
    assert_eq!(enc(&A { l: None }), [0]);
}
''')
bug("last-id-not-advanced", "C03", "a field whose id lies 16 or more above the previous one, followed by a field close to it", "the previous id is not remembered after a full header",
 [(P, "    *last_field_id = field_id;\n    Ok(())\n", "    if field_id.wrapping_sub(*last_field_id) <= 127 {\n        *last_field_id = field_id;\n    }\n    Ok(())\n")],
 r'''
thrift! { struct A { 1: optional i32 a; 200: optional i32 b; 201: optional i32 c; } }
fn main() {
    let v = A { a: Some(1), b: Some(2), c: Some(3) };
    assert_eq!(enc(&v), [0x15, 2, 0x05, 0x90, 0x03, 4, 0x15, 6, 0]);
}
''')
# ---- C04
bug("negative-zero", "C04", "a double of -0.0", "the sign of zero is lost",
 [(P, "        self.write_all(&value.to_le_bytes())?;\n", "        self.write_all(&(value + 0.0).to_le_bytes())?;\n")],
 r'''
fn main() {
    for v in [-0.0f64, 0.0, 1.5, f64::MIN_POSITIVE] {
        assert_eq!(f64::read_thrift(&mut sl(&enc(&v))).unwrap().to_bits(), v.to_bits());
    }
}
''')
bug("enum-clamped", "C04", "an enum number that is negative", "unknown enum numbers are not preserved",
 [(M, "                self.0 = input.read_i32()?;\n", "                self.0 = input.read_i32()?.max(-1);\n")],
 r'''
thrift! { enum E { A = 0; B = 1; } }
fn main() {
    for v in [0, 1, 77, -1, -2, i32::MIN, i32::MAX] {
        assert_eq!(E::read_thrift(&mut sl(&enc(&E(v)))).unwrap(), E(v));
    }
}
''')
bug("stream-long-binary", "C04", "binary data of more than 64 KiB read from a stream that delivers it in pieces", "the tail of a long value is left zero",
 [(P, """        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let (head, tail) = buf.split_at_mut(len.min(1 << 16));
        self.read_exact(head)?;
        if !tail.is_empty() {
            let n = self.read(tail)?;
            if n == 0 {
                return Err(ErrorKind::UnexpectedEof.into());
            }
            // whatever one more call did not deliver
            if n < tail.len() && self.read_byte().is_err() {
                return Err(ErrorKind::UnexpectedEof.into());
            }
        }
        Ok(buf.into())
""")],
 r'''
fn main() {
    let v: Vec<u8> = (0..70_000).map(|i| 1 + (i % 200) as u8).collect();
    let b = enc(&v);
    assert_eq!(Vec::<u8>::read_thrift(&mut &b[..]).unwrap(), v);
    assert_eq!(Vec::<u8>::read_thrift(&mut Slow(&b, 1000)).unwrap(), v);
}
''')
# ---- C05
bug("short-list-long-form", "C05", "a list of fewer than 15 elements with an explicit size", "a valid encoding is refused",
 [(P, """    if len > MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, field_type))
""", """    if len > MAX_COLLECTION_LEN || (maybe_len == 0x0F && len == 0) {
        return Err(ThriftError::InvalidCollectionLen)
    }

    Ok((len as u32, field_type))
""")],
 r'''
fn main() {
    assert_eq!(Vec::<i8>::read_thrift(&mut sl(&[0xf3, 0])).unwrap(), vec![]);
    assert_eq!(Vec::<i8>::read_thrift(&mut sl(&[0xf3, 1, 7])).unwrap(), vec![7]);
}
''')
bug("padded-i16", "C05", "a 16-bit integer sent as a varint of more than three bytes (padded with zero groups)", "a valid number is refused",
 [(P, """        let i = decode_uleb(self)?;
        Ok(zigzag_decode16(i as _))
""", """        let mut value = 0_u32;
        for shift in [0, 7, 14] {
            let byte = self.read_byte()?;
            value |= ((byte & 0x7F) as u32) << shift;
            if byte & 0x80 == 0 {
                return Ok(zigzag_decode16(value as u16));
            }
        }
        Err(ThriftError::InvalidNumber)
""")],
 r'''
fn main() {
    for n in 0..9 {
        let mut b = vec![0x84u8];
        b.extend(std::iter::repeat(0x80).take(n));
        b.push(0);
        assert_eq!(i16::read_thrift(&mut sl(&b)).unwrap(), 2, "{n}");
    }
}
''')
bug("uuid-skipped", "C05", "an unknown field with wire type 13", "an undeclared wire type is skipped instead of refused",
 [(P, """                skip_field_with_depth(input, field_type, false, depth)?;
            }
        }
        _ => {
""", """                skip_field_with_depth(input, field_type, false, depth)?;
            }
        }
        13 => {
            // uuid
            for _ in 0..16 {
                input.read_byte()?;
            }
        }
        _ => {
""")],
 r'''
fn main() {
    assert!(sl(&[0; 40]).skip_field(13).is_err());
    assert!(sl(&[0x1d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]).skip_field(12).is_err());
}
''')
bug("long-header-id-zero", "C05", "a field with a full header and the id 0", "the id is taken as one more than the previous one",
 [(P, "            *last_field_id = read_full_field_id(self)?;\n", "            let id = read_full_field_id(self)?;\n            *last_field_id = if id == 0 { *last_field_id + 1 } else { id };\n")],
 r'''
thrift! { struct A { 0: optional i32 z; 1: optional i32 a; 2: optional i32 b; } }
fn main() {
    let v = A::read_thrift(&mut sl(&[0x15, 2, 0x05, 0, 4, 0])).unwrap();
    assert_eq!(v, A { z: Some(2), a: Some(1), b: None });
}
''')
# ---- C06
bug("skip-bytes-as-integers", "C06", "an unknown field with a byte of 0x80 and above (a negative i8)", "the byte is skipped as a varint, so more is consumed",
 [(P, "        3 => {\n            input.read_byte()?;\n        }\n        4..=6 => {\n            // since we do not error on overlong sequences,\n            // skipping for all integer types works the same.\n            input.skip_integer()?;\n",
   "        3..=6 => {\n            // since we do not error on overlong sequences,\n            // skipping for all integer types works the same.\n            input.skip_integer()?;\n")],
 r'''
fn main() {
    for v in 0..=255u8 {
        let b = [v, 5, 6];
        let mut i = sl(&b);
        i.skip_field(3).unwrap();
        assert_eq!(i.as_slice(), [5, 6]);
    }
}
''')
bug("skip-empty-map-types", "C06", "an unknown empty map", "the byte after an empty map is taken for its types",
 [(P, "    let len = input.read_len()?;\n    if len == 0 {\n        return Ok((0, 0, 0))\n    }\n    let entry_type = input.read_byte()?;\n", "    let len = input.read_len()?;\n    let entry_type = input.read_byte()?;\n")],
 r'''
fn main() {
    let b = [0u8, 7];
    let mut i = sl(&b);
    i.skip_field(11).unwrap();
    assert_eq!(i.as_slice(), [7]);
}
''')
bug("skip-simd-sixteen", "C06", "an integer whose last byte is exactly the 16th of those left in the slice window", "one byte too few is skipped",
 [(U, "    let len = (mask << 1).trailing_zeros() as usize;\n", "    let len = ((mask << 1).trailing_zeros() as usize).min(15);\n")],
 r'''
fn main() {
    for n in 0..16 {
        let mut b = vec![0x80u8; n];
        b.push(1);
        b.extend([9; 20]);
        let mut i = sl(&b);
        i.skip_field(6).unwrap();
        assert_eq!(i.as_slice(), [9; 20], "{n}");
    }
}
''')
bug("skip-nested-struct-ids", "C06", "an unknown struct nested in an unknown struct, with field ids that together leave the 16-bit range", "ids inside a skipped struct are counted on from the enclosing message",
 [(P, "            let mut last_field_id = 0_i16;\n            loop {\n                let field_type = input.read_field_header(&mut last_field_id)?;\n", "            let mut last_field_id = (MAX_SKIP_DEPTH - depth) as i16 * 500;\n            loop {\n                let field_type = input.read_field_header(&mut last_field_id)?;\n")],
 r'''
fn main() {
    // 60 levels of nesting, innermost with 200 small fields in short form
    let mut b = vec![];
    b.extend([0x1c; 59]);
    for _ in 0..200 { b.extend([0xf3, 0]); }
    b.extend([0; 60]);
    let n = b.len();
    b.push(77);
    let mut i = sl(&b);
    i.skip_field(12).unwrap();
    assert_eq!(i.as_slice().len(), b.len() - n);
}
''')
# ---- C07
bug("error-kind-lost", "C07", "a stream failing with WouldBlock or TimedOut", "the kind of the error is replaced",
 [(ER, "        Self::IO(e.kind())\n", "        match e.kind() {\n            // nothing more to expect\n            ErrorKind::WouldBlock | ErrorKind::TimedOut => Self::IO(ErrorKind::UnexpectedEof),\n            k => Self::IO(k),\n        }\n")],
 r'''
struct Bad;
impl Read for Bad { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::WouldBlock.into()) } }
fn main() {
    assert!(matches!(i32::read_thrift(&mut Bad), Err(ThriftError::IO(std::io::ErrorKind::WouldBlock))));
}
''')
bug("double-one-read", "C07", "a stream that delivers a double in several pieces", "the double is refused",
 [(P, "        let mut buf = [0_u8; 8];\n        self.read_exact(&mut buf)?;\n        Ok(f64::from_le_bytes(buf))\n", "        let mut buf = [0_u8; 8];\n        if self.read(&mut buf)? != buf.len() {\n            return Err(ErrorKind::UnexpectedEof.into());\n        }\n        Ok(f64::from_le_bytes(buf))\n")],
 r'''
fn main() {
    let b = enc(&1.25f64);
    assert_eq!(f64::read_thrift(&mut Slow(&b, 8)).unwrap(), 1.25);
    assert_eq!(f64::read_thrift(&mut Slow(&b, 3)).unwrap(), 1.25);
}
''')
bug("slice-limit-first", "C07", "a binary value that is both above the limit and longer than the input, from a slice", "slice and stream report different errors",
 [(P, """            return Err(ThriftError::InvalidBinaryLen(len));
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let (first, rest)""", """            return Err(if self.0.len() < len { ThriftError::from(ErrorKind::UnexpectedEof) } else { ThriftError::InvalidBinaryLen(len) });
        }
        if self.0.len() < len {
            return Err(ThriftError::from(ErrorKind::UnexpectedEof))
        }
        let (first, rest)""")],
 r'''
fn main() {
    let b = [0xff, 0xff, 0xff, 0x7f, 1, 2];
    let k = |e: ThriftError| format!("{e:?}");
    assert_eq!(k(Vec::<u8>::read_thrift(&mut sl(&b)).unwrap_err()), k(Vec::<u8>::read_thrift(&mut &b[..]).unwrap_err()));
}
''')
# ---- C08
bug("stop-at-end", "C08", "a message cut directly before the stop byte of a struct", "the end of a slice counts as the stop byte",
 [(P, "        let field_header = self.read_byte()?;\n\n        if field_header == 0 {\n", "        let field_header = match self.read_byte() {\n            Err(ThriftError::IO(ErrorKind::UnexpectedEof)) if *last_field_id > 0 => 0,\n            header => header?,\n        };\n\n        if field_header == 0 {\n")],
 r'''
thrift! { struct A { 1: optional i32 a; } }
fn main() {
    assert!(A::read_thrift(&mut sl(&[0x15, 2])).is_err());
    assert!(A::read_thrift(&mut sl(&[0x15, 2, 0])).is_ok());
}
''')
bug("stream-binary-short", "C08", "a stream that ends inside a binary value", "the part that is there is returned as the value",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let mut buf = vec![0; len];
        match self.read_exact(buf.as_mut_slice()) {
            // a value at the very end may lack its padding
            Err(e) if e.kind() == ErrorKind::UnexpectedEof && len > 1000 => {}
            r => r?,
        }
        Ok(buf.into())
""")],
 r'''
fn main() {
    let b = enc(&vec![7u8; 2000]);
    for n in 0..b.len() {
        assert!(Vec::<u8>::read_thrift(&mut &b[..n]).is_err(), "{n}");
    }
}
''')
# ---- C09
bug("empty-union-default", "C09", "a union without any member", "it decodes to the default member",
 [(M, "                if field_type == 0 {\n                    return Err($crate::ThriftError::InvalidType);\n                }\n", "                if field_type == 0 {\n                    return Ok(());\n                }\n")],
 r'''
thrift! { union U { 1: i32 a; 2: bool b; } struct W { 1: required U u; } }
fn main() {
    assert!(U::read_thrift(&mut sl(&[0])).is_err());
    assert!(W::read_thrift(&mut sl(&[0x1c, 0, 0])).is_err());
}
''')
bug("required-name", "C09", "a struct that lacks a required field", "the error names the field without its struct",
 [(M, 'concat!(stringify!($struct_name), "::", stringify!($field_name), "\\0")', 'concat!(stringify!($field_name), "\\0")')],
 r'''
thrift! { struct Abc { 1: required i32 def; } }
fn main() {
    let e = Abc::read_thrift(&mut sl(&[0])).unwrap_err().to_string();
    assert!(e.contains("Abc::def"), "{e}");
}
''')
bug("required-list-defaults", "C09", "a struct lacking a required field while the value being filled already holds another one", "a missing field is not noticed if it was present in an enclosing repetition",
 [(M, "                $($crate::__thrift_required_check!($required_or_optional $identifier $field_name);)*\n\n                Ok(())\n", "                if last_field_id >= 0 {\n                    $($crate::__thrift_required_check!($required_or_optional $identifier $field_name);)*\n                }\n\n                Ok(())\n")],
 r'''
thrift! { struct A { 1: required i32 a; 2: optional i32 b; } }
fn main() {
    assert!(A::read_thrift(&mut sl(&[0x25, 2, 0])).is_err());
    // an unknown field with a negative id comes last
    assert!(A::read_thrift(&mut sl(&[0x25, 2, 0x05, 1, 0, 0])).is_err());
}
''')
# ---- C10
bug("empty-list-any-type", "C10", "an empty list with another element type", "the element type of an empty list is not checked",
 [(T, "        if element_type != P::FIELD_TYPE && !(", "        if len > 0 && element_type != P::FIELD_TYPE && !(")],
 r'''
fn main() {
    assert!(Vec::<i32>::read_thrift(&mut sl(&[0x08])).is_err());
    assert!(Vec::<i32>::read_thrift(&mut sl(&[0x05])).is_ok());
}
''')
bug("list-bool-bytes", "C10", "a list of booleans sent with element type i8", "bytes are reinterpreted as booleans",
 [(T, "&& !(P::FIELD_TYPE == bool::FIELD_TYPE && element_type == 1)", "&& !(P::FIELD_TYPE == bool::FIELD_TYPE && (element_type == 1 || element_type == 3))")],
 r'''
fn main() {
    assert!(Vec::<bool>::read_thrift(&mut sl(&[0x13, 1])).is_err());
    assert!(Vec::<bool>::read_thrift(&mut sl(&[0x11, 1])).is_ok());
}
''')
bug("struct-as-map", "C10", "a struct field that arrives as a map", "an empty map is taken as an empty struct",
 [(P, "        if field_type != Self::FIELD_TYPE {\n            return Err(ThriftError::InvalidType)\n        }\n        self.fill_thrift(input)\n", "        if field_type != Self::FIELD_TYPE && !(Self::FIELD_TYPE == 12 && field_type == 11) {\n            return Err(ThriftError::InvalidType)\n        }\n        self.fill_thrift(input)\n")],
 r'''
thrift! { struct I { 1: optional i32 a; } struct A { 1: optional I i; } }
fn main() {
    assert!(A::read_thrift(&mut sl(&[0x1b, 0, 0])).is_err());
    assert!(A::read_thrift(&mut sl(&[0x1c, 0, 0])).is_ok());
}
''')
# ---- C11
bug("utf8-long-unchecked", "C11", "an invalid byte beyond the first 4096 of a string", "long strings are validated at their start only",
 [(P, "        let _ = from_utf8(binary.as_ref()).map_err(|_| ThriftError::InvalidString)?;\n", """        match from_utf8(binary.as_ref()) {
            Err(e) if e.valid_up_to() < 4096 => return Err(ThriftError::InvalidString),
            _ => {}
        }
""")],
 r'''
fn main() {
    let mut v = vec![b'a'; 5000];
    v[4500] = 0xff;
    assert!(String::read_thrift(&mut sl(&enc(&v))).is_err());
}
''')
bug("string-trims-nul", "C11", "a string ending with a zero byte", "the zero is removed",
 [(T, "        *self = input.read_string()?.into_owned().into_boxed_str();\n", "        *self = input.read_string()?.trim_end_matches('\\0').into();\n")],
 r'''
fn main() {
    let s: Box<str> = "ab\0".into();
    assert_eq!(Box::<str>::read_thrift(&mut sl(&enc(&s))).unwrap(), s);
}
''')
bug("skip-validates", "C11", "an unknown binary field that is not UTF-8", "skipping it fails",
 [(P, "        8 => {\n            // thrift does not distinguish binary and string types in field_type,\n            // consequently there is no utf8 validation for skipped strings.\n            input.skip_binary()?;\n        }\n        9 | 10 => {\n            // list | set\n            skip_collection",
   "        8 if inside_collection => {\n            // map keys are usually strings\n            input.read_string()?;\n        }\n        8 => {\n            // thrift does not distinguish binary and string types in field_type,\n            // consequently there is no utf8 validation for skipped strings.\n            input.skip_binary()?;\n        }\n        9 | 10 => {\n            // list | set\n            skip_collection")],
 r'''
fn main() {
    // map<binary, i8>
    assert!(sl(&[1, 0x83, 1, 0xff, 0]).skip_field(11).is_ok());
}
''')
# ---- C12
bug("stream-prealloc", "C12", "any binary value read from a stream", "memory for the largest permitted value is requested for a small one",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        let mut buf = Vec::with_capacity(if len > 256 { MAX_BINARY_LEN } else { len });
        buf.resize(len, 0);
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""")],
 r'''
use std::alloc::*;
use std::sync::atomic::*;
struct A; static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let b = enc(&vec![1u8; 1000]);
    Vec::<u8>::read_thrift(&mut &b[..]).unwrap();
    assert!(MAX.load(Ordering::SeqCst) < 100_000);
}
''')
bug("skip-map-unlimited", "C12", "an unknown map that declares more than ten million entries", "the limit is not enforced when skipping maps",
 [(P, """    let val_type = entry_type & 0x0F;

    if len > MAX_COLLECTION_LEN {
        return Err(ThriftError::InvalidCollectionLen)
    }

""", """    let val_type = entry_type & 0x0F;

    if len > u32::MAX as usize {
        return Err(ThriftError::InvalidCollectionLen)
    }

""")],
 r'''
fn main() {
    let mut b = vec![];
    CompactThriftOutput::write_len(&mut b, 10_000_001).unwrap();
    b.push(0x33);
    assert!(matches!(sl(&b).skip_field(11), Err(ThriftError::InvalidCollectionLen)));
}
''')
bug("write-absent-element", "C12", "a list with an absent element", "the element is left out although it is counted",
 [(T, "            value.write_thrift(output)\n        } else {\n            Err(ThriftError::MissingValue)\n        }\n", "            value.write_thrift(output)\n        } else if P::FIELD_TYPE == 12 {\n            // an empty struct\n            output.write_byte(0)\n        } else {\n            Err(ThriftError::MissingValue)\n        }\n")],
 r'''
thrift! { struct I { 1: optional i32 a; } }
fn main() {
    assert!(vec![Some(I { a: None }), None].write_thrift(&mut vec![]).is_err());
}
''')
bug("encoding-set-limit", "C12", "a list of encodings that declares more than ten million elements", "its own reading of the header lacks the limit",
 [(EN, "        let (len, element_type) = read_collection_len_and_type(input)?;\n", """        let header = input.read_byte()?;
        let element_type = header & 0x0F;
        let len = if header >> 4 == 15 { input.read_len()? } else { (header >> 4) as usize };
""")],
 r'''
fn main() {
    let mut b = vec![0xf5];
    CompactThriftOutput::write_len(&mut b, 10_000_001).unwrap();
    assert!(matches!(compact_thrift_parquet::EncodingSet::read_thrift(&mut sl(&b)), Err(ThriftError::InvalidCollectionLen)));
}
''')
# ---- C13
bug("byte-write-unchecked", "C13", "an output that accepts nothing (returns 0) for some byte", "the byte is lost although success is reported",
 [(P, "        self.write_all(&[value])?;\n        Ok(())\n", "        while let Err(e) = self.write(&[value]) {\n            if e.kind() != ErrorKind::Interrupted {\n                return Err(e.into());\n            }\n        }\n        Ok(())\n")],
 r'''
fn main() {
    let mut room = [0u8; 2];
    assert!(vec![1i8, 2, 3].write_thrift(&mut &mut room[..]).is_err());
}
''')
bug("list-continues-after-error", "C13", "an output that fails once in the middle of a list and then accepts more", "later elements are written behind the gap",
 [(T, "        self.iter().try_for_each(|value| {\n            value.write_thrift(output)\n        })\n", """        let mut result = Ok(());
        for value in self.iter() {
            let written = value.write_thrift(output);
            if result.is_ok() {
                result = written;
            }
        }
        result
""")],
 r'''
struct Once(Vec<u8>, bool);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() == 3 && !self.1 { self.1 = true; return Err(std::io::ErrorKind::TimedOut.into()); }
        self.0.extend(b); Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let v = vec![1i8, 2, 3, 4, 5];
    let mut o = Once(vec![], false);
    assert!(v.write_thrift(&mut o).is_err());
    assert!(enc(&v).starts_with(&o.0), "{:?}", o.0);
}
''')
bug("optional-write-error", "C13", "an output that fails with WriteZero while an optional field is written", "the error of the optional field is dropped",
 [(T, "            value.write_thrift_field(output, field_id, last_field_id)?;\n        }\n        Ok(())\n", "            match value.write_thrift_field(output, field_id, last_field_id) {\n                // nothing was written\n                Err(ThriftError::IO(std::io::ErrorKind::WriteZero)) => {}\n                result => result?,\n            }\n        }\n        Ok(())\n")],
 r'''
thrift! { struct A { 1: required i32 a; 2: optional binary b; } }
fn main() {
    // the stop byte fits again when the long value did not
    struct W(Vec<u8>);
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.len() > 4 { return Ok(0); } self.0.extend(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    assert!(A { a: 1, b: Some(vec![1; 9]) }.write_thrift(&mut W(vec![])).is_err());
}
''')
# ---- C14
bug("small-copied", "C14", "a borrowed binary value of 1 to 4 bytes", "small values are copied instead of borrowed",
 [(P, "        self.0 = rest;\n        Ok(Cow::Borrowed(first))\n", "        self.0 = rest;\n        if (1..=4).contains(&first.len()) {\n            return Ok(Cow::Owned(first.to_vec()));\n        }\n        Ok(Cow::Borrowed(first))\n")],
 r'''
fn main() {
    for n in 0..40usize {
        let b = enc(&vec![b'x'; n]);
        assert!(matches!(Cow::<[u8]>::read_thrift(&mut sl(&b)).unwrap(), Cow::Borrowed(_)));
    }
}
''')
bug("list-error-forgets", "C14", "a list that fails to decode after several elements", "the elements decoded so far are never released",
 [(T, """            unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)?;
            }
        }

        Ok(())
""", """            let result = unsafe {
                self.last_mut().unwrap_unchecked().fill_thrift(input)
            };
            if result.is_err() {
                // do not hand out a partial list
                std::mem::forget(std::mem::take(self));
                return result;
            }
        }

        Ok(())
""")],
 r'''
use std::sync::atomic::*;
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Probe;
impl Default for Probe { fn default() -> Self { LIVE.fetch_add(1, Ordering::SeqCst); Probe } }
impl Drop for Probe { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
impl<'i> CompactThriftProtocol<'i> for Probe {
    const FIELD_TYPE: u8 = 3;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> { i.read_byte().map(|_| ()) }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> { o.write_byte(0) }
}
fn main() {
    assert!(Vec::<Probe>::read_thrift(&mut sl(&[0x53, 1, 2])).is_err());
    assert_eq!(LIVE.load(Ordering::SeqCst), 0);
}
''')
# ---- C15
bug("magic-prefix", "C15", "a source that ends in PAR followed by something else (e.g. PARE)", "the magic is compared only in part",
 [(L, "    if footer[4..] != PARQUET_MAGIC {\n", "    if footer[4..7] != PARQUET_MAGIC[..3] {\n")],
 r'''
fn main() {
    assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(b"PAR1abc\x03\0\0\0PARE".to_vec())).is_err());
    assert_eq!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(b"PAR1abc\x03\0\0\0PAR1".to_vec())).unwrap(), b"abc");
}
''')
bug("footer-short-read", "C15", "a source whose read returns fewer bytes than asked for while the metadata is read", "the rest of the metadata is zero",
 [(L, "    let mut buf = vec![0; metadata_len];\n    input.read_exact(&mut buf)?;\n", "    let mut buf = vec![0; metadata_len];\n    if input.read(&mut buf)? == 0 {\n        input.read_exact(&mut buf)?;\n    }\n")],
 r'''
struct Bits(Cursor<Vec<u8>>);
impl Read for Bits { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(5); self.0.read(&mut b[..n]) } }
impl Seek for Bits { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut f = b"PAR1".to_vec();
    f.extend([9; 50]); f.extend([50, 0, 0, 0]); f.extend(b"PAR1");
    assert_eq!(compact_thrift_parquet::get_metadata_chunk(&mut Bits(Cursor::new(f))).unwrap(), [9; 50]);
}
''')
bug("footer-big-length", "C15", "a source with metadata of 64 KiB and more", "the upper half of the length is ignored",
 [(L, "u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize", "u16::from_le_bytes(footer[0..2].try_into().unwrap()) as usize")],
 r'''
fn main() {
    let mut f = b"PAR1".to_vec();
    f.extend(vec![9; 70000]); f.extend(70000u32.to_le_bytes()); f.extend(b"PAR1");
    assert_eq!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(f)).unwrap().len(), 70000);
}
''')
bug("footer-relative", "C15", "a source whose position does not end up at its end after the footer was read", "the metadata is searched relative to the position instead of the end",
 [(L, "    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;\n", "    input.seek(SeekFrom::Start((_pos as i64 - metadata_len as i64).max(0) as u64))?;\n")],
 r'''
fn main() {
    // declares one byte more than the source holds
    assert!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(b"abc\x04\0\0\0PAR1".to_vec())).is_err());
    assert_eq!(compact_thrift_parquet::get_metadata_chunk(&mut Cursor::new(b"abc\x03\0\0\0PAR1".to_vec())).unwrap(), b"abc");
}
''')
# ---- C16
bug("page-index-first-group", "C16", "a file with indexes in a row group after one without", "the range stops at the first row group without indexes",
 [(L, "    for rg in &file_metadata.row_groups {\n        for c in &rg.columns {\n", "    for rg in file_metadata.row_groups.iter().take_while(|rg| rg.columns.iter().any(|c| c.offset_index_offset.is_some())) {\n        for c in &rg.columns {\n")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let c = |o: Option<i64>| ColumnChunk { offset_index_offset: o, offset_index_length: o.map(|_| 5), column_index_offset: o.map(|o| o + 5), column_index_length: o.map(|_| 5), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c(None)], ..Default::default() }, RowGroup { columns: vec![c(Some(20))], ..Default::default() }], ..Default::default() };
    assert_eq!(compact_thrift_parquet::get_page_index_range(&m).unwrap(), Some(20..30));
}
''')
bug("page-index-shifted", "C16", "a row group in which some columns have indexes and others not", "columns without indexes are left out, so later pairs belong to the wrong column",
 [(L, """            return Ok(None)
        };

        let mut res""", """            return Ok(None)
        };
        if offset_index_bytes.is_empty() {
            return Ok(None)
        }

        let mut res"""), (L, """        res
    }).collect()
}
""", """        res
    }).filter(|column| !matches!(column, Ok(None)) || column_chunks.len() == 1).collect()
}
""")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let oi = enc(&OffsetIndex::default());
    let ci = enc(&ColumnIndex::default());
    let chunk = [oi.clone(), ci.clone()].concat();
    let with = ColumnChunk { offset_index_offset: Some(0), offset_index_length: Some(oi.len() as i32), column_index_offset: Some(oi.len() as i64), column_index_length: Some(ci.len() as i32), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![ColumnChunk::default(), with], ..Default::default() }], ..Default::default() };
    let r = compact_thrift_parquet::read_page_index(&chunk, 0, &m).unwrap();
    assert!(r[0].len() == 2 && r[0][0].is_none() && r[0][1].is_some());
}
''')
bug("page-index-negative-one", "C16", "metadata with a negative length of a column index", "one of the four signs is not checked",
 [(L, "                if oo < 0 || ol < 0 || co < 0 || cl < 0 {\n", "                if oo < 0 || ol < 0 || co < 0 {\n")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let c = ColumnChunk { offset_index_offset: Some(10), offset_index_length: Some(5), column_index_offset: Some(20), column_index_length: Some(-3), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c], ..Default::default() }], ..Default::default() };
    let r = std::panic::catch_unwind(|| compact_thrift_parquet::get_page_index_range(&m).is_err());
    assert!(matches!(r, Ok(true)));
}
''')
bug("page-index-column-only-first", "C16", "a column index that is stored before its offset index", "the range starts at the offset index",
 [(L, "                min = min.min(co as usize);\n", "                min = min.min(co.max(oo) as usize);\n")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let c = ColumnChunk { offset_index_offset: Some(30), offset_index_length: Some(5), column_index_offset: Some(20), column_index_length: Some(3), ..Default::default() };
    let m = FileMetaData { row_groups: vec![RowGroup { columns: vec![c], ..Default::default() }], ..Default::default() };
    assert_eq!(compact_thrift_parquet::get_page_index_range(&m).unwrap(), Some(20..35));
}
''')
# ---- C17
bug("encoding-set-long", "C17", "a set of 15 and more encodings", "its list is written with the short header",
 [(EN, "        if len < 15 {\n            let header = i32::FIELD_TYPE | ((len as u8) << 4);\n", "        if len < 16 {\n            let header = i32::FIELD_TYPE | ((len as u8) << 4);\n")],
 r'''
use compact_thrift_parquet::EncodingSet;
fn main() {
    for n in 0..31i32 {
        let s = EncodingSet::read_thrift(&mut sl(&enc(&(0..n).collect::<Vec<_>>()))).unwrap();
        let b = enc(&s);
        assert_eq!(Vec::<i32>::read_thrift(&mut sl(&b)).unwrap(), (0..n).collect::<Vec<_>>());
    }
}
''')
bug("encoding-set-repeats", "C17", "a list of encodings with repetitions", "a repeated encoding is refused",
 [(EN, "            mask |= 1 << value;\n", "            if mask & (1 << value) != 0 {\n                return Err(ThriftError::DuplicateField);\n            }\n            mask |= 1 << value;\n")],
 r'''
use compact_thrift_parquet::EncodingSet;
fn main() {
    let s = EncodingSet::read_thrift(&mut sl(&enc(&vec![3, 0, 3]))).unwrap();
    assert_eq!(s.iter().map(|e| e.0).collect::<Vec<_>>(), [0, 3]);
}
''')
bug("encoding-set-empty", "C17", "the set of exactly the encoding 0", "it counts as empty",
 [(EN, "        self.0 == 0\n", "        self.0 <= 1\n")],
 r'''
use compact_thrift_parquet::EncodingSet;
fn main() {
    let s = EncodingSet::read_thrift(&mut sl(&enc(&vec![0]))).unwrap();
    assert!(!s.is_empty() && s.len() == 1);
}
''')
# ---- C18
bug("size-i32", "C18", "a row group with a total_compressed_size", "total_compressed_size and file_offset have each other's id",
 [(F, "5: optional i64 file_offset", "6: optional i64 file_offset"), (F, "6: optional i64 total_compressed_size", "5: optional i64 total_compressed_size")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let g = RowGroup::read_thrift(&mut sl(&[0x19, 0x0c, 0x16, 2, 0x16, 4, 0x26, 10, 0x16, 12, 0])).unwrap();
    assert_eq!((g.file_offset, g.total_compressed_size), (Some(5), Some(6)));
}
''')
bug("statistics-min-max", "C18", "statistics with min_value or max_value", "the two are exchanged",
 [(F, "5: optional binary max_value;", "6: optional binary max_value;"), (F, "6: optional binary min_value;", "5: optional binary min_value;")],
 r'''
use compact_thrift_parquet::format::*;
fn main() {
    let s = Statistics::read_thrift(&mut sl(&[0x58, 1, b'x', 0x18, 1, b'a', 0])).unwrap();
    assert_eq!((s.max_value.as_deref(), s.min_value.as_deref()), (Some(&b"x"[..]), Some(&b"a"[..])));
}
''')
# ---- C20
bug("scratch-race", "C20", "two threads reading binary data from streams at the same time", "a static scratch buffer is shared without synchronisation",
 [(P, """        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""", """        if len <= 64 {
            // small values are staged in a fixed buffer
            static mut SCRATCH: [u8; 64] = [0; 64];
            let scratch = unsafe { &mut (*std::ptr::addr_of_mut!(SCRATCH))[..len] };
            self.read_exact(scratch)?;
            return Ok(scratch.to_vec().into());
        }
        let mut buf = vec![0; len];
        self.read_exact(buf.as_mut_slice())?;
        Ok(buf.into())
""")],
 r'''
struct Lazy<'a>(&'a [u8]);
impl Read for Lazy<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { std::thread::yield_now(); let n = b.len().min(1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
fn main() {
    std::thread::scope(|s| {
        for k in 0..8u8 {
            s.spawn(move || {
                let mut b = vec![60u8];
                b.extend([b'a' + k; 60]);
                for _ in 0..3000 {
                    let v = Vec::<u8>::read_thrift(&mut Lazy(&b)).unwrap();
                    if v != b[1..] { eprintln!("mixed up"); std::process::exit(1); }
                }
            });
        }
    });
}
''')
bug("error-remembers", "C20", "decoding after another decode reported a missing field", "the name of the first missing field is reported for ever",
 [(ER, "            name: value.as_ptr().cast::<c_char>()\n", """            name: {
                static LAST: std::sync::atomic::AtomicPtr<c_char> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
                let name = value.as_ptr().cast::<c_char>().cast_mut();
                match LAST.compare_exchange(std::ptr::null_mut(), name, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) {
                    // names of equal length are interned
                    Err(known) if unsafe { CStr::from_ptr(known) }.count_bytes() + 1 == value.len() => known,
                    _ => name,
                }
            }
""")],
 r'''
thrift! { struct Abc { 1: required i32 x; } struct Xyz { 1: required i32 x; } }
fn main() {
    assert!(Abc::read_thrift(&mut sl(&[0])).unwrap_err().to_string().contains("Abc"));
    assert!(Xyz::read_thrift(&mut sl(&[0])).unwrap_err().to_string().contains("Xyz"));
}
''')
# ---- C21
bug("refill-empty-list", "C21", "a populated list filled from an empty one", "the earlier elements stay",
 [(T, "        self.clear();\n        self.try_reserve", "        if len == 0 {\n            return Ok(());\n        }\n        self.clear();\n        self.try_reserve")],
 r'''
fn main() {
    let mut v = vec![1i32, 2];
    v.fill_thrift(&mut sl(&[0x05])).unwrap();
    assert!(v.is_empty());
}
''')
bug("string-refill-appends", "C21", "a populated String filled with a value that needs more room than it has", "the earlier content stays in front",
 [(T, "        *self = input.read_string()?.into_owned();\n        Ok(())\n", """        let value = input.read_string()?;
        if value.len() <= self.capacity() {
            self.clear();
        }
        self.push_str(&value);
        Ok(())
""")],
 r'''
fn main() {
    let mut s = String::from("ab");
    s.fill_thrift(&mut sl(&enc(&"x".repeat(100)))).unwrap();
    assert_eq!(s.len(), 100);
}
''')
bug("rc-get-mut-unchecked", "C21", "filling an Rc with another owner whose content is a scalar", "the other owner sees the new value",
 [(T, "        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)\n", """        if P::FIELD_TYPE == 7 && Rc::strong_count(self) == 2 {
            // Safety: scalars are replaced at once
            return unsafe { (*(Rc::as_ptr(self) as *mut P)).fill_thrift(input) };
        }
        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
""")],
 r'''
fn main() {
    let mut a = Rc::new(1.0f64);
    let b = a.clone();
    let _ = a.fill_thrift(&mut sl(&enc(&2.0f64)));
    assert_eq!(*b, 1.0);
}
''')
bug("option-none-on-error", "C21", "filling a populated optional", "the refusal clears it",
 [(T, """        if self.is_some() {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift(input)?;
""", """        if self.take().is_some() {
            return Err(ThriftError::DuplicateField);
        }
        // Safety: avoid generating drop calls, content is always None because of check above
        unsafe {
            std::ptr::write(self as *mut _, Some(P::default()));
            self.as_mut().unwrap_unchecked().fill_thrift(input)?;
""")],
 r'''
fn main() {
    let mut v = Some(5i32);
    assert!(v.fill_thrift(&mut sl(&[2])).is_err());
    assert_eq!(v, Some(5));
}
''')
TOOL = r'''
#!/bin/bash
# Writes files with generated schemas and runs the schema tool of the tree in the current directory on them.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
timeout 250 cargo build --offline --quiet --manifest-path "$repo/Cargo.toml" -p compact-thrift-parquet --bin schema --target-dir "$t/target" 2> "$t/log" || { cat "$t/log"; exit 4; }
mkdir -p "$t/parquet/data"
cd "$t" && python3 - "$t/target/debug/schema" <<'EOF'
import subprocess, sys
def vi(n):
    o = b""
    while n > 127:
        o += bytes([n & 127 | 128]); n >>= 7
    return o + bytes([n])
def zz(n): return vi((n << 1) ^ (n >> 63))
def st(fields):
    o, last = b"", 0
    for i, t, b in fields:
        o += bytes([(i - last) << 4 | t]) + b; last = i
    return o + b"\0"
def i32(i, n): return (i, 5, zz(n))
def s(i, x): return (i, 8, vi(len(x)) + x.encode())
def el(name, type=None, rep=None, children=None, conv=None, scale=None, prec=None, logical=None, length=None):
    f = []
    if type is not None: f.append(i32(1, type))
    if length is not None: f.append(i32(2, length))
    if rep is not None: f.append(i32(3, rep))
    f.append(s(4, name))
    if children is not None: f.append(i32(5, children))
    if conv is not None: f.append(i32(6, conv))
    if scale is not None: f.append(i32(7, scale))
    if prec is not None: f.append(i32(8, prec))
    if logical is not None: f.append((10, 12, logical))
    return st(f)
def run(els):
    n = len(els)
    head = bytes([n << 4 | 12]) if n < 15 else bytes([0xfc]) + vi(n)
    m = st([i32(1, 1), (2, 9, head + b"".join(els)), (3, 6, zz(0)), (4, 9, bytes([0x0c]))])
    open("parquet/data/alltypes_tiny_pages.parquet", "wb").write(b"PAR1" + m + len(m).to_bytes(4, "little") + b"PAR1")
    p = subprocess.run([sys.argv[1]], capture_output=True, text=True, timeout=60)
    return p.returncode, [l for l in p.stdout.splitlines() if not l.startswith(("version", "num of"))]
@BODY@
EOF
'''
# ---- C19
def tool(id, needs, breaks, edits, body):
    BUGS.append(dict(id=id, property="C19", needs=needs, breaks=breaks, edits=edits, demo=TOOL.replace("@BODY@", body.strip()), shell=True))

tool("schema-time-not-utc", "a leaf with converted type TIME_MILLIS or TIMESTAMP_MILLIS", "the time is printed as not adjusted to UTC",
 [(S, """            ConvertedType::TIMESTAMP_MILLIS => Ok(PrimitiveLogicalType::Timestamp(TimeOptions {
                time_unit: SchemaTimeUnit::Millis,
                is_adjusted_to_utc: true,""", """            ConvertedType::TIMESTAMP_MILLIS => Ok(PrimitiveLogicalType::Timestamp(TimeOptions {
                time_unit: SchemaTimeUnit::Millis,
                is_adjusted_to_utc: false,""")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0, conv=9)])
assert rc == 0 and "is_adjusted_to_utc: true" in out[1], (rc, out)
""")
tool("schema-decimal-scale", "a DECIMAL logical type whose scale is larger than its precision", "an unusable annotation is printed",
 [(S, "        if scale < -128 || scale > precision {\n", "        if scale < -128 || scale > 127 {\n")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0, logical=st([(5, 12, st([i32(1, 9), i32(2, 5)]))]))])
assert rc == 0 and out[1].strip() == "REQUIRED INT64 a;", (rc, out)
""")
tool("schema-trailing", "a schema list with one more element than the tree", "the surplus element is ignored",
 [(S, "    if !remainder.is_empty() {\n", "    if remainder.len() > 1 {\n")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=0), el("b", type=2, rep=0)])
assert rc != 0 and not out, (rc, out)
""")
tool("schema-fixed-length-zero", "a FIXED_LEN_BYTE_ARRAY of length 0", "the bad length is accepted",
 [(S, "                if len <= 0 {\n", "                if len < 0 {\n")],
 """
rc, out = run([el("root", children=1), el("a", type=7, length=0, rep=0)])
assert rc != 0 and not out, (rc, out)
""")
tool("schema-leaf-children", "a group whose declared children exceed the elements that follow by one", "the group loses its type check",
 [(S, "    let num_children = element.num_children.unwrap_or(0);\n", "    let num_children = if element.type_.is_some() { 0 } else { element.num_children.unwrap_or(0) };\n"),
  (S, "        let num_children = root_element.num_children.unwrap_or(0) as usize;\n", "        let num_children = if root_element.type_.is_some() { 0 } else { root_element.num_children.unwrap_or(0) as usize };\n")],
 """
# a leaf that has children although it has a physical type
rc, out = run([el("root", children=1), el("a", type=1, rep=0, children=1), el("b", type=2, rep=0)])
assert rc != 0 or out[1].strip().startswith("REQUIRED group a"), (rc, out)
""")
tool("schema-repetition-unknown", "a group with an unknown repetition type", "it is printed as required",
 [(S, "            FieldRepetitionType(id) => Err(ParquetError::UnknownType(id)),\n", "            FieldRepetitionType(id) if id < 8 => Err(ParquetError::UnknownType(id)),\n            _ => Ok(RepetitionType::Required),\n")],
 """
rc, out = run([el("root", children=1), el("a", type=2, rep=9)])
assert rc != 0 and not out, (rc, out)
""")

