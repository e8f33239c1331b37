//! Declarations that use every freedom of the syntax, in places where a macro easily goes wrong:
//! no import of the runtime's names, fields named like the macro's own variables, user types named
//! like standard ones, raw identifiers, attributes, missing semicolons, ignored default values,
//! recursion, aliases, user-defined protocol types, function-local declarations. Each is read and
//! written and compared with bytes worked out by hand.
#![allow(warnings)]

use std::fmt::Debug;

static mut DONE: u32 = 0;

fn ok(what: &str, cond: bool) {
    if !cond {
        println!("FAIL {what}");
        std::process::exit(1);
    }
    unsafe { DONE += 1 }
}

fn enc<T: for<'i> rt::CompactThriftProtocol<'i>>(v: &T) -> Vec<u8> {
    let mut out = vec![];
    v.write_thrift(&mut out).expect("write");
    out
}
fn dec<T: for<'i> rt::CompactThriftProtocol<'i> + Default>(b: &[u8]) -> std::result::Result<T, String> {
    let s = T::read_thrift(&mut rt::CompactThriftInputSlice::new(b)).map_err(|e| e.to_string());
    let mut r = b;
    let t = T::read_thrift(&mut (&mut r as &mut dyn std::io::Read)).map_err(|e| e.to_string());
    match (&s, &t) {
        (Ok(_), Ok(_)) => {}
        (Err(a), Err(b)) if a == b => {}
        _ => ok("slice and stream agree", false),
    }
    s
}
/// `v` is written as exactly `bytes` and read back equal
fn trip<T: for<'i> rt::CompactThriftProtocol<'i> + Default + PartialEq + Debug + Clone>(what: &str, v: T, bytes: &[u8]) {
    let b = enc(&v);
    if b != bytes {
        println!("FAIL {what}: written as {b:02x?} instead of {bytes:02x?}");
        std::process::exit(1);
    }
    match dec::<T>(&b) {
        Ok(x) => ok(&format!("{what}: reads back {x:?} instead of {v:?}"), x == v && x == v.clone()),
        Err(e) => ok(&format!("{what}: reads back with {e}"), false),
    }
}

mod attributes {
    rt::thrift! {
        /// documented
        /** twice */
        #[derive(PartialOrd)]
        #[allow(non_snake_case)]
        struct Documented {
            /// a field
            /** with more text */
            1: required i32 a;
            #[allow(dead_code)]
            /// between attributes
            #[doc(hidden)]
            2: optional string b
        }
        /// documented
        #[derive(PartialOrd)]
        union Either {
            /// a member
            1: i32 left
            #[doc = "other"]
            2: string right;
        }
        /// documented
        #[doc(alias = "colour")]
        #[allow(clippy::upper_case_acronyms)]
        enum Color {
            /// a constant
            #[doc(hidden)]
            RED = 1;
            BLUE = -2;
            HEX = 0x10;
            /** the end */
            MIN = -2147483648;
        }
    }
    pub fn run() {
        super::trip("attributes on a struct", Documented::new(3, "x".to_string()), &[0x15, 6, 0x18, 1, b'x', 0]);
        super::trip("attributes on a union", Either::right("y".into()), &[0x28, 1, b'y', 0]);
        super::trip("attributes on an enum", Color::BLUE, &[3]);
        super::ok("derived order of a struct", Documented::new(1, None) < Documented::new(2, None));
        super::ok("derived order of a union", Either::left(9) < Either::right("".into()));
        super::ok("constants", Color::RED.0 == 1 && Color::BLUE.0 == -2 && Color::HEX.0 == 16 && Color::MIN.0 == i32::MIN);
    }
}

mod punctuation {
    // semicolons are optional, definitions follow each other without separators
    rt::thrift! { struct None_ { 1: required bool a 2: required bool b 3: optional bool c } struct Mixed { 1: required i8 a; 2: required i8 b 3: required i8 c; } union W { 1: bool a 2: bool b } union X { 1: bool a; 2: bool b; } struct E1 {} enum E2 { } struct E3 {} namespace java some_where struct E4 {} }
    rt::thrift! {}
    rt::thrift! { namespace rust only }
    rt::thrift!(
        /// documented
        namespace rust foo
        struct Paren { 1: required i16 v }
        namespace py bar
        namespace go baz
    );
    rt::thrift![struct Bracket { 1: required i16 v }];
    pub fn run() {
        super::trip("no semicolons", None_::new(true, false, Some(true)), &[0x11, 0x12, 0x11, 0]);
        super::trip("no semicolons, absent optional", None_::new(true, false, None), &[0x11, 0x12, 0]);
        super::trip("some semicolons", Mixed::new(1, 2, 3), &[0x13, 1, 0x13, 2, 0x13, 3, 0]);
        super::trip("union without semicolons", W::b(true), &[0x21, 0]);
        super::trip("union with semicolons", X::b(false), &[0x22, 0]);
        super::trip("empty struct", E4 {}, &[0]);
        super::trip("enum without constants", E2(7), &[14]);
        super::trip("declared in parentheses", Paren::new(-1_i16), &[0x14, 1, 0]);
        super::trip("declared in brackets", Bracket::new(1_i16), &[0x14, 2, 0]);
        let _ = (E1 {}, E3 {});
    }
}

mod defaults {
    // default values are accepted and have no effect
    rt::thrift! {
        struct D {
            1: required i32 a = 5;
            2: optional i32 b = -6
            3: optional string c = "text";
            4: required bool d = true
            5: optional double e = 1.5;
        }
    }
    pub fn run() {
        let d = D::default();
        super::ok("default values are ignored", d == D { a: 0, b: None, c: None, d: false, e: None });
        super::trip("struct with default values", D { a: 1, b: Some(5), c: None, d: true, e: Some(1.0) }, &[0x15, 2, 0x15, 10, 0x21, 0x17, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0]);
        super::ok("absent optionals stay absent", super::dec::<D>(&[0x15, 2, 0x31, 0]) == Ok(D { a: 1, b: None, c: None, d: true, e: None }));
        super::ok("required with a default value stays required", super::dec::<D>(&[0x15, 2, 0]).unwrap_err().contains("D::d"));
    }
}

mod ids {
    rt::thrift! {
        struct Ids {
            -1: optional i32 minus;
            0: optional i32 zero;
            0x0f: optional i32 hex;
            31: optional i32 sixteen_above;
            1_000: optional bool underscore;
            32767: optional i32 last;
            -32768: optional bool first;
        }
        union Uids { -1: i32 minus; 0: i32 zero; 0x10: bool hex; 32767: i32 last; -32768: Empty first; 15: Empty short }
        struct Empty {}
        struct Down { 3: required i32 a; 2: required bool b; 1: required i32 c }
    }
    pub fn run() {
        super::trip(
            "unusual field ids",
            Ids::new(1, 2, 3, 4, true, 5, false),
            &[
                0x05, 0x01, 2, // -1 in full
                0x15, 4, // 0 is one above
                0xf5, 6, // 15
                0x05, 62, 8, // 31 is 16 above: in full
                0x01, 0xd0, 0x0f, // 1000
                0x05, 0xfe, 0xff, 0x03, 10, // 32767
                0x02, 0xff, 0xff, 0x03, // -32768
                0,
            ],
        );
        super::trip("union member -1", Uids::minus(1), &[0x05, 0x01, 2, 0]);
        super::trip("union member 0", Uids::zero(1), &[0x05, 0x00, 2, 0]);
        super::trip("union member 16", Uids::hex(true), &[0x01, 0x20, 0]);
        super::trip("union member 15", Uids::short(Empty {}), &[0xfc, 0, 0]);
        super::trip("union member 32767", Uids::last(1), &[0x05, 0xfe, 0xff, 0x03, 2, 0]);
        super::trip("union member -32768", Uids::first(Empty {}), &[0x0c, 0xff, 0xff, 0x03, 0, 0]);
        super::trip("descending ids", Down::new(1, true, 2), &[0x35, 2, 0x01, 0x04, 0x05, 0x02, 4, 0]);
    }
}

mod names {
    // like variables, arguments, types and constants in the expansion
    rt::thrift! {
        struct Names {
            1: required i32 input;
            2: required i32 output;
            3: required i32 last_field_id;
            4: required i32 field_type;
            5: required i32 stop;
            6: required i32 inner;
            7: required i32 result;
            8: required i32 value;
            9: required i32 field_id;
            10: required i32 fill_thrift;
            11: required i32 write_thrift;
            12: required i32 default;
            13: required i32 new;
            14: required i32 T;
            15: required i32 FIELD_TYPE;
            16: required i32 len;
            17: required i32 r#type;
            18: required i32 r#fn;
            19: required i32 union;
            20: required i32 e;
            21: required i32 buf;
            22: required i32 optional;
            23: required i32 required;
            24: required i32 list;
            25: required i32 okay;
            26: required i32 some;
            27: required i32 flag;
            28: required i32 s;
        }
        struct Opts {
            1: optional bool input;
            2: optional bool output;
            3: optional bool last_field_id;
            4: optional bool field_type;
            5: optional bool r#type;
            6: optional bool r#struct;
        }
        union Members {
            1: i32 None;
            2: i32 Some;
            3: i32 Ok;
            4: i32 Err;
            5: i32 input;
            6: i32 inner;
            7: i32 r#type;
            8: bool output;
            9: i32 Default;
            10: i32 Names;
        }
        enum Consts { None = 0; Some = 1; Ok = 2; Err = 3; r#type = 4; value = 5; }
        struct snake_name { 1: required Consts c; 2: required lower_union u }
        union lower_union { 1: snake_name2 m; }
        struct snake_name2 {}
    }
    pub fn run() {
        let mut want = vec![];
        for i in 1..=28u8 {
            want.extend([0x15, 2 * i]);
        }
        want.push(0);
        let v = Names::new(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28);
        super::trip("field names of the macro's variables", v.clone(), &want);
        super::ok("new assigns in order", v.input == 1 && v.output == 2 && v.last_field_id == 3 && v.field_type == 4 && v.r#type == 17 && v.s == 28);
        for k in 0..28usize {
            let mut cut = vec![];
            for i in (1..=28u8).filter(|i| *i as usize != k + 1) {
                cut.extend([0x05, 2 * i, 2 * i]);
            }
            cut.push(0);
            let e = super::dec::<Names>(&cut).err().unwrap_or_default();
            let name = ["input", "output", "last_field_id", "field_type", "stop", "inner", "result", "value", "field_id", "fill_thrift", "write_thrift", "default", "new", "T", "FIELD_TYPE", "len", "type", "fn", "union", "e", "buf", "optional", "required", "list", "okay", "some", "flag", "s"][k];
            super::ok(&format!("missing {name} is reported as {e:?}"), e.contains(&format!("Names::{name}")) || e.contains(&format!("Names::r#{name}")));
        }
        super::trip("optional fields with such names", Opts::new(true, None, false, true, None, true), &[0x11, 0x22, 0x11, 0x21, 0]);
        for (v, b) in [
            (Members::None(1), &[0x15u8, 2, 0][..]),
            (Members::Some(2), &[0x25, 4, 0]),
            (Members::Ok(3), &[0x35, 6, 0]),
            (Members::Err(4), &[0x45, 8, 0]),
            (Members::input(5), &[0x55, 10, 0]),
            (Members::inner(6), &[0x65, 12, 0]),
            (Members::r#type(7), &[0x75, 14, 0]),
            (Members::output(true), &[0x81, 0]),
            (Members::Default(9), &[0x95, 18, 0]),
            (Members::Names(10), &[0xa5, 20, 0]),
        ] {
            super::trip("union member named like a variant", v, b);
        }
        super::ok("constant names", [Consts::None, Consts::Some, Consts::Ok, Consts::Err, Consts::r#type, Consts::value].iter().enumerate().all(|(i, c)| c.0 == i as i32));
        super::trip("lower case names", snake_name::new(Consts::Err, lower_union::m(snake_name2 {})), &[0x15, 6, 0x1c, 0x1c, 0, 0, 0]);
    }
}

#[allow(non_upper_case_globals)]
mod items {
    // like constants, statics, functions, types and modules an expansion could contain
    rt::thrift! {
        struct Many {
            1: required i32 LAST;
            2: required i32 FIRST;
            3: required i32 NEXT;
            4: required i32 MAX;
            5: required i32 MIN;
            6: required i32 LEN;
            7: required i32 LENGTH;
            8: required i32 ID;
            9: required i32 IDS;
            10: required i32 TYPE;
            11: required i32 TYPES;
            12: required i32 DEPTH;
            13: required i32 LIMIT;
            14: required i32 MAX_DEPTH;
            15: required i32 NAME;
            16: required i32 NAMES;
            17: required i32 COUNT;
            18: required i32 FIELD;
            19: required i32 FIELDS;
            20: required i32 FIELD_ID;
            21: required i32 FIELD_IDS;
            22: required i32 FIELD_COUNT;
            23: required i32 REQUIRED;
            24: required i32 OPTIONAL;
            25: required i32 STOP;
            26: required i32 MASK;
            27: required i32 SEEN;
            28: required i32 FOUND;
            29: required i32 FLAG;
            30: required i32 FLAGS;
            31: required i32 DONE;
            32: required i32 ALL;
            33: required i32 NONE;
            34: required i32 SOME;
            35: required i32 OK;
            36: required i32 ERR;
            37: required i32 START;
            38: required i32 END;
            39: required i32 BIT;
            40: required i32 BITS;
            41: required i32 SIZE;
            42: required i32 VALUE;
            43: required i32 VALUES;
            44: required i32 HEADER;
            45: required i32 DEFAULT;
            46: required i32 EMPTY;
            47: required i32 ZERO;
            48: required i32 ONE;
            49: required i32 N;
            50: required i32 T;
            51: required i32 I;
            52: required i32 O;
            53: required i32 K;
            54: required i32 V;
            55: required i32 E;
            56: required i32 A;
            57: required i32 B;
            58: required i32 C;
            59: required i32 X;
            60: required i32 Y;
            61: required i32 S;
            62: required i32 P;
            63: required i32 R;
            64: required i32 STRUCT;
            65: required i32 UNION;
            66: required i32 ENUM;
            67: required i32 MISSING;
            68: required i32 NUM_FIELDS;
            69: required i32 NUM_REQUIRED;
            70: required i32 LAST_FIELD_ID;
            71: required i32 LAST_ID;
            72: required i32 MAX_ID;
            73: required i32 CHECK;
            74: required i32 INIT;
            75: required i32 DELTA;
            76: required i32 TAG;
            77: required i32 KIND;
            78: required i32 ERROR;
            79: required i32 RESULT;
            80: required i32 INPUT;
            81: required i32 OUTPUT;
            82: required i32 STATE;
            83: required i32 SLOT;
            84: required i32 SLOTS;
            85: required i32 last;
            86: required i32 first;
            87: required i32 next;
            88: required i32 max;
            89: required i32 min;
            90: required i32 length;
            91: required i32 id;
            92: required i32 ids;
            93: required i32 types;
            94: required i32 depth;
            95: required i32 limit;
            96: required i32 max_depth;
            97: required i32 name;
            98: required i32 names;
            99: required i32 count;
            100: required i32 field;
            101: required i32 fields;
            102: required i32 field_ids;
            103: required i32 field_count;
            104: required i32 mask;
            105: required i32 seen;
            106: required i32 found;
            107: required i32 flags;
            108: required i32 done;
            109: required i32 all;
            110: required i32 none;
            111: required i32 ok;
            112: required i32 err;
            113: required i32 start;
            114: required i32 end;
            115: required i32 bit;
            116: required i32 bits;
            117: required i32 size;
            118: required i32 values;
            119: required i32 header;
            120: required i32 empty;
            121: required i32 zero;
            122: required i32 one;
            123: required i32 n;
            124: required i32 i;
            125: required i32 o;
            126: required i32 k;
            127: required i32 v;
            128: required i32 a;
            129: required i32 b;
            130: required i32 c;
            131: required i32 x;
            132: required i32 y;
            133: required i32 p;
            134: required i32 r;
            135: required i32 missing;
            136: required i32 num_fields;
            137: required i32 num_required;
            138: required i32 last_id;
            139: required i32 max_id;
            140: required i32 check;
            141: required i32 init;
            142: required i32 delta;
            143: required i32 tag;
            144: required i32 kind;
            145: required i32 error;
            146: required i32 state;
            147: required i32 slot;
            148: required i32 slots;
            149: required i32 this;
            150: required i32 that;
            151: required i32 other;
            152: required i32 tmp;
            153: required i32 temp;
            154: required i32 ret;
            155: required i32 res;
            156: required i32 out;
            157: required i32 outer;
            158: required i32 guard;
            159: required i32 data;
            160: required i32 item;
            161: required i32 items;
            162: required i32 element;
            163: required i32 elements;
            164: required i32 elem;
            165: required i32 iter;
            166: required i32 it;
            167: required i32 idx;
            168: required i32 index;
            169: required i32 pos;
            170: required i32 read;
            171: required i32 write;
            172: required i32 read_thrift;
            173: required i32 read_byte;
            174: required i32 read_field_header;
            175: required i32 skip;
            176: required i32 skip_field;
            177: required i32 set;
            178: required i32 get;
            179: required i32 take;
            180: required i32 replace;
            181: required i32 finish;
            182: required i32 begin;
            183: required i32 reader;
            184: required i32 writer;
            185: required i32 stream;
            186: required i32 slice;
            187: required i32 string;
            188: required i32 str;
            189: required i32 vec;
            190: required i32 option;
            191: required i32 thrift;
            192: required i32 struct_name;
            193: required i32 field_name;
            194: required i32 identifier;
            195: required i32 field_type_;
            196: required i32 actual;
            197: required i32 expected;
            198: required i32 wire_type;
            199: required i32 type_;
            200: required i32 ty;
            201: required i32 is_set;
            202: required i32 is_some;
            203: required i32 present;
            204: required i32 required_fields;
            205: required i32 has_field;
            206: required i32 missing_field;
            207: required i32 Vec;
            208: required i32 String;
            209: required i32 Box;
            210: required i32 Rc;
            211: required i32 Arc;
            212: required i32 Cow;
            213: required i32 Default;
            214: required i32 Clone;
            215: required i32 Debug;
            216: required i32 PartialEq;
            217: required i32 Input;
            218: required i32 Output;
            219: required i32 ThriftError;
            220: required i32 CompactThriftProtocol;
            221: required i32 CompactThriftInput;
            222: required i32 std;
            223: required i32 core;
            224: required i32 alloc;
            225: required i32 crate_;
            226: required i32 self_;
            227: required i32 drop;
            228: required i32 copy;
            229: required i32 clone;
            230: required i32 eq;
            231: required i32 hash;
            232: required i32 cmp;
            233: required i32 fmt;
            234: required i32 from;
            235: required i32 into;
            236: required i32 panic;
            237: required i32 assert;
            238: required i32 matches;
            239: required i32 write_byte;
            240: required i32 concat;
            241: required i32 stringify;
            242: required i32 bool_;
            243: required i32 i32_;
            244: required i32 u8_;
            245: required i32 usize_;
        }
        union FIELD { 1: i32 FIELD_TYPE; 2: i32 read_thrift; 3: i32 LAST; 4: bool STOP; 5: FIELD2 FIELD }
        struct FIELD2 {}
        enum Numbers { FIELD_TYPE = 7; LAST = 1; DEFAULT = 2; MAX = 3; MIN = 4; default = 5; from = 6; }
    }
    const the_names: &[&str] = &["LAST", "FIRST", "NEXT", "MAX", "MIN", "LEN", "LENGTH", "ID", "IDS", "TYPE", "TYPES", "DEPTH", "LIMIT", "MAX_DEPTH", "NAME", "NAMES", "COUNT", "FIELD", "FIELDS", "FIELD_ID", "FIELD_IDS", "FIELD_COUNT", "REQUIRED", "OPTIONAL", "STOP", "MASK", "SEEN", "FOUND", "FLAG", "FLAGS", "DONE", "ALL", "NONE", "SOME", "OK", "ERR", "START", "END", "BIT", "BITS", "SIZE", "VALUE", "VALUES", "HEADER", "DEFAULT", "EMPTY", "ZERO", "ONE", "N", "T", "I", "O", "K", "V", "E", "A", "B", "C", "X", "Y", "S", "P", "R", "STRUCT", "UNION", "ENUM", "MISSING", "NUM_FIELDS", "NUM_REQUIRED", "LAST_FIELD_ID", "LAST_ID", "MAX_ID", "CHECK", "INIT", "DELTA", "TAG", "KIND", "ERROR", "RESULT", "INPUT", "OUTPUT", "STATE", "SLOT", "SLOTS", "last", "first", "next", "max", "min", "length", "id", "ids", "types", "depth", "limit", "max_depth", "name", "names", "count", "field", "fields", "field_ids", "field_count", "mask", "seen", "found", "flags", "done", "all", "none", "ok", "err", "start", "end", "bit", "bits", "size", "values", "header", "empty", "zero", "one", "n", "i", "o", "k", "v", "a", "b", "c", "x", "y", "p", "r", "missing", "num_fields", "num_required", "last_id", "max_id", "check", "init", "delta", "tag", "kind", "error", "state", "slot", "slots", "this", "that", "other", "tmp", "temp", "ret", "res", "out", "outer", "guard", "data", "item", "items", "element", "elements", "elem", "iter", "it", "idx", "index", "pos", "read", "write", "read_thrift", "read_byte", "read_field_header", "skip", "skip_field", "set", "get", "take", "replace", "finish", "begin", "reader", "writer", "stream", "slice", "string", "str", "vec", "option", "thrift", "struct_name", "field_name", "identifier", "field_type_", "actual", "expected", "wire_type", "type_", "ty", "is_set", "is_some", "present", "required_fields", "has_field", "missing_field", "Vec", "String", "Box", "Rc", "Arc", "Cow", "Default", "Clone", "Debug", "PartialEq", "Input", "Output", "ThriftError", "CompactThriftProtocol", "CompactThriftInput", "std", "core", "alloc", "crate_", "self_", "drop", "copy", "clone", "eq", "hash", "cmp", "fmt", "from", "into", "panic", "assert", "matches", "write_byte", "concat", "stringify", "bool_", "i32_", "u8_", "usize_"];
    pub fn run() {
        let n = the_names.len();
        let all: Vec<Vec<u8>> = (1..=n as i32)
            .map(|i| {
                let mut b = vec![0x15u8];
                rt::CompactThriftProtocol::write_thrift(&i, &mut b).unwrap();
                b
            })
            .collect();
        super::trip("many field names", Many::new(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245), &[all.concat(), vec![0]].concat());
        for k in 0..n {
            // the field behind the missing one is two further
            let mut b = all[..k].concat();
            if k + 1 < n {
                b.push(0x25);
                b.extend(&all[k + 1][1..]);
                b.extend(all[k + 2..].concat());
            }
            b.push(0);
            let e = super::dec::<Many>(&b).err().unwrap_or_default();
            super::ok(&format!("missing {} is reported as {e:?}", the_names[k]), e.contains(&format!("Many::{}", the_names[k])));
        }
        super::trip("member FIELD_TYPE", FIELD::FIELD_TYPE(1), &[0x15, 2, 0]);
        super::trip("member read_thrift", FIELD::read_thrift(1), &[0x25, 2, 0]);
        super::trip("member LAST", FIELD::LAST(1), &[0x35, 2, 0]);
        super::trip("member STOP", FIELD::STOP(false), &[0x42, 0]);
        super::trip("member like its union", FIELD::FIELD(FIELD2 {}), &[0x5c, 0, 0]);
        super::trip("enum constants", vec![Numbers::LAST, Numbers::DEFAULT, Numbers::MAX, Numbers::MIN, Numbers::default, Numbers::from], &[0x65, 2, 4, 6, 8, 10, 12]);
    }
}

mod shadows {
    // user types named like standard ones
    rt::thrift! {
        struct Result { 1: required i32 a }
        struct Error { 1: required Result r; 2: optional Rc2 c }
        struct Rc2 { 1: required list<Result> rs }
        struct CompactThriftInput { 1: required i32 a }
        struct ThriftError { 1: required i32 a }
        union FieldName { 1: ThriftError e; 2: CompactThriftInput i }
        struct boxes { 1: required Box<Result> b; 2: optional Rc<Error> r; 3: optional Arc<FieldName> a }
    }
    pub fn run() {
        super::trip("user type Result", Error::new(Result::new(1), Some(Rc2::new(vec![Result::new(2)]))), &[0x1c, 0x15, 2, 0, 0x1c, 0x19, 0x1c, 0x15, 4, 0, 0, 0]);
        super::trip("user types named like the runtime's", FieldName::i(CompactThriftInput::new(1)), &[0x2c, 0x15, 2, 0, 0]);
        super::trip("boxed user types", boxes::new(Box::new(Result::new(1)), None, None), &[0x1c, 0x15, 2, 0, 0]);
    }
}

mod aliases {
    pub type Ints = Vec<i32>;
    pub type Name = std::rc::Rc<str>;
    pub type Flag = bool;
    pub type Blob = Vec<u8>;

    /// a type the user makes readable and writable: a point in two varints
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Point(pub i32, pub i32);
    impl<'i> rt::CompactThriftProtocol<'i> for Point {
        const FIELD_TYPE: u8 = 12;
        fn fill_thrift<T: rt::CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), rt::ThriftError> {
            let mut last = 0;
            while input.read_field_header(&mut last)? != 0 {
                match last {
                    1 => self.0 = input.read_i32()?,
                    2 => self.1 = input.read_i32()?,
                    _ => return Err(rt::ThriftError::InvalidType),
                }
            }
            Ok(())
        }
        fn write_thrift<T: rt::CompactThriftOutput>(&self, output: &mut T) -> Result<(), rt::ThriftError> {
            let mut last = 0;
            self.0.write_thrift_field(output, 1, &mut last)?;
            self.1.write_thrift_field(output, 2, &mut last)?;
            output.write_byte(0)
        }
    }
    /// a checked number
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct Even(pub i64);
    impl<'i> rt::CompactThriftProtocol<'i> for Even {
        const FIELD_TYPE: u8 = 6;
        fn fill_thrift<T: rt::CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), rt::ThriftError> {
            self.0 = input.read_i64()?;
            if self.0 % 2 == 0 { Ok(()) } else { Err(rt::ThriftError::InvalidNumber) }
        }
        fn write_thrift<T: rt::CompactThriftOutput>(&self, output: &mut T) -> Result<(), rt::ThriftError> {
            output.write_i64(self.0)
        }
    }
    rt::thrift! {
        struct Aliased { 1: required Ints a; 2: optional list<Ints> b; 3: optional Name c; 4: optional Flag d; 5: optional list<Name> e; 6: optional list<Flag> f; 7: optional Blob g; 8: optional list<Blob> h }
        struct Own { 1: required Point p; 2: optional Point q; 3: optional list<Point> l; 4: optional Even e; 5: optional list<Even> es; 6: optional Box<Even> be; 7: optional OwnU u }
        union OwnU { 1: Point p; 2: Even e; 3: list<Even> es; 4: Rc<Point> r; 5: Ints ints; 6: Flag flag }
    }
    pub fn run() {
        super::trip(
            "fields of aliased types",
            Aliased::new(vec![1, 2], Some(vec![vec![3], vec![]]), Name::from("n"), true, vec![Name::from("m")], vec![true, false], b"g".to_vec(), vec![b"h".to_vec()]),
            &[0x19, 0x25, 2, 4, 0x19, 0x29, 0x15, 6, 0x05, 0x18, 1, b'n', 0x11, 0x19, 0x18, 1, b'm', 0x19, 0x22, 1, 2, 0x18, 1, b'g', 0x19, 0x18, 1, b'h', 0],
        );
        let p = [0x15, 2, 0x15, 4, 0];
        super::trip("required user-defined type", Own::new(Point(1, 2), None, None, None, None, None, None), &[&[0x1c][..], &p, &[0]].concat());
        super::trip(
            "optional, listed and boxed user-defined types",
            Own::new(Point(1, 2), Point(1, 2), vec![Point(1, 2); 2], Even(4), vec![Even(-2), Even(6)], Box::new(Even(8)), OwnU::r(Point(1, 2).into())),
            &[&[0x1c][..], &p, &[0x1c], &p, &[0x19, 0x2c], &p, &p, &[0x16, 8, 0x19, 0x26, 3, 12, 0x16, 16, 0x1c, 0x4c], &p, &[0, 0]].concat(),
        );
        super::trip("user-defined type as union member", OwnU::e(Even(2)), &[0x26, 4, 0]);
        super::trip("list of a user-defined type as union member", OwnU::es(vec![Even(2)]), &[0x39, 0x16, 4, 0]);
        super::trip("aliased list as union member", OwnU::ints(vec![2]), &[0x59, 0x15, 4, 0]);
        super::trip("aliased boolean as union member", OwnU::flag(true), &[0x61, 0]);
        // the user's own error comes through, from every position
        for b in [&[0x26u8, 2, 0][..], &[0x39, 0x16, 2, 0]] {
            super::ok("the error of a user-defined type in a union", super::dec::<OwnU>(b) == Err(rt::ThriftError::InvalidNumber.to_string()));
        }
        for b in [&[0x46u8, 2, 0][..], &[0x59, 0x26, 4, 2, 0], &[0x66, 2, 0], &[0x7c, 0x26, 2, 0, 0]] {
            super::ok("the error of a user-defined type in a struct", super::dec::<Own>(b) == Err(rt::ThriftError::InvalidNumber.to_string()));
        }
        // a wrong wire type never reaches the user's code
        for b in [&[0x15u8, 2, 0][..], &[0x4c, 0, 0], &[0x59, 0x15, 2, 0], &[0x65, 2, 0]] {
            super::ok("a wrong wire type for a user-defined type", super::dec::<Own>(b) == Err(rt::ThriftError::InvalidType.to_string()));
        }
    }
}

mod recursive {
    rt::thrift! {
        struct Node { 1: required i32 v; 2: optional Box<Node> next; 3: required list<Node> kids }
        union Expr { 1: i32 num; 2: Box<Expr> neg; 3: list<Expr> sum; 4: Rc<Pair> pair }
        struct Pair { 1: required Box<Expr> a; 2: required Expr b }
    }
    pub fn run() {
        let n = Node::new(1, Some(Box::new(Node::new(2, None, vec![]))), vec![Node::new(3, None, vec![])]);
        super::trip("self-referential struct", n, &[0x15, 2, 0x1c, 0x15, 4, 0x29, 0x0c, 0, 0x19, 0x1c, 0x15, 6, 0x29, 0x0c, 0, 0]);
        let e = Expr::sum(vec![Expr::neg(Expr::num(1).into()), Expr::pair(Pair::new(Expr::num(2), Expr::num(3)).into())]);
        super::trip("self-referential union", e, &[0x39, 0x2c, 0x2c, 0x15, 2, 0, 0, 0x4c, 0x1c, 0x15, 4, 0, 0x1c, 0x15, 6, 0, 0, 0, 0]);
        super::ok("default of a self-referential union", Expr::default() == Expr::num(0));
    }
}

mod conversions {
    rt::thrift! {
        struct C {
            1: required string s; 2: optional string os; 3: required i64 l; 4: optional i64 ol; 5: required binary b; 6: required list<string> ls;
            7: required Rc<str> rs; 8: required Box<str> bs; 9: optional double d; 10: required Kind k; 11: optional Box<i32> bi; 12: required Arc<Kind> ak;
        }
        enum Kind { A = 1; B = 2; }
    }
    pub fn run() {
        let c = C::new("a", "b".to_string(), 1_i32, 2, [1u8, 2], ["x".to_string()], "r", "bs", 1.5, 2, Box::new(3), Kind::A);
        super::ok("new converts its arguments", c == C { s: "a".into(), os: Some("b".into()), l: 1, ol: Some(2), b: vec![1, 2], ls: vec!["x".into()], rs: "r".into(), bs: "bs".into(), d: Some(1.5), k: Kind::B, bi: Some(Box::new(3)), ak: Kind::A.into() });
        let d = C::new(String::new(), None, 1_u8, None, vec![], vec![], String::new(), String::new(), None, Kind(9), None, std::sync::Arc::new(Kind::B));
        super::ok("new takes absent optionals", d.os.is_none() && d.ol.is_none() && d.d.is_none() && d.bi.is_none() && d.l == 1 && d.k == Kind(9) && *d.ak == Kind::B);
        super::ok("kinds convert", Kind::from(2) == Kind::B && Kind::from(77).0 == 77 && Kind::default().0 == 0);
        let mut m = std::collections::HashMap::new();
        m.insert(Kind::A, 1);
        m.insert(Kind::B, 2);
        super::ok("kinds are keys", m[&Kind::from(1)] == 1 && std::collections::BTreeSet::from([Kind::B, Kind::A]).first() == Some(&Kind::A));
        super::ok("kinds are usable as patterns", matches!(Kind::from(2), Kind::B) && !matches!(Kind::from(3), Kind::A | Kind::B));
        const K: Kind = Kind::B;
        super::ok("kinds are constants", K.0 == 2);
    }
}

fn local() {
    rt::thrift! {
        /// inside a function
        struct Local { 1: required i32 a; 2: optional LocalU u }
        union LocalU { 1: bool b; 2: LocalE e }
        enum LocalE { ONE = 1; }
    }
    trip("declared in a function", Local::new(1, LocalU::e(LocalE::ONE)), &[0x15, 2, 0x1c, 0x25, 2, 0, 0]);
}

mod types {
    fn shared<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static>() {}
    fn sized<T>() -> usize {
        std::mem::size_of::<T>()
    }
    rt::thrift! {
        struct Plain { 1: required i32 a; 2: optional string b; 3: optional list<Plain> c; 4: optional Arc<str> d; 5: optional PlainU e; 6: optional PlainE f }
        union PlainU { 1: bool a; 2: Box<Plain> b }
        enum PlainE { A = 0; }
        struct Layout { 1: required i32 a; 2: optional i64 b; 3: required byte c; 4: required binary d; 5: required double e; 6: required list<double> f; 7: required i8 g; 8: required i16 h; 9: optional binary i; 10: required bool j }
    }
    pub fn run() {
        shared::<Plain>();
        shared::<PlainU>();
        shared::<PlainE>();
        shared::<rt::ThriftError>();
        let e: Box<dyn std::error::Error + Send + Sync> = Box::new(rt::ThriftError::InvalidType);
        super::ok("errors are errors", !e.to_string().is_empty());
        // the declared Rust types, field by field
        let l = Layout { a: 1_i32, b: Some(1_i64), c: 1_i8, d: vec![1_u8], e: 1.0_f64, f: vec![1.0_f64], g: 1_i8, h: 1_i16, i: Some(vec![1_u8]), j: true };
        super::trip(
            "types of fields",
            l,
            &[
                0x15, 2, 0x16, 2, 0x13, 1, 0x18, 1, 1, 0x17, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0x19, 0x17, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0x13, 1, 0x14, 2, 0x18, 1, 1, 0x11, 0,
            ],
        );
        super::ok("enums are numbers", sized::<PlainE>() == 4);
        use rt::CompactThriftProtocol as C;
        super::ok("wire types of declared types", <Plain as C>::FIELD_TYPE == 12 && <PlainU as C>::FIELD_TYPE == 12 && <PlainE as C>::FIELD_TYPE == 5);
    }
}

// many definitions and many fields in one invocation
mod large {
    macro_rules! fields {
        ($($id:literal $n:ident)*) => { rt::thrift! { struct Wide { $($id: optional i32 $n;)* } union WideU { $($id: i32 $n;)* } } };
    }
    fields! { 1 f1 2 f2 3 f3 4 f4 5 f5 6 f6 7 f7 8 f8 9 f9 10 f10 11 f11 12 f12 13 f13 14 f14 15 f15 16 f16 17 f17 18 f18 19 f19 20 f20
    21 f21 22 f22 23 f23 24 f24 25 f25 26 f26 27 f27 28 f28 29 f29 30 f30 31 f31 32 f32 33 f33 34 f34 35 f35 36 f36 37 f37 38 f38 39 f39 40 f40
    141 g1 142 g2 143 g3 144 g4 145 g5 146 g6 147 g7 148 g8 149 g9 150 g10 151 g11 152 g12 153 g13 154 g14 155 g15 156 g16 157 g17 158 g18 159 g19 160 g20 }
    macro_rules! many {
        ($($s:ident $u:ident $e:ident)*) => { rt::thrift! { $( struct $s { 1: required $u u } union $u { 1: $e e; 2: bool b } enum $e { ONE = 1; } )* } };
    }
    many! { A1 B1 C1 A2 B2 C2 A3 B3 C3 A4 B4 C4 A5 B5 C5 A6 B6 C6 A7 B7 C7 A8 B8 C8 A9 B9 C9 A10 B10 C10 A11 B11 C11 A12 B12 C12 A13 B13 C13 A14 B14 C14 A15 B15 C15 A16 B16 C16 A17 B17 C17 A18 B18 C18 A19 B19 C19 A20 B20 C20 A21 B21 C21 A22 B22 C22 A23 B23 C23 A24 B24 C24 A25 B25 C25 }
    pub fn run() {
        let w = Wide { f1: Some(1), f17: Some(2), f33: Some(3), g1: Some(4), g20: Some(5), ..Default::default() };
        super::trip("sixty fields", w, &[0x15, 2, 0x05, 34, 4, 0x05, 66, 6, 0x05, 0x9a, 0x02, 8, 0x05, 0xc0, 0x02, 10, 0]);
        super::trip("sixty members", WideU::g20(1), &[0x05, 0xc0, 0x02, 2, 0]);
        super::trip("first of seventy-five definitions", A1::new(B1::e(C1::ONE)), &[0x1c, 0x15, 2, 0, 0]);
        super::trip("last of seventy-five definitions", A25::new(B25::b(true)), &[0x1c, 0x21, 0, 0]);
    }
}

fn main() {
    attributes::run();
    punctuation::run();
    defaults::run();
    ids::run();
    names::run();
    items::run();
    shadows::run();
    aliases::run();
    recursive::run();
    conversions::run();
    local();
    types::run();
    large::run();
    println!("DONE {}", unsafe { DONE });
}
