//! Schemas declared with the macro under test, covering every construct it accepts.
#![allow(non_camel_case_types, clippy::all)]

zoo! {
    enum Color { RED = 0; GREEN = 1; BLUE = 7; NEG = -3; MAXC = 2147483647; }
    struct Empty {}
    struct Small { 1: required i32 a; 2: optional string b; }
    struct Pair { 1: required bool x; 2: required i64 y; }
    union U {
        1: bool b; 2: i8 c; 3: i16 s; 4: i32 i; 5: i64 l; 6: double d; 7: binary bin; 8: string str_;
        9: list<i32> ints; 10: list<bool> bools; 11: Empty empty; 12: Small small; 13: Color color;
        30: V v; 200: list<V> vs; -7: bool neg; 32767: i32 hi;
        40: Box<bool> bb; 41: Rc<bool> rb; 42: Arc<bool> ab; 43: Box<i64> bl; 44: Box<Small> bs; 45: Rc<str> rs; 46: Arc<str> as_; 47: list<string> strs;
    }
    union V { 3: string s; 1: Pair p; 2: bool flag; }
    union UnitOnly { 1: Empty a; 2: Empty b; 16: Empty c; }
    struct AllReq {
        1: required bool b; 2: required i8 c; 3: required i16 s; 4: required i32 i; 5: required i64 l;
        6: required double d; 7: required binary bin; 8: required string str_; 9: required Color color;
        10: required Small small; 11: required V v; 12: required list<i32> li; 13: required Empty e;
    }
    struct AllOpt {
        1: optional bool b; 2: optional i8 c; 3: optional i16 s; 4: optional i32 i; 5: optional i64 l;
        6: optional double d; 7: optional binary bin; 8: optional string str_; 9: optional Color color;
        10: optional Small small; 11: optional V v; 12: optional list<i32> li; 13: optional Empty e; 14: optional U u;
    }
    struct Flags {
        1: optional bool a; 2: required bool b; 3: optional bool c; 18: optional bool d; 19: required bool e; 40: optional bool f; 41: optional i32 g;
    }
    struct Gaps {
        1: optional i32 a; 5: optional bool b; 20: optional i64 c; 36: optional string d; 51: optional i8 e;
        300: optional bool f; 315: optional i16 g; 331: optional Small h; 8000: optional list<i32> i; 32766: optional bool j; 32767: optional i32 k;
    }
    struct Unordered {
        10: optional i32 a; 3: optional bool b; 7: optional string c; 1: required i16 d; -5: optional bool e;
        -32768: optional i64 f; 32767: optional bool g; 0: optional i8 h; -1: optional Small i; 25: optional double j; 24: optional bool k;
    }
    struct Lists {
        1: optional list<bool> bools; 2: optional list<i8> i8s; 3: optional list<i16> i16s; 4: optional list<i32> i32s;
        5: optional list<i64> i64s; 6: optional list<double> doubles; 7: optional list<binary> bins; 8: optional list<string> strs;
        9: optional list<Color> colors; 10: optional list<Small> smalls; 11: optional list<U> us; 12: optional list<Empty> empties;
        13: required list<Pair> pairs; 14: required list<V> vs; 15: optional list<Lists2> nested; 16: optional list<byte> bytes_;
    }
    struct Lists2 { 1: required list<i64> a; 2: optional list<string> b; 3: optional list<Small> c; }
    struct Boxed {
        1: required Box<bool> b1; 2: optional Box<bool> b2; 3: required Rc<bool> r1; 4: optional Rc<bool> r2; 5: required Arc<bool> a1; 6: optional Arc<bool> a2;
        7: required Box<i32> bi; 8: optional Rc<i64> ri; 9: optional Arc<i16> ai; 10: required Box<Small> bs; 11: optional Box<V> bv;
        12: required Rc<string> rs; 13: required Arc<string> as_; 14: required Rc<str> rstr; 15: required Arc<str> astr;
        16: optional Rc<str> orstr; 17: optional Arc<str> oastr; 18: optional Box<str> obstr;
        33: optional Box<binary> bb; 34: optional Arc<Small> asm; 35: optional Rc<double> rd; 36: optional Box<Color> bc; 37: optional Box<Lists2> bl;
        38: required Box<V> rv; 39: optional Arc<U> au; 60: optional Rc<bool> far;
    }
    struct Strs { 1: optional string a; 2: optional Box<str> b; 3: optional Rc<str> c; 4: optional Arc<str> d; 5: optional list<string> e; 6: optional V f; 7: required string g; 8: optional binary h; 9: optional Rc<string> i; 10: optional list<binary> j; }
    struct Inner3 { 1: optional i32 a; 2: optional bool b; 16: required Pair p; }
    struct Inner2 { 1: required Inner3 a; 2: optional Inner3 b; 3: required list<Inner3> c; 4: optional U u; }
    struct Outer { 1: required Inner2 a; 2: optional list<Inner2> b; 3: optional Small c; 31: optional Inner3 d; 32: required i32 last_; }
    struct OneReq { 5: required i32 only; }
    struct Wide1 {
        1: required double a; 2: required double b; 3: required double c; 4: required double d; 5: required double e; 6: required double f; 7: required double g; 8: required double h;
        9: optional double i; 10: optional i64 j; 11: optional i64 k; 12: optional string l; 13: optional bool m; 14: optional list<i64> n; 15: optional binary o; 16: optional i32 p;
    }
    struct Wide2 { 1: required Wide1 a; 2: required Wide1 b; 3: required Wide1 c; 4: required Wide1 d; 5: optional Wide1 e; 6: optional Wide1 f; 7: optional Wide1 g; 8: optional i32 h; }
    struct Wide3 { 1: required Wide2 a; 2: required Wide2 b; 3: optional Wide2 c; 4: optional string d; 5: optional list<Wide1> e; }
    struct Many {
        1: required i8 r1; 2: required i8 r2; 3: required i8 r3; 4: required i8 r4; 5: required i8 r5; 6: required i8 r6; 7: required i8 r7; 8: required i8 r8; 9: required i8 r9; 10: required string r10; 11: required i8 r11; 12: required i8 r12;
        13: required i8 r13; 14: required i8 r14; 15: required i8 r15; 16: required i8 r16; 17: required i8 r17; 18: required i8 r18; 19: required i8 r19; 20: required i32 r20; 21: required i8 r21; 22: required i8 r22; 23: required i8 r23; 24: required i8 r24;
        25: required i8 r25; 26: required i8 r26; 27: required i8 r27; 28: required i8 r28; 29: required i8 r29; 30: required i8 r30; 31: required i8 r31; 32: required i8 r32; 33: required i8 r33; 34: required i8 r34; 35: required i8 r35; 36: required i8 r36;
        37: required i8 r37; 38: required i8 r38; 39: required i8 r39; 40: required string r40; 41: required i8 r41; 42: required i8 r42; 43: required i8 r43; 44: required i8 r44; 45: required i8 r45; 46: required i8 r46; 47: required i8 r47; 48: required i8 r48;
        49: required i8 r49; 50: required i32 r50; 51: required i8 r51; 52: required i8 r52; 53: required i8 r53; 54: required i8 r54; 55: required i8 r55; 56: required i8 r56; 57: required i8 r57; 58: required i8 r58; 59: required i8 r59; 60: required i8 r60;
        61: required i8 r61; 62: required i8 r62; 63: required i8 r63; 64: required i8 r64; 65: required i8 r65; 66: required i8 r66; 67: required i8 r67; 68: required i8 r68; 69: required i8 r69; 70: required string r70; 71: required i8 r71; 72: required i8 r72;
        73: required i8 r73; 74: required i8 r74; 75: required i8 r75; 76: required i8 r76; 77: required i8 r77; 78: required i8 r78; 79: required i8 r79; 80: required i32 r80; 81: required i8 r81; 82: required i8 r82; 83: required i8 r83; 84: required i8 r84;
        85: required i8 r85; 86: required i8 r86; 87: required i8 r87; 88: required i8 r88; 89: required i8 r89; 90: required i8 r90; 91: required i8 r91; 92: required i8 r92; 93: required i8 r93; 94: required i8 r94; 95: required i8 r95; 96: required i8 r96;
        97: required i8 r97; 98: required i8 r98; 99: required i8 r99; 100: required string r100; 101: required i8 r101; 102: required i8 r102; 103: required i8 r103; 104: required i8 r104; 105: required i8 r105; 106: required i8 r106; 107: required i8 r107; 108: required i8 r108;
        109: required i8 r109; 110: required i32 r110; 111: required i8 r111; 112: required i8 r112; 113: required i8 r113; 114: required i8 r114; 115: required i8 r115; 116: required i8 r116; 117: required i8 r117; 118: required i8 r118; 119: required i8 r119; 120: required i8 r120;
        121: required i8 r121; 122: required i8 r122; 123: required i8 r123; 124: required i8 r124; 125: required i8 r125; 126: required i8 r126; 127: required i8 r127; 128: required i8 r128; 129: required i8 r129; 130: required string r130; 131: required i8 r131; 132: required i8 r132;
        133: required i8 r133; 134: required i8 r134; 135: required i8 r135; 136: required i8 r136; 137: required i8 r137; 138: required i8 r138; 139: required i8 r139; 140: required i32 r140; 141: optional i16 o141; 142: optional string o142; 143: optional i64 o143; 144: optional i8 o144;
        145: optional bool o145; 146: optional i32 o146; 147: optional i16 o147; 148: optional string o148; 149: optional i64 o149; 150: optional i8 o150; 151: optional bool o151; 152: optional i32 o152; 153: optional i16 o153; 154: optional string o154; 155: optional i64 o155; 156: optional i8 o156;
        157: optional bool o157; 158: optional i32 o158; 159: optional i16 o159; 160: optional string o160; 161: optional i64 o161; 162: optional i8 o162; 163: optional bool o163; 164: optional i32 o164; 165: optional i16 o165; 166: optional string o166; 167: optional i64 o167; 168: optional i8 o168;
        169: optional bool o169; 170: optional i32 o170; 171: optional i16 o171; 172: optional string o172; 173: optional i64 o173; 174: optional i8 o174; 175: optional bool o175; 176: optional i32 o176; 177: optional i16 o177; 178: optional string o178; 179: optional i64 o179; 180: optional i8 o180;
        181: optional bool o181; 182: optional i32 o182; 183: optional i16 o183; 184: optional string o184; 185: optional i64 o185; 186: optional i8 o186; 187: optional bool o187; 188: optional i32 o188; 189: optional i16 o189; 190: optional string o190; 191: optional i64 o191; 192: optional i8 o192;
        193: optional bool o193; 194: optional i32 o194; 195: optional i16 o195; 196: optional string o196; 197: optional i64 o197; 198: optional i8 o198; 199: optional bool o199; 200: optional i32 o200; 201: optional i16 o201; 202: optional string o202; 203: optional i64 o203; 204: optional i8 o204;
        205: optional bool o205; 206: optional i32 o206; 207: optional i16 o207; 208: optional string o208; 209: optional i64 o209; 210: optional i8 o210; 211: optional bool o211; 212: optional i32 o212; 213: optional i16 o213; 214: optional string o214; 1000: required i32 r1000; 1001: required bool r1001; 1002: optional bool o1002;
    }
    union ManyU {
        1: bool m1; 2: i32 m2; 3: i16 m3; 4: string m4; 5: i64 m5; 6: i8 m6; 7: bool m7; 8: i32 m8; 9: i16 m9; 10: string m10; 11: i64 m11; 12: i8 m12;
        13: bool m13; 14: i32 m14; 15: i16 m15; 16: string m16; 17: i64 m17; 18: i8 m18; 19: bool m19; 20: i32 m20; 21: i16 m21; 22: string m22; 23: i64 m23; 24: i8 m24;
        25: bool m25; 26: i32 m26; 27: i16 m27; 28: string m28; 29: i64 m29; 30: i8 m30; 31: bool m31; 32: i32 m32; 33: i16 m33; 34: string m34; 35: i64 m35; 36: i8 m36;
        37: bool m37; 38: i32 m38; 39: i16 m39; 40: string m40; 41: i64 m41; 42: i8 m42; 43: bool m43; 44: i32 m44; 45: i16 m45; 46: string m46; 47: i64 m47; 48: i8 m48;
        49: bool m49; 50: i32 m50; 51: i16 m51; 52: string m52; 53: i64 m53; 54: i8 m54; 55: bool m55; 56: i32 m56; 57: i16 m57; 58: string m58; 59: i64 m59; 60: i8 m60;
        61: bool m61; 62: i32 m62; 63: i16 m63; 64: string m64; 65: i64 m65; 66: i8 m66; 67: bool m67; 68: i32 m68; 69: i16 m69; 70: string m70; 71: i64 m71; 72: i8 m72;
        73: bool m73; 74: i32 m74; 75: i16 m75; 76: string m76; 77: i64 m77; 78: i8 m78; 79: bool m79; 80: i32 m80; 81: i16 m81; 82: string m82; 83: i64 m83; 84: i8 m84;
        85: bool m85; 86: i32 m86; 87: i16 m87; 88: string m88; 89: i64 m89; 90: i8 m90; 91: bool m91; 92: i32 m92; 93: i16 m93; 94: string m94; 95: i64 m95; 96: i8 m96;
        97: bool m97; 98: i32 m98; 99: i16 m99; 100: string m100; 101: i64 m101; 102: i8 m102; 103: bool m103; 104: i32 m104; 105: i16 m105; 106: string m106; 107: i64 m107; 108: i8 m108;
        109: bool m109; 110: i32 m110; 111: i16 m111; 112: string m112; 113: i64 m113; 114: i8 m114; 115: bool m115; 116: i32 m116; 117: i16 m117; 118: string m118; 119: i64 m119; 120: i8 m120;
        121: bool m121; 122: i32 m122; 123: i16 m123; 124: string m124; 125: i64 m125; 126: i8 m126; 127: bool m127; 128: i32 m128; 129: i16 m129; 130: string m130; 131: i64 m131; 132: i8 m132;
        133: bool m133; 134: i32 m134; 135: i16 m135; 136: string m136; 137: i64 m137; 138: i8 m138; 139: bool m139; 140: i32 m140;
    }
    struct QuarterlyReportOfTheNorthOfficeReportOfTheSouthOfficeReportOfTheEastOfficeReportOfTheWestOfficeReportOfTheCentralOfficeReportOfTheOverseasOfficeReportOfTheTemporaryOffice {
        1: required i32 identifier_of_the_person_who_signed_and_countersigned_and_sealed_and_posted_and_received_and_opened_and_read_and_answered_and_filed; 2: optional bool amount_of_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx; 3: required string amount_of_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx_in_words; 4: required bool a;
    }
    union AlternativesOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElseOrElse { 1: i32 identifier_of_the_person_who_signed_and_countersigned_and_sealed_and_posted_and_received_and_opened_and_read_and_answered_and_filed; 2: string amount_of_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx; }
    union Large { 1: AllOpt o; 2: i32 i; 3: Gaps g; 4: Wide3 w; 5: Inner2 n; 17: Lists l; }
    struct Manyreq { 1: required i32 a; 2: required i32 b; 3: required i32 c; 4: required i32 d; 5: required bool e; 6: required string f; 7: required list<i32> g; 8: required Empty h; }
}

// the protocol's `byte` type, as list element and as scalar field
#[cfg(feature = "byte")]
zoo! {
    struct Bytes { 1: required byte a; 2: optional byte b; 3: optional list<byte> c; }
}
