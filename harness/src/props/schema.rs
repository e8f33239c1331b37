//! C19: the schema tool, run as its own process on generated files.
use super::*;
use crate::gen::*;
use crate::traits::*;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

struct Tool {
    bin: PathBuf,
    dir: PathBuf,
    file: PathBuf,
}

/// one scratch directory per process; the supervisor removes it
fn tool() -> &'static Tool {
    static T: OnceLock<Tool> = OnceLock::new();
    T.get_or_init(|| {
        let bin = PathBuf::from(std::env::var("VMON_SCHEMA").expect("VMON_SCHEMA"));
        let dir = PathBuf::from(std::env::var("VMON_TMP").expect("VMON_TMP")).join(format!("schema-{}", std::process::id()));
        fs::create_dir_all(dir.join("parquet/data")).expect("scratch");
        let file = dir.join("parquet/data/alltypes_tiny_pages.parquet");
        Tool { bin, dir, file }
    })
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
    hung: bool,
}

fn run_tool(content: Option<&[u8]>) -> Ran {
    let t = tool();
    match content {
        Some(b) => fs::write(&t.file, b).expect("scratch"),
        None => {
            let _ = fs::remove_file(&t.file);
        }
    }
    let (po, pe) = (t.dir.join("out"), t.dir.join("err"));
    let mut ch = Command::new(&t.bin)
        .current_dir(&t.dir)
        .env_clear()
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(fs::File::create(&po).expect("scratch"))
        .stderr(fs::File::create(&pe).expect("scratch"))
        .spawn()
        .expect("harness: cannot start the schema tool");
    let start = Instant::now();
    let mut hung = false;
    let mut nap = 200;
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if start.elapsed() > Duration::from_secs(90) {
            hung = true;
            let _ = ch.kill();
            break ch.wait().expect("wait");
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 5 / 4).min(20_000);
    };
    Ran { code: st.code(), out: fs::read(&po).unwrap_or_default(), err: String::from_utf8_lossy(&fs::read(&pe).unwrap_or_default()).into_owned(), hung }
}

fn int(v: &Val, id: i16) -> Option<i64> {
    lookup(v, id).map(|x| match x {
        Val::I8(i) => *i as i64,
        Val::I16(i) => *i as i64,
        Val::I32(i) => *i as i64,
        Val::I64(i) => *i,
        Val::Bool(b) => *b as i64,
        _ => panic!("model: not an integer"),
    })
}
fn text(v: &Val, id: i16) -> Option<&str> {
    lookup(v, id).map(|x| match x {
        Val::Str(s) => s.as_str(),
        _ => panic!("model: not a string"),
    })
}

// --- what the tool has to print, from the Parquet format's definition of the schema list

fn repetition(e: &Val) -> Option<&'static str> {
    match int(e, 3) {
        None | Some(0) => Some("REQUIRED"),
        Some(1) => Some("OPTIONAL"),
        Some(2) => Some("REPEATED"),
        _ => None,
    }
}

fn physical(e: &Val) -> Option<String> {
    let names = ["BOOLEAN", "INT32", "INT64", "INT96", "FLOAT", "DOUBLE", "BYTE_ARRAY"];
    match int(e, 1)? {
        7 => {
            let n = int(e, 2)?;
            if n > 0 { Some(format!("FIXED_LEN_BYTE_ARRAY({n})")) } else { None }
        }
        i @ 0..=6 => Some(names[i as usize].to_string()),
        _ => None,
    }
}

fn decimal(precision: Option<i64>, scale: Option<i64>) -> Option<String> {
    let (p, s) = (precision?, scale?);
    if (1..=127).contains(&p) && (-128..=p).contains(&s) {
        Some(format!("Decimal(DecimalOptions {{ precision: {p}, scale: {s} }})"))
    } else {
        None
    }
}

fn time(kind: &str, utc: bool, unit: i16) -> String {
    let unit = ["Millis", "Micros", "Nanos"][unit as usize - 1];
    format!("{kind}(TimeOptions {{ is_adjusted_to_utc: {utc}, time_unit: {unit} }})")
}

fn union_member(e: &Val) -> Option<(i16, &Val)> {
    match lookup(e, 10)? {
        Val::Union(id, v) => Some((*id, v)),
        _ => panic!("model: not a union"),
    }
}

fn leaf_note(e: &Val) -> Option<String> {
    let logical = union_member(e).and_then(|(id, v)| match id {
        1 => Some("String".into()),
        4 => Some("Enum".into()),
        5 => decimal(int(v, 2), int(v, 1)),
        6 => Some("Date".into()),
        7 | 8 => {
            let Some(Val::Union(unit, _)) = lookup(v, 2) else { panic!("model: unit") };
            Some(time(if id == 7 { "Time" } else { "Timestamp" }, int(v, 1) == Some(1), *unit))
        }
        10 => {
            let w = int(v, 1).unwrap();
            if w > 0 { Some(format!("Integer({}{w})", if int(v, 2) == Some(1) { 'i' } else { 'u' })) } else { None }
        }
        11 => Some("Unknown".into()),
        12 => Some("Json".into()),
        13 => Some("Bson".into()),
        14 => Some("UUID".into()),
        15 => Some("Float16".into()),
        17 => Some("Geometry".into()),
        18 => Some("Geography".into()),
        _ => None,
    });
    logical.or_else(|| match int(e, 6)? {
        0 => Some("String".into()),
        4 => Some("Enum".into()),
        5 => decimal(int(e, 8), int(e, 7)),
        6 => Some("Date".into()),
        7 => Some(time("Time", true, 1)),
        8 => Some(time("Time", true, 2)),
        9 => Some(time("Timestamp", true, 1)),
        10 => Some(time("Timestamp", true, 2)),
        c @ 11..=14 => Some(format!("Integer(u{})", 8 << (c - 11))),
        c @ 15..=18 => Some(format!("Integer(i{})", 8 << (c - 15))),
        19 => Some("Json".into()),
        20 => Some("Bson".into()),
        21 => Some("Interval".into()),
        _ => None,
    })
}

fn group_note(e: &Val) -> Option<String> {
    let logical = union_member(e).and_then(|(id, v)| match id {
        2 => Some("Map".to_string()),
        3 => Some("List".to_string()),
        16 => Some(format!(
            "Variant {{ specification_version: {} }}",
            int(v, 1).map_or("None".to_string(), |i| format!("Some({i})"))
        )),
        _ => None,
    });
    logical.or_else(|| match int(e, 6)? {
        1 => Some("Map".into()),
        2 => Some("MapKeyValue".into()),
        3 => Some("List".into()),
        _ => None,
    })
}

const MAX_GROUPS: usize = 127;

/// lines for the node that starts `es`; number of elements it takes
fn node(es: &[Val], indent: usize, groups: usize, out: &mut String) -> Option<usize> {
    let e = es.first()?;
    let rep = repetition(e)?;
    let pad = "  ".repeat(indent);
    let name = text(e, 4)?;
    let note = |n: Option<String>| n.map_or(String::new(), |n| format!(" ({n})"));
    let n = int(e, 5).unwrap_or(0);
    if n == 0 {
        let p = physical(e)?;
        out.push_str(&format!("{pad}{rep} {p} {name}{};\n", note(leaf_note(e))));
        return Some(1);
    }
    if n < 0 || n as usize > es.len() - 1 || groups + 1 > MAX_GROUPS {
        return None;
    }
    out.push_str(&format!("{pad}{rep} group {name}{} {{\n", note(group_note(e))));
    let mut used = 1;
    for _ in 0..n {
        used += node(&es[used..], indent + 1, groups + 1, out)?;
    }
    out.push_str(&format!("{pad}}}\n"));
    Some(used)
}

fn elements(meta: &Val) -> &[Val] {
    match lookup(meta, 2) {
        Some(Val::List(l)) => l,
        _ => panic!("model: no schema"),
    }
}

fn header(meta: &Val) -> String {
    let mut s = format!("version: {}\nnum of rows: {}\n", int(meta, 1).unwrap(), int(meta, 3).unwrap());
    if let Some(c) = text(meta, 6) {
        s.push_str(&format!("created by: {c}\n"));
    }
    s
}

fn tree(meta: &Val) -> Option<String> {
    let es = elements(meta);
    let mut out = String::new();
    let used = node(es, 0, 0, &mut out)?;
    if used != es.len() || repetition(&es[0])? != "REQUIRED" {
        return None;
    }
    Some(out)
}

// --- oracle

/// a panic that is not the report of an error value
fn crash(err: &str) -> Option<String> {
    let bad = [
        "overflow", "out of range", "out of bounds", "index starts at", "range end", "divide by zero", "entered unreachable", "assertion", "unsafe precondition",
        "on a `None` value", "not a char boundary", "AddressSanitizer", "memory allocation of", "already", "slice index",
    ];
    let mut lines = err.lines();
    while let Some(l) = lines.next() {
        if l.contains("panicked at") || l.contains("memory allocation of") || l.contains("AddressSanitizer") {
            let msg = format!("{l} {}", lines.next().unwrap_or(""));
            if !msg.contains("on an `Err` value") && bad.iter().any(|b| msg.contains(b)) {
                return Some(msg);
            }
        }
    }
    None
}

fn tail(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(1500)]).into_owned()
}

/// Some(text): must be printed exactly; None: must be rejected
fn check(file: &[u8], want: Option<(&str, &str)>, what: &str) -> R {
    let r = run_tool(Some(file));
    judge(r, want, what)
}

fn judge(r: Ran, want: Option<(&str, &str)>, what: &str) -> R {
    ensure!(!r.hung, "{what}: the tool was still running after 90 s");
    ensure!(r.code.is_some(), "{what}: the tool was killed by a signal; stderr: {}", tail(r.err.as_bytes()));
    if let Some(m) = crash(&r.err) {
        return Err(format!("{what}: the tool crashed: {m}"));
    }
    match want {
        Some((head, tree)) => {
            ensure!(r.code == Some(0), "{what}: rejected (exit {:?}, {}) instead of printing\n{tree}", r.code, tail(r.err.as_bytes()));
            let want = format!("{head}{tree}");
            if r.out != want.as_bytes() {
                let (a, b) = (String::from_utf8_lossy(&r.out), want.as_str());
                let line = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(a.lines().count().min(b.lines().count()));
                return Err(format!(
                    "{what}: line {} printed is {:?}, expected {:?}",
                    line + 1,
                    a.lines().nth(line).unwrap_or("<end>"),
                    b.lines().nth(line).unwrap_or("<end>")
                ));
            }
        }
        None => {
            ensure!(r.code != Some(0), "{what}: accepted, printing\n{}", tail(&r.out));
            no_tree(&r, what)?;
        }
    }
    Ok(())
}

/// a rejected file may show what precedes the tree, but no line of a tree
fn no_tree(r: &Ran, what: &str) -> R {
    let s = String::from_utf8_lossy(&r.out);
    for l in s.lines() {
        let l = l.trim_start();
        let looks = ["REQUIRED ", "OPTIONAL ", "REPEATED "].iter().any(|p| l.starts_with(p)) || l == "}";
        ensure!(!looks, "{what}: rejected, but part of a tree was printed: {l:?}");
    }
    Ok(())
}

fn run_meta(c: &mut Ctx, meta: &Val, what: &str) -> R {
    let tg = target("FileMetaData");
    let b = canon(&tg.ty, meta);
    let file = footer(&mut c.rng, &b);
    let want = tree(meta);
    c.eval(hash_bytes(19, &b));
    c.count(if want.is_some() { "trees printed" } else { "lists rejected" }, 1);
    if let Some(w) = &want {
        c.count("nodes compared", elements(meta).len() as u64);
        c.peak("nodes in a tree", elements(meta).len() as u64);
        c.peak("levels", w.lines().map(|l| (l.len() - l.trim_start().len()) / 2).max().unwrap_or(0) as u64);
    }
    c.sample(|| format!("{what}: {} elements, {}", elements(meta).len(), want.as_deref().map_or("rejected", |w| w.lines().last().unwrap_or(""))));
    let head = header(meta);
    let what = format!("{what}: {}", show(&Val::List(elements(meta).to_vec())));
    check(&file, want.as_ref().map(|w| (head.as_str(), w.as_str())), &what)
}

fn footer(rng: &mut Rng, meta: &[u8]) -> Vec<u8> {
    let mut b = b"PAR1".to_vec();
    if rng.p(60) {
        let n = rng.idx(50);
        b.extend(rng.bytes(n));
    }
    b.extend(meta);
    b.extend((meta.len() as u32).to_le_bytes());
    b.extend(b"PAR1");
    b
}

// --- generators

fn put(e: &mut Vec<(i16, Val)>, id: i16, v: Val) {
    e.retain(|(i, _)| *i != id);
    e.push((id, v));
    e.sort_by_key(|(i, _)| *i);
}

fn gen_name(rng: &mut Rng) -> String {
    let n = rng.idx(9);
    if rng.p(40) {
        if let Some(s) = rng.known_str() {
            return s.chars().map(|c| if c == '\n' || c == '\r' { '_' } else { c }).collect();
        }
    }
    let n = if rng.p(6) { edge_len(rng, 3000) } else { n };
    match rng.below(5) {
        0 => {
            // anything except what ends a line
            gen_string(rng, n).chars().map(|c| if c == '\n' || c == '\r' { '_' } else { c }).collect()
        }
        1 => "".into(),
        _ => (0..n + 1).map(|_| (b'a' + rng.below(26) as u8) as char).collect(),
    }
}

fn unit(rng: &mut Rng) -> Val {
    Val::Union(rng.range(1, 3) as i16, Box::new(Val::Struct(vec![])))
}

fn gen_logical(rng: &mut Rng, id: i16) -> Val {
    let body = match id {
        5 => {
            let p = *rng.pick(&[-1i32, 0, 1, 2, 9, 38, 126, 127, 128, 255, 256, 300, i32::MAX, i32::MIN]);
            let s = match rng.below(4) {
                0 => p,
                1 => p.wrapping_add(1),
                2 => *rng.pick(&[-129, -128, -127, -1, 0, 1, 5, 127, 128]),
                _ => p / 2,
            };
            Val::Struct(vec![(1, Val::I32(s)), (2, Val::I32(p))])
        }
        7 | 8 => Val::Struct(vec![(1, Val::Bool(rng.p(128))), (2, unit(rng))]),
        10 => {
            let w = *rng.pick(&[8i8, 16, 32, 64, 1, 0, -1, 127, -128, 33]);
            Val::Struct(vec![(1, Val::I8(w)), (2, Val::Bool(rng.p(128)))])
        }
        16 => Val::Struct(if rng.p(128) { vec![(1, Val::I8(rng.int(8) as i8))] } else { vec![] }),
        17 => Val::Struct(if rng.p(128) { vec![(1, Val::Str("c".into()))] } else { vec![] }),
        18 => Val::Struct(if rng.p(128) { vec![(2, Val::I32(rng.int(4) as i32))] } else { vec![] }),
        _ => Val::Struct(vec![]),
    };
    Val::Union(id, Box::new(body))
}

const LOGICAL: [i16; 17] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18];

fn annotate(rng: &mut Rng, e: &mut Vec<(i16, Val)>) {
    if rng.p(110) {
        let id = *rng.pick(&LOGICAL);
        let l = gen_logical(rng, id);
        put(e, 10, l);
    }
    if rng.p(110) {
        let c = if rng.p(20) { rng.int(32) as i32 } else { rng.range(-1, 23) as i32 };
        put(e, 6, Val::I32(c));
    }
    if rng.p(110) {
        let p = *rng.pick(&[0i32, 1, 5, 9, 38, 127, 128, -3]);
        put(e, 8, Val::I32(p));
    }
    if rng.p(110) {
        let s = *rng.pick(&[-129i32, -128, -1, 0, 1, 2, 5, 6, 38, 127, 128]);
        put(e, 7, Val::I32(s));
    }
    if rng.p(60) {
        put(e, 9, Val::I32(rng.int(32) as i32));
    }
}

fn gen_leaf(rng: &mut Rng) -> Vec<(i16, Val)> {
    let mut e = vec![];
    let t = rng.below(8) as i32;
    put(&mut e, 1, Val::I32(t));
    if t == 7 || rng.p(40) {
        let n = *rng.pick(&[1i32, 2, 12, 16, 255, 256, 65536, i32::MAX]);
        put(&mut e, 2, Val::I32(n));
    }
    put(&mut e, 4, Val::Str(gen_name(rng)));
    if rng.p(220) {
        put(&mut e, 3, Val::I32(rng.below(3) as i32));
    }
    if rng.p(60) {
        put(&mut e, 5, Val::I32(0));
    }
    annotate(rng, &mut e);
    e
}

fn gen_tree(rng: &mut Rng, out: &mut Vec<Val>, depth: usize, budget: &mut i64) {
    *budget -= 1;
    let me = out.len();
    let kids = if depth == 0 || *budget <= 0 { 0 } else { *rng.pick(&[0usize, 0, 1, 1, 2, 3, 5, 16]) };
    if kids == 0 && me > 0 {
        let l = gen_leaf(rng);
        out.push(Val::Struct(l));
        return;
    }
    let kids = kids.max(1);
    let mut e = vec![];
    put(&mut e, 4, Val::Str(gen_name(rng)));
    put(&mut e, 5, Val::I32(kids as i32));
    if me > 0 {
        if rng.p(240) {
            put(&mut e, 3, Val::I32(rng.below(3) as i32));
        }
    } else if rng.p(128) {
        put(&mut e, 3, Val::I32(0));
    }
    annotate(rng, &mut e);
    out.push(Val::Struct(e));
    for _ in 0..kids {
        gen_tree(rng, out, depth - 1, budget);
    }
}

fn gen_schema(rng: &mut Rng) -> Vec<Val> {
    let mut out = vec![];
    let mut budget = *rng.pick(&[1i64, 4, 12, 40, 120]);
    let depth = *rng.pick(&[1usize, 2, 4, 8, 30]);
    gen_tree(rng, &mut out, depth, &mut budget);
    out
}

fn meta_with(rng: &mut Rng, schema: Vec<Val>) -> Val {
    let mut fs = vec![
        (1, Val::I32(rng.int(32) as i32)),
        (2, Val::List(schema)),
        (3, Val::I64(rng.int(64))),
        (4, Val::List(vec![])),
    ];
    if rng.p(128) {
        let n = rng.idx(12);
        fs.push((6, Val::Str(gen_string(rng, n).chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).collect())));
    }
    Val::Struct(fs)
}

fn simple(name: &str, kids: i32, rep: i32) -> Vec<(i16, Val)> {
    let mut e = vec![(3, Val::I32(rep)), (4, Val::Str(name.into()))];
    if kids > 0 {
        e.push((5, Val::I32(kids)));
    } else {
        e.insert(0, (1, Val::I32(1)));
    }
    e
}

fn spoil(rng: &mut Rng, es: &mut Vec<Val>) -> &'static str {
    let n = es.len();
    let i = rng.idx(n.max(1));
    let edit = |es: &mut Vec<Val>, i: usize, id: i16, v: Option<Val>| {
        if let Val::Struct(e) = &mut es[i] {
            match v {
                Some(v) => put(e, id, v),
                None => e.retain(|(x, _)| *x != id),
            }
        }
    };
    match rng.below(13) {
        0 => {
            es.remove(i);
            "an element removed"
        }
        1 => {
            let x = es[i].clone();
            es.insert(i, x);
            "an element twice"
        }
        2 => {
            let l = gen_leaf(rng);
            es.push(Val::Struct(l));
            "a trailing leaf"
        }
        3 => {
            let d = *rng.pick(&[-1i64, 1, 1, -2, 2]);
            let k = int(&es[i], 5).unwrap_or(0) + d;
            edit(es, i, 5, Some(Val::I32(k as i32)));
            "a wrong number of children"
        }
        4 => {
            let k = *rng.pick(&[-1i32, i32::MIN, i32::MAX, 1 << 24, 256, 65536, n as i32, n as i32 - 1]);
            edit(es, i, 5, Some(Val::I32(k)));
            "an extreme number of children"
        }
        5 => {
            let k = *rng.pick(&[8i32, -1, 9, 256, i32::MAX, i32::MIN]);
            edit(es, i, 1, Some(Val::I32(k)));
            "an unknown physical type"
        }
        6 => {
            edit(es, i, 1, None);
            "no physical type"
        }
        7 => {
            let k = *rng.pick(&[3i32, -1, 256, i32::MAX, i32::MIN]);
            edit(es, i, 3, Some(Val::I32(k)));
            "an unknown repetition"
        }
        8 => {
            edit(es, i, 1, Some(Val::I32(7)));
            let k = *rng.pick(&[0i32, -1, i32::MIN]);
            edit(es, i, 2, if rng.p(128) { Some(Val::I32(k)) } else { None });
            "a bad fixed length"
        }
        9 => {
            let k = rng.range(1, 2) as i32;
            edit(es, 0, 3, Some(Val::I32(k)));
            "a root that is not required"
        }
        10 => {
            edit(es, i, 5, None);
            "no number of children"
        }
        11 => {
            let j = rng.idx(n);
            es.swap(i, j);
            "two elements exchanged"
        }
        _ => {
            es.truncate(i);
            "truncated"
        }
    }
}

pub fn c19(t: bool) -> Vec<Stage> {
    vec![
        // every pair of logical and converted type on a leaf, with each physical type
        stage("leaf-annotations", 18, |c| {
            let li = c.idx as usize;
            let mut es = vec![];
            for conv in -2..24i32 {
                for ty in 0..8 {
                    for k in 0..3 {
                        let mut e = simple(&format!("c{conv}"), 0, k);
                        put(&mut e, 1, Val::I32(ty));
                        put(&mut e, 2, Val::I32(c.rng.range(1, 40) as i32));
                        if li > 0 {
                            let l = gen_logical(&mut c.rng, LOGICAL[li - 1]);
                            put(&mut e, 10, l);
                        }
                        if conv > -2 {
                            put(&mut e, 6, Val::I32(conv));
                        }
                        if c.rng.p(200) {
                            put(&mut e, 8, Val::I32(c.rng.range(0, 12) as i32));
                        }
                        if c.rng.p(200) {
                            put(&mut e, 7, Val::I32(c.rng.range(-2, 10) as i32));
                        }
                        es.push(Val::Struct(e));
                    }
                }
            }
            let n = es.len();
            es.insert(0, Val::Struct(simple("root", n as i32, 0)));
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "annotations of leaves")
        }),
        stage("group-annotations", 18, |c| {
            let li = c.idx as usize;
            let mut es = vec![];
            let mut n = 0;
            for conv in -2..24i32 {
                for k in 0..3 {
                    let mut e = simple(&format!("g{conv}"), 1, k);
                    if li > 0 {
                        let l = gen_logical(&mut c.rng, LOGICAL[li - 1]);
                        put(&mut e, 10, l);
                    }
                    if conv > -2 {
                        put(&mut e, 6, Val::I32(conv));
                    }
                    es.push(Val::Struct(e));
                    es.push(Val::Struct(gen_leaf(&mut c.rng)));
                    n += 1;
                }
            }
            es.insert(0, Val::Struct(simple("root", n, 0)));
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "annotations of groups")
        }),
        // all precisions and scales around their limits, in both annotations
        stage("decimals", 8, |c| {
            let mut es = vec![];
            for p in [-1i32, 0, 1, 2, 38, 126, 127, 128, 129, 255, 256, 257, 1 << 16, i32::MAX, i32::MIN] {
                for s in [-257i32, -256, -129, -128, -127, -1, 0, 1, 2, 3, 38, 39, 126, 127, 128, 129, 255, 256, i32::MAX, i32::MIN] {
                    let mut e = simple("d", 0, c.rng.below(3) as i32);
                    let l = Val::Union(5, Box::new(Val::Struct(vec![(1, Val::I32(s)), (2, Val::I32(p))])));
                    match c.idx % 4 {
                        0 => put(&mut e, 10, l),
                        1 => {
                            put(&mut e, 6, Val::I32(5));
                            put(&mut e, 8, Val::I32(p));
                            put(&mut e, 7, Val::I32(s));
                        }
                        2 => {
                            put(&mut e, 10, l);
                            put(&mut e, 6, Val::I32(c.rng.range(0, 21) as i32));
                        }
                        _ => {
                            put(&mut e, 6, Val::I32(5));
                            match c.rng.below(3) {
                                0 => put(&mut e, 8, Val::I32(p)),
                                1 => put(&mut e, 7, Val::I32(s)),
                                _ => {}
                            }
                            put(&mut e, 10, l);
                        }
                    }
                    es.push(Val::Struct(e));
                }
            }
            let n = es.len();
            es.insert(0, Val::Struct(simple("root", n as i32, 0)));
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "decimals")
        }),
        // chains of groups around the limit
        stage("depth", 40, |c| {
            let depth = match c.idx {
                i @ 0..=33 => 110 + i as i32,
                34 => 200,
                35 => 255,
                36 => 256,
                37 => 257,
                38 => 5000,
                _ => 1,
            };
            let mut es = vec![Val::Struct(simple("root", 1, 0))];
            // sometimes with a sibling on every level
            let wide = c.idx % 3 == 0 && depth < 300;
            let reps: Vec<i32> = (0..depth).map(|_| c.rng.below(3) as i32).collect();
            for (k, r) in reps.iter().enumerate().skip(1) {
                let mut e = simple(&format!("g{k}"), if wide { 2 } else { 1 }, *r);
                if c.rng.p(30) {
                    put(&mut e, 6, Val::I32(c.rng.range(1, 3) as i32));
                }
                es.push(Val::Struct(e));
            }
            es.push(Val::Struct(gen_leaf(&mut c.rng)));
            if wide {
                for _ in 1..depth {
                    es.push(Val::Struct(gen_leaf(&mut c.rng)));
                }
            }
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "nested groups")
        }),
        stage("width", 8, |c| {
            let n = [1i32, 14, 15, 127, 128, 255, 256, 70_000][c.idx as usize];
            let mut es = vec![Val::Struct(simple("root", n, 0))];
            for _ in 0..n {
                es.push(Val::Struct(gen_leaf(&mut c.rng)));
            }
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "many children")
        }),
        // groups around the last of the elements, of any depth and number of members
        stage("last", raw(t, 300, 3000), |c| {
            let depth = c.idx % 12;
            let w = match c.rng.below(4) {
                0 => c.rng.range(1, 20),
                1 => c.rng.range(20, 60),
                2 => *c.rng.pick(&[15, 16, 63, 64, 127, 128, 255, 256]),
                _ => c.rng.range(60, 300),
            } as i32;
            // each level may have leaves before and behind the next one
            let mut behind = vec![];
            let mut es = vec![];
            for k in 0..=depth {
                let (b, a) = match c.rng.below(3) {
                    0 => (c.rng.range(0, 3), c.rng.range(0, 3)),
                    1 => (c.rng.range(0, 30), 0),
                    _ => (0, 0),
                };
                let n = if k == depth { w } else { 1 + b as i32 + a as i32 };
                let name = if k == 0 { "root".to_string() } else { format!("g{k}") };
                es.push(Val::Struct(simple(&name, n, if k == 0 { 0 } else { c.rng.below(3) as i32 })));
                if k < depth {
                    es.extend((0..b).map(|_| Val::Struct(gen_leaf(&mut c.rng))));
                    behind.extend((0..a).map(|_| Val::Struct(gen_leaf(&mut c.rng))));
                }
            }
            es.extend((0..w).map(|_| Val::Struct(gen_leaf(&mut c.rng))));
            es.extend(behind);
            if c.rng.p(60) {
                // or one too few
                es.pop();
            }
            let m = meta_with(&mut c.rng, es);
            run_meta(c, &m, "the last groups")
        }),
        stage("trees", q(t, 4_000, 60_000), |c| {
            let s = gen_schema(&mut c.rng);
            let m = meta_with(&mut c.rng, s);
            if tree(&m).is_none() {
                panic!("harness: generated tree is not valid: {}", show(&m));
            }
            run_meta(c, &m, "tree")
        }),
        stage("malformed", q(t, 4_000, 60_000), |c| {
            let mut s = gen_schema(&mut c.rng);
            let what = spoil(&mut c.rng, &mut s);
            if c.rng.p(30) && !s.is_empty() {
                spoil(&mut c.rng, &mut s);
            }
            let m = meta_with(&mut c.rng, s);
            run_meta(c, &m, what)
        }),
        stage("arbitrary-lists", q(t, 1_000, 20_000), |c| {
            let n = c.rng.idx(8);
            let mut s = vec![];
            for k in 0..n {
                let mut e = if c.rng.p(128) { gen_leaf(&mut c.rng) } else { vec![(4, Val::Str(gen_name(&mut c.rng)))] };
                if c.rng.p(128) {
                    put(&mut e, 5, Val::I32(c.rng.range(-1, (n - k) as i64) as i32));
                }
                if c.rng.p(200) {
                    let r = c.rng.range(-1, 3) as i32;
                    put(&mut e, 3, Val::I32(if k == 0 { 0 } else { r }));
                }
                annotate(&mut c.rng, &mut e);
                s.push(Val::Struct(e));
            }
            let m = meta_with(&mut c.rng, s);
            run_meta(c, &m, "arbitrary list")
        }),
        // damaged metadata: either still some schema list, or no metadata at all
        stage("damaged", q(t, 2_000, 30_000), |c| {
            let tg = target("FileMetaData");
            let s = gen_schema(&mut c.rng);
            let m = meta_with(&mut c.rng, s);
            let mut b = canon(&tg.ty, &m);
            mutate(&mut c.rng, &mut b);
            let file = footer(&mut c.rng, &b);
            c.eval(hash_bytes(190, &b));
            match ref_decode(&tg.ty, &b) {
                Ok((v, _)) => {
                    c.count("damaged metadata still decodes", 1);
                    // names may contain anything now
                    let lines = |v: &Val| elements(v).iter().all(|e| !text(e, 4).unwrap_or("").contains(['\n', '\r']));
                    let (head, want) = (header(&v), tree(&v));
                    if !lines(&v) || head.lines().count() > 3 || head.contains('\r') {
                        let r = run_tool(Some(&file));
                        ensure!(!r.hung && r.code.is_some() && crash(&r.err).is_none(), "damaged {}: crashed: {}", hex(&b), r.err);
                        return Ok(());
                    }
                    check(&file, want.as_ref().map(|w| (head.as_str(), w.as_str())), &format!("damaged {}", hex(&b)))
                }
                Err(Bad::Gray) => {
                    let r = run_tool(Some(&file));
                    ensure!(!r.hung && r.code.is_some() && crash(&r.err).is_none(), "damaged {}: crashed: {}", hex(&b), r.err);
                    Ok(())
                }
                Err(_) => {
                    c.count("damaged metadata rejected", 1);
                    check(&file, None, &format!("damaged {}", hex(&b)))
                }
            }
        }),
        // files that are no Parquet files
        stage("no-metadata", q(t, 200, 2_000), |c| {
            let n = c.rng.idx(30);
            let mut b = c.rng.bytes(n);
            match c.idx % 4 {
                0 => {}
                1 => b.extend(b"PAR1"),
                2 => {
                    b.extend((c.rng.u64() as u32).to_le_bytes());
                    b.extend(b"PAR1");
                }
                _ => {
                    b.extend(u32::to_le_bytes(n as u32 + c.rng.range(1, 5) as u32));
                    b.extend(b"PAR1");
                }
            }
            let declared = if b.len() >= 8 { u32::from_le_bytes(b[b.len() - 8..b.len() - 4].try_into().unwrap()) as usize } else { 0 };
            let plausible = b.ends_with(b"PAR1") && b.len() >= 8 && declared <= b.len() - 8;
            c.eval(hash_bytes(191, &b));
            let r = run_tool(Some(&b));
            if plausible {
                ensure!(!r.hung && r.code.is_some() && crash(&r.err).is_none(), "file {}: crashed: {}", hex(&b), r.err);
                return Ok(());
            }
            judge(r, None, &format!("file {}", hex(&b)))
        }),
        stage("shipped-file", 1, |c| {
            let Ok(f) = fs::read("/repo/parquet/data/alltypes_tiny_pages.parquet") else {
                c.eval_trivial();
                return Ok(());
            };
            let n = f.len();
            let len = u32::from_le_bytes(f[n - 8..n - 4].try_into().unwrap()) as usize;
            let tg = target("FileMetaData");
            let (v, _) = ref_decode(&tg.ty, &f[n - 8 - len..n - 8]).expect("reference decodes the shipped file");
            c.eval(1);
            let (head, want) = (header(&v), tree(&v).expect("schema of the shipped file"));
            check(&f, Some((&head, &want)), "shipped file")
        }),
    ]
}
