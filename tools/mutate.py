#!/usr/bin/env python3
"""Development tool: small mechanical changes to the code, each run against reduced versions of the checks.

  mutate.py DIR LANES LIMIT SEED [file-substring ...]

Works in private copies below DIR; prints what survives both the repository's tests and the monitors.
Survivors are looked at by hand: they keep the behaviour, or a check has to become stronger.
"""
import os, random, re, shutil, subprocess, sys, threading, time, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["runtime/src/protocol.rs", "runtime/src/types.rs", "runtime/src/macros.rs", "runtime/src/uleb.rs", "runtime/src/error.rs",
         "parquet/src/lib.rs", "parquet/src/encodings.rs", "parquet/src/bin/schema.rs", "parquet/src/format.rs"]
PROPS = ["C%02d" % i for i in range(1, 25) if i != 22]
FIRST = {"format.rs": ["C18", "C23"], "schema.rs": ["C19"], "encodings.rs": ["C17"], "lib.rs": ["C15", "C16"]}


def mutants(path, text):
    cut = text.find("#[cfg(test)]")
    body = text if cut < 0 else text[:cut]
    out = []
    pos = 0
    in_block = False
    for no, line in enumerate(body.split("\n"), 1):
        st = line.strip()
        start = pos
        pos += len(line) + 1
        if in_block:
            if "*/" in line: in_block = False
            continue
        if st.startswith("/*"):
            if "*/" not in line: in_block = True
            continue
        if st.startswith(("//", "#[", "use ", "*", "#!")) or not st:
            continue
        code = line.split("//")[0]
        def add(a, b, new, what):
            out.append((path, no, start + a, start + b, new, what))
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|\d+)(?![\d.x])", code):
            s = m.group(1); n = int(re.match(r"0x[0-9A-Fa-f_]+|\d+", s).group(0).replace("_", ""), 0)
            e = m.start() + len(s)
            add(m.start(), e, str(n + 1), f"{s}->{n+1}")
            if n > 0: add(m.start(), e, str(n - 1), f"{s}->{n-1}")
        for a, b in [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "),
                     (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "), (" |= ", " &= "), (" &= ", " |= "), (" += ", " -= "), (" -= ", " += "), (" ^ ", " & "), ("true", "false"), ("false", "true"),
                     ("is_some()", "is_none()"), (".min(", ".max("), (".max(", ".min("), ("required", "optional"), ("optional", "required"), ("i32", "i64"), ("i64", "i32"), ("i16", "i32"), ("Some(", "None.or("),
                     ("from_le_bytes", "from_be_bytes"), ("to_le_bytes", "to_be_bytes"), ("skip_binary", "read_string"), ("read_i32", "read_i64"), ("u16", "u8"), ("usize", "u16 as usize"), ("as u32", "as u16 as u32"), (" as _", " as u32 as _"),
                     ("Borrowed", "Owned"), ("checked_add", "wrapping_add"), ("unwrap_or(", "unwrap_or_else(|| "), ("..=", ".."), ("!", ""), ("string", "binary"), ("binary", "string"), ("?;", ".ok();"), ("break", "continue"), ("get_mut", "make_mut")]:
            i = code.find(a)
            while i >= 0:
                if not (a == "!" and (code[i:i+2] == "!=" or i and (code[i-1].isalnum() or code[i-1] == "_"))):
                    add(i, i + len(a), b, f"{a.strip()}->{b.strip()}")
                i = code.find(a, i + len(a))
        if st.endswith(";") and not st.startswith(("let ", "const ", "type ", "mod ", "pub ", "}", "fn ")) and st.count("(") == st.count(")") and st.count("{") == st.count("}"):
            add(len(line) - len(line.lstrip()), len(line), "", "delete " + st[:50])
        if re.match(r"if .* \{$", st):
            c = re.match(r"(\s*if )(.*)( \{)$", line)
            if c and "let" not in c.group(2):
                add(c.start(2), c.end(2), "false", "if false")
                add(c.start(2), c.end(2), "true", "if true")
        if re.match(r"[\w:|().=\" ]+ => .*,?$", st) and st.count("{") == st.count("}") and st.count("(") == st.count(")") and st.startswith(("LogicalType", "ConvertedType", "Type", "FieldRep")):
            add(len(line) - len(line.lstrip()), len(line), "", "delete arm " + st[:50])
    return out


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -99, "timeout"


class Lane:
    def __init__(self, d):
        self.d = d; self.repo = d + "/repo"; self.verif = d + "/verif"
        os.makedirs(d + "/tmp", exist_ok=True)
        for x in (self.repo, self.verif):
            shutil.rmtree(x, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", self.repo], check=True)
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", self.repo)
        os.makedirs(self.verif)
        for x in ("harness", "decl"):
            shutil.copytree(V + "/" + x, self.verif + "/" + x, ignore=shutil.ignore_patterns("target"))
        for x in ("harness", "decl"):
            p = self.verif + "/" + x + "/Cargo.toml"; s = open(p).read().replace("/repo/", self.repo + "/"); open(p, "w").write(s)
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_INCREMENTAL="true", CARGO_BUILD_JOBS="4",
                        CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true", CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", VMON_LEAST="60", VMON_TMP=d + "/tmp", VMON_SCHEMA=d + "/rt/debug/schema")

    def run(self, mut, text):
        path, no, a, b, new, what = mut
        f = self.repo + "/" + path
        open(f, "w").write(text[:a] + new + text[b:])
        try:
            e = dict(self.env, CARGO_TARGET_DIR=self.d + "/rt")
            r, o = sh(["cargo", "test", "--workspace", "--lib", "--bins", "--offline", "-q"], self.repo, e, 600 if not mut[5] or mut[5] == "none" else 100)
            if r: return "tests" if "could not compile" not in o else "compile"
            r, o = sh(["cargo", "build", "--workspace", "--offline", "-q"], self.repo, e, 200)
            e = dict(self.env, CARGO_TARGET_DIR=self.d + "/ht")
            r, o = sh(["cargo", "build", "--release", "--offline", "-q"], self.verif + "/harness", e, 600)
            if r: return "harness-build"
            first = next((v for k, v in FIRST.items() if path.endswith("/" + k)), [])
            if path.startswith("runtime"): first = ["C05", "C06", "C03"]
            for p in first + [q for q in PROPS if q not in first]:
                r, o = sh([self.d + "/ht/release/vmon", "run", "--prop", p, "--variant", "dbg", "--scale", "0.05", "--time", "40", "--max", "1", "--out", self.d + "/o.json"], self.d, self.env, 90)
                if r: return p + " crash"
                j = open(self.d + "/o.json").read()
                if '"violations":[]' not in j: return p
            e = dict(self.env, CARGO_TARGET_DIR=self.d + "/dt")
            r, o = sh(["cargo", "build", "--offline", "-q"], self.verif + "/decl", e, 300)
            if r: return "decl-build"
            r, o = sh([self.d + "/dt/debug/decl"], self.d, e, 100)
            if r: return "decl"
            return "SURVIVED"
        finally:
            open(f, "w").write(text)


def main():
    d, lanes, limit, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    only = sys.argv[5:]
    texts = {f: open("/repo/" + f).read() for f in FILES}
    ms = [m for f in FILES if not only or any(o in f for o in only) for m in mutants(f, texts[f])]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants,", min(limit, len(ms)), "tried", flush=True)
    q = queue.Queue()
    for m in ms[:limit]: q.put(m)
    lock = threading.Lock()
    def work(k):
        lane = Lane(f"{d}/lane{k}")
        # the unchanged tree has to be quiet
        r = lane.run((FILES[0], 0, 0, 0, "", "none"), texts[FILES[0]])
        with lock: print(f"lane {k}: unchanged tree: {r}", flush=True)
        if r != "SURVIVED": return
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            t = time.time()
            r = lane.run(m, texts[m[0]])
            with lock: print(f"{r:14} {m[0]}:{m[1]} {m[5]}  | {texts[m[0]].splitlines()[m[1]-1].strip()[:90]} ({time.time()-t:.0f}s)", flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
