#!/usr/bin/env python3
"""Builds the monitors against /repo, runs them, watches how they end, and reports.

  check.py literals > literals.json          what the code usually contains
  check.py C01 [--tier quick|thorough] [--replay FILE]
  check.py setup

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: inconclusive.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
NSHARDS = 8
ALL = ["C%02d" % i for i in range(1, 22)] + ["C23", "C24"]

# what a case is and what makes one count, per property
RULE = {
    "C01": "a case is one byte string decoded as one type (slice and stream) or skipped as one wire type; made by random, structured, mutated, truncated, length-hostile and deeply nested generators and by all strings of up to 2 bytes; distinct by (type, bytes)",
    "C02": "a case is one input decoded, skipped, refilled or written under a sanitizer or against an inaccessible page directly behind the input; distinct by (type, bytes, kind of access)",
    "C03": "a case is one value written and compared byte by byte with the reference encoder; sweeps of all field ids, all gaps, all i16/i8 values, lengths and field subsets, and random values; distinct by (type, id, encoding)",
    "C04": "a case is one value written, read back from slice and stream; same sweeps as C03; distinct by (type, encoding)",
    "C05": "a case is one encoding (valid in a non-canonical way, or mutated) decoded and compared with the reference decoder; distinct by (type, bytes)",
    "C06": "a case is one message with undeclared fields inserted, or one value skipped with bytes following; distinct by (type, bytes)",
    "C07": "a case is one byte string decoded from slice and from a stream with a chosen chunking and fault plan; distinct by (type, bytes, plan)",
    "C08": "a case is one message or skipped value cut at every offset; distinct by (type, bytes)",
    "C09": "a case is one subset, order or repetition of the fields of a struct, or one sequence of members of a union; distinct by (type, bytes)",
    "C10": "a case is one declared position with one other wire type and payload; distinct by (type, bytes)",
    "C11": "a case is one byte string in a string or binary position of one representation; all strings of up to 2 bytes and boundary sequences; distinct by (type, bytes)",
    "C12": "a case is one declared size (around the limits, or beyond the supplied bytes) at one position, under the monitoring allocator; distinct by (position, size, bytes)",
    "C13": "a case is one value written to one output with a chosen fault plan; distinct by (type, encoding, plan)",
    "C14": "a case is one decode or write with all allocations counted, or all borrowed pointers compared with the input range; distinct by (type, bytes)",
    "C15": "a case is one source (size, initial position, read sizes, faults) searched for its footer; distinct by content and plan",
    "C16": "a case is one metadata with indexes located and read from a file or chunk; distinct by content and plan",
    "C17": "a case is one list of encodings read, or one set written; distinct by bytes",
    "C18": "a case is one value of one Parquet structure written by either side and read by the other; distinct by (structure, bytes)",
    "C19": "a case is one file given to the schema tool, its output compared with the model; distinct by file content",
    "C20": "a case is one decode or encode repeated, interleaved or run on several threads and compared with its sequential result; distinct by (type, bytes)",
    "C21": "a case is one populated target filled from one message; distinct by (type, previous value, bytes)",
    "C23": "a case is one generated type defaulted, constructed, compared, cloned or printed for one value (or pair of values); distinct by (type, values); plus the declarations of /verif/decl compiled and compared with bytes worked out by hand",
    "C24": "a case is one message, skipped value, value written or Parquet source whose CPU time, calls and memory are compared with its size; distinct by (type, bytes)",
}
ASSUME = [
    "the reference codec and the models in /verif/harness are right",
    "64-bit little-endian Linux, the installed stable and nightly Rust toolchains",
    "held on the executions counted here; nothing is claimed for inputs not generated",
]
LEVEL = {p: "exploration" for p in ALL}
LEVEL["C13"] = "fault_enumeration"
LEVEL["C08"] = "fault_enumeration"


def variants_of(prop, tier):
    """(variant, seconds per shard) in the order in which they run"""
    t = tier == "thorough"
    if prop == "C02":
        return [("asan", 240 if t else 90), ("dbg", 90 if t else 60), ("rel", 60 if t else 40), ("miri", 280 if t else 100)]
    if prop == "C20":
        return [("rel", 150 if t else 60), ("tsan", 200 if t else 60), ("miri", 220 if t else 80)]
    return [("rel", 300 if t else 90), ("dbg", 300 if t else 90)]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN", "TSAN"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e["PATH"] = os.environ.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    return e


def plan(variant):
    """(toolchain, cargo arguments, environment, path of the binary)"""
    td = os.path.join(TARGET, variant)
    env = {"CARGO_TARGET_DIR": td}
    if variant == "rel":
        return "+stable", ["build", "--release"], env, td + "/release/vmon"
    if variant == "dbg":
        return "+stable", ["build"], env, td + "/debug/vmon"
    if variant == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        # an access whose result is not used is still an access
        env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        return "+nightly", ["build", "--target", TRIPLE], env, f"{td}/{TRIPLE}/debug/vmon"
    if variant == "tsan":
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        return "+nightly", ["build", "-Zbuild-std", "--target", TRIPLE], env, f"{td}/{TRIPLE}/debug/vmon"
    if variant == "miri":
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        return "+nightly", ["miri", "run", "--quiet"], env, None
    raise ValueError(variant)


def literals():
    """numbers, texts and floating-point numbers that occur in the code under test"""
    nums, strs, floats = set(), set(), set()
    tok = re.compile(r'''//[^\n]*|/\*.*?\*/|(?:b|c|)"((?:[^"\\]|\\.)*)"|b?'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])\x27''', re.S)
    esc = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}

    def text(x):
        x = re.sub(r"\\u\{([0-9a-fA-F]{1,6})\}", lambda m: chr(min(int(m[1], 16), 0x10ffff)), x)
        x = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m[1], 16)), x)
        return re.sub(r"\\(.)", lambda m: esc.get(m[1], m[1]), x, flags=re.S)

    def token(m):
        for x in m.groups():
            if x is not None and len(x) <= 60:
                x = text(x)
                try:
                    strs.add(x.encode("latin-1" if m[0][0] in "bc" else "utf-8", "replace"))
                except UnicodeError:
                    strs.add(x.encode("utf-8", "replace"))
                if len(x) == 1:
                    nums.add(ord(x))
                    if m[0][0] == "b":
                        return str(ord(x))
        return " "

    lit = r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|128|size))?"
    def val(x):
        x = x.rstrip("_")
        return int(x.replace("_", ""), 0 if x[:2].lower() in ("0x", "0b", "0o") else 10)
    for base in ("runtime/src", "parquet/src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    try:
                        s = tok.sub(token, open(os.path.join(d, f), errors="replace").read())
                        for m in re.finditer(r"(?<![\w.])" + lit + r"(?![\w.])", s):
                            nums.add(val(m[1]))
                        for m in re.finditer(r"(?<![\w.])" + lit + r"((?:\s*(?:<<|\*|\+|-)\s*" + lit + r")+)", s):
                            x = val(m[1])
                            for o in re.finditer(r"(<<|\*|\+|-)\s*" + lit, m[2]):
                                y = val(o[2])
                                x = x << min(y, 64) if o[1] == "<<" else x * y if o[1] == "*" else x + y if o[1] == "+" else x - y
                                nums.add(x)
                        for m in re.finditer(r"\[\s*(" + lit + r"(?:\s*,\s*" + lit + r")+)\s*(?:,\s*)?(?:\]|\.\.|\w+ *@)", s):
                            x = [val(x[1]) for x in re.finditer(lit, m[1])]
                            if len(x) <= 60 and max(x) < 256:
                                strs.add(bytes(x))
                        for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)", s):
                            floats.add(float(m[1].replace("_", "")))
                    except (OSError, ValueError):
                        pass
    return sorted(x for x in nums if 0 <= x < 1 << 64), sorted(x.decode("latin-1") for x in strs), sorted(floats)


def dictionary():
    """the above for the generators; what the code did not always contain comes up more often"""
    nums, strs, floats = literals()
    try:
        usual = json.load(open(os.path.join(VERIF, "literals.json")))
    except (OSError, ValueError):
        usual = {"nums": nums, "strs": strs}
    un, us = set(usual["nums"]), set(usual["strs"])
    out = [("n" if x in un else "N") + str(x) for x in nums]
    out += [("s" if x in us else "S") + x.encode("latin-1").hex() for x in strs if x]
    out += ["f" + repr(x) for x in floats]
    return ",".join(out)[:100_000]


FEATURES = [[], ["--no-default-features", "--features", "pq"], ["--no-default-features", "--features", "byte"], ["--no-default-features"]]


def cargo(variant, feats, tail=()):
    tc, args, env, _ = plan(variant)
    e = base_env()
    e.update(env)
    cmd = ["cargo", tc] + args + ["--offline", "--manifest-path", HARNESS + "/Cargo.toml"] + feats + list(tail)
    return cmd, e


def build_one(variant, feats):
    cmd, e = cargo(variant, feats, ["--", "merge"] if variant == "miri" else [])
    p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=HARNESS)
    return p.returncode == 0, p.stdout


def build_schema(variant):
    e = base_env()
    td = os.path.join(TARGET, variant)
    e["CARGO_TARGET_DIR"] = td
    cmd = ["cargo", "+stable", "build", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "compact-thrift-parquet", "--bin", "schema"]
    if variant == "rel":
        cmd.append("--release")
    p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
    return p.returncode == 0, p.stdout, f"{td}/{'release' if variant == 'rel' else 'debug'}/schema"


def declarations(run):
    """the declarations of /verif/decl compile and behave"""
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "decl")
    forget([os.path.join(TARGET, "decl")])
    n = 0
    for prof, d in (([], "debug"), (["--release"], "release")):
        cmd = ["cargo", "+stable", "build", "--offline", "--manifest-path", os.path.join(VERIF, "decl", "Cargo.toml")] + prof
        p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
        if p.returncode:
            # the runtime alone must build, else this tree is broken altogether
            q = subprocess.run(cmd + ["-p", "compact-thrift-runtime"], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
            log(p.stdout[-4000:])
            if q.returncode:
                raise Inconclusive("the runtime does not build")
            errs = errors_of(p.stdout)
            raise Violation("declarations that the macro has to accept do not compile: " + "; ".join(f"{x[1]} at {(x[2] or ['?'])[0]}" for x in errs[:3]), kind="decl")
        try:
            p = subprocess.run([os.path.join(TARGET, "decl", d, "decl")], env=e, capture_output=True, text=True, errors="replace", timeout=120, cwd=run.tmp)
        except subprocess.TimeoutExpired:
            raise Violation("the declarations of /verif/decl: no end", kind="decl")
        m = re.search(r"^DONE (\d+)$", p.stdout, re.M)
        if p.returncode or not m:
            raise Violation(f"the declarations of /verif/decl ({d}): {p.stdout[-600:]} {p.stderr[-600:]} rc={p.returncode}", kind="decl")
        n += int(m.group(1))
    run.counters["declarations compared with bytes worked out by hand"] = n


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.msg, self.info = msg, info


def errors_of(out):
    """[(code, message, [locations])] of a rustc log"""
    res = []
    for blk in re.split(r"\n(?=(?:error|warning)[\[:])", out):
        m = re.match(r"error(?:\[(E\d+)\])?: (.*)", blk)
        if m and not m.group(2).startswith(("could not compile", "aborting")):
            res.append((m.group(1) or "", m.group(2), re.findall(r"--> (\S+?):\d+", blk) + re.findall(r"::: (\S+?):\d+", blk)))
    return res


def sources():
    """what the code under test consists of"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def forget(dirs):
    """builds made of other sources are not reused, whatever the times of the files are"""
    now = sources()
    for td in dirs:
        stamp = os.path.join(td, "sources")
        try:
            if open(stamp).read() == now:
                continue
        except OSError:
            pass
        for d in glob.glob(td + "/**/.fingerprint/compact-thrift-*", recursive=True, include_hidden=True):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(td, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def build(prop, variants):
    """builds all variants with as many features as compile; returns (features, skipped variants)"""
    forget([os.path.join(TARGET, v) for v in variants])
    with concurrent.futures.ThreadPoolExecutor(len(variants) + 2) as ex:
        futs = {v: ex.submit(build_one, v, FEATURES[0]) for v in variants}
        sch = {v: ex.submit(build_schema, v) for v in variants} if prop == "C19" else {}
        res = {v: f.result() for v, f in futs.items()}
        schema = {v: f.result() for v, f in sch.items()}
    for v, (ok, out, _) in schema.items():
        if not ok:
            log(out[-3000:])
            raise Inconclusive("the schema tool does not build")
    native = [v for v in variants if v in ("rel", "dbg")]
    skipped = {}
    if all(res[v][0] for v in native):
        for v in variants:
            if not res[v][0]:
                skipped[v] = res[v][1][-600:]
                log(f"variant {v} does not build:\n{res[v][1][-2500:]}")
        return FEATURES[0], skipped, {v: s[2] for v, s in schema.items()}
    first = res[native[0]][1]
    for feats in FEATURES[1:]:
        ok, out = build_one(native[0], feats)
        if ok:
            break
    else:
        log(first[-6000:])
        raise Inconclusive("the harness does not build against this tree")
    errs = errors_of(first)
    has_byte = not feats or "byte" in feats
    has_pq = not feats or "pq" in feats
    log(f"harness builds only with {feats}")
    if prop == "C03" and not has_byte:
        raise Violation("a structure with a field of the protocol's type `byte` does not compile: " + "; ".join(e[1] for e in errs[:2]), kind="build")
    if prop == "C18" and not has_pq:
        shape = {"E0609", "E0560", "E0026", "E0027", "E0063", "E0432", "E0433", "E0425", "E0599", "E0412", "E0004", "E0422", "E0574", "E0531"}
        own = [e for e in errs if e[0] in shape and any(l.endswith("src/pq.rs") for l in e[2])]
        if own:
            raise Violation("the Parquet structures lack what the published definition declares: " + "; ".join(e[1] for e in own[:4]), kind="build")
    if not has_pq and prop in ("C15", "C16", "C17", "C18", "C19"):
        log(first[-6000:])
        raise Inconclusive("the Parquet part of the harness does not build against this tree")
    for v in variants:
        if v != native[0]:
            ok, out = build_one(v, feats)
            if not ok:
                if v in native:
                    raise Inconclusive(f"variant {v} does not build")
                skipped[v] = out[-600:]
    return feats, skipped, {v: s[2] for v, s in schema.items()}


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=4096"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0"},
}
SAN_RE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|error: Undefined Behavior: [^\n]*|VMON-ABORT [^\n]*|memory allocation of \d+ bytes failed|fatal runtime error: [^\n]*|has overflowed its stack[^\n]*|error: (?:abnormal termination|the evaluated program)[^\n]*|error: deadlock[^\n]*|SUMMARY: [^\n]*)")


class Proc:
    """a worker process, its output files and its journal"""

    def __init__(self, run, variant, args, tag, out=True):
        self.variant, self.tag = variant, tag
        self.dir = os.path.join(run.tmp, tag)
        os.makedirs(self.dir, exist_ok=True)
        _, _, env, binary = plan(variant)
        e = base_env()
        e.update(SAN_ENV.get(variant, {}))
        e["VMON_TMP"] = self.dir
        e["VMON_DICT"] = run.dict
        if variant in run.schema:
            e["VMON_SCHEMA"] = run.schema[variant]
        if binary:
            cmd = [binary]
        else:
            cmd, e2 = cargo(variant, run.feats, ["--"])
            e.update({k: e2[k] for k in ("MIRIFLAGS", "CARGO_TARGET_DIR")})
        self.journal = os.path.join(self.dir, "journal")
        self.err = os.path.join(self.dir, "stderr")
        self.out = os.path.join(self.dir, "stdout")
        if out:
            args = args + ["--out", os.path.join(self.dir, "out.json"), "--hashes", os.path.join(self.dir, "hashes"),
                           "--journal", self.journal if binary else "stderr"]
            if run.prop == "C01":
                args += ["--outcomes", os.path.join(self.dir, "outcomes")]
        self.p = subprocess.Popen(cmd + args, env=e, cwd=HARNESS, stdin=subprocess.DEVNULL, stdout=open(self.out, "wb"), stderr=open(self.err, "wb"), start_new_session=True)
        self.start = time.time()
        self.mark = (None, 0.0)
        self.hung = False

    def position(self):
        if self.variant == "miri":
            m = re.findall(r"VMON-CASE (\d+) (\d+)", self.stderr()[-20000:])
            return (int(m[-1][0]), int(m[-1][1]), hash(self.stderr()) & 0xffff) if m else None
        try:
            with open(self.journal, "rb") as f:
                return struct.unpack("<QQQ", f.read(24))
        except (OSError, struct.error):
            return None

    def cpu(self):
        """CPU seconds of the process and its children"""
        try:
            with open(f"/proc/{self.p.pid}/stat") as f:
                s = f.read().rsplit(")", 1)[1].split()
            return sum(int(x) for x in s[11:15]) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def stuck(self, limit):
        """no new case while `limit` CPU seconds passed"""
        if self.variant == "miri":
            return False
        pos, cpu = self.position(), self.cpu()
        if pos != self.mark[0]:
            self.mark = (pos, cpu)
        return cpu - self.mark[1] > limit

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        try:
            with open(self.err, errors="replace") as f:
                return f.read()
        except OSError:
            return ""

    def result(self):
        try:
            with open(os.path.join(self.dir, "out.json")) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def death(self):
        """why the process did not end by itself, or None"""
        rc = self.p.returncode
        if rc == 0:
            return None
        m = SAN_RE.findall(self.stderr())
        what = m[0] if m else ""
        if rc < 0:
            try:
                name = signal.Signals(-rc).name
            except ValueError:
                name = str(-rc)
            what = (name + " " + what).strip()
        return what or f"exit status {rc}: {self.stderr()[-300:]}"


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix=f"vmon-{prop}-", dir="/tmp")
        self.feats, self.schema = [], {}
        self.dict = dictionary()
        self.stages = {}
        self.cov = {}
        self.counters = {}
        self.samples = []
        self.stage_counts = {}
        self.notes = []
        self.evals = self.trivial = 0
        self.distinct = 0

    # --- workers -----------------------------------------------------------------------------

    def common(self, variant):
        return ["--prop", self.prop, "--tier", self.tier, "--variant", variant, "--seed", str(self.seed)]

    def stage_name(self, variant, i):
        key = variant
        if key not in self.stages:
            src = variant if variant != "miri" else "rel"
            b = plan(src)[3]
            if not os.path.exists(b):
                b = plan("dbg")[3]
            o = subprocess.run([b, "stages"] + self.common(variant), capture_output=True, text=True, env=base_env()).stdout
            self.stages[key] = [l.rsplit(" ", 1)[0] for l in o.splitlines()]
        s = self.stages[key]
        return s[i] if i < len(s) else f"#{i}"

    def solo(self, variant, stage, case, tag, limit=150.0):
        """the one case again, alone: (verdict, message), verdict in violation/died/hung/held/error"""
        p = Proc(self, variant, ["replay"] + self.common(variant) + ["--stage", stage, "--case", str(case)], tag, out=False)
        wall = time.time() + 400
        while True:
            try:
                p.p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                if p.cpu() > limit or time.time() > wall:
                    hung = p.cpu() > limit and variant != "miri"
                    p.kill()
                    return ("hung", f"does not end within {limit:.0f} CPU seconds") if hung else ("error", "no verdict in time")
        with open(p.out, errors="replace") as f:
            out = f.read()
        m = re.search(r"^REPRODUCED stage=\S+ case=\d+: (.*)", out, re.M | re.S)
        if m:
            return "violation", m.group(1).strip()
        if "HARNESS-ERROR" in out:
            return "error", out[-500:]
        if p.p.returncode == 0:
            return "held", ""
        if p.p.returncode == -9:
            return "error", "killed (out of memory?)"
        if "unsupported operation" in p.stderr():
            return "error", "unsupported by miri"
        return "died", p.death()

    def judge(self, variant, shard, stage, case, msg, evidence):
        """decides whether something seen in a shard counts"""
        for i in range(3 if variant in ("tsan",) else 1):
            v, m = self.solo(variant, stage, case, f"solo-{variant}-{shard}-{i}")
            if v in ("violation", "died", "hung"):
                raise Violation(f"[{variant}] stage {stage} case {case}: {m}", kind="case", variant=variant, stage=stage, case=case, shard=shard)
        if v == "error" and not evidence:
            raise Inconclusive(f"[{variant}] stage {stage} case {case}: {msg}; alone: {m}")
        if evidence:
            # an oracle's or sanitizer's report is an observation of the real code, even if it takes
            # the history of this worker (or a schedule) to repeat it
            raise Violation(f"[{variant}] stage {stage} case {case}: {msg} (depends on the preceding cases of shard {shard} or on timing)", kind="shard", variant=variant, stage=stage, case=case, shard=shard)
        raise Inconclusive(f"[{variant}] stage {stage} case {case}: {msg}, not reproduced alone")

    def finished(self, p, shard):
        """examines an ended worker; raises or returns its result"""
        rc = p.p.returncode
        if rc != 0:
            err = p.stderr()
            if "unsupported operation" in err and p.variant == "miri":
                self.notes.append("miri: unsupported operation, shard skipped")
                return None
            why = p.death()
            if rc == -9:
                raise Inconclusive(f"[{p.variant}] worker {shard} was killed (out of memory?)")
            pos = p.position()
            if pos is None or "harness:" in err:
                log(err[-3000:])
                raise Inconclusive(f"[{p.variant}] worker {shard} did not start: {why}")
            san = bool(re.search(r"AddressSanitizer|ThreadSanitizer|Undefined Behavior|VMON-ABORT", err))
            log(err[-3000:])
            self.judge(p.variant, shard, self.stage_name(p.variant, pos[0]), pos[1], why, san)
        r = p.result()
        if r is None:
            raise Inconclusive(f"[{p.variant}] worker {shard} left no result")
        if r["violations"]:
            v = r["violations"][0]
            self.judge(p.variant, shard, v["stage"], v["case"], v["msg"], True)
        if r["harness_errors"]:
            raise Inconclusive("harness error: " + r["harness_errors"][0])
        return r

    def variant(self, variant, secs):
        t0 = time.time()
        ps = {}
        for k in range(NSHARDS):
            ps[k] = Proc(self, variant, ["run"] + self.common(variant) + ["--shard", str(k), "--nshards", str(NSHARDS), "--time", str(secs), "--max", "1"], f"{variant}-{k}")
        live, res = dict(ps), {}
        bad = []
        wall = t0 + secs + 240
        try:
            while live:
                time.sleep(0.05)
                for k, p in list(live.items()):
                    if p.p.poll() is not None:
                        del live[k]
                        r = p.result() if p.p.returncode == 0 else None
                        if r is None or r["violations"] or r["harness_errors"]:
                            bad.append(k)
                    elif time.time() - p.start > 20 and p.stuck(60):
                        p.hung = True
                        pos = p.position()
                        p.kill()
                        del live[k]
                        bad.append(k)
                        p.pos = pos
                if bad:
                    # let the others get to their next case, then look at what was found
                    time.sleep(0.3)
                    for k in [k for k, p in live.items() if p.p.poll() is not None]:
                        del live[k]
                    for p in live.values():
                        p.kill()
                    break
                if time.time() > wall:
                    stuck = {k: p.position() for k, p in live.items()}
                    for p in live.values():
                        p.kill()
                    if variant == "miri":
                        self.notes.append(f"miri: {len(live)} shards stopped at the time limit")
                        live = {}
                        break
                    raise Inconclusive(f"[{variant}] workers still running at the time limit, at {stuck}")
        except BaseException:
            for p in live.values():
                p.kill()
            raise
        errs = []
        for k in bad:
            p = ps[k]
            try:
                if p.hung:
                    st = self.stage_name(variant, p.pos[0])
                    v, m = self.solo(variant, st, p.pos[1], f"solo-{variant}-{k}")
                    if v in ("hung", "violation", "died"):
                        raise Violation(f"[{variant}] stage {st} case {p.pos[1]}: {m}", kind="case", variant=variant, stage=st, case=p.pos[1], shard=k)
                    raise Inconclusive(f"[{variant}] stage {st} case {p.pos[1]}: slow, but ends alone")
                self.finished(p, k)
            except Inconclusive as e:
                errs.append(e)
        if errs:
            raise errs[0]
        done = {}
        for k, p in ps.items():
            if p.p.returncode == 0 and k not in bad:
                done[k] = p.result()
        ev = sum(r["evals"] for r in done.values())
        self.cov[variant] = {
            "evaluations": ev,
            "shards_finished": len(done),
            "complete": len(done) == NSHARDS and all(r["complete"] for r in done.values()),
            "seconds": round(time.time() - t0, 1),
        }
        self.evals += ev
        self.trivial += sum(r["trivial"] for r in done.values())
        for r in done.values():
            for k, n in r["counters"].items():
                self.counters[k] = max(self.counters.get(k, 0), n) if k.startswith("max:") else self.counters.get(k, 0) + n
            for k, n in r["stages"].items():
                key = f"{variant}/{k}"
                self.stage_counts[key] = self.stage_counts.get(key, 0) + n
            if len(self.samples) < 12:
                for s in r["samples"]:
                    if len(self.samples) < 12 and s[:40] not in [x[:40] for x in self.samples]:
                        self.samples.append(s)
        return done

    # --- comparison between builds ---------------------------------------------------------------

    def compare(self, a, b):
        """the same cases must have had the same outcomes in both builds"""
        n = 0
        for k in range(NSHARDS):
            d = []
            for v in (a, b):
                try:
                    with open(os.path.join(self.tmp, f"{v}-{k}", "outcomes"), "rb") as f:
                        d.append(f.read())
                except OSError:
                    d.append(b"")
            m = min(len(x) for x in d) // 16 * 16
            if d[0][:m] != d[1][:m]:
                lo, hi = 0, m // 16
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if d[0][: mid * 16] == d[1][: mid * 16]:
                        lo = mid
                    else:
                        hi = mid
                st, _, case = struct.unpack("<IIQ", d[0][lo * 16:lo * 16 + 16])
                raise Violation(f"stage {self.stage_name(a, st)} case {case}: builds with and without overflow checks give different outcomes", kind="outcome", variants=[a, b], stage=self.stage_name(a, st), case=case, shard=k)
            n += m // 16
        self.counters["cases with equal outcome in both builds"] = n

    # --- probes for recorded findings --------------------------------------------------------------

    def child(self, variant, *args):
        b = plan(variant)[3]
        try:
            p = subprocess.run([b, "child"] + list(args), capture_output=True, text=True, errors="replace", env=base_env(), timeout=120, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return None, "", "timeout"
        return p.returncode, p.stdout, p.stderr

    def probes(self):
        """[(key, text)] of recorded findings that still show; raises on anything else"""
        res = []
        if self.prop == "C01":
            for depth in ("10", "500"):
                rc, out, err = self.child("rel", "node", depth)
                if rc is None:
                    raise Violation(f"decoding {depth} nested values of a self-referential type does not end", kind="probe", probe="node " + depth)
                if rc != 0 or out.strip() != "node: value":
                    raise Violation(f"decoding {depth} nested values of a self-referential type: {out.strip()} {err.strip()[-200:]} rc={rc}", kind="probe", probe="node " + depth)
            rc, out, err = self.child("rel", "node", "200000")
            if rc is None:
                raise Violation("decoding 200000 nested values of a self-referential type does not end", kind="probe", probe="node 200000")
            if rc != 0 and "overflow" in err:
                res.append(("node-200000-stack-overflow", "200000 nested values of a user-declared self-referential type (struct Node { 1: optional Box<Node> next }) overflow the 2 MiB stack"))
            elif rc != 0 or "panic" in out:
                raise Violation(f"decoding 200000 nested values of a self-referential type: {out.strip()} {err.strip()[-200:]} rc={rc}", kind="probe", probe="node 200000")
        if self.prop in ("C03", "C05"):
            rc, out, err = self.child("rel", "set")
            kv = dict(l.split(": ", 1) for l in out.splitlines() if ": " in l)
            if rc != 0 or set(kv) != {"written", "read9", "read10"}:
                raise Violation(f"set field: {out} {err[-200:]} rc={rc}", kind="probe", probe="set")
            if self.prop == "C03":
                if kv["written"] == "19150200":
                    res.append(("set-field-written-as-list", "a set<i32> field is written with wire type 9 (list) instead of 10 (set): bytes 19150200"))
                elif kv["written"] != "1a150200":
                    raise Violation(f"a set field holding 1 is written as {kv['written']}", kind="probe", probe="set")
            else:
                if kv["read10"] == "refused" and kv["read9"] == "ok":
                    res.append(("set-field-read-refused", "a set<i32> field sent with wire type 10 (set), bytes 1a150200, is refused"))
                elif kv["read10"] != "ok":
                    raise Violation(f"set field: {kv}", kind="probe", probe="set")
        return res

    def distinct_of(self):
        fs = sorted(glob.glob(self.tmp + "/*-[0-9]*/hashes"))
        b = next((plan(v)[3] for v in ("rel", "dbg") if os.path.exists(plan(v)[3])), None)
        if not fs or not b:
            return 0
        return int(subprocess.run([b, "merge"] + fs, capture_output=True, text=True).stdout or 0)


def known(prop):
    res = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def write_evidence(run, t0, violations, extra=None):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "evaluations": run.evals,
        "distinct_nontrivial": run.distinct,
        "rule": RULE[run.prop],
        "samples": run.samples or ["none: stopped before a case completed"],
        "trivial": run.trivial,
        "variants": run.cov,
        "cases_per_stage": run.stage_counts,
        "observed": run.counters,
        "notes": run.notes,
    }
    cov.update(extra or {})
    with open(os.path.join(EVID, run.prop + ".json"), "w") as f:
        json.dump({"property": run.prop, "tier": run.tier, "seed": run.seed, "level": LEVEL[run.prop], "coverage": cov,
                   "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)


def replay_path(run, v):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{run.prop}-{run.tier}-{run.seed}.json")
    with open(p, "w") as f:
        json.dump({"property": run.prop, "tier": run.tier, "seed": run.seed, "message": v.msg, "dict": run.dict, **v.info}, f, indent=1)
    return p


def check(prop, tier, seed):
    t0 = time.time()
    run = Run(prop, tier, seed)
    floor = 300 if prop == "C19" else 5000
    try:
        vs = variants_of(prop, tier)
        if prop == "C23":
            declarations(run)
        run.feats, skipped, run.schema = build(prop, [v for v, _ in vs])
        log(f"{prop}: built in {time.time() - t0:.0f} s")
        for v, why in skipped.items():
            run.notes.append(f"variant {v} skipped: does not build here: {why}")
        for v, secs in vs:
            if v in skipped:
                continue
            run.variant(v, secs)
            log(f"{prop}: {v} {run.cov[v]}")
        if prop == "C01":
            run.compare("dbg", "rel")
        listed, shown = known(prop), []
        for key, text in run.probes():
            if key not in listed:
                raise Violation(text, kind="probe", key=key)
            shown.append(key)
            print(f"KNOWN-FINDING: property={prop} {text}")
        run.distinct = run.distinct_of()
        if run.evals < floor or run.distinct < floor // 4:
            raise Inconclusive(f"only {run.evals} evaluations, {run.distinct} distinct")
        write_evidence(run, t0, 0, {"known_findings": shown})
        print(f"{prop}: held on {run.evals} evaluations, {run.distinct} distinct, {time.time() - t0:.0f} s")
        return 0
    except Violation as v:
        run.distinct = run.distinct_of()
        p = replay_path(run, v)
        write_evidence(run, t0, 1, {"violation": v.msg[:3000]})
        print(f"{prop}: {v.msg[:3000]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    except Inconclusive as e:
        run.notes.append(f"inconclusive: {e}")
        write_evidence(run, t0, 0)
        print(f"{prop}: INCONCLUSIVE {e}")
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    run = Run(prop, d["tier"], d["seed"])
    run.dict = d.get("dict", run.dict)
    try:
        if prop == "C23":
            declarations(run)
        vs = [d["variant"]] if "variant" in d else d.get("variants", ["rel", "dbg"])
        need = sorted(set(vs + (["rel"] if vs[0] in ("miri", "asan", "tsan") else [])))
        run.feats, _, run.schema = build(prop, need)
        if d.get("kind") == "case":
            v, m = run.solo(d["variant"], d["stage"], d["case"], "solo")
            print(f"{v}: {m}")
            if v in ("violation", "died", "hung"):
                raise Violation(m)
        elif d.get("kind") == "probe":
            run.probes()
        else:
            for v in vs:
                run.variant(v, 300)
            if d.get("kind") == "outcome":
                run.compare(*vs)
        print("not reproduced")
        return 0
    except Violation as v:
        print(v.msg)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except Inconclusive as e:
        print(f"INCONCLUSIVE {e}")
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def setup():
    """the toolchains work and the harness compiles in every variant"""
    try:
        _, skipped, _ = build("C19", ["rel", "dbg"])
        forget([os.path.join(TARGET, v) for v in ("asan", "tsan", "miri")])
        for v in ("asan", "tsan", "miri"):
            ok, out = build_one(v, [])
            print(f"{v}: {'ok' if ok else 'does not build'}")
            if not ok:
                print(out[-2000:])
        return 0
    except (Inconclusive, Violation) as e:
        print(f"setup: {e}")
        return 1


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", choices=["quick", "thorough"], default=None)
    a.add_argument("--replay")
    o = a.parse_args()
    if o.prop == "setup":
        sys.exit(setup())
    if o.prop == "literals":
        n, s, _ = literals()
        print(json.dumps({"nums": n, "strs": s}))
        sys.exit(0)
    if o.replay:
        sys.exit(replay(o.prop, os.path.abspath(o.replay)))
    tier = o.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & (2**63 - 1)
    except ValueError:
        seed = 1
    sys.exit(check(o.prop, tier, seed))


if __name__ == "__main__":
    main()
