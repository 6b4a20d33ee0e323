#!/usr/bin/env python3
"""Drives the checks: builds the harness against /repo's working tree, runs the workloads under the monitors,
turns crashes and hangs into replayable cases, writes the evidence.

  run.py C05             the check (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py --setup         build everything once
  run.py --replay FILE   run a recorded violation again
"""
import fcntl, glob, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
THREADS = max(1, min(16, os.cpu_count() or 1))
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()


class Broken(Exception):
    """The check could not be carried out: not a verdict."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------- building

def tree_files(d, skip):
    out = []
    for base, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        out += [os.path.join(base, f) for f in sorted(files)]
    return out


def content_hash():
    h = hashlib.sha256()
    for d, skip in ((REPO, {".git", "target", "tests", "encoding_tables"}), (os.path.join(ROOT, "harness"), {"target"}),
                    (os.path.join(ROOT, "reference"), set())):
        for f in tree_files(d, skip):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:16]


FLAVOURS = {
    # name: (toolchain args, cargo args, RUSTFLAGS, subdirectory)
    "chk": ([], ["--profile", "chk"], "", "chk"),
    "rel": ([], ["--release"], "", "release"),
    "dev": ([], [], "", "debug"),
    "nat": ([], ["--profile", "nat"], "-Ctarget-cpu=native", "nat"),
    "fuzz": ([], ["--profile", "chk"], "", "chk"),
    "asan": (["+nightly"], ["--profile", "chk", "--target", HOST], "-Zsanitizer=address -Cforce-frame-pointers=yes", HOST + "/chk"),
    "tsan": (["+nightly"], ["--release", "--target", HOST, "-Zbuild-std"], "-Zsanitizer=thread", HOST + "/release"),
    "msan": (["+nightly"], ["--release", "--target", HOST, "-Zbuild-std"], "-Zsanitizer=memory -Zsanitizer-memory-track-origins", HOST + "/release"),
}


def fuzz_runtime():
    """libFuzzer, without a main function."""
    return next(iter(sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"))[-1:]), None)


def target_dir(flavour, key=None):
    key = key or content_hash()
    os.makedirs(BUILD, exist_ok=True)
    # One tree's builds at a time: keyed by content, so that no build of another tree can be taken for this one's.
    for old in os.listdir(BUILD):
        if old.startswith("t-") and old != "t-" + key:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    return os.path.join(BUILD, "t-" + key, flavour)


def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "MIRIFLAGS")) or k in ("CARGO_HOME",)}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def build(flavour, harness=None, tdir=None):
    tool, args, flags, sub = FLAVOURS[flavour]
    tdir = tdir or target_dir(flavour)
    env = clean_env(CARGO_TARGET_DIR=tdir)
    if flags:
        env["RUSTFLAGS"] = flags
    if flavour == "fuzz":
        env["RUSTFLAGS"] = f"--cfg fuzz_driver -Clink-arg={fuzz_runtime()} -Clink-arg=-lstdc++"
        env["RUSTC_WRAPPER"] = os.path.join(ROOT, "harness", "fuzz_rustc.sh")
    cmd = ["cargo"] + tool + ["build", "--offline", "-q"] + args
    r = subprocess.run(cmd, cwd=harness or os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(tdir, sub, "mon")
    if r.returncode or not os.path.exists(exe):
        raise Broken(f"build {flavour} failed:\n{r.stdout[-4000:]}")
    return exe


# ----------------------------------------------------------------------------------------------- dictionary

def strip_tests(s):
    """The part of a source file that is not test code."""
    i = s.find("#[cfg(test)]")
    return s if i < 0 else s[:i]


def make_dict(path):
    """Numbers, characters and strings in the library's source: they only aim the workload."""
    nums, strs = set(), set()
    for f in tree_files(os.path.join(REPO, "src"), set()):
        if not f.endswith(".rs"):
            continue
        s = strip_tests(open(f, encoding="utf-8", errors="replace").read())
        s = re.sub(r"//[^\n]*", "", s)
        num = r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\b[0-9][0-9_]*"
        def val(t):
            t = t.replace("_", "")
            try:
                return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
            except ValueError:
                return None
        for m in re.finditer(num, re.sub(r"((?:0x[0-9a-fA-F_]+)|(?:\b[0-9][0-9_]*))(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)\b", r"\1", s)):
            v = val(m.group(0))
            if v is not None and v < 1 << 64:
                nums.add(v)
        for m in re.finditer(rf"({num})\s*(<<|\*|\+|-)\s*({num})", s):
            a, b = val(m.group(1)), val(m.group(3))
            if a is not None and b is not None:
                v = {"<<": lambda: a << b if b < 64 else 0, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: max(0, a - b)}[m.group(2)]()
                if v < 1 << 64:
                    nums.add(v)
        for m in re.finditer(r"'((?:\\u\{[0-9a-fA-F_]+\})|(?:\\x[0-9a-fA-F]{2})|(?:\\[nrt0\\'\"])|[^\\'\n])'", s):
            t = m.group(1)
            try:
                if t.startswith("\\u"):
                    nums.add(int(t[3:-1].replace("_", ""), 16))
                elif t.startswith("\\x"):
                    nums.add(int(t[2:], 16))
                elif t.startswith("\\"):
                    nums.add({"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}[t[1]])
                else:
                    nums.add(ord(t))
            except (ValueError, KeyError):
                pass
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', s):
            t = m.group(1)
            b = bytearray()
            i = 0
            while i < len(t):
                if t[i] == "\\" and i + 1 < len(t):
                    u = re.match(r"\\u\{([0-9a-fA-F_]+)\}", t[i:])
                    x = re.match(r"\\x([0-9a-fA-F]{2})", t[i:])
                    if u:
                        try:
                            b += chr(int(u.group(1).replace("_", ""), 16)).encode("utf-8", "replace")
                        except (ValueError, OverflowError):
                            pass
                        i += len(u.group(0))
                    elif x:
                        b.append(int(x.group(1), 16))
                        i += 4
                    else:
                        b += {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(t[i + 1], t[i + 1].encode())
                        i += 2
                else:
                    b += t[i].encode()
                    i += 1
            if 0 < len(b) <= 64:
                strs.add(bytes(b))
    with open(path, "w") as o:
        for v in sorted(nums):
            o.write(f"n {v}\n")
        for b in sorted(strs)[:300]:
            o.write(f"s {b.hex()}\n")
    return len(nums), len(strs)


# -------------------------------------------------------------------------------------------------- running

def limits(cpu=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
    return f


def read_journal(path):
    try:
        d = open(path, "rb").read(4096)
    except OSError:
        return []
    return [struct.unpack_from("<QQ", d, 64 * k) for k in range(min(THREADS, len(d) // 64))]


class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.prop = int(pid[1:])
        self.tmp = tempfile.mkdtemp(prefix=f"mon-{pid}-")
        self.stats = []
        self.notes = []
        self.dict = os.path.join(self.tmp, "dict")
        self.ndict = make_dict(self.dict)
        self.known_lines = set()

    def violation(self, replay, text):
        raise Violation(self.id, replay, text)


class Violation(Exception):
    def __init__(self, pid, replay, text):
        self.pid, self.replay, self.text = pid, replay, text


def save_replay(pid, body):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{pid}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.case")
    with open(p, "w") as f:
        f.write(body)
    return p


SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_atomic_races=1"},
    "msan": {"MSAN_OPTIONS": "exitcode=67"},
}


def mon(ctx, exe, flavour, seed, part=100, sample=1, exact=False, max_secs=None, patience=None):
    """One run of the per-case monitors in one build."""
    prop = ctx.prop
    max_secs = max_secs or (1500 if THOROUGH else 150)
    patience = patience or (180 if THOROUGH else 30)
    j, out, save = (os.path.join(ctx.tmp, f"{x}-{flavour}") for x in ("journal", "stats", "case"))
    base = [exe, "run", "--prop", str(prop), "--seed", str(seed), "--tier", TIER, "--part", str(part), "--sample", str(sample),
            "--dict", ctx.dict, "--known", KNOWN] + (["--exact"] if exact else [])
    cmd = base + ["--threads", str(THREADS), "--max-secs", str(max_secs), "--journal", j, "--out", out, "--save", save]
    env = clean_env(**SAN_ENV.get(flavour, {}))
    errf = os.path.join(ctx.tmp, f"err-{flavour}")
    for attempt in (0, 1):
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=subprocess.STDOUT, preexec_fn=limits())
        last, since, hung = None, {}, False
        while True:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            cur = read_journal(j)
            for k, v in enumerate(cur):
                if last is None or k >= len(last) or v != last[k] or v[0] == 2**64 - 1 or v[1] == 0:
                    since[k] = now
                elif now - since.get(k, now) > patience:
                    hung = True
            last = cur
            if hung:
                p.kill()
                p.wait()
                break
        rc = p.returncode
        err = open(errf, "rb").read()[-6000:].decode("utf-8", "replace")
        if rc == 0 and not hung:
            break
        if rc == 1 and os.path.exists(save):
            body = open(save).read()
            ctx.violation(save_replay(ctx.id, f"flavour={flavour}\nexact={int(exact)}\n" + body), f"[{flavour} build] {err}")
        # Crash or hang: find the calls that were under way and make each on its own.
        if rc == -signal.SIGKILL and not hung:
            raise Broken(f"{flavour} run was killed (memory?)")
        if rc in (101, 2) and not hung:
            raise Broken(f"{flavour} harness failed (rc {rc}):\n{err}")
        ctx.notes.append(f"{flavour}: {'no progress' if hung else f'ended with {rc}'}; looking for the call")
        seen = set()
        for item, count in read_journal(j):
            if item == 2**64 - 1 or count == 0 or (item, count) in seen:
                continue
            seen.add((item, count))
            case = os.path.join(ctx.tmp, "suspect")
            f = subprocess.run(base + ["--item", str(item), "--count", str(count), "--save", case], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if f.returncode:
                continue
            body = f"flavour={flavour}\nexact={int(exact)}\n" + open(case).read()
            got = one_case(exe, case, exact, env)
            if got:
                ctx.violation(save_replay(ctx.id, body), f"[{flavour} build] {got}\n{body}{err[-2500:]}")
        if attempt == 1:
            if hung:
                raise Broken(f"{flavour} run makes no progress, but no single call shows it")
            # It ends abnormally every time, but only after other calls.
            body = f"flavour={flavour}\nproperty={ctx.id}\ncommand={' '.join(cmd[1:])}\n"
            ctx.violation(save_replay(ctx.id, body), f"[{flavour} build] the workload ends with {rc} every time:\n{err}")
    st = json.load(open(out))
    st["build"] = flavour
    st["exact_allocations"] = exact
    ctx.stats.append(st)
    ctx.known_lines.update(st.get("known_still", []))
    return st


def one_case(exe, case, exact, env):
    """Replays one case alone. None if it is fine, else what happened."""
    r = subprocess.run([exe, "replay", case] + (["--exact"] if exact else []) + ["--known", KNOWN], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits(cpu=20))
    if r.returncode == 0:
        return None
    if r.returncode == 1:
        return r.stdout[-3000:]
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        return "the call does not return (20 s of CPU time)"
    if r.returncode == 101:
        return None
    return f"the process ends with {r.returncode}:\n{r.stdout[-3000:]}"


def afl_word(b):
    return "".join(f"\\x{x:02x}" for x in b)


def fuzz(ctx, secs):
    """The same monitor, on cases that coverage of the library leads to."""
    if not fuzz_runtime():
        ctx.notes.append("no libFuzzer here: no coverage-guided cases")
        return
    secs = 10 * secs if THOROUGH else secs
    exe, chk = build("fuzz"), build("chk")
    env = clean_env()
    # The numbers and strings of the source, as the fuzzer wants them.
    words = set()
    for l in open(ctx.dict):
        k, v = l.split()
        if k == "s":
            words.add(bytes.fromhex(v)[:60])
            continue
        v = int(v)
        if v < 1 << 16:
            words |= {v.to_bytes(2, "big"), v.to_bytes(2, "little")}
        if v < 0x110000 and not 0xD800 <= v < 0xE000:
            words |= {chr(v).encode(), v.to_bytes(4, "big"), v.to_bytes(4, "little")}
    wordf = os.path.join(ctx.tmp, "words")
    with open(wordf, "w") as f:
        f.writelines(f'"{afl_word(w)}"\n' for w in sorted(words) if w)
    ps = []
    for k in range(THREADS):
        d = os.path.join(ctx.tmp, f"fuzz-{k}")
        os.mkdir(d)
        common = ["--prop", str(ctx.prop), "--seed", str(SEED), "--slot", str(k), "--slots", str(THREADS), "--dict", ctx.dict, "--known", KNOWN, "--save", d + "/case"]
        cmd = [exe, "fuzz"] + common + ["--secs", str(secs), "--words", wordf, "--corpus", d + "/corpus", "--artifact", d + "/at-", "--out", d + "/out"]
        ps.append((subprocess.Popen(cmd, env=env, stdout=open(d + "/log", "wb"), stderr=subprocess.STDOUT, preexec_fn=limits(), cwd=d), d, common))
    st = {"build": "fuzz", "run": "coverage-guided", "processes": len(ps), "evaluations": 0, "calls": 0, "nontrivial": 0, "distinct_nontrivial": 0, "longest_input": 0,
          "outcomes": {}, "coverage_points": [], "features": 0, "corpus": 0, "samples": []}
    try:
        for p, d, common in ps:
            try:
                p.wait(timeout=secs * 2 + 200)
            except subprocess.TimeoutExpired:
                ctx.notes.append("a fuzzing process did not end in time")
                p.kill()
                p.wait()
                continue
            text = open(d + "/log", "rb").read()[-200000:].decode("utf-8", "replace")
            if p.returncode == 1 and os.path.exists(d + "/case"):
                body = open(d + "/case").read()
                got = one_case(chk, d + "/case", False, env)
                ctx.violation(save_replay(ctx.id, f"flavour={'chk' if got else 'fuzz'}\nexact=0\n" + body), "[coverage-guided] " + text[text.find("violation of"):][:3000])
            if p.returncode:
                for art in sorted(glob.glob(d + "/at-*")):
                    if subprocess.run([exe, "fuzz-case", art] + common, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                        continue
                    for fl, e in (("chk", chk), ("fuzz", exe)):
                        got = one_case(e, d + "/case", False, env)
                        if got:
                            body = f"flavour={fl}\nexact=0\n" + open(d + "/case").read()
                            ctx.violation(save_replay(ctx.id, body), f"[coverage-guided, {fl} build] {got}\n{body}")
                ctx.notes.append(f"a fuzzing process ended with {p.returncode}, and no single call shows why: {text[-1500:]}")
                continue
            s = json.load(open(d + "/out"))
            for k in ("evaluations", "calls", "nontrivial", "distinct_nontrivial"):
                st[k] += s[k]
            st["longest_input"] = max(st["longest_input"], s["longest_input"])
            st["samples"] += s["samples"][:1]
            for k, v in s["outcomes"].items():
                st["outcomes"][k] = st["outcomes"].get(k, 0) + v
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
            if m:
                st["coverage_points"].append(int(m[-1][0]))
                st["features"] += int(m[-1][1])
                st["corpus"] += int(m[-1][2])
    finally:
        for p, d, _ in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
            shutil.rmtree(d, ignore_errors=True)
    if not st["evaluations"]:
        raise Broken("no fuzzing process ran to its end: " + " ".join(ctx.notes))
    ctx.stats.append(st)


def special(ctx, exe, flavour, name, *args, timeout=None, cpu=None):
    out = os.path.join(ctx.tmp, f"{name}-{flavour}-{len(ctx.stats)}")
    cmd = [exe, name, "--seed", str(SEED), "--dict", ctx.dict, "--known", KNOWN, "--out", out] + [str(a) for a in args]
    env = clean_env(**SAN_ENV.get(flavour, {}))
    for attempt in (0, 1):
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=timeout or (3000 if THOROUGH else 400), preexec_fn=limits())
        except subprocess.TimeoutExpired:
            raise Broken(f"{name} in the {flavour} build does not finish")
        if r.returncode == 0:
            st = json.load(open(out))
            st["build"], st["run"] = flavour, name
            ctx.stats.append(st)
            return st
        if r.returncode == -signal.SIGKILL or r.returncode in (2, 101):
            raise Broken(f"{name} in the {flavour} build: rc {r.returncode}\n{r.stdout[-3000:]}")
        if r.returncode in (1, 66) or attempt == 1:
            body = f"flavour={flavour}\nproperty={ctx.id}\ncommand={name} --seed {SEED} --dict @DICT --known @KNOWN {' '.join(str(a) for a in args)}\n"
            body += "".join(f"# {l}\n" for l in r.stdout[-6000:].splitlines())
            ctx.violation(save_replay(ctx.id, body), f"[{flavour} build, exit {r.returncode}] {r.stdout[-4000:]}")


# --------------------------------------------------------------------------------------------------- checks

def check_cases(ctx):
    """The properties of single calls and of streams."""
    both = ctx.prop in (1, 2)
    mon(ctx, build("chk"), "chk", SEED, sample=3 if ctx.prop == 20 and not THOROUGH else 1)
    mon(ctx, build("rel"), "rel", SEED + 1000, part=100 if THOROUGH else 60, sample=1 if both or THOROUGH else 3)
    fuzz(ctx, 20)
    if ctx.prop in (1, 10, 11, 12, 13, 14):
        flavour = "chk" if ctx.prop == 1 else "rel"
        special(ctx, build(flavour), flavour, "huge", "--prop", ctx.prop, "--threads", THREADS, *(["--all", 1, "--max-secs", 240] if THOROUGH else ["--max-secs", 100]), timeout=3000 if THOROUGH else 400)


def check_memory(ctx):
    miri = start_miri(ctx)
    try:
        check_cases(ctx)
        mon(ctx, build("asan"), "asan", SEED + 2000, sample=4 if THOROUGH else 14, exact=True, part=50)
        if THOROUGH:
            mon(ctx, build("msan"), "msan", SEED + 3000, sample=12, exact=True, part=50)
        finish_miri(ctx, miri)
    finally:
        for p, _ in miri:
            if p.poll() is None:
                p.kill()
                p.wait()


def miri_cmd(args, flags):
    env = clean_env(MIRIFLAGS="-Zmiri-disable-isolation " + flags, CARGO_TARGET_DIR=target_dir("miri"))
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--"] + args, env


def start_miri(ctx, parts=8):
    """The undefined-behaviour interpreter, on a small workload, next to the other runs."""
    ps = []
    cmd, env = miri_cmd(["tiny", "--seed", str(SEED), "--parts", "100000", "--part", "99999"], "")
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("Miri does not run:\n" + r.stdout[-3000:])
    for k in range(parts):
        args = ["tiny", "--seed", str(SEED + k), "--parts", str(parts), "--part", str(k), "--n", "150" if THOROUGH else "6"]
        cmd, env = miri_cmd(args, "-Zmiri-tree-borrows" if k % 2 else "-Zmiri-symbolic-alignment-check")
        o = open(os.path.join(ctx.tmp, f"miri-{k}"), "w+")
        ps.append((subprocess.Popen(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=o, stderr=subprocess.STDOUT), (o, args)))
    return ps


def finish_miri(ctx, ps):
    tot = {"build": "miri", "run": "tiny", "calls": 0, "all_consumed": 0, "stopped_early": 0, "errors": 0, "processes": len(ps)}
    for p, (o, args) in ps:
        try:
            p.wait(timeout=3000 if THOROUGH else 500)
        except subprocess.TimeoutExpired:
            raise Broken("Miri does not finish")
        o.seek(0)
        text = o.read()
        if p.returncode:
            if "Undefined Behavior" in text or "panicked" in text or "data race" in text.lower():
                body = f"flavour=miri\nproperty={ctx.id}\ncommand={' '.join(args)}\n" + "".join(f"# {l}\n" for l in text[-6000:].splitlines())
                ctx.violation(save_replay(ctx.id, body), f"[Miri] {text[-4000:]}")
            raise Broken(f"Miri: rc {p.returncode}\n{text[-3000:]}")
        m = re.search(r"tiny: (\{.*\})", text)
        if not m:
            raise Broken("Miri: no summary\n" + text[-2000:])
        for k, v in json.loads(m.group(1)).items():
            tot[k] += v
    ctx.stats.append(tot)


def check_work(ctx):
    rel = build("rel")
    for k in range(12 if THOROUGH else 1):
        special(ctx, rel, "rel", "work", "--seed", SEED + k, "--threads", THREADS, *(["--deep", 1, "--size", [32768, 8192, 131072][k % 3]] if THOROUGH else []))


P32_FLAGS = "-Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static -Crelocation-model=static -Clink-self-contained=no"
NOT_RUN = "cannot be run here"


def build_p32(profile):
    """The workload as a program for 32-bit x86. The path of the program, or a string that says why it does not build."""
    t = "i686-unknown-linux-gnu"
    tdir = target_dir("p32")
    cmd = ["cargo", "+nightly", "build", "--offline", "-q", "--profile", profile, "--target", t, "-Zbuild-std=core,alloc,compiler_builtins", "-Zbuild-std-features=compiler-builtins-mem"]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness", "p32"), env=clean_env(CARGO_TARGET_DIR=tdir, RUSTFLAGS=P32_FLAGS), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if re.search(r"^error[^\n]*\n(?:[^\n]*\n)?\s*--> " + REPO + "/src/", r.stdout, re.M):
            return "", r.stdout[-4000:]
        raise Broken(f"build for {t} failed:\n{r.stdout[-4000:]}")
    return os.path.join(tdir, t, profile, "p32"), ""


def build_wasm(profile):
    """The workload as a WebAssembly module, as build_p32."""
    t, tdir, here = "wasm32-unknown-unknown", target_dir("wasm"), os.path.join(ROOT, "harness", "pwasm")
    cmd = ["cargo", "+nightly", "build", "--offline", "-q", "--profile", profile, "--target", t, "-Zbuild-std=core,alloc,compiler_builtins", "--config", f"patch.crates-io.dlmalloc.path='{here}/none'"]
    r = subprocess.run(cmd, cwd=here, env=clean_env(CARGO_TARGET_DIR=tdir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if re.search(r"^error[^\n]*\n(?:[^\n]*\n)?\s*--> " + REPO + "/src/", r.stdout, re.M):
            return "", r.stdout[-4000:]
        raise Broken(f"build for {t} failed:\n{r.stdout[-4000:]}")
    return os.path.join(tdir, t, profile, "pwasm.wasm"), ""


class Machine:
    """Something that runs the workload of plat.rs."""
    def __init__(self, name, kind, exe=None, target=None):
        self.name, self.kind, self.exe, self.target = name, kind, exe, target

    def cmd(self, level, part, parts, seed, only=None):
        env, cwd = clean_env(), None
        if self.kind in ("p32", "wasm"):
            return ([self.exe] if self.kind == "p32" else ["node", os.path.join(ROOT, "harness", "pwasm", "host.js"), self.exe]) + [str(x) for x in (level, part, parts, seed)] + ([only[0], only[1], only[2]] if only else []), env, cwd
        args = ["plat", "--level", level, "--part", part, "--parts", parts, "--seed", seed] + (["--only", ":".join(only)] if only else [])
        args = [str(a) for a in args]
        if self.kind == "miri":
            env = clean_env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check", CARGO_TARGET_DIR=target_dir("miri-" + self.target))
            return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", self.target, "--"] + args[1:], env, os.path.join(ROOT, "harness", "pstd")
        return [self.exe] + args, env, cwd

    def start(self, tmp, *a, **k):
        cmd, env, cwd = self.cmd(*a, **k)
        o = tempfile.TemporaryFile("w+", dir=tmp)
        return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=o, stderr=subprocess.STDOUT, preexec_fn=limits()), o

    def go(self, ctx, jobs, timeout, width=THREADS):
        """Runs (level, part, parts, seed[, only]) jobs, several at a time: [(job, return code or None, output)]."""
        todo, busy, done, end = list(jobs), [], [], time.time() + timeout
        try:
            while todo or busy:
                while todo and len(busy) < width:
                    j = todo.pop(0)
                    busy.append((j,) + self.start(ctx.tmp, *j))
                for b in list(busy):
                    j, p, o = b
                    late = time.time() > end
                    if late and p.poll() is None:
                        p.kill()
                        p.wait()
                    if p.poll() is not None:
                        o.seek(0)
                        done.append((j, None if late and p.returncode == -signal.SIGKILL else p.returncode, o.read()))
                        o.close()
                        busy.remove(b)
                if time.time() > end:
                    todo = []
                time.sleep(0.02)
        finally:
            for _, p, _ in busy:
                p.kill()
                p.wait()
        return done


def groups_of(out):
    g = {}
    for l in out.splitlines():
        w = l.split()
        if w[:1] == ["G"] and len(w) == 10:
            g[(w[1], w[2], w[3])] = tuple(w[4:])
    return g


def details(out):
    return [l for l in out.splitlines() if l.startswith("D ")]


def compare(ctx, m, ref, jobs, timeout, here, width=THREADS, detail_time=200):
    """Runs the jobs on a machine and compares every group with what this machine gives."""
    st = {"build": m.name, "run": "plat", "groups": 0, "calls": 0, "consumed": 0, "stopped": 0, "errors": 0, "jobs": len(jobs), "unfinished_jobs": 0, "distinct_results": 0}
    seen = set()
    for job, rc, out in m.go(ctx, jobs, timeout, width):
        want = here(job)
        got = groups_of(out)
        bad = [k for k in want if k in got and got[k] != want[k]]
        if rc is None:
            st["unfinished_jobs"] += 1
        elif rc == 0 and not re.search(r"^E ", out, re.M):
            raise Broken(f"{m.name}: no end in the output\n{out[-2000:]}")
        elif rc and not bad:
            late = [k for k in want if k not in got]
            crash = rc < 0 or "Undefined Behavior" in out or re.search(r"^[PX] ", out, re.M)
            if not late or not crash or rc == -signal.SIGKILL:
                raise Broken(f"{m.name}: rc {rc}\n{out[-3000:]}")
            bad = [late[0]]
        for k in got:
            st["groups"] += 1
            n = [int(x) for x in got[k][:1] + got[k][2:]]
            st["calls"] += n[0]
            st["consumed"] += n[1]
            st["stopped"] += n[2]
            st["errors"] += n[3]
            seen.add((k, got[k]))
        if not bad:
            continue
        k = bad[0]
        text = f"{m.name}: {k[0]} {'encoding' if k[1] == '1' else 'decoding'}, group {k[2]} of level {job[0]}, seed {job[3]}: "
        text += f"{got[k]} there, {want[k]} here\n" if k in got else f"ends with {rc} there:\n{out[-2500:]}\n"
        if int(job[0]) < 3:
            j = (job[0], 0, 1, job[3], k)
            a, b = ref.go(ctx, [j], detail_time)[0][2], m.go(ctx, [j], detail_time)[0][2]
            x, y = details(a), details(b)
            d = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            if d < len(x):
                if k not in got and x[d].endswith(" Panic"):
                    ctx.notes.append(f"{m.name}: {k} ends in a panic there and here")
                    continue
                text += f"call {d + 1}, here:  {x[d]}\n" + (f"there: {y[d]}\n" if d < len(y) else "there: the program ends\n")
        body = f"flavour=plat\nproperty={ctx.id}\ncommand=run.py {ctx.id}\n" + "".join(f"# {l}\n" for l in text.splitlines())
        ctx.violation(save_replay(ctx.id, body), text)
    st["distinct_results"] = len(seen)
    ctx.stats.append(st)


def check_platform(ctx):
    """The same calls where pointers are 32 bits wide, where the byte order is the other one, and in other builds."""
    import threading
    miri_targets = ["s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "aarch64-apple-darwin", "x86_64-pc-windows-gnu"] + (["mips-unknown-linux-gnu", "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu"] if THOROUGH else [])
    side, failed = {}, []

    def prepare():
        try:
            for t in miri_targets:
                r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t], cwd=os.path.join(ROOT, "harness", "pstd"), env=clean_env(CARGO_TARGET_DIR=target_dir("miri-" + t)),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise Broken(f"no interpreter for {t}:\n{r.stdout[-2000:]}")
        except Exception as e:
            failed.append(e)

    def prepare32():
        try:
            for f in ("release", "chk"):
                side[f] = build_p32(f)
            for f in ("release", "chk"):
                side["wasm " + f] = build_wasm(f)
        except Exception as e:
            failed.append(e)

    exe = build("rel")
    ts = [threading.Thread(target=x) for x in (prepare, prepare32)]
    for t in ts:
        t.start()
    ref = Machine("x86-64, release", "mon", exe)
    cache = {}

    def here(job):
        if job not in cache:
            r = ref.go(ctx, [job], 600)[0]
            if r[1] != 0:
                raise Broken(f"plat: rc {r[1]}\n{r[2][-2000:]}")
            cache[job] = groups_of(r[2])
        return cache[job]

    seeds = range(SEED, SEED + (6 if THOROUGH else 1))
    levels = (1, 2) if THOROUGH else (1,)
    try:
        jobs = [(l, p, 16, s) for s in seeds for l in levels for p in range(16)]
        for f, name in (("chk", "x86-64, with run-time checks"), ("dev", "x86-64, unoptimised"), ("nat", "x86-64, for this processor, for size, with link-time optimisation")):
            compare(ctx, Machine(name, "mon", build(f)), ref, jobs, 3000 if THOROUGH else 200, here)
    finally:
        for t in ts:
            t.join()
    if failed:
        raise failed[0]
    for f, name in (("release", "i686, release"), ("chk", "i686, with run-time checks"), ("wasm release", "WebAssembly, release"), ("wasm chk", "WebAssembly, with run-time checks")):
        exe32, why = side[f]
        kind = "wasm" if f.startswith("wasm") else "p32"
        if not exe32:
            body = f"flavour=plat\nproperty={ctx.id}\ncommand=run.py {ctx.id}\n" + "".join(f"# {l}\n" for l in why.splitlines())
            ctx.violation(save_replay(ctx.id, body), f"the library does not build for {name}:\n{why}")
        m = Machine(name, kind, exe32)
        try:
            subprocess.run(m.cmd(0, 1000, 1001, 1)[0], stdout=subprocess.DEVNULL, check=True, timeout=60)
        except (OSError, subprocess.SubprocessError) as e:
            ctx.notes.append(f"{name}: {NOT_RUN} ({e})")
            continue
        compare(ctx, m, ref, jobs, 3000 if THOROUGH else 200, here)
        # (every job of these has 1.8 GB)
        compare(ctx, Machine(name + ", inputs and buffers of gigabytes", kind, exe32), ref, [(3, 0, 1, SEED)], 600 if THOROUGH else 120, here, width=1)
    for g in ("utf16_be", "0", "3"), ("shiftjis_whatwg", "1", "3"):
        r = ref.go(ctx, [(1, 0, 1, SEED, g)], 60)
        ctx.stats[-1].setdefault("samples", []).extend(x[2:200] for x in details(r[0][2])[20:600:80])
    for t in miri_targets:
        parts = 38
        compare(ctx, Machine(f"Miri, {t}", "miri", target=t), ref, [(0, p, parts, s) for s in (seeds if THOROUGH else [SEED]) for p in range(parts)], 3000 if THOROUGH else 240, here, detail_time=300)


def check_purity(ctx):
    rel = build("rel")
    k = 10 if THOROUGH else 1
    a = special(ctx, rel, "rel", "purity", "--rounds", 60 * k, "--conc", 60 * k, "--threads", THREADS, "--pool", 60 * (2 if THOROUGH else 1))
    b = special(ctx, rel, "rel", "purity", "--rounds", 60 * k, "--conc", 30 * k, "--threads", THREADS, "--pool", 60 * (2 if THOROUGH else 1), "--reverse", 1)
    if a["digest"] != b["digest"]:
        body = f"flavour=rel\nproperty={ctx.id}\ncommand=purity --seed {SEED} --reverse 0 (then 1): digests {a['digest']} {b['digest']}\n"
        ctx.violation(save_replay(ctx.id, body), f"the same calls give other results in another process and order: {a['digest']} {b['digest']}")
    mon(ctx, build("chk"), "chk", SEED, part=60)
    fuzz(ctx, 15)
    # A call of another thread between any two instructions.
    special(ctx, rel, "rel", "reentry", "--other-thread", 1, "--threads", max(1, THREADS // 2), "--secs", 400 if THOROUGH else 25)
    special(ctx, build("chk"), "chk", "reentry", "--other-thread", 1, "--threads", max(1, THREADS // 2), "--secs", 200 if THOROUGH else 10)
    tsan = build("tsan")
    for s in range(3 if THOROUGH else 1):
        special(ctx, tsan, "tsan", "purity", "--rounds", 3, "--conc", 60 if THOROUGH else 6, "--threads", THREADS, "--pool", 30, "--seed", SEED + s)
    if THOROUGH:
        ps = []
        for k in range(4):
            args = ["tiny", "--seed", str(SEED), "--parts", "19", "--part", str(k * 4), "--n", "4", "--threads", "3"]
            cmd, env = miri_cmd(args, f"-Zmiri-seed={k} -Zmiri-preemption-rate=0.2")
            o = open(os.path.join(ctx.tmp, f"miri-{k}"), "w+")
            ps.append((subprocess.Popen(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=o, stderr=subprocess.STDOUT), (o, args)))
        finish_miri(ctx, ps)


def check_reentry(ctx):
    special(ctx, build("rel"), "rel", "reentry", "--threads", THREADS, "--secs", 600 if THOROUGH else 30)
    special(ctx, build("chk"), "chk", "reentry", "--threads", THREADS, "--secs", 300 if THOROUGH else 10)
    if THOROUGH:
        special(ctx, build("dev"), "dev", "reentry", "--threads", THREADS, "--secs", 300)


def check_resources(ctx):
    sizes = "48,3000,200000,4000000" if not THOROUGH else "48,700,3000,40000,200000,2000000,16000000"
    special(ctx, build("rel"), "rel", "stack", "--sizes", sizes, "--threads", THREADS)
    dev = build("dev")
    special(ctx, dev, "dev", "stack", "--sizes", "48,3000,60000,1500000", "--limit", 1 << 40, "--threads", THREADS, *(["--per-call-ms", 4000] if THOROUGH else []))
    # An optimiser may remove an allocation, so unoptimised code is watched as well.
    mon(ctx, dev, "dev", SEED + 500, part=10, sample=12 if THOROUGH else 100)
    check_cases(ctx)

def drop_privileges():
    limits()()
    os.setgid(65534)
    os.setgroups([])
    os.setuid(65534)


def check_tables(ctx):
    """Regenerates the tables in a scratch copy, as an unprivileged user, and compares what the library does."""
    scratch = tempfile.mkdtemp(prefix="mon-C21-regen-")
    ctx.scratch = scratch
    os.chmod(scratch, 0o755)
    st = {"build": "chk", "run": "regenerate", "generator_runs": 0, "tables_identical": 0, "tables_different": 0, "tables": 0, "behaviours_compared": 0}
    gens = sorted(os.path.relpath(f, REPO) for f in tree_files(os.path.join(REPO, "encoding_tables"), set()) if re.match(r"generate_.*\.py$", os.path.basename(f)))
    exe = build("chk")
    shipped = os.path.join(ctx.tmp, "shipped")
    run_ok([exe, "dump", shipped])
    have = open(shipped).read().splitlines()
    st["behaviours_compared"] = len(have)
    base = {}
    inc = lambda d: [f for f in tree_files(os.path.join(d, "src", "generated"), set()) if f.endswith(".inc")]
    for f in inc(REPO):
        base[os.path.relpath(f, REPO)] = open(f, "rb").read()
    st["tables"] = len(base)
    done, turns = {}, []
    for hashseed in ("0", "1", "77") if not THOROUGH else ("0", "1", "2", "3", "77", "random"):
        copy = os.path.join(scratch, f"repo-{hashseed}")
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "target"), symlinks=True)
        # Over the shipped tables, from nothing, and twice in another order: what was there before must not matter.
        turn = len(turns) % 3
        turns.append(hashseed)
        if turn == 1:
            for f in inc(copy):
                os.unlink(f)
        for base_, dirs, files in os.walk(copy):
            os.chown(base_, 65534, 65534)
            for f in files:
                os.chown(os.path.join(base_, f), 65534, 65534, follow_symlinks=False)
        for g in gens[::-1] * 2 if turn == 2 else gens:
            d, f = os.path.split(os.path.join(copy, g))
            try:
                r = subprocess.run([sys.executable if "opt" not in sys.executable else "/usr/bin/python3", f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, errors="replace", timeout=200, preexec_fn=drop_privileges,
                                   env={"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": scratch, "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1"})
                msg = f"exit {r.returncode}\n{r.stdout[-2000:]}" if r.returncode else None
            except subprocess.TimeoutExpired:
                msg = "does not finish within 200 s"
            st["generator_runs"] += 1
            if msg:
                regen_violation(ctx, f"generator={g}\nhashseed={hashseed}\n", f"{g}: {msg}")
        got = {}
        for f in inc(copy):
            got[os.path.relpath(f, copy)] = open(f, "rb").read()
        missing = sorted(set(base) - set(got))
        if missing:
            regen_violation(ctx, f"hashseed={hashseed}\n", f"not regenerated: {missing}")
        for k in base:
            st["tables_identical" if base[k] == got[k] else "tables_different"] += 1
        testdata = {os.path.relpath(f, copy): hashlib.sha256(open(f, "rb").read()).hexdigest() for f in tree_files(os.path.join(copy, "tests"), set())}
        key = hashlib.sha256(repr((sorted((k, hashlib.sha256(v).hexdigest()) for k, v in got.items()), sorted(testdata.items()))).encode()).hexdigest()
        if key in done:
            shutil.rmtree(copy)
            continue
        done[key] = hashseed
        # The library with these tables, under the same harness.
        h = os.path.join(scratch, f"harness-{hashseed}")
        shutil.copytree(os.path.join(ROOT, "harness"), h, ignore=shutil.ignore_patterns("target"))
        shutil.copytree(os.path.join(ROOT, "reference"), os.path.join(scratch, "reference"), dirs_exist_ok=True)
        toml = open(os.path.join(h, "Cargo.toml")).read()
        assert 'path = "/repo"' in toml
        open(os.path.join(h, "Cargo.toml"), "w").write(toml.replace('path = "/repo"', f'path = "{copy}"'))
        try:
            exe2 = build("chk", harness=h, tdir=os.path.join(scratch, "target"))
        except Broken as e:
            # (the harness builds against the shipped tables: it did so above)
            regen_violation(ctx, f"hashseed={hashseed}\n", f"the library does not build with the regenerated tables:\n{e}")
        regen = os.path.join(ctx.tmp, "regen")
        run_ok([exe2, "dump", regen])
        now = open(regen).read().splitlines()
        if now != have:
            a, b = set(have), set(now)
            diff = [f"- {x}" for x in have if x not in b][:10] + [f"+ {x}" for x in now if x not in a][:10]
            regen_violation(ctx, f"hashseed={hashseed}\n", "behaviour differs (- shipped, + regenerated):\n" + "\n".join(diff))
        # The regenerated test data, against the shipped library.
        for sub in ("src",):
            shutil.rmtree(os.path.join(copy, sub))
            shutil.copytree(os.path.join(REPO, sub), os.path.join(copy, sub))
        if os.path.isdir(os.path.join(REPO, "tests")):
            r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=copy, env=clean_env(CARGO_TARGET_DIR=os.path.join(scratch, "target-test")), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                # Is it the regenerated data?
                ref = os.path.join(scratch, "shipped")
                shutil.copytree(REPO, ref, ignore=shutil.ignore_patterns(".git", "target"), symlinks=True)
                q = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=ref, env=clean_env(CARGO_TARGET_DIR=os.path.join(scratch, "target-test2")), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if q.returncode == 0:
                    regen_violation(ctx, f"hashseed={hashseed}\n", f"the library fails its tests with the regenerated test data:\n{r.stdout[-3000:]}")
                st["test_suite"] = "fails with and without the regenerated data"
            else:
                st["test_suite"] = "passes with the regenerated data"
        shutil.rmtree(copy)
        shutil.rmtree(h)
    st["distinct_regenerations"] = len(done)
    st["violation"] = ""
    st["samples"] = have[300:20000:4000]
    ctx.stats.append(st)


def regen_violation(ctx, head, text):
    body = f"flavour=regen\nproperty={ctx.id}\ncommand=run.py {ctx.id}\n{head}" + "".join(f"# {l}\n" for l in text.splitlines())
    ctx.violation(save_replay(ctx.id, body), text)


def run_ok(cmd):
    r = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, preexec_fn=limits())
    if r.returncode:
        raise Broken(f"{cmd}: rc {r.returncode}\n{r.stdout[-2000:]}")


CHECKS = {"C02": check_memory, "C18": check_purity, "C20": check_resources, "C21": check_tables, "C22": check_work, "C23": check_platform, "C25": check_reentry}

# ------------------------------------------------------------------------------------------------- evidence

RULES = {
    "C18": "a case is one call of a pool (texts and bytes of all encodings) repeated in another history: order, earlier buffer contents, alignment, other threads running; non-trivial if the pool call has a result of its own (distinct result digests are counted) or, for the per-call part, converts or reports something",
    "C22": "a case is one conversion of a text (a repeated block of units, one other at its end) through a way of calling (one call, a small buffer, a small buffer with more to come), timed at 32 KB and at 2 MB; distinct: blocks per encoding and direction; non-trivial: all are (every one is converted to the end or reported)",
    "C23": "a case is one call of a seeded workload made there (another pointer width, byte order or build) and here; non-trivial: it is in a group of calls whose digest of results, outputs and outcomes is compared; distinct: group digests, each over hundreds to a hundred thousand calls",
    "C25": "a case is one call made from a signal handler behind one instruction of another call; non-trivial: its result is compared with what it gave alone, and the interrupted call's buffers with what they held; distinct: by interrupted call and instruction (calls are drawn at random, so a few come twice)",
    "C21": "a case is one byte, byte pair, character or combining sequence of one table-driven encoding whose result is compared between the shipped tables and those just generated; each is distinct; non-trivial means it is in that comparison with a result (unencodable characters are compared by their absence)",
}
RULE = ("cases are calls (or streams of calls) generated from exhaustive spaces (all characters, all one- and two-byte strings, all token sequences up to a length, surrogate pairs, UTF-32 values), "
        "from random texts of many shapes and lengths, and from the numbers and strings in the library's source; each with several buffer lengths (all, for short inputs), end flags and alignments. "
        "Non-trivial: the call converts at least one unit or ends for a reason other than an empty input (C09: something to round-trip; C15: reaches an incomplete tail or converts a unit; C16, C17, C24: more than one call). "
        "Distinct: counted through a 2^30-bit table of case hashes, hence from below")


def evidence(ctx, pid, violations, text=""):
    ev, dn, samples = 0, 0, []
    for s in ctx.stats:
        ev += s.get("evaluations", 0) or (s.get("sequential_calls", 0) + s.get("concurrent_calls", 0)) or s.get("calls", 0) or s.get("behaviours_compared", 0)
        dn = max(dn, s.get("distinct_nontrivial", 0), s.get("distinct_results", 0), s.get("behaviours_compared", 0))
        samples += s.pop("samples", [])
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": dn,
        "rule": RULES.get(pid, RULE),
        "samples": samples[:16] or ["(none: the run ended early)"],
        "source_dictionary": {"numbers": ctx.ndict[0], "strings": ctx.ndict[1]},
        "runs": ctx.stats,
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    if text:
        cov["violation"] = text[:4000]
    d = {
        "property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration", "coverage": cov,
        "assumptions": ["the reference tables and the model in /verif (checked against Python's codecs and the encoding_rs crate)",
                        "x86-64 Linux; Rust stable and nightly as installed"],
        "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def check(pid):
    ctx = Ctx(pid)
    try:
        CHECKS.get(pid, check_cases)(ctx)
    except Violation as v:
        log(v.text.rstrip())
        evidence(ctx, pid, 1, v.text)
        log(f"VIOLATION property={pid} replay={os.path.relpath(v.replay, ROOT)}")
        return 1
    except Broken as e:
        log(f"check {pid} could not be carried out: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        log(f"check {pid} could not be carried out")
        return 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        if getattr(ctx, "scratch", None):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    if pid == "C07":
        for l in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=C07 (U\+[0-9A-F]+ emits=[0-9A-F]+ standard=[0-9A-F]+) ", l)
            if m and m.group(1) in ctx.known_lines:
                log(f"KNOWN-FINDING: property=C07 {m.group(1)} (Big5 encodes it with a Hong Kong extension code)")
    evidence(ctx, pid, 0)
    ev = json.load(open(os.path.join(EVID, pid + ".json")))["coverage"]
    log(f"{pid} held: {ev['evaluations']} evaluations, {ev['distinct_nontrivial']} distinct non-trivial, {time.time() - T0:.1f} s")
    return 0


def replay(path):
    body = open(path).read()
    get = lambda k: (re.search(rf"^{k}=(.*)$", body, re.M) or [None, ""])[1]
    fl, pid = get("flavour") or "chk", get("property")
    if get("command"):
        if fl in ("regen", "plat"):
            return check(pid)
        if fl == "miri":
            cmd, env = miri_cmd(get("command").split(), "")
            return subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env).returncode
        d = os.path.join(tempfile.mkdtemp(), "dict")
        make_dict(d)
        args = get("command").replace("@DICT", d).replace("@KNOWN", KNOWN).split()
        return subprocess.run([build(fl)] + args, env=clean_env(**SAN_ENV.get(fl, {}))).returncode
    got = one_case(build(fl), path, get("exact") == "1", clean_env(**SAN_ENV.get(fl, {})))
    log(got or f"{pid} holds on this case")
    return 1 if got else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for f in ("chk", "rel"):
            log(build(f))
        return 0
    if a[:1] == ["--replay"]:
        return replay(os.path.abspath(a[1]))
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
