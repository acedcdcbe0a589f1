#!/usr/bin/env python3
"""Decide one property: check.py ID

1. extract the code of /repo, put the contracts of /verif/spec around it, let Verus discharge every obligation;
2. search the real crate for an input that contradicts the property (this also tests what step 1 trusts).
Exit 0: the property held. Exit 1 with a VIOLATION line otherwise.
"""
import itertools
import concurrent.futures, contextlib, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import assemble as A
import props

VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CHANOMA_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
EAGER = ["--smt-option", "smt.qi.eager_threshold=1000"]
VERUS_LIMIT = 400


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(RUST_MIN_STACK="4000000000", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CHANOMARC", None)
    return e


def build_vx():
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "vx"), env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Exception("vx does not build: " + r.stderr[-1500:])


# ------------------------------------------------------------------------------------------------- Verus
class Run:
    """one run of Verus on one assembled file"""

    def __init__(self, path, marks, extra, threads):
        self.path, self.marks, self.extra = path, marks, extra
        self.cmd = ["verus", "--triggers-mode", "silent", "--num-threads", str(threads), "--output-json", "--time-expanded", "--error-format=json"] + extra + [os.path.basename(path)]
        self.out, self.err = path + ".%d.out" % id(self), path + ".%d.err" % id(self)
        self.p = subprocess.Popen(self.cmd, cwd=os.path.dirname(path), env=env(), stdout=open(self.out, "w"), stderr=open(self.err, "w"))
        self.t = time.time()

    def finish(self):
        self.timeout = False
        try:
            self.p.wait(max(1, VERUS_LIMIT - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            self.timeout = True
            self.p.kill()
            self.p.wait()
        self.secs = time.time() - self.t
        try:
            self.json = json.loads(open(self.out).read())
        except Exception:
            self.json = {}
        self.msgs = []
        for l in open(self.err, errors="replace"):
            if l.startswith("{"):
                try:
                    self.msgs.append(json.loads(l))
                except Exception:
                    pass
        self.raw = open(self.err, errors="replace").read()[-3000:]
        vr = self.json.get("verification-results", {})
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        self.funcs = {}
        for m in self.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) or []:
            for f in m.get("function-breakdown", []):
                self.funcs.setdefault("all::" + f["function"].split("::", 1)[-1], []).append(f)
        self.smt_ms = self.json.get("times-ms", {}).get("smt", {}).get("total", 0)
        # no verification took place: a construct outside the verifier's reach
        self.broken = (vr.get("encountered-vir-error") or not vr or (self.verified + self.errors == 0) or (self.errors == 0 and not vr.get("success", not vr.get("encountered-error", True)))) and not self.timeout
        self.failed = {}     # key -> [message]
        self.elsewhere = []  # errors outside the extracted functions
        for m in self.msgs:
            if m.get("level") != "error" or not m.get("spans"):
                continue
            ks = self.where(m)
            txt = self.show(m)
            if ks:
                for k in ks:
                    self.failed.setdefault(k, []).append(txt)
            else:
                self.elsewhere.append(txt)
        return self

    def units_of(self, m):
        """the annotations a message is about (its primary spans), and whether it is about nothing else"""
        if not hasattr(self, "spans"):
            self.spans = []
            at = {}
            for ln, l in enumerate(open(self.path, encoding="utf-8").read().split("\n"), 1):
                for x in re.finditer(r"/\*(?:<u(\d+)|u(\d+)>)\*/", l):
                    if x.group(1):
                        at[x.group(1)] = (ln, x.end())
                    elif x.group(2) in at:
                        self.spans.append((at[x.group(2)], (ln, x.start()), int(x.group(2))))
        us, only = set(), True
        for sp in m["spans"]:
            if not sp.get("is_primary"):
                continue
            p = (sp["line_start"], sp["column_start"] - 1)
            hit = [n for a, b, n in self.spans if a <= p <= b]
            us.update(hit)
            only = only and bool(hit)
        return us, only

    def where(self, m):
        body, any_ = [], []
        for s in m["spans"]:
            for a, b, k, bl in self.marks:
                if a <= s["line_start"] <= b:
                    (body if s["line_start"] >= bl else any_).append(k)
        return sorted(set(body)) or sorted(set(any_))

    def show(self, m):
        sp = "; ".join("%s%s" % ((s.get("label") + ": ") if s.get("label") else "", " ".join(t["text"].strip() for t in s.get("text", [])[:3])[:300]) for s in m["spans"])
        return "%s [%s]" % (m["message"], sp)


def write(dirname, name, asm, repo_vx=None):
    o = asm.build()
    p = os.path.join(dirname, name)
    open(p, "w", encoding="utf-8").write(o.text())
    marks = []
    for a, b, k in o.marks:
        bl = a
        for i in range(a, b + 1):
            if o.lines[i - 1].strip() in ("{",) or o.lines[i - 1].startswith("{"):
                bl = i
                break
        marks.append((a, b, k, bl))
    return p, marks


def limit_error(msgs):
    return all("rlimit" in x or "Resource limit" in x or "timed out" in x for x in msgs)


def prove(scratch, cone_keys):
    """returns a dict describing what was proved"""
    contracts = A.load_contracts()
    res = dict(lost={}, failed={}, notes=[], runs=[], smt_ms=0, verified=0, funcs={}, vacuous=[], global_error=None)
    try:
        vx = A.run_vx(REPO, list(contracts["fns"]))
    except Exception as e:
        res["global_error"] = "extraction failed: %s" % str(e)[-600:]
        return res, None
    base = json.load(open(os.path.join(A.SPEC, "baseline.json")))
    stub = {}
    bare = set()
    subst, alt, dropped, force = {}, {}, {}, set()
    tried = set()

    def state(asm):
        asm.bare, asm.subst, asm.alt, asm.dropped, asm.force = bare, subst, alt, dropped, force

    def retry(k, broken):
        if k in tried:
            return False
        tried.add(k)
        got = rescue(scratch, k, vx, contracts, base, stub, bare, state, cone_keys, broken)
        if not got:
            return False
        stub.pop(k, None)
        force.add(k)
        a, d, n = got
        alt.pop(k, None)
        if a is not None:
            alt[k] = a
        dropped[k], subst[k] = d, n
        res["notes"].append("%s: proved with %s%s%s" % (k, "other annotations" if a is not None else "its annotations", ", names %s" % n if n else "", ", without %d of them" % len(d) if d else ""))
        return True

    for attempt in range(12):
        asm = A.Assembler(vx, contracts, base, stub=stub)
        state(asm)
        asm.tops = tops(cone_keys)
        path, marks = write(scratch, "all.rs", asm)
        if any([retry(k, True) for k, why in asm.lost.items() if k in cone_keys and "number of loops" in why]):
            continue
        # the long unions of the preset tables need the eager instantiation setting
        main = Run(path, marks, EAGER, 8).finish()
        if not main.broken:
            if not main.timeout and any([retry(k, False) for k in main.failed if k in cone_keys and k in contracts["fns"] and contracts["fns"][k].alts]):
                continue
            break
        bad = [k for k in main.failed if k not in stub]
        if not bad:
            more = [k for k in main.failed if k not in bare]
            bare.update(more)
            if more:
                continue
            res["global_error"] = "Verus could not read the extracted code: " + "; ".join(main.elsewhere)[:1500] + main.raw[-500:]
            res["asm"] = asm
            return res, contracts
        for k in bad:
            stub[k] = "outside the verifier's reach: " + main.failed[k][0][:400]
        for k in bad:
            if k in cone_keys:
                retry(k, True)
    if main.timeout:
        res["global_error"] = "Verus did not finish within %d s" % VERUS_LIMIT
        res["asm"] = asm
        return res, contracts
    failed = dict(main.failed)
    # further chances, with the solver's default settings and other seeds, for every module with a failure:
    # one acceptance of a function is a proof of it
    for more in (["--rlimit", "30"], ["--smt-option", "smt.random_seed=3"], EAGER + ["--smt-option", "smt.random_seed=11"]):
        again = set(failed)
        if not again or (more[0] != "--rlimit" and (len(again) > 4 or time.time() - T0 > 400)):
            break
        ex = []
        for m in sorted({module_of(k, vx) for k in again}):
            ex += ["--verify-module", m] if m else ["--verify-root"]
        r2 = Run(path, marks, ex + more, 8).finish()
        if not r2.broken and not r2.timeout and r2.verified > 0:
            failed = {k: v for k, v in failed.items() if k not in again or k in r2.failed}
            res["runs"].append(dict(cmd=" ".join(r2.cmd), seconds=round(r2.secs, 1), verified=r2.verified, errors=r2.errors))
            res["smt_ms"] += r2.smt_ms
            for n, fs in r2.funcs.items():
                if any(f.get("success") for f in fs):
                    main.funcs[n] = fs
    res["runs"].insert(0, dict(cmd=" ".join(main.cmd), seconds=round(main.secs, 1), verified=main.verified, errors=main.errors))
    res["smt_ms"] += main.smt_ms
    res["verified"] = main.verified
    res["funcs"] = main.funcs
    # where nothing is known of a helper that is called, or a loop has no invariant, a failure says nothing
    fns = {f["key"]: f for f in A.all_fns(vx)}
    unknown = {}
    for k in list(failed):
        f, b = fns.get(k), base.get(k)
        if f and f.get("opaque"):
            unknown[k] = "calls uncontracted " + ", ".join(sorted(set(f["opaque"])))
        elif f and any(re.search(r"\b%s\b" % x.split("::")[-1], f["body"] or "") for x in bare):
            unknown[k] = "calls a function whose contract no longer fits"
        elif asm.weak:
            unknown[k] = "; ".join(asm.weak)
        elif f and b and f["loops"] != b["loops"]:
            unknown[k] = "the number of loops changed from %d to %d" % (b["loops"], f["loops"])
        if k in unknown:
            del failed[k]
    res["failed"] = failed
    res["elsewhere"] = main.elsewhere
    res["lost"] = dict(asm.lost)
    for k, v in unknown.items():
        res["lost"].setdefault(k, "not proved: " + v)
    res["asm"] = asm
    res["vx"] = vx
    for k in contracts["fns"]:
        if k not in asm.used and not contracts["fns"][k].skip and (k in cone_keys or k.split("::")[0] not in ("bin_main", "bin_output", "py")):
            res["lost"][k] = "no longer in the source"
    return res, contracts


def rescue(scratch, key, vx, contracts, base, stub, bare, state, cone_keys, broken):
    """The annotations of a function whose text changed: does the proof go through with other annotations written for its
    contract, with a local there is for one that is gone, or without the annotations that make no sense any more?
    What Verus accepts is a proof, whatever the way the annotations were found. Gives (alternative, dropped, names) or None."""
    f = next((f for f in A.all_fns(vx) if f["key"] == key), None)
    c = contracts["fns"].get(key)
    if not f or not c or f["unsupported"]:
        return None
    locals_ = []
    for n in re.findall(r"let mut (\w+)", f["body"] or ""):
        if n not in locals_ and not re.match(r"vx_(it|c|t|m)\d*$", n):
            locals_.append(n)
    m = module_of(key, vx)
    alts = ([None] if broken else []) + list(range(len(c.alts)))
    if not alts:
        return None
    done = []
    until = min(time.time() + 150, T0 + 420)

    def branch(alt, names, n):
        """one set of annotations, fewer of them with every error in them"""
        dropped, more, first = set(), {}, None
        for step in range(9):
            if done or time.time() > until:
                return None, first
            asm = A.Assembler(vx, contracts, base, stub=dict({k: v for k, v in stub.items() if k != key}, **more))
            state(asm)
            asm.alt, asm.dropped, asm.subst = dict(asm.alt), dict(asm.dropped), dict(asm.subst)
            asm.alt.pop(key, None)
            if alt is not None:
                asm.alt[key] = alt
            asm.dropped[key], asm.subst[key] = dropped, names
            asm.bare, asm.tops, asm.force = bare, tops(cone_keys), asm.force | {key}
            path, marks = write(scratch, "rescue%s.rs" % n, asm)
            r = Run(path, marks, EAGER + (["--verify-module", m] if m else ["--verify-root"]), 2).finish()
            if r.timeout:
                return None, first
            if not r.broken and r.verified > 0 and key not in r.failed:
                done.append((alt, dropped, names))
                return done[0], first
            if r.broken and key not in r.failed:
                # what was hidden behind the first errors, in other functions
                if not r.failed:
                    return None, first
                more.update({k: "in another function" for k in r.failed})
                continue
            if os.environ.get("RESCUE_LOG"):
                print("  rescue", key, alt, names, sorted(dropped), r.broken, r.failed.get(key), file=sys.stderr)
            mine = [x for x in r.msgs if x.get("level") == "error" and x.get("spans") and key in r.where(x)]
            miss = {y.group(1) for x in mine for y in [re.match(r"cannot find value `(\w+)`", x["message"])] if y}
            if first is None:
                first = miss
                if miss and alt is not None:
                    return None, first
            if r.broken and names:
                return None, first
            drop = set()
            for x in mine:
                us, only = r.units_of(x)
                drop |= {asm.units[u][1] for u in us if asm.units[u][0] == key}
                if r.broken and not only:
                    return None, first
            if not drop - dropped:
                return None, first
            dropped = dropped | drop
        return None, first

    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        runs = [ex.submit(branch, a, {}, "a%d" % i) for i, a in enumerate(alts)]
        subs = []
        for a, r in zip(alts, runs):
            got, miss = r.result()
            if got:
                return got
            if miss and len(miss) <= 3:
                subs += [(a, dict(zip(sorted(miss), p))) for p in itertools.permutations(locals_, len(miss))][:8]
        runs = [ex.submit(branch, a, s, "b%d" % i) for i, (a, s) in enumerate(subs)]
        for r in runs:
            got, _ = r.result()
            if got:
                return got
    return None


def tops(keys):
    """the programs and the Python module are part of the file only for the properties about them"""
    return tuple(sorted({k.split("::")[0] for k in keys} & {"bin_main", "bin_output", "py"}))


def module_of(key, vx):
    best = ""
    for m in vx["modules"]:
        p = m["path"]
        if p and (key == p or key.startswith(p + "::")) and len(p) > len(best):
            best = p
    return best


def vacuity(scratch, asm_args, keys):
    """`assert(false)` in front of the result of every function of the cone has to fail"""
    contracts, vx, base, old = asm_args
    stub = old.stub
    asm = A.Assembler(vx, contracts, base, stub=stub)
    asm.tops = tops(keys)
    asm.canary = set(keys)
    asm.bare, asm.subst, asm.alt, asm.dropped, asm.force = old.bare, old.subst, old.alt, old.dropped, old.force
    path, marks = write(scratch, "canary.rs", asm)
    mods = sorted({module_of(k, vx) for k in keys})
    ex = []
    for m in mods:
        ex += ["--verify-module", m] if m else ["--verify-root"]
    r = Run(path, marks, ex, 8).finish()
    put = asm.canaries
    if r.broken or r.timeout:
        return [], 0, "the vacuity run gave no answer"
    vac = [k for k in put if k not in r.failed]
    return vac, len(put), None


# ------------------------------------------------------------------------------------------------- witness
def dictionary():
    chars, strs, nums = set(), set(), set()
    for f in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        s = open(f, encoding="utf-8", errors="replace").read()
        s = s.split("#[cfg(test)]")[0]
        s = re.sub(r"^\s*//.*$", "", s, flags=re.M)
        for m in re.finditer(r"'((?:\\.[^']*|[^'\\\n]))'", s):
            chars.add(unesc(m.group(1))[:1])
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            t = unesc(m.group(1))
            if t and len(t) <= 40 and "characters_set" not in f:
                strs.add(t)
                if len(t) <= 3:
                    chars.update(t)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|i32|i64|isize)?(?![\w.])", s):
            n = int(m.group(1).replace("_", ""), 0)
            if n < 0x110000:
                nums.add(n)
            if 0x20 < n < 0x110000 and not 0xD800 <= n < 0xE000 and m.group(1).startswith("0x"):
                chars.add(chr(n))
    return dict(chars=sorted(c for c in chars if c), strs=sorted(strs), nums=sorted(nums)[:400])


def unesc(t):
    def f(m):
        x = m.group(0)
        if x.startswith("\\u{"):
            try:
                return chr(int(x[3:-1], 16))
            except ValueError:
                return ""
        if x.startswith("\\x"):
            return chr(int(x[2:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x[1], x[1])
    return re.sub(r"\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.", f, t)


def stale(target):
    """forget what was built of the tree under test: cargo goes by the times of files, and another tree at the same place may be older"""
    for d in ("release", "debug"):
        f = os.path.join(target, d, ".fingerprint")
        for n in os.listdir(f) if os.path.isdir(f) else []:
            if re.match(r"(chanoma|chanoma[_-]py|witness|output)-", n):
                shutil.rmtree(os.path.join(f, n), ignore_errors=True)


@contextlib.contextmanager
def building():
    """one build at a time: two checks may run side by side"""
    d = os.path.join(VERIF, "witness", "target")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def build_witness(scratch):
    e = env()
    w = os.path.join(VERIF, "witness")
    e["RUSTFLAGS"] = "--cfg chanoma_verif"
    if REPO != "/repo":
        tmp = os.path.join(VERIF, ".cache", "witness-alt")
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(w, tmp, ignore=shutil.ignore_patterns("target"))
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(VERIF, ".cache", "spec"), dirs_exist_ok=True)
        c = open(os.path.join(tmp, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(tmp, "Cargo.toml"), "w").write(c)
        w = tmp
        e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "witness", "target")
    stale(os.path.join(VERIF, "witness", "target"))
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=w, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    exe = os.path.join(scratch, "witness")
    shutil.copy(os.path.join(VERIF, "witness", "target", "release", "witness"), exe)
    return exe, None


def build_cli(scratch):
    """the command line programs of the repository, built outside of it"""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "witness", "target", "cli")
    stale(e["CARGO_TARGET_DIR"])
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--bins"], cwd=REPO, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        return None
    d = os.path.join(scratch, "cli")
    os.makedirs(d)
    for n in os.listdir(os.path.join(e["CARGO_TARGET_DIR"], "release")):
        f = os.path.join(e["CARGO_TARGET_DIR"], "release", n)
        if os.path.isfile(f) and os.access(f, os.X_OK):
            shutil.copy(f, d)
    return d


def build_py(scratch):
    """the Python module of the repository, built outside of it"""
    e = env()
    pys = [x for x in ("/opt/vp/pyvenv/bin/python3", shutil.which("python3-vt"), shutil.which("python3")) if x and os.path.exists(x)]
    e["PYO3_PYTHON"] = pys[0]
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "witness", "target", "py")
    d = os.path.join(REPO, "bindings", "python3")
    stale(e["CARGO_TARGET_DIR"])
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--features", "pyo3/extension-module"], cwd=d, env=e, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        return None
    out = os.path.join(scratch, "py")
    os.makedirs(os.path.join(out, "chanoma"))
    shutil.copy(os.path.join(e["CARGO_TARGET_DIR"], "debug", "libchanoma_py.so"), os.path.join(out, "chanoma", "chanoma.so"))
    shutil.copy(os.path.join(d, "chanoma", "__init__.py"), os.path.join(out, "chanoma"))
    shutil.copy(os.path.join(VERIF, "witness", "py", "driver.py"), out)
    with open(os.path.join(out, "python"), "w") as f:
        f.write("#!/bin/sh\nexec %s \"$@\"\n" % pys[0])
    os.chmod(os.path.join(out, "python"), 0o755)
    return out


def witness(pid, scratch, seconds, p):
    with building():
        cli = build_cli(scratch) if p.get("cli") else None
        py = build_py(scratch) if p.get("py") else None
        exe, why = build_witness(scratch)
    if p.get("cli") and not cli or p.get("py") and not py:
        return None, "the programs or the Python module do not build"
    if exe is None:
        return None, "the witness harness does not build against this tree: " + why
    d = os.path.join(scratch, "dict.json")
    json.dump(dictionary(), open(d, "w"))
    out = os.path.join(scratch, "witness.json")
    sc = os.path.join(scratch, "w")
    os.makedirs(sc, exist_ok=True)
    e = env()
    e["HOME"] = os.path.join(sc, "home")
    os.makedirs(e["HOME"], exist_ok=True)
    cmd = [exe, "search", pid, "--tier", TIER, "--seed", str(SEED), "--seconds", str(seconds), "--scratch", sc, "--dict", d, "--out", out]
    if cli:
        cmd += ["--cli", cli]
    if py:
        cmd += ["--py", py]
    try:
        r = subprocess.run(cmd, cwd=sc, env=e, capture_output=True, text=True, timeout=seconds * 3 + 120, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "the witness search did not end"
    if not os.path.exists(out):
        return None, "the witness search ended with %d: %s" % (r.returncode, (r.stdout + r.stderr)[-800:])
    return json.load(open(out)), None


# ------------------------------------------------------------------------------------------------- evidence
def trusted_base():
    t = []
    for f in sorted(glob.glob(os.path.join(A.SPEC, "*.rs")) + glob.glob(os.path.join(A.SPEC, "lemmas", "*.rs"))):
        s = open(f, encoding="utf-8").read()
        b = os.path.basename(f)
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:fn|struct) (\w+)", s):
            t.append("%s: %s (assumed contract of a library function or type)" % (b, m.group(1)))
        for m in re.finditer(r"axiom fn (\w+)", s):
            t.append("%s: axiom %s" % (b, m.group(1)))
        for m in re.finditer(r"assume_specification[^\[]*\[ *([\w:<> ]+?) *\]", s):
            t.append("%s: assume_specification %s" % (b, m.group(1)))
        for w in ("admit(", "assume("):
            if w in re.sub(r"//.*", "", s):
                t.append("%s: contains %s" % (b, w))
    return sorted(set(t))


def verus_name(k):
    return "all::" + re.sub(r"@(?:[^:<]|<[^<>]*(?:<[^<>]*>)?[^<>]*>)*(?=::|$)", "", k)


def lookup(funcs, k):
    n = verus_name(k)
    if n in funcs:
        return funcs[n]
    parts = n.split("::")
    last = parts[-1]
    for q in ("vx_" + last, last):
        c = [x for x in funcs if x.split("::")[-2:] == [parts[-2], q]]
        if c:
            return funcs[c[0]]
    c = [x for x in funcs if x.endswith("::%s_default" % last)]
    return funcs[c[0]] if c else []


def main():
    pid = sys.argv[1]
    p = next(x for x in props.P if x["id"] == pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="chanoma_%s_" % pid)
    try:
        return decide(pid, p, scratch)
    finally:
        if not os.environ.get("KEEP"): shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, p, scratch):
    build_vx()
    contracts = A.load_contracts()
    pats = [re.compile(x + r"\Z") for x in p["cone"]]
    cone = sorted(k for k in contracts["fns"] if any(x.match(k) for x in pats) and not contracts["fns"][k].skip)
    res, _ = prove(scratch, cone)
    asm = res.get("asm")
    fails = {k: v for k, v in res["failed"].items() if k in cone}
    lost = {k: v for k, v in res["lost"].items() if k in cone}
    for k in list(fails):
        if limit_error(fails[k]):
            lost[k] = "the solver's resource limit was reached"
            del fails[k]
    vac, ncan, vnote = [], 0, None
    if asm is not None and res["global_error"] is None:
        kept = [k for k in cone if k in set(asm.kept) and k not in fails and k not in lost]
        # constants and their accessors are covered by the sets that use them
        short = [k for k in kept if not re.search(r"::[A-Z][A-Z0-9_]*$", k)]
        vac, ncan, vnote = vacuity(scratch, (contracts, res["vx"], json.load(open(os.path.join(A.SPEC, "baseline.json"))), asm), short)
    secs = int(os.environ.get("WITNESS_SECONDS", "0")) or (240 if TIER == "thorough" else 25)
    if fails or lost or res["global_error"]:
        secs = max(secs, 60)
    w, wnote = witness(pid, scratch, secs, p)
    obligations = discharged = 0
    per = []
    smt = 0
    for k in cone:
        if k in contracts["fns"] and asm is not None and k in set(asm.kept) or k in lost or k in fails:
            fs = lookup(res["funcs"], k)
            n = max(1, len(fs))
            obligations += n
            ok = k not in fails and k not in lost and res["global_error"] is None
            if ok:
                discharged += n
            ms = sum(f.get("time", 0) for f in fs)
            smt += ms
            if not re.search(r"::[A-Z][A-Z0-9_]*$", k):
                per.append("%s: %s%s" % (k, "discharged" if ok else "NOT discharged", ", %d ms" % ms if ms else ""))
    lem = [n for n in res["funcs"] if re.match(r"all::(lem|neo|sp|tables|conf)::", n)]
    lem_ok = [n for n in lem if all(f.get("success") for f in res["funcs"][n])]
    obligations += len(lem)
    discharged += len(lem_ok)
    witness_found = w is not None and w.get("witness")
    violation = None
    replay = os.path.join(VERIF, "replay", pid + ".json")
    if witness_found:
        json.dump(dict(property=pid, witness=w["witness"], failed_obligations=fails, how="the case was executed on the real crate; rerun: witness replay <this file> --scratch DIR"),
                  open(replay, "w"), ensure_ascii=False, indent=1)
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
        log("the real code contradicts %s: %s" % (pid, str(w["witness"]["why"])[:600]))
        log("input: " + json.dumps(w["witness"]["case"], ensure_ascii=False)[:600])
        for k in fails:
            log("failed obligation: %s: %s" % (k, fails[k][0][:300]))
    elif fails:
        json.dump(dict(property=pid, witness=None, failed_obligations=fails, verifier=res["runs"]), open(replay, "w"), ensure_ascii=False, indent=1)
        for k in fails:
            log("failed obligation: %s: %s" % (k, fails[k][0][:400]))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)
    if vac:
        log("note: nothing after the last statement is reachable for the verifier in " + ", ".join(vac))
    trusted = trusted_base()
    complete = not lost and not res["global_error"] and not vac and obligations > 0 and obligations == discharged
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="; ".join(r["cmd"] for r in res["runs"]) or "verus (no run finished)",
        trusted_base=trusted,
        functions_under_contract=per, constants_under_contract=sum(1 for k in cone if re.search(r"::[A-Z][A-Z0-9_]*$", k)),
        lemmas=dict(total=len(lem), discharged=len(lem_ok)),
        back_end="Verus 0.2026.09.13 with its bundled Z3; %s" % "; ".join("%s: %d verified, %d errors, %.1f s" % (" ".join(r["cmd"].split()[10:]) if False else "run %d" % i, r["verified"], r["errors"], r["seconds"]) for i, r in enumerate(res["runs"])),
        solver_time_ms_cone=smt, solver_time_ms_all=res["smt_ms"],
        vacuity=dict(canaries=ncan, reached=ncan - len(vac), unreachable=vac, note=vnote),
        not_proved_bounded_only=["%s: %s" % (k, v) for k, v in sorted(lost.items())] + ([res["global_error"]] if res["global_error"] else []),
        witness_search=dict(note="executes the real crate against an independent oracle; bounded, it proves nothing; it tests the trusted base above and supplies failing inputs",
                            evaluations=(w or {}).get("evaluations", 0), distinct_nontrivial=(w or {}).get("distinct_nontrivial", 0), seconds=round((w or {}).get("seconds", 0), 1), error=wnote),
        evaluations=(w or {}).get("evaluations", 0), distinct_nontrivial=(w or {}).get("distinct_nontrivial", 0),
        rule="exhaustive short texts over the characters that matter, every character and number the source mentions, long runs, random; non-trivial: the output differs from the input (or positions are reported)",
        samples=(w or {}).get("samples", []),
    )
    if not complete and not violation:
        cov["explanation"] = "not every obligation could be generated or discharged on this tree; for the functions in not_proved_bounded_only the witness search stands in, bounded"
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="proof" if complete or violation else "exploration", coverage=cov,
              assumptions=["machine integers are Verus' bounded types: overflow is an obligation, not an assumption",
                           "the extraction (vx) rewrites the source into the subset Verus accepts: see DESIGN.md for what it drops",
                           "contracts of std functions (spec/vx.rs, spec/ext.rs) and of the csv, yaml, command line, environment and Python libraries (spec/sys.rs) are assumed",
                           "Hash/Eq/Clone of derived types are structural"],
              wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), ensure_ascii=False, indent=1)
    for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        if l.startswith("finding: property=%s " % pid):
            log("KNOWN-FINDING: " + l[len("finding: "):].strip())
    log("%s: %d obligations, %d discharged; %d functions bounded only; %s; witness search: %s cases; %.0f s" % (
        pid, obligations, discharged, len(lost), res["global_error"] or "verifier finished", cov["evaluations"], time.time() - T0))
    if wnote:
        log("note: " + wnote[-600:])
    if violation:
        log(violation)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
