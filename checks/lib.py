"""Shared machinery of the checks: build the analyser, record how rustc compiles the harness against the current
/repo, run the analyser on entry points, read its results, and report."""
import bisect, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
import numpy as np
import oracle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
ENGINE = os.path.join(BUILD, "engine", "release", "seshat-absint")
N = oracle.N
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TRIPLE = "x86_64-unknown-linux-gnu"


class Broken(Exception):
    """the check itself could not run"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def nightly():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise Broken("no nightly toolchain: " + r.stdout)
    return r.stdout.strip().splitlines()[-1]


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def walk(*roots, skip=("target", ".git", ".build")):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in skip]
            out += [os.path.join(d, f) for f in fs]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUSTDOC"))}
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def build_engine():
    """builds the analyser unless the binary was made from exactly these sources"""
    src = os.path.join(VERIF, "engine")
    key = digest(walk(os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(src, "Cargo.lock"))) + " " + nightly()
    stamp = os.path.join(BUILD, "engine.key")
    with Lock("engine"):
        if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == key:
            return key
        r = sh(["cargo", "+nightly", "build", "--offline", "--release"], cwd=src, env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine")))
        if r.returncode or not os.path.exists(ENGINE):
            raise Broken("analyser does not build:\n" + r.stdout[-3000:])
        open(stamp, "w").write(key)
    return key


def miri_sysroot():
    """a standard library with MIR for everything in it (the one installed for Miri; rebuilt when absent)"""
    d = os.path.join(os.path.expanduser("~"), ".cache", "miri")
    lib = os.path.join(d, "lib", "rustlib", TRIPLE, "lib")
    if os.path.isdir(lib) and any(f.startswith("libstd-") for f in os.listdir(lib)):
        return d
    r = sh(["cargo", "+nightly", "miri", "setup", "--print-sysroot"], env=env())
    d = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
    if r.returncode or not os.path.isdir(d):
        raise Broken("no standard library with MIR: " + r.stdout[-2000:])
    return d


def repo_sources():
    out = walk(os.path.join(REPO, "src"))
    for f in ("Cargo.toml", "build.rs", ".cargo"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out += walk(p)
    return out


def record(crate="harness"):
    """compiles /verif/<crate> against the current /repo with the analyser as rustc wrapper (front end only: nothing is
    generated or run) and returns the recorded rustc arguments.  Keyed by the content of every source file."""
    ekey = build_engine()
    root = os.path.join(VERIF, crate)
    key = hashlib.sha256((ekey + digest(repo_sources()) + digest(walk(root))).encode()).hexdigest()[:24]
    flat = crate.replace("/", "_")
    base = os.path.join(BUILD, flat)
    t = os.path.join(base, key)
    args = os.path.join(t, "args")
    with Lock(flat):
        if os.path.exists(args) and os.path.exists(os.path.join(t, "ok")):
            os.utime(t)
            return args
        os.makedirs(base, exist_ok=True)
        shutil.rmtree(t, ignore_errors=True)
        olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(t)
        r = sh(["cargo", "+nightly", "check", "--offline", "--target", TRIPLE], cwd=root,
               env=env(CARGO_TARGET_DIR=t, RUSTFLAGS=f"--sysroot {miri_sysroot()} -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
                       RUSTC_WRAPPER=ENGINE, ABSINT_RECORD=args))
        if r.returncode or not os.path.exists(args):
            raise Broken("the current tree does not compile with the harness:\n" + r.stdout[-4000:])
        open(os.path.join(t, "ok"), "w").write("ok")
    return args


def analyse(jobs, procs=8, crate="harness", timeout=None):
    """jobs: list of job lines (or (cost, line)).  Returns the list of results in job order."""
    timeout = timeout or int(os.environ.get("CHECK_SECS", 0)) or (500 if TIER == "quick" else 3 * 3600)
    if TIER == "quick":
        timeout = max(20, min(timeout, T0 + 560 - time.time()))
    args = record(crate)
    items = [(j if isinstance(j, tuple) else (1.0, j)) for j in jobs]
    procs = max(1, min(procs, len(items)))
    order = sorted(range(len(items)), key=lambda i: -items[i][0])
    out = [None] * len(items)
    lines = [l for _, l in items]
    lost = run_jobs(lines, order, procs, args, crate, timeout, out)
    if lost and len(items) > 1:
        # one job took the process down: the others get one of their own
        if TIER == "quick":
            timeout = max(20, min(60, (T0 + 700 - time.time()) / 4))
        for _ in range(4):
            # what takes a process down stays behind, the rest goes on
            before, lost = lost, run_jobs(lines, lost, min(procs, len(lost)), args, crate, timeout, out)
            if not lost or len(lost) == len(before):
                break
    for i in lost:
        out[i] = {"failed": "the analyser did not survive this job"}
    if os.environ.get("CHECK_DEBUG"):
        for i in sorted(range(len(out)), key=lambda i: -out[i].get("stats", {}).get("secs", 0))[:25]:
            r = out[i]
            print(r.get("stats", {}).get("secs"), len(r.get("cells", [])), len(r.get("undecided", [])), items[i][0], lines[i][:150], r.get("failed", ""), file=sys.stderr)
        import collections
        tot, num = collections.Counter(), collections.Counter()
        for i, r in enumerate(out):
            k = " ".join(lines[i].split()[:2])[:24]
            tot[k] += r.get("stats", {}).get("secs", 0)
            num[k] += 1
        for k, v in tot.most_common(12):
            print("   ", k, round(v, 1), "s", num[k], "jobs", file=sys.stderr)
        print("sum", round(sum(tot.values()), 1), file=sys.stderr)
        print("analysed after", round(time.time() - T0, 1), file=sys.stderr)
    for i, r in enumerate(out):
        if "error" in r:
            raise Broken(f"{lines[i]}: {r['error']}")
        if "failed" in r:
            out[i] = gave_up(lines[i], r["failed"])
    return out


def run_jobs(lines, order, procs, args, crate, timeout, out):
    """runs the jobs in up to eight processes, each taking the next one nobody has; returns the jobs that gave no result"""
    # what does not fit the time or memory stays undecided
    with tempfile.TemporaryDirectory(prefix="seshat-absint.") as tmp:
        os.mkdir(f"{tmp}/claim")
        e = env(LD_LIBRARY_PATH=nightly() + "/lib", ABSINT_SECS=str(int(timeout)), ABSINT_MB=str(28000 // procs), ABSINT_CLAIM=f"{tmp}/claim")
        with open(f"{tmp}/jobs", "w") as f:
            f.write("".join(lines[i] + "\n" for i in order))
        ps = []
        for k in range(procs):
            with open(f"{tmp}/{k}.log", "w") as log:
                ps.append(subprocess.Popen([ENGINE, "--analyze", args, f"{tmp}/jobs", f"{tmp}/{k}.out"],
                                           cwd=os.path.join(VERIF, crate), env=e, stdout=log, stderr=log))
        end = time.time() + timeout + 100
        for p in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        for k in range(procs):
            try:
                text = open(f"{tmp}/{k}.out").read()
            except OSError:
                text = ""
            for l in text.splitlines():
                n, _, res = l.partition("\t")
                try:
                    r = json.loads(res)
                except ValueError:
                    continue
                r["panics"], r["undecided"] = ([x for x in r.get(k, []) if "regs" in x] for k in ("panics", "undecided"))
                out[order[int(n)]] = r
        # those somebody had started come last
        lost = sorted((i for i in order if out[i] is None), key=lambda i: os.path.exists(f"{tmp}/claim/{order.index(i)}"))
        if lost and os.environ.get("CHECK_DEBUG"):
            for k in range(procs):
                sys.stderr.write(open(f"{tmp}/{k}.log").read()[-2000:])
    return lost


def gave_up(line, why):
    name = line.split()[0]
    for kv in line.split()[1:]:
        if kv.startswith("name="):
            name = kv[5:]
    return {"entry": line.split()[0], "name": name, "line": line, "type": None, "domain": None, "cells": [], "panics": [], "failed": why,
            "undecided": [{"regs": [], "msg": why, "at": "", "stack": []}], "stats": {}, "local_functions": []}


# ------------------------------------------------------------------ reading results
NONE, OK, PANIC, UNDEC = 0, 1, 2, 3


def size(regs):
    n = 1
    for r in regs:
        n *= sum(h - l + 1 for l, h in r)
    return n


def many(n):
    return str(n) if n < 10**6 else f"{n:.6g}" if n < 10**300 else f"1e{int(n.bit_length() * 0.30103)}"


def word(v, r0, arr):
    """value of a word on the one-symbol region r0, written into arr; False if it is not a number there"""
    if "ptr" in v or "u" in v:
        return False
    if "c" in v:
        for l, h in r0:
            arr[l:h + 1] = np.array(v["c"], dtype=np.uint64).astype(np.int64)
        return True
    for p in v["p"]:
        l, h, b = p[0], p[1], p[2]
        if len(p) == 3:
            arr[l:h + 1] = np.array(b, dtype=np.uint64).astype(np.int64)
        else:
            arr[l:h + 1] = b + p[3] * np.arange(h - l + 1, dtype=np.int64)
    return True


class Table:
    """the function one entry computes, on every value of its single input"""

    def __init__(self, r):
        self.r = r
        self.name = r["name"]
        self.type = r["type"]
        self.status = np.zeros(N, dtype=np.uint8)
        self.dom = np.zeros(N, dtype=bool)
        for l, h in (r["domain"] or [[[0, N - 1]]])[0]:
            self.dom[l:h + 1] = True
        if "failed" in r:
            self.status[self.dom] = UNDEC
            return
        for c in r["cells"]:
            self.mark(c["regs"][0], OK)
        for k, s in (("panics", PANIC), ("undecided", UNDEC)):
            for c in r[k]:
                self.mark(c["regs"][0], s)
        if (self.status[self.dom] == NONE).any() or (self.status[~self.dom] != NONE).any():
            raise Broken(f"{self.name}: the analysis lost part of the input")

    def mark(self, reg, s):
        for l, h in reg:
            if (self.status[l:h + 1] != NONE).any():
                # two outcomes for one input: only possible after giving up on part of a cell
                self.status[l:h + 1] = np.maximum(self.status[l:h + 1], s)
            else:
                self.status[l:h + 1] = s

    def decided(self):
        return self.status == OK

    def ints(self):
        a = np.full(N, -1, dtype=np.int64)
        for c in self.r["cells"]:
            if not word(c["out"], c["regs"][0], a):
                self.mark(c["regs"][0], UNDEC)
        return a

    def texts(self):
        """[(mask-free region, matrix)]: iterates (region, list of arrays (one per character) over that region)"""
        tmp = np.zeros(N, dtype=np.int64)
        for c in self.r["cells"]:
            reg = c["regs"][0]
            idx = np.concatenate([np.arange(l, h + 1) for l, h in reg])
            cols, ok = [], True
            for v in c["out"]["s"]:
                if not word(v, reg, tmp):
                    ok = False
                    break
                cols.append(tmp[idx].copy())
            if ok:
                yield idx, cols
            else:
                self.mark(reg, UNDEC)


def runs(idx):
    """[(lo, hi)] of a sorted index array"""
    idx = np.asarray(idx)
    if len(idx) == 0:
        return []
    cut = np.nonzero(np.diff(idx) != 1)[0]
    lo = np.concatenate([[idx[0]], idx[cut + 1]])
    hi = np.concatenate([idx[cut], [idx[-1]]])
    return [(int(a), int(b)) for a, b in zip(lo, hi)]


def show(rs, k=4):
    s = ", ".join(f"{a:04X}" if a == b else f"{a:04X}..{b:04X}" for a, b in rs[:k])
    return s + (f" and {len(rs) - k} more ranges" if len(rs) > k else "")


def seq(s):
    """a text for the reports; repetitions in a long one are counted"""
    s, out, i = [int(c) for c in s], [], 0
    while i < len(s):
        best = (1, 1)
        if len(s) > 24:
            for p in range(1, min(16, len(s) - i)):
                k = 1
                while s[i + k * p:i + k * p + p] == s[i:i + p]:
                    k += 1
                if k > 2 and k * p > best[0] * best[1]:
                    best = (p, k)
        p, k = best
        t = " ".join(f"{c:04X}" for c in s[i:i + p])
        out.append(t if k == 1 else f"({t})x{k}" if p > 1 else f"{t}x{k}")
        i += p * k
    return "<" + " ".join(out) + ">"


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level, technique):
        self.prop, self.level, self.technique = prop, level, technique
        self.obligations = self.discharged = self.undecided = 0
        self.found = []          # (key, text)
        self.samples, self.notes = [], []
        self.fns, self.stats = set(), {}
        self.extra = {}
        self.inputs = 0
        self.known = [k for k in known_findings() if k["property"] == prop]

    def saw(self, *results):
        for r in results:
            self.fns.update(r.get("local_functions", []))
            for k, v in r.get("stats", {}).items():
                if k in ("steps", "cells", "splits", "calls", "branches", "loads", "summaries"):
                    self.stats[k] = self.stats.get(k, 0) + v
            for u in r.get("undecided", []):
                self.note(f"undecided in {r['name']}: {u['msg']} at {u['at']} for {show([tuple(x) for x in u['regs'][0]]) if u['regs'] else ''}")

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(s)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, obligations, discharged):
        self.obligations += int(obligations)
        self.discharged += int(discharged)

    def cells(self, r, inputs, cells, right):
        """a result judged cell by cell: one obligation per cell, and one per set of inputs left undecided"""
        self.count(cells + len(r["panics"]) + len(r["undecided"]), right)
        self.inputs = self.inputs + inputs

    def violation(self, key, text):
        self.found.append((key, text))

    def finish(self, rule, assumptions=(), exhaustive=True):
        new = []
        hit = {}
        for key, text in self.found:
            k = next((k for k in self.known if k.get("key") == key and k["status"] == "known"), None)
            if k:
                hit.setdefault(key, text)
            else:
                new.append((key, text))
        for key, text in hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "explanation": rule,
                "obligations": self.obligations, "discharged": self.discharged,
                "undecided": max(0, self.obligations - self.discharged - 0) if not self.found else None,
                "exhaustive": bool(exhaustive and self.obligations == self.discharged),
                "checker_cmd": f"python3-vt checks/check.py {self.prop}",
                "trusted_base": ["rustc nightly front end (MIR construction)", "the abstract interpreter in /verif/engine",
                                 "the frozen Unicode 15.1.0 data in /verif/oracle and the definitions in checks/oracle.py"],
                "technique": self.technique,
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:60],
                "analysis": self.stats,
                "samples": self.samples or ["(none)"],
                "notes": self.notes,
                **({"inputs_covered": many(self.inputs)} if self.inputs else {}),
                **self.extra,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - T0, 2),
            "violations": len(new),
        }
        if ev["coverage"]["undecided"] is None:
            del ev["coverage"]["undecided"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        if not new:
            print(f"{self.prop}: held on everything analysed: {self.discharged} of {self.obligations} obligations, "
                  f"{len(self.fns)} functions, {ev['wall_s']} s")
            return 0
        rep = os.path.join(VERIF, "evidence", f"{self.prop}.violation.txt")
        with open(rep, "w") as f:
            for key, text in new:
                f.write(f"{key}: {text}\n")
        for key, text in new[:8]:
            print(f"  {key}: {text}")
        if len(new) > 8:
            print(f"  ... {len(new) - 8} more in {rep}")
        print(f"VIOLATION property={self.prop} replay={rep}")
        return 1


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                out.append(json.loads(l))
    return out


def incident(r, p):
    """one line about a panic the analyser found"""
    st = [s for s in p["stack"] if "seshat" in s or "::" not in s]
    return f"{p['msg']} at {p['at']}" + (f" via {' <- '.join(reversed(p['stack'][-6:]))}" if p["stack"] else "")


def inter(r, s):
    out = []
    for a, b in r:
        for c, d in s:
            l, h = max(a, c), min(b, d)
            if l <= h:
                out.append([l, h])
    return out


def inside(a, b, reg, i):
    """the part of a sorted region inside [a, b]; i: the first interval that ends at a or later"""
    while i < len(reg) and reg[i][0] <= b:
        yield max(a, reg[i][0]), min(b, reg[i][1])
        i += 1


def constant_cells(regs, outs):
    """splits a cell until every word in outs is a constant: yields (regs, [int or None])"""
    if all("c" in v or "u" in v or "ptr" in v for v in outs):
        yield regs, [v["c"] if "c" in v and "ptr" not in v else None for v in outs]
        return
    todo = [(regs, 0, [])]
    while todo:
        regs, i, got = todo.pop()
        if i == len(outs):
            yield regs, got
            continue
        v = outs[i]
        if "u" in v or "ptr" in v:
            todo.append((regs, i + 1, got + [None]))
        elif "c" in v:
            todo.append((regs, i + 1, got + [v["c"]]))
        else:
            by = {}
            reg = regs[v["f"]]
            ends = [h for _, h in reg]
            for p in v["p"]:
                for l, h in inside(p[0], p[1], reg, bisect.bisect_left(ends, p[0])):
                    if len(p) == 3:
                        by.setdefault(p[2], []).append([l, h])
                    else:
                        for x in range(l, h + 1):
                            by.setdefault(p[2] + p[3] * (x - p[0]), []).append([x, x])
            for val, r in by.items():
                todo.append((regs[:v["f"]] + [r] + regs[v["f"] + 1:], i + 1, got + [val]))
