#!/usr/bin/env python3
"""Decides one property of /repo's working tree by monitored execution.

  run.py PROP            (VERIF_TIER, VERIF_SEED from the environment)
  run.py replay FILE     runs a recorded violation again
  run.py setup           builds the harness once

Exit 0: held on everything observed; 1 and a VIOLATION line: broken; 2: no answer (build failure, the run observed
nothing, the harness itself failed).
"""
import json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
REPO = "/repo"
TARGET = "x86_64-unknown-linux-gnu"
FEATURES = {"all": "mdns,dnssec", "none": "", "mdns": "mdns", "dnssec": "dnssec"}
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T0 = time.time()

sys.path.insert(0, os.path.join(V, "tools"))
from rules import RULES, ASSUME  # noqa: E402


def note(s):
    print(f"[{time.time() - T0:6.1f}s] {s}", flush=True)


class NoAnswer(Exception):
    pass


def outdir(prop):
    d = os.path.join(V, "out", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---- dictionary ------------------------------------------------------------------------------------------
def dictionary(path):
    """Literals of the library's non-test code: raw material for the generators, never a verdict."""
    ints, strs = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            t = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
            t = t.split("#[cfg(test)]")[0]
            t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1)
                s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), s)
                s = s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\0", "\0").replace('\\"', '"').replace("\\\\", "\\")
                if 0 < len(s) <= 40:
                    strs.add(s.encode("utf-8", "replace"))
            t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', t)
            for m in re.finditer(r"b?'([^'\\])'", t):
                strs.add(m.group(1).encode())
                ints.add(ord(m.group(1)))
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)", t):
                try:
                    v = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    try:
                        v = int(m.group(1).replace("_", ""))
                    except ValueError:
                        continue
                if v < 2**63:
                    ints.add(v)
    with open(path, "w") as o:
        for i in sorted(ints):
            o.write(f"i {i}\n")
        for s in sorted(strs):
            o.write(f"s {s.hex()}\n")


# ---- builds ----------------------------------------------------------------------------------------------
def tdir(cfg):
    return os.path.join(V, "target", cfg)


def cargo_env(extra=None, wrap=True):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if wrap:
        e["RUSTC_WRAPPER"] = os.path.join(H, "rustc-wrap.sh")
    e.update(extra or {})
    return e


def sh(cmd, env, log, timeout):
    with open(log, "w") as o:
        try:
            return subprocess.run(cmd, cwd=H, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return -1


def invalidate(cfg):
    """Forces the library and the harness to be built anew: file times alone do not tell cargo that /repo changed.
    Knows the directory layouts of both toolchains' cargo."""
    for root, dirs, _ in os.walk(tdir(cfg)):
        for f in list(dirs):
            mine = f.startswith(("maybe-dns-", "harness-")) and os.path.basename(root) == ".fingerprint"
            if mine or (f in ("maybe-dns", "harness") and os.path.basename(root) == "build"):
                shutil.rmtree(os.path.join(root, f), ignore_errors=True)
                dirs.remove(f)
        if os.path.relpath(root, tdir(cfg)).count(os.sep) > 3:
            dirs.clear()


def build(cfg, d):
    """Builds the harness and the library in one configuration; returns the binary."""
    if cfg == "asan":
        cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--features", FEATURES["all"], "--target", TARGET, "--target-dir", tdir(cfg)]
        env = cargo_env({"RUSTFLAGS": "-Zsanitizer=address"}, wrap=False)
        exe = os.path.join(tdir(cfg), TARGET, "debug", "harness")
    else:
        cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", tdir(cfg)]
        if FEATURES[cfg]:
            cmd += ["--features", FEATURES[cfg]]
        env = cargo_env()
        exe = os.path.join(tdir(cfg), "debug", "harness")
    invalidate(cfg)
    log = os.path.join(d, f"build-{cfg}.log")
    rc = sh(cmd, env, log, 800)
    if rc != 0 or not os.path.exists(exe):
        tail = open(log, errors="replace").read()[-3000:]
        raise NoAnswer(f"build of configuration {cfg} failed ({rc}):\n{tail}")
    return exe


def build_all(cfgs, d):
    # /repo has no Cargo.lock of its own for path users; the harness's is used (--locked)
    with ThreadPoolExecutor(len(cfgs)) as ex:
        r = dict(zip(cfgs, ex.map(lambda c: build(c, d), cfgs)))
    note(f"built {', '.join(cfgs)}")
    return r


# ---- known findings --------------------------------------------------------------------------------------
def known_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'."""
    k = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                k.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return k


# ---- runs ------------------------------------------------------------------------------------------------
class Violation(Exception):
    def __init__(self, msg, rec):
        super().__init__(msg)
        self.rec = rec


def slots_of(d):
    res = []
    for f in sorted(os.listdir(d)):
        if not f.startswith("slot"):
            continue
        with open(os.path.join(d, f), "rb") as fh:
            b = fh.read(32)
            if len(b) < 32 or b[0:1] not in (b"R", b"S", b"M"):
                continue
            idx, seed, n = struct.unpack("<QQQ", b[8:32])
            tape = fh.read(8 * min(n, 1 << 22))
            res.append((b[0:1].decode(), idx, list(struct.unpack(f"<{len(tape) // 8}Q", tape[: len(tape) // 8 * 8]))))
    res.sort(key=lambda s: {"S": 0, "M": 0, "R": 1}[s[0]])
    return res


def workload_names(exe):
    r = subprocess.run([exe, "list"], capture_output=True, text=True, timeout=60)
    return r.stdout.split()


def replay(exe, workload, tape, d, known, timeout=120, env=None):
    """-> (reproduced, text)"""
    tp, op = os.path.join(d, "replay.tape"), os.path.join(d, "replay.out")
    with open(tp, "w") as f:
        f.write(" ".join(map(str, tape)))
    if os.path.exists(op):
        os.unlink(op)
    cmd = [exe, "replay", f"workload={workload}", f"tape={tp}", f"out={op}", f"dict={d}/dict", f"known={','.join(known)}"]
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, env=env)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        return True, f"does not finish within {timeout} s"
    text = open(op, errors="replace").read() if os.path.exists(op) else ""
    err = r.stderr.decode(errors="replace")
    if rc == 0:
        return False, ""
    if rc == 77:
        return True, "the work or memory budget of the case was exceeded"
    if rc < 0:
        return True, f"the process died with signal {-rc}: {tail(err, 1500)}"
    return rc in (1, 2), text or tail(err, 1500)


def fail(prop, cfg, workload, tape, msg):
    raise Violation(msg, {"property": prop, "config": cfg, "workload": workload, "tape": tape, "message": msg, "seed": SEED, "tier": TIER})


def run_harness(prop, cfg, exe, d, known, scale=1.0, extra=(), env=None, limit=None):
    """One monitored run. Returns the parsed report; raises Violation or NoAnswer."""
    sd = os.path.join(d, f"slots-{cfg}")
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    out = os.path.join(d, f"report-{cfg}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "run", prop, f"tier={TIER}", f"seed={SEED}", f"out={out}", f"slots={sd}", f"dict={d}/dict", f"known={','.join(known)}", f"scale={scale}", *extra]
    if limit:
        cmd.append(f"limit={limit}")
    t = time.time()
    lim = 600 if TIER == "quick" else 7200
    with open(os.path.join(d, f"stdout-{cfg}"), "wb") as so, open(os.path.join(d, f"stderr-{cfg}"), "wb") as se:
        try:
            rc = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, timeout=lim, env=env).returncode
        except subprocess.TimeoutExpired:
            rc = None
    err = open(os.path.join(d, f"stderr-{cfg}"), errors="replace").read()
    if rc in (0, 1, 2, 3) and os.path.exists(out):
        rep = json.load(open(out))
        rep["wall_s"] = round(time.time() - t, 1)
        rep["noise"] = os.path.getsize(os.path.join(d, f"stdout-{cfg}")), len(err)
        for f in rep["found"]:
            fail(prop, cfg, f["workload"], f["tape"], f["message"])
        if rc == 3 or rep["vacuous"]:
            raise NoAnswer(f"configuration {cfg} observed nothing for {rep['vacuous']}")
        if rc != 0:
            raise NoAnswer(f"harness ended with {rc}: {tail(err, 2000)}")
        shutil.rmtree(sd, ignore_errors=True)
        return rep
    # the process is gone or stuck: its last cases are in the slots
    if rc == -9:
        raise NoAnswer("the harness was killed")
    names = workload_names(exe)
    sl = slots_of(sd)
    for _, idx, tape in sl:
        if idx < len(names):
            again, text = replay(exe, names[idx], tape, d, known, env=env)
            if again:
                fail(prop, cfg, names[idx], tape, text)
    what = "did not finish" if rc is None else "exceeded its work or memory budget" if rc == 77 else f"died with signal {-rc}" if rc < 0 else f"ended with {rc}"
    if sl and rc is not None and (rc < 0 or rc == 77):
        fail(prop, cfg, names[sl[0][1]], sl[0][2], f"the process {what} in this case (not reproduced alone): {tail(err, 1500)}")
    raise NoAnswer(f"harness {what}: {tail(err, 2000)}")


def tail(err, n):
    """The telling part of what a process said: a sanitizer's report from its beginning, otherwise the end."""
    i = err.find("ERROR: AddressSanitizer")
    return err[i:i + n] if i >= 0 else err[-n:]


def evidence(prop, reports, extra=None, violations=0):
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "wall_s": round(time.time() - T0, 1), "violations": violations,
          "assumptions": ASSUME}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[prop], "samples": [], "configurations": {}}
    for cfg, r in reports.items():
        cov["evaluations"] += sum(w["evaluations"] for w in r["workloads"])
        cov["distinct_nontrivial"] += r["distinct"]
        for w in r["workloads"]:
            cov["samples"] += [f"{cfg}/{w['name']}: {s}" for s in w["samples"][:2]]
        cov["configurations"][cfg] = {
            "library_edges_reached": r["edges"], "library_edges_total": r["edges_total"], "wall_s": r["wall_s"], "known_finding_hits": r["known_hits"],
            "workloads": {w["name"]: {"evaluations": w["evaluations"], "distinct_nontrivial": w["distinct_nontrivial"], "guided_corpus": w["corpus"],
                                      "library_edges": w["edges"], "observed": w["counters"], "largest": w["maxima"]} for w in r["workloads"]}}
    cov["samples"] = cov["samples"][:12]
    if extra:
        cov["evaluations"] += extra.pop("evaluations", 0)
        cov["distinct_nontrivial"] += extra.pop("distinct_nontrivial", 0)
        cov["samples"] = extra.pop("samples", []) + cov["samples"]
        cov.update(extra)
    ev["coverage"] = cov
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


DNSSEC_ONLY = {"C20", "C21", "C23", "C24"}
# how much of the main configuration's workload the featureless build repeats
NONE_SCALE = 0.3


def check(prop):
    d = outdir(prop)
    dictionary(os.path.join(d, "dict"))
    kf = known_findings().get(prop, {})
    known = sorted(kf)
    reports, extra = {}, None
    try:
        if prop == "C15":
            from sanit import c15
            reports, extra = c15(sys.modules[__name__], d, known)
        elif prop == "C16":
            from multi import c16
            reports, extra = c16(sys.modules[__name__], d, known)
        elif prop == "C28":
            from multi import c28
            reports, extra = c28(sys.modules[__name__], d, known)
        else:
            cfgs = ["all"] if prop in DNSSEC_ONLY else ["all", "none"]
            exes = build_all(cfgs, d)
            for c in cfgs:
                reports[c] = run_harness(prop, c, exes[c], d, known, scale=1.0 if c == "all" else NONE_SCALE)
                note(f"configuration {c}: {sum(w['evaluations'] for w in reports[c]['workloads'])} cases, {reports[c]['distinct']} distinct, {reports[c]['edges']} edges of the library")
    except Violation as v:
        path = os.path.join(V, "out", "replay")
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(v.rec, f, indent=1)
        evidence(prop, reports, {"violation": {k: v.rec[k] for k in v.rec if k != "tape"}}, 1)
        print(str(v)[:4000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    except NoAnswer as e:
        print(f"NO ANSWER property={prop}: {e}", flush=True)
        return 2
    shown = set()
    for r in reports.values():
        for key, text in r["known"]:
            if key in kf and key not in shown:
                shown.add(key)
                print(f"KNOWN-FINDING: property={prop} {kf[key]} [{key}: {text}]", flush=True)
    evidence(prop, reports, extra)
    note(f"{prop} held on everything observed")
    return 0


def do_replay(path):
    rec = json.load(open(path))
    d = os.path.join(V, "out", "again")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    dictionary(os.path.join(d, "dict"))
    if not rec.get("workload") or rec["config"] not in FEATURES:
        print(json.dumps(rec, indent=1)[:4000])
        print("recorded outside a single harness case: run the check again to reproduce")
        return 2
    exe = build(rec["config"], d)
    again, text = replay(exe, rec["workload"], rec["tape"], d, sorted(known_findings().get(rec["property"], {})))
    print(text)
    print("reproduced" if again else "not reproduced")
    return 1 if again else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        d = outdir("setup")
        try:
            build_all(["all", "none"], d)
            build_all(["mdns", "dnssec", "asan"], d)
            from sanit import miri_setup
            miri_setup(sys.modules[__name__], d)
        except NoAnswer as e:
            print(e)
            return 2
        return 0
    if a[:1] == ["replay"]:
        return do_replay(a[1])
    if len(a) == 1 and a[0] in RULES:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
