"""C16 and C28: the same cases executed several times, by several processes or builds; their result logs are compared offline."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
/* the wall clock of this process is 41 years and some ahead */
#define SHIFT 1300000007L
int clock_gettime(clockid_t c, struct timespec *t) {
  static int (*f)(clockid_t, struct timespec *);
  if (!f) f = dlsym(RTLD_NEXT, "clock_gettime");
  int r = f(c, t);
  if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += SHIFT;
  return r;
}
time_t time(time_t *p) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; (void)z;
  return 0;
}
"""


def shim(m, d):
    c, so = os.path.join(d, "shim.c"), os.path.join(d, "shim.so")
    with open(c, "w") as f:
        f.write(SHIM)
    if subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, c, "-ldl"], capture_output=True).returncode != 0:
        raise m.NoAnswer("the clock shim cannot be compiled")
    return so


def replayable(line):
    f = line.split(" ")
    return f[0], [int(x) for x in f[3:]]


def pick(lines, n, seed):
    r = random.Random(seed)
    if len(lines) > n:
        lines = sorted(r.sample(lines, n))
    r.shuffle(lines)
    return lines


def tapes(m, name, exe, path, d, known, extra=(), env=None, cwd=None):
    log = os.path.join(d, f"log-{name}")
    try:
        r = subprocess.run([exe, "tapes", f"in={path}", f"log={log}", f"known={','.join(known)}", *extra], env=env, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True,
                           timeout=300 if m.TIER == "quick" else 7200)
    except subprocess.TimeoutExpired:
        raise m.NoAnswer(f"{name}: recorded cases did not finish")
    if r.returncode != 0:
        raise m.NoAnswer(f"{name}: recorded cases ended with {r.returncode}: {r.stderr.decode(errors='replace')[-1500:]}")
    return open(log).read().split("\n"), r.stdout, r.stderr


def first_difference(logs):
    """logs: name -> lines. -> (index, name, name) or None"""
    names = list(logs)
    a = logs[names[0]]
    for n in names[1:]:
        b = logs[n]
        if a != b:
            for i in range(max(len(a), len(b))):
                if i >= len(a) or i >= len(b) or a[i] != b[i]:
                    return i, names[0], n
    return None


def c16(m, d, known):
    deep = m.TIER == "thorough"
    exes = m.build_all(["all", "none"], d)
    so = shim(m, d)
    scratch = os.path.join(d, "elsewhere")
    os.makedirs(scratch)
    base = dict(os.environ)
    envs = {"plain": base,
            "shifted clock": dict(base, LD_PRELOAD=so, TZ="Pacific/Kiritimati", LANG="de_DE.UTF-8", HOME="/nonexistent", RUST_BACKTRACE="1"),
            "bare": {"PATH": "/nonexistent"}}
    reports, compared = {}, {}
    seen = {"stdout": 0, "stderr": 0, "processes": 0}

    def quiet(name, noise, texts=()):
        seen["processes"] += 1
        if noise[0] or noise[1]:
            raise m.Violation(f"{name}: parsing or serialising wrote to standard {'output' if noise[0] else 'error'}: {texts}",
                              {"property": "C16", "config": name, "workload": None, "tape": [], "message": "output written: " + str(texts), "seed": m.SEED, "tier": m.TIER})

    # fresh cases: the same seed in differently set up processes, in both configurations
    for cfg in ("all", "none"):
        scale = (0.4 if cfg == "all" else 0.15) * (0.5 if deep else 1)

        def one(k):
            name = list(envs)[k]
            sub = os.path.join(d, f"{cfg}{k}")
            os.makedirs(sub)
            with open(os.path.join(sub, "dict"), "w") as f:
                f.write(open(os.path.join(d, "dict")).read())
            return m.run_harness("C16", cfg, exes[cfg], sub, known, scale=scale, extra=[f"log={sub}/log"], env=envs[name])
        with ThreadPoolExecutor(len(envs)) as ex:
            reps = list(ex.map(one, range(len(envs))))
        logs = {}
        for k, name in enumerate(envs):
            sub = os.path.join(d, f"{cfg}{k}")
            quiet(f"{cfg}, {name}", reps[k]["noise"], [open(os.path.join(sub, f"{s}-{cfg}"), errors="replace").read()[:300] for s in ("stdout", "stderr")])
            logs[name] = open(os.path.join(sub, "log")).read().split("\n")
        reports[cfg] = reps[0]
        compared[f"{cfg} fresh"] = len(logs["plain"])
        x = first_difference(logs)
        if x:
            raise m.Violation(f"processes '{x[1]}' and '{x[2]}' disagree about the result of case {x[0]} of the same run (configuration {cfg})",
                              {"property": "C16", "config": cfg, "workload": None, "tape": [], "message": f"result {x[0]} differs between {x[1]} and {x[2]}", "seed": m.SEED, "tier": m.TIER})
        m.note(f"{cfg}: {len(logs['plain'])} results agree in {len(envs)} processes")
    # a guided corpus: recorded, then executed in other orders, on several threads, in differently set up processes
    tp = os.path.join(d, "tapes")
    m.run_harness("C16", "all", exes["all"], d, known, scale=(0.2 if not deep else 1), extra=[f"record={tp}"])
    lines = pick(open(tp).read().split("\n"), 6000 if not deep else 60000, m.SEED)
    with open(tp, "w") as f:
        f.write("\n".join(lines))
    ways = {"in order": ([], base, None), "reversed": (["reverse=1"], envs["shifted clock"], scratch), "on threads": (["threads=8"], envs["bare"], "/"), "alone": (["step=7", "from=3"], base, None)}
    with ThreadPoolExecutor(4) as ex:
        rs = dict(zip(ways, ex.map(lambda w: tapes(m, w.replace(" ", "-"), exes["all"], tp, d, known, ways[w][0], ways[w][1], ways[w][2]), ways)))
    logs = {}
    for w, (log, so_, se) in rs.items():
        quiet(w, (len(so_), len(se)), (so_[:300], se[:300]))
        logs[w] = log
    part = logs.pop("alone")
    bad = first_difference(logs)
    if not bad:
        for i in range(3, len(lines), 7):
            if part[i] != logs["in order"][i]:
                bad = (i, "in order", "alone")
                break
    if bad:
        w, t = replayable(lines[bad[0]])
        raise m.Violation(f"executing the recorded cases '{bad[1]}' and '{bad[2]}' gives different results for case {bad[0]}",
                          {"property": "C16", "config": "all", "workload": w, "tape": t, "message": f"case depends on what was executed around it ({bad[1]}, {bad[2]})", "seed": m.SEED, "tier": m.TIER})
    for i, l in enumerate(logs["in order"]):
        if l.startswith("bad "):
            w, t = replayable(lines[i])
            m.fail("C16", "all", w, t, l[4:])
    m.note(f"{len(lines)} recorded cases agree in {len(ways)} orders")
    return reports, {"comparisons": {"results_compared": compared, "recorded_cases": len(lines), "orders": list(ways), "processes_observed": seen["processes"], "process_set_ups": list(envs)}}


def c28(m, d, known):
    deep = m.TIER == "thorough"
    cfgs = ["all", "none", "mdns", "dnssec"]
    exes = m.build_all(cfgs, d)
    reports, logs = {}, {}

    def one(c):
        sub = os.path.join(d, c)
        os.makedirs(sub)
        with open(os.path.join(sub, "dict"), "w") as f:
            f.write(open(os.path.join(d, "dict")).read())
        return m.run_harness("C28", c, exes[c], sub, known, scale=0.4, extra=["common=1", f"log={sub}/log"])
    with ThreadPoolExecutor(4) as ex:
        reports = dict(zip(cfgs, ex.map(one, cfgs)))
    for c in cfgs:
        logs[c] = open(os.path.join(d, c, "log")).read().split("\n")
    x = first_difference(logs)
    fresh = len(logs["all"])
    if x:
        raise m.Violation(f"builds '{x[1]}' and '{x[2]}' disagree about result {x[0]} of the same run",
                          {"property": "C28", "config": x[2], "workload": None, "tape": [], "message": f"result {x[0]} differs between builds {x[1]} and {x[2]}", "seed": m.SEED, "tier": m.TIER})
    m.note(f"{fresh} results agree in {len(cfgs)} builds")
    lines = []
    for c in cfgs:
        tp = os.path.join(d, f"tapes-{c}")
        m.run_harness("C28", c, exes[c], d, known, scale=(0.1 if not deep else 0.5), extra=["common=1", f"record={tp}"])
        lines += pick(open(tp).read().split("\n"), 6000 if not deep else 60000, m.SEED)
    tp = os.path.join(d, "tapes")
    with open(tp, "w") as f:
        f.write("\n".join(lines))
    with ThreadPoolExecutor(4) as ex:
        logs = dict(zip(cfgs, (r[0] for r in ex.map(lambda c: tapes(m, c, exes[c], tp, d, known, ["common=1", "threads=2"]), cfgs))))
    x = first_difference(logs)
    if x:
        w, t = replayable(lines[x[0]])
        raise m.Violation(f"builds '{x[1]}' and '{x[2]}' disagree about case {x[0]} ({w})",
                          {"property": "C28", "config": x[2], "workload": w, "tape": t, "message": f"results differ between builds {x[1]} ({logs[x[1]][x[0]][:300]}) and {x[2]} ({logs[x[2]][x[0]][:300]})", "seed": m.SEED, "tier": m.TIER})
    m.note(f"{len(lines)} recorded cases agree in {len(cfgs)} builds")
    return reports, {"comparisons": {"builds": cfgs, "fresh_results_compared": fresh, "recorded_cases_compared": len(lines)}}
