#!/usr/bin/env python3
"""Front end of all checks: check.py <property> [--tier quick|thorough] [--seed N]

Builds the library from /repo's working tree (instrumented as the check needs
it), runs the monitored workload on all cores, confirms crashes and hangs in a
fresh process, matches what failed against known_findings.txt, writes
evidence/<property>.json.  Exit status: 0 held, 1 violation, 2 no verdict."""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, H)
from checks import CHECKS, CONFIGS     # noqa: E402


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs if ".git" not in d and "/_build" not in d)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "CPPFLAGS", "CC", "CXX", "CXXFLAGS")}
    e["LC_ALL"] = "C.UTF-8"
    return e


ALLOC = ["malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "free", "asprintf", "vasprintf"]
IO = ["read", "write", "writev", "epoll_wait"]


def build_lib(cfg, d):
    """library objects of /repo's current tree, built by its own cmake files"""
    c = CONFIGS[cfg]
    os.makedirs(d, exist_ok=True)
    env = clean_env()
    env["CC"] = "clang"
    env["CFLAGS"] = c["cflags"]
    env["LDFLAGS"] = c.get("ldflags", "")
    gui = c.get("gui", False)
    sh(["cmake", "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON",
        "-DBUILD_GTKTSM=" + ("ON" if gui else "OFF"), "-S", REPO, "-B", d], env=env)
    sh(["ninja", "-C", d] + c.get("targets", ["tsm_test"]), env=env)
    lib = os.path.join(d, "src/tsm/libtsm_test.a")
    out = os.path.join(d, "lib.a")
    if c.get("wrap", True):
        redirect(lib, out, ALLOC)
    else:
        shutil.copy(lib, out)
    return out


def redirect(src, dst, names):
    """make calls of these functions go to the monitor's versions"""
    cmd = ["objcopy"]
    for a in names:
        cmd += ["--redefine-sym", "%s=vt_%s" % (a, a)]
    sh(cmd + [src, dst])


def build_util(cfg, d):
    """the helpers that only exist as sources or headers, with the library's flags"""
    c = CONFIGS[cfg]
    os.makedirs(d, exist_ok=True)

    def one(src):
        obj = os.path.join(d, os.path.basename(src) + ".o")
        sh(["clang", "-std=gnu11", "-D_GNU_SOURCE", "-I" + REPO + "/src/tsm", "-I" + REPO + "/src/shared", "-I" + REPO + "/external"] +
           c["cflags"].split() + ["-c", src, "-o", obj], env=clean_env())
        redirect(obj, obj, ALLOC + IO)
        return obj
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, [REPO + "/src/shared/shl-ring.c", REPO + "/src/shared/shl-pty.c", os.path.join(H, "util_shim.c")]))


def gtk_flags(what):
    return sh(["pkg-config", what, "gtk+-3.0", "xkbcommon", "pangocairo"], env=clean_env()).split()


def build_gtk(cfg, d):
    """the example terminal's widget, with the library's flags"""
    os.makedirs(d, exist_ok=True)

    def one(n):
        obj = os.path.join(d, n + ".o")
        sh(["clang", "-std=gnu11", "-D_GNU_SOURCE", "-Wno-deprecated-declarations", "-I" + REPO + "/src/tsm", "-I" + REPO + "/src/shared", "-I" + REPO + "/src/gtktsm"] + gtk_flags("--cflags") +
           CONFIGS[cfg]["cflags"].split() + ["-fsanitize=float-cast-overflow", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-c", REPO + "/src/gtktsm/" + n, "-o", obj], env=clean_env())
        if n != "gtktsm-terminal.c":
            redirect(obj, obj, ["execve", "execv", "execvp", "execvpe", "gtktsm_terminal_fork"])
            sh(["objcopy", "--redefine-sym", "main=gtktsm_main", obj])
        return obj
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, ["gtktsm-terminal.c", "gtktsm.c", "gtktsm-app.c", "gtktsm-win.c"]))


def build_objs(d, names, flags):
    os.makedirs(d, exist_ok=True)

    def one(n):
        src = os.path.join(H, n)
        obj = os.path.join(d, n + ".o")
        cc = ["clang", "-std=gnu11"] if n.endswith(".c") else ["clang++", "-std=c++17"]
        sh(cc + ["-O2", "-g1", "-Wall", "-Wno-unused-function", "-I" + REPO + "/src/tsm", "-I" + REPO + "/src/shared",
                 "-I" + REPO + "/external", "-I" + REPO + "/external/wcwidth"] + flags + ["-c", src, "-o", obj], env=clean_env())
        return obj
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, names))


def build(cfg):
    c = CONFIGS[cfg]
    key = tree_hash([REPO + "/src", REPO + "/external", REPO + "/cmake", REPO + "/CMakeLists.txt", REPO + "/test", H, os.path.join(VERIF, "check.py")], cfg + json.dumps(c, sort_keys=True))
    d = os.path.join(BUILD, "%s-%s" % (cfg, key))
    exe = os.path.join(d, "tsmv")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + cfg), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(d)
            return exe
        # another run may still be using the build of another tree
        old = [os.path.join(BUILD, o) for o in os.listdir(BUILD) if o.startswith(cfg + "-")]
        for o in sorted(old, key=lambda o: os.stat(o).st_mtime, reverse=True)[2:]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        with ThreadPoolExecutor(2) as ex:
            fl = ex.submit(build_lib, cfg, tmp)
            hflags = c.get("hflags", []) + (gtk_flags("--cflags") + ["-I" + REPO + "/src/gtktsm", "-Wno-deprecated-declarations"] if c.get("gtk") else [])
            fo = ex.submit(build_objs, os.path.join(tmp, "h"), c["objs"], hflags)
            lib, objs = fl.result(), fo.result()
        if c.get("util"):
            objs += build_util(cfg, os.path.join(tmp, "u"))
        if c.get("gtk"):
            objs += build_gtk(cfg, os.path.join(tmp, "g"))
        link = c.get("link", "clang++")
        sh([link] + c.get("lflags", []) + objs + [lib] + [os.path.join(tmp, x) for x in c.get("extra", [])] +
           (gtk_flags("--libs") + ["-lm"] if c.get("gtk") else []) + ["-lpthread", "-lutil", "-o", os.path.join(tmp, "tsmv")], env=clean_env())
        os.rename(tmp, d)
    return exe


DICT = ""
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_signal_unsafe=0",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stats=0",
}


def crash_key(rc, err):
    m = re.search(r"SUMMARY: (\S+): (\S+)(?: \S*?([^/\s]+:\d+)(?::\d+)?)?(?: in (\S+))?", err)
    if m:
        fn = m.group(4) or ""
        if not fn:
            f = re.search(r"#\d+ 0x\S+ in (tsm_\w+|shl_\w+|\w+) ", err)
            fn = f.group(1) if f else ""
        m2 = re.search(r"runtime error: (.*)", err)
        what = re.sub(r"[0-9a-fx]{3,}|\d+", "N", m2.group(1))[:60] if m2 else m.group(2)
        return "sanitizer:%s:%s" % (what, fn)
    m = re.search(r"==\d+== ((?:Conditional|Use of|Syscall|Invalid|Uninit|Jump|Source and|Mismatched|Argument)[^\n]*)\n(?:==\d+==    (?:at|by) 0x\w+: (?!mem|str|__)(\w+))?", err)
    if m:
        return "memcheck:%s:%s" % (re.sub(r"\d+", "N", m.group(1))[:50], m.group(2) or "")
    if rc == 77:
        return "hang"
    if rc == 78:
        return "work"
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


def dictionary():
    """the numbers of the sources under test, for the generators (as fuzzers do)"""
    vals = {}
    for d in ("tsm", "shared", "gtktsm"):
        root = os.path.join(REPO, "src", d)
        for n in sorted(os.listdir(root)) if os.path.isdir(root) else []:
            if n.endswith((".c", ".h")) and "charsets" not in n:
                with open(os.path.join(root, n), errors="replace") as fh:
                    text = re.sub(r"/\*.*?\*/|//[^\n]*", " ", fh.read(), flags=re.S)
                for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]{0,3})(?![\w.])|'(.)'", text):
                    t = m.group(1)
                    v = ord(m.group(2)) if m.group(2) else int(t, 16) if t[:2] in ("0x", "0X") else int(t, 8) if t[0] == "0" and t.strip("01234567") == "" else int(t)
                    if v < 1 << 32:
                        vals[v] = 1
    f = os.path.join(BUILD, "dict-%s.txt" % hashlib.sha256(repr(sorted(vals)).encode()).hexdigest()[:12])
    if not os.path.exists(f):
        os.makedirs(BUILD, exist_ok=True)
        with open(f + ".%d" % os.getpid(), "w") as fh:
            fh.write("\n".join(map(str, sorted(vals))) + "\n")
        os.rename(f + ".%d" % os.getpid(), f)
    return f


def run_cmd(cmd, timeout, env=None):
    e = clean_env()
    e.update(SAN_ENV)
    e["TSM_DICT"] = DICT
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=BUILD)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", "wall-clock timeout"


def shrink_crash(exe, text, rc0, key, budget=120, deadline=90, env=None):
    """ddmin over the operation lines of a case that kills the process"""
    lines = text.splitlines()
    head = [x for x in lines if x.startswith("#") or x.startswith("@")]
    ops = [x for x in lines if x and x not in head]
    f = os.path.join(BUILD, "shrink-%d.txt" % os.getpid())
    t0 = time.time()
    chunk = max(1, len(ops) // 2)
    while budget > 0 and time.time() - t0 < deadline and rc0 != 77:
        i, any_ = 0, False
        while i < len(ops) and budget > 0 and time.time() - t0 < deadline:
            cand = ops[:i] + ops[i + chunk:]
            with open(f, "w") as fh:
                fh.write("\n".join(head + cand) + "\n")
            budget -= 1
            rc, _, err = run_cmd(exe + ["replay", f], 60, env)
            if rc not in (0, 1, 3, None) and crash_key(rc, err) == key:
                ops, any_ = cand, True
            else:
                i += chunk
        if chunk == 1 and not any_:
            break
        if not any_ or chunk > len(ops):
            chunk = max(1, chunk // 2)
    if os.path.exists(f):
        os.unlink(f)
    return "\n".join(head + ops) + "\n"


def run_stage(prop, st, seed, tier, jobs, res):
    exe = build(st["cfg"])
    cid = st.get("id", prop)
    env = st.get("env", {})
    prefix = CONFIGS[st["cfg"]].get("prefix", [])
    rc, out, err = run_cmd([exe, "count", cid, "--tier", tier], 60)
    if rc != 0:
        raise NoVerdict("cannot count cases of %s: %s" % (cid, err))
    total = int(out)
    if "scale" in st:
        total = max(1, int(total * st["scale"]))
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    stop = os.path.join(work, "stop")
    wall = 780 if tier == "quick" else 6 * 3600
    jobs = max(1, min(jobs, total, st.get("jobs", jobs)))

    def worker(k):
        start = k
        parts = []
        retried = set()
        while start < total:
            sf, of = os.path.join(work, "s%d" % k), os.path.join(work, "o%d" % k)
            for f in (sf, of):
                if os.path.exists(f):
                    os.unlink(f)
            rc, so, se = run_cmd(prefix + [exe, "run", cid, "--seed", str(seed), "--from", str(start), "--to", str(total), "--step", str(jobs),
                                  "--tier", tier, "--status", sf, "--out", of, "--stop", stop], wall, env)
            if rc == 0:
                with open(of, encoding="utf-8", errors="replace") as fh:
                    parts.append(json.load(fh))
                break
            if rc in (1, 3, None) or not os.path.exists(sf):
                raise NoVerdict("worker %d of %s: exit %s\n%s" % (k, cid, rc, se[-3000:]))
            idx = int(open(sf).read().split()[0])
            # confirm in a fresh process, with more time in case of a hang
            rc2, _, se2 = run_cmd(prefix + [exe, "run", cid, "--seed", str(seed), "--from", str(idx), "--to", str(idx + 1), "--tier", tier,
                                   "--shrink", "0", "--cpu", "60", "--out", of], 300, env)
            if rc2 == 0:
                with open(of, encoding="utf-8", errors="replace") as fh:
                    again = json.load(fh)
                if again["violations"]:     # died while the case was made smaller
                    parts.append(again)
                    open(stop, "w").close()
                    break
            if rc2 in (0, 1, 3, None):
                if idx in retried or rc2 in (1, 3, None):
                    raise NoVerdict("worker %d of %s died on case %d (%s) but not when repeated (%s)\n%s" % (k, cid, idx, rc, rc2, se[-3000:]))
                retried.add(idx)
                start = idx
                continue
            key = crash_key(rc2, se2)
            open(stop, "w").close()
            _, text, _ = run_cmd([exe, "gen", cid, "--seed", str(seed), "--index", str(idx), "--tier", tier], 60, env)
            if rc2 != 77:
                text = shrink_crash(prefix + [exe], text, rc2, key, env=env)
            msg = "the library hangs" if rc2 == 77 else "one call executes hundreds of millions of branches" if rc2 == 78 else "the process died (%s)" % key
            parts.append({"cases": idx // jobs + 1, "evals": 0, "more_states": 0, "edges_total": 0, "edges_hit": 0, "edges": "", "counters": {}, "states": [],
                          "samples": [], "violations": [{"index": idx, "key": key, "msg": msg, "case": text + "\n" + "\n".join("# " + x for x in se2[-4000:].splitlines()) + "\n"}]})
            break
        return parts

    try:
        with ThreadPoolExecutor(jobs) as ex:
            for parts in ex.map(worker, range(jobs)):
                for p in parts:
                    res["cases"] += p["cases"]
                    res["evals"] += p["evals"]
                    res["more"] += p["more_states"]
                    for k, v in p["counters"].items():
                        if k.startswith("max_"):
                            res["counters"][k] = max(res["counters"].get(k, 0), v)
                        else:
                            res["counters"][k] = res["counters"].get(k, 0) + v
                    res["states"].update((st["cfg"] + s for s in p["states"]) if st.get("own_states") else p["states"])
                    if p["edges_total"] and st["cfg"] in ("cov", "util"):
                        e = res["edges"].setdefault(st["cfg"], bytearray(p["edges_total"]))
                        for i, c in enumerate(p["edges"]):
                            if c == "1":
                                e[i] = 1
                    if len(res["samples"]) < 6:
                        res["samples"] += p["samples"][:2]
                    for v in p["violations"]:
                        v["stage"] = st
                        res["violations"].append(v)
        res["stages"].append({"build": st["cfg"], "what": CONFIGS[st["cfg"]]["what"], "cases": total})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ :: (.*)", line)
            if m:
                known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    if a.prop == "setup":       # everything the checks would build on their own
        for cfg in CONFIGS:
            build(cfg)
        return 0
    global DICT
    DICT = dictionary()
    spec = CHECKS[a.prop]
    res = {"cases": 0, "evals": 0, "more": 0, "counters": {}, "states": set(), "edges": {}, "samples": [], "violations": [], "stages": []}
    os.makedirs(BUILD, exist_ok=True)
    for st in spec["stages"]:
        if a.tier == "quick" and (st.get("thorough_only") or res["violations"]):
            continue
        if st["cfg"] == "exports":
            import exports
            work = os.path.join(BUILD, "exports-%d" % os.getpid())
            try:
                for key, msg, text in exports.run(REPO, work, sh, clean_env(), res):
                    res["violations"].append({"index": len(res["violations"]), "key": key, "msg": msg, "case": "# %s\n%s\n" % (msg, text), "stage": st})
            finally:
                shutil.rmtree(work, ignore_errors=True)
            res["stages"].append({"build": "exports", "what": "installed library, gcc and g++, linked and loaded by generated programs", "cases": 1})
            continue
        run_stage(a.prop, st, a.seed, a.tier, a.jobs, res)
    for need, least in spec.get("need", {}).items():
        if not res["violations"] and res["counters"].get(need, 0) < least:
            raise NoVerdict("the run observed only %d %s (needs %d): no verdict" % (res["counters"].get(need, 0), need, least))
    known = load_known()
    rdir = os.path.join(BUILD, "replay")
    nviol, seen_known = 0, set()
    for i, v in enumerate(res["violations"]):
        hitk = None
        for (p, key, rx, what) in known:
            if p == a.prop and key == v["key"] and re.search(rx, v["msg"] + "\n" + v["case"]):
                hitk = what
        if hitk:
            seen_known.add(hitk)
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d-%d.txt" % (a.prop, v["stage"]["cfg"], a.seed, v["index"]))
        with open(path, "w") as fh:
            fh.write(v["case"])
        nviol += 1
        if nviol <= 8:
            print("%s: %s" % (a.prop, v["msg"][:2000]))
            print("  replay with: %s/replay.sh %s %s" % (VERIF, v["stage"]["cfg"], path))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
    for (p, key, rx, what) in known:
        if p == a.prop:
            print("KNOWN-FINDING: property=%s %s%s" % (p, what, "" if what in seen_known else " (not reproduced by this run)"))
    edges = {k: {"hit": sum(e), "total": len(e)} for k, e in res["edges"].items()}
    cov = {"evaluations": res["cases"], "distinct_nontrivial": len(res["states"]) + res["more"], "rule": spec["rule"], "samples": res["samples"][:5] or ["(none: every worker stopped at a violation)"],
           "oracle_decisions": res["evals"], "observed": dict(sorted(res["counters"].items())), "stages": res["stages"]}
    if edges:
        cov["library_edges_executed"] = edges
    if spec.get("exhaustive"):
        cov["exhaustive"] = True
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s %s seed=%d: %d cases, %d oracle decisions, %d distinct states, %d violation(s), %.1f s" %
          (a.prop, a.tier, a.seed, res["cases"], res["evals"], cov["distinct_nontrivial"], nviol, time.time() - t0))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT: %s" % e, file=sys.stderr)
        sys.exit(2)
