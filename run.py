#!/usr/bin/env python3
"""Build what a check needs from /repo's working tree, run it, judge it.

usage: run.py <property id> [quick|thorough]     decide one property
       run.py --setup                            sanity of the tool chain
       run.py --build <driver> <san>             only build
Exit 0: held on everything explored (known findings are printed).
Exit 1: a VIOLATION line.  Exit 2: the check could not give an answer.
"""
import concurrent.futures
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from specs import CHECKS, DRIVERS  # noqa: E402

JOBS = os.cpu_count() or 4
BASE = ["-march=haswell", "-mno-avx512f", "-maes", "-mrdseed",
        
        "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "lib"), "-I" + REPO,
        "-w", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-pthread"]
SAN = {
    # one sanitizer family per build, every report fatal
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2"],
    # not used by any check: tools/cov.sh shows which code of the repository the workloads reach
    "cov": ["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}


class NoAnswer(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = sha(f.read())
        except OSError:
            _fh[p] = "-"
    return _fh[p]


INC = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
MAIN = re.compile(r"^\s*int\s+main\s*\(", re.M)


def resolve(inc, frm):
    for base in (os.path.dirname(frm), REPO):
        p = os.path.normpath(os.path.join(base, inc))
        if p.startswith(REPO + "/") and os.path.isfile(p):
            return p
    return None


def closure(srcs):
    """Repo .cpp files reachable: for every repo header included, the .cpp beside it."""
    seen, cpps, todo = set(), [], list(srcs)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        try:
            text = open(f, errors="replace").read()
        except OSError:
            continue
        for inc in INC.findall(text):
            p = resolve(inc, f)
            if not p:
                lp = os.path.normpath(os.path.join(os.path.dirname(f), inc))
                if lp.startswith(VERIF) and os.path.isfile(lp):
                    todo.append(lp)
                else:
                    lp = os.path.join(VERIF, "lib", inc)
                    if os.path.isfile(lp):
                        todo.append(lp)
                continue
            todo.append(p)
            c = os.path.splitext(p)[0] + ".cpp"
            if p.endswith((".h", ".hpp")) and os.path.isfile(c) and c not in cpps:
                if not MAIN.search(open(c, errors="replace").read()):
                    cpps.append(c)
                    todo.append(c)
    return cpps


def lib_sources(srcs):
    """lib/X.cpp for every lib/X.h that is included."""
    seen, out, todo = set(), [], list(srcs)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for inc in INC.findall(open(f, errors="replace").read()):
            own = os.path.normpath(os.path.join(os.path.dirname(f), inc))
            if own.startswith(os.path.join(VERIF, "drivers")) and os.path.isfile(own):
                todo.append(own)
                continue
            h = os.path.join(VERIF, "lib", inc)
            if os.path.isfile(h):
                todo.append(h)
                c = os.path.splitext(h)[0] + ".cpp"
                if os.path.isfile(c) and c not in out:
                    out.append(c)
                    todo.append(c)
    return out


def compile_one(src, flags, tag):
    cmd0 = ["clang++"] + flags
    cmdkey = sha(" ".join(cmd0 + [src]).encode())[:16]
    odir = os.path.join(BUILD, "obj", tag)
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, os.path.basename(src) + "." + cmdkey + ".o")
    meta = obj + ".deps"
    if os.path.isfile(obj) and os.path.isfile(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj, None
        except ValueError:
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd0 + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        return None, "compile %s failed:\n%s" % (src, r.stderr[-4000:])
    words = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: fhash(p) for p in words if p.startswith((REPO + "/", VERIF + "/"))}
    json.dump(deps, open(meta, "w"))
    return obj, None


def pch(flags, tag):
    """Precompiled system and stand-in headers (nothing of /repo)."""
    src = os.path.join(VERIF, "lib/pch.h")
    key = sha((" ".join(flags) + fhash(src)).encode())[:16]
    out = os.path.join(BUILD, "pch", "%s-%s.pch" % (tag, key))
    meta = out + ".deps"
    if os.path.isfile(out) and os.path.isfile(meta):
        deps = json.load(open(meta))
        if all(fhash(p) == h for p, h in deps.items()):
            return ["-include-pch", out], 1
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["clang++"] + flags + ["-x", "c++-header", "-MD", "-MF", tmp + ".d", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("pch: " + r.stderr[-2000:])
    words = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: fhash(p) for p in words if p.startswith(VERIF + "/")}
    os.unlink(tmp + ".d")
    os.replace(tmp, out)
    json.dump(deps, open(meta, "w"))
    return ["-include-pch", out], 1


def build(name, san):
    d = DRIVERS[name]
    std = d.get("std", "c++20")
    flags = ["-std=" + std] + BASE + SAN[san] + d.get("flags", [])
    if d.get("opt"):
        flags.append(d["opt"])
    stubhash = sha("".join(sorted(fhash(os.path.join(dp, f)) for dp, _, fn in os.walk(os.path.join(VERIF, "stubs")) for f in fn)).encode())[:10]
    flags.append("-DVF_STUBS=" + stubhash)
    flags += pch(flags, san)[0]
    own = [os.path.join(VERIF, s) for s in d["src"]] + [os.path.join(VERIF, "lib/vf.cpp"), os.path.join(VERIF, "stubs/folly_stub.cpp"), os.path.join(VERIF, "stubs/engine_stub.cpp")]
    own += [os.path.join(VERIF, s) for s in d.get("extra", [])]
    own += [s for s in lib_sources(own) if s not in own]
    repo_srcs = closure(own)
    for s in d.get("repo", []):
        p = os.path.join(REPO, s)
        if p not in repo_srcs and os.path.isfile(p):
            repo_srcs.append(p)
            repo_srcs += [x for x in closure([p]) if x not in repo_srcs]
    skip = d.get("skip", [])
    repo_srcs = [s for s in repo_srcs if not any(s.endswith(k) for k in skip)]
    with ThreadPoolExecutor(JOBS) as ex:
        # own sources first: they are the slow ones
        res = list(ex.map(lambda s: (s, *compile_one(s, flags, san)), own + repo_srcs))
    errs = [(s, e) for s, o, e in res if e]
    bad_own = [e for s, e in errs if s in own]
    if bad_own:
        raise NoAnswer("\n".join(bad_own))
    objs = [o for _, o, e in res if o]
    exe = os.path.join(BUILD, "bin", san, name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    libs = ["-lfmt", "-lcrypto", "-pthread"] + d.get("libs", [])
    sf = [f for f in SAN[san] if f.startswith(("-fsanitize", "-fno-sanitize", "-fprofile"))]
    # this property's own link output: runs of different checks may overlap
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["clang++"] + sf + objs + ["-o", tmp] + libs, capture_output=True, text=True)
    if r.returncode and "undefined reference" in r.stderr:
        # a source file that the include scan does not reach: offer all of them
        allc = []
        for root in ("fbpcf", "example"):
            for dp, dn, fn in os.walk(os.path.join(REPO, root)):
                if "/test" in dp:
                    continue
                for f in fn:
                    p = os.path.join(dp, f)
                    if f.endswith(".cpp") and p not in repo_srcs and not any(p.endswith(k) for k in skip) \
                            and not MAIN.search(open(p, errors="replace").read()):
                        allc.append(p)
        with ThreadPoolExecutor(JOBS) as ex:
            more = [o for o, e in ex.map(lambda s: compile_one(s, flags, san), allc) if o]
        ar = tmp + ".a"
        subprocess.run(["ar", "rcs", ar] + more, check=True)
        r = subprocess.run(["clang++"] + sf + objs + [ar, "-o", tmp] + libs, capture_output=True, text=True)
        os.unlink(ar)
    if r.returncode:
        raise NoAnswer("link %s failed:\n%s\n%s" % (name, "\n".join(e for _, e in errs)[-3000:], r.stderr[-4000:]))
    os.replace(tmp, exe)
    return exe, len(repo_srcs)


FRAME = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", re.M)
TFRAME = re.compile(r"^\s*#\d+ (.+?) (/\S+?):(\d+)", re.M)


def strip_fn(fn):
    fn = re.sub(r"<[^<>]*>", "", fn)
    while re.search(r"<[^<>]*>", fn):
        fn = re.sub(r"<[^<>]*>", "", fn)
    return re.sub(r"\(.*", "", fn).strip().split(" ")[-1]


def crash_key(err, rc):
    """A stable name for a crash: kind of report + first function of /repo on the stack."""
    where = ""
    m = re.search(r"^(/\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m:
        kind = "ubsan:" + re.sub(r"[^a-z]+", "-", re.sub(r"(0x[0-9a-f]+|'[^']*'|-?\d+)", "", m.group(3)))[:50].strip("-")
        if m.group(1).startswith(REPO):
            where = os.path.relpath(m.group(1), REPO)
    else:
        m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
        t = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
        if m:
            kind = "asan:" + m.group(1)
        elif t:
            kind = "tsan:" + t.group(1).replace(" ", "-")
        elif "VF-TERMINATE" in err:
            kind = "terminate:" + re.sub(r"[^\w]+", "-", re.search(r"VF-TERMINATE: (.*)", err).group(1))[:60]
        elif "Assertion '" in err and "__glibcxx_assert" in err or re.search(r"Assertion '.*' failed", err):
            kind = "assertion"
        elif rc == 72 or "VF-HANG" in err:
            kind = "hang"
        else:
            kind = "crash:rc%d" % rc
    fr = FRAME.findall(err) or TFRAME.findall(err)
    for fn, path, _ in fr:
        if path.startswith(REPO + "/"):
            return "%s:%s" % (kind, where or strip_fn(fn))
    return kind + (":" + where if where else "")


def run_driver(exe, tier, seed, out, timeout, extra_env):
    env = dict(os.environ)
    env.update(ENV)
    env.update(extra_env)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VF_OUT=out)
    if os.path.exists(out):
        os.unlink(out)
    errp = out + ".err"
    t0 = time.time()
    with open(errp, "wb") as ef:
        p = subprocess.Popen([exe], stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=BUILD, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = -999
    with open(errp, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 400000))
        err = f.read().decode(errors="replace")
    data = None
    if os.path.isfile(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    return rc, err, data, time.time() - t0


def known_findings():
    k = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                k.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return k


def check(pid, tier):
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    viol, runs, inconcl = [], [], []
    tot = dict(evaluations=0, distinct=0)
    counters, samples, current = {}, [], {}
    for run in spec["runs"]:
        if run.get("tier") and run["tier"] != tier:
            continue
        if "cmd" in run:  # a python driver
            label = run["label"]
            exe, nsrc = None, 0
        else:
            label = run["driver"] + "/" + run["san"]
            exe, nsrc = build(run["driver"], run["san"])
        timeout = run.get("timeout", 700 if tier == "quick" else 6 * 3600)
        env = dict(run.get("env", {}))
        env["VF_PROPERTY"] = pid
        env["VF_REPO"] = REPO
        tb = time.time()
        shards = run.get("shards", 1)
        cmd = exe or os.path.join(VERIF, run["cmd"])

        def one(shard):
            out = os.path.join(BUILD, "out-%s-%s-%d.json" % (pid, label.replace("/", "-"), shard))
            e = dict(env, VF_SHARD="%d/%d" % (shard, shards))
            to, attempt = timeout, 0
            while True:
                attempt += 1
                rc, err, data, dt = run_driver(cmd, run.get("counts", tier), seed, out, to, e)
                if rc in (-999, 72) and attempt == 1:
                    # a stall may be the machine's: only a stall that comes back counts
                    to = min(to, max(60, 780 - (time.time() - t0))) if tier == "quick" else to
                    continue
                return rc, err, data, dt, attempt

        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, range(shards)))
        for rc, err, data, dt, attempt in results:
            crashed = None
            if rc == -9:
                raise NoAnswer("%s was killed (memory?)" % label)
            if rc == 3:
                raise NoAnswer("%s: harness error\n%s" % (label, err[-2000:]))
            if rc != 0:
                crashed = crash_key(err, rc) if rc != -999 else "hang"
            if data is None and not crashed:
                raise NoAnswer("%s wrote no result (rc=%d)\n%s" % (label, rc, err[-2000:]))
            if data:
                for v in data["violations"]:
                    viol.append((v["key"], v["detail"], label))
                inconcl += data["inconclusive"]
                tot["evaluations"] += data["evaluations"]
                tot["distinct"] += data["distinct"]
                for k, v in data["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += data["samples"][:4]
                if not data["complete"] and not data["violations"] and not crashed:
                    raise NoAnswer("%s stopped early\n%s" % (label, err[-2000:]))
            if crashed:
                cur = re.findall(r"VF-CURRENT-CASE: (.*)", err)
                viol.append((crashed, "case: %s\n%s" % (cur[-1] if cur else "?", err[-6000:]), label))
        runs.append(dict(run=label, rc=max((r[0] for r in results), key=abs), processes=shards, seconds=round(max(r[3] for r in results), 1),
                         build_and_run_s=round(time.time() - tb, 1), attempts=max(r[4] for r in results)))
    known = known_findings().get(pid, {})
    new, old = [], {}
    for key, detail, label in viol:
        if key in known:
            old.setdefault(key, []).append((detail, label))
        else:
            new.append((key, detail, label))
    for key in sorted(old):
        print("KNOWN-FINDING: property=%s key=%s %s" % (pid, key, known[key]))
    wall = round(time.time() - t0, 2)
    need = spec.get("min_events", {})
    if not new:
        for k, m in need.items():
            if counters.get(k, 0) < m:
                raise NoAnswer("too few %s observed: %d < %d" % (k, counters.get(k, 0), m))
        if inconcl and tot["evaluations"] and len(inconcl) * 2 > tot["evaluations"]:
            raise NoAnswer("mostly inconclusive: %s" % inconcl[:3])
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=spec["rule"],
                      samples=samples[:8], observed=counters, runs=runs, inconclusive=inconcl[:10],
                      known_findings_seen=sorted(old)),
        assumptions=spec.get("assumptions", []), wall_s=wall, violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-seed%d-%s.json" % (pid, seed, tier))
        json.dump(dict(property=pid, seed=seed, tier=tier, command="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s %s" % (seed, tier, pid, tier),
                       violations=[dict(key=k, detail=d, run=l) for k, d, l in new[:20]]), open(rp, "w"), indent=1)
        for k, d, l in new[:5]:
            print("  %s [%s] %s" % (k, l, d[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, tot["evaluations"], tot["distinct"], wall))
    return 0


def main():
    if sys.argv[1] == "--setup":
        for tool in ("clang++", "ar"):
            if not shutil.which(tool):
                print("missing " + tool)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ready")
        return 0
    if sys.argv[1] == "--build":
        t = time.time()
        try:
            print(build(sys.argv[2], sys.argv[3]), round(time.time() - t, 1), "s")
        except NoAnswer as e:
            print(e)
            return 2
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else (os.environ.get("VERIF_TIER") or "quick")
    try:
        return check(pid, tier)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
