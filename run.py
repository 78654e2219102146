#!/usr/bin/env python3
"""Decide one property: run.py C01 [--tier quick|thorough] | run.py --replay FILE

Builds the harness against /repo's working tree in a scratch directory, runs the
property's generated cases in parallel shards, merges the counts into
evidence/<id>.json and reports.

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check could not give an answer (build failure, lost worker, ...)
"""
import argparse, json, os, shutil, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
# the repository that the harness is built against
REPO = open(os.path.join(HARNESS, "go.mod")).read().split("github.com/ikawaha/kagome/v2 => ")[1].split()[0]
RACE = {"C08", "C20"}          # built with the race detector
# sub-checks that are also run with the race detector
RACE_ALSO = {"C18": "parallel requests", "C19": "parallel pages"}
# sub-checks that the thorough tier also drives with Go's coverage-guided fuzzer
FUZZ = {
    "C01": ["generated dictionaries", "real dictionaries"], "C02": ["generated dictionaries", "search penalties"], "C03": ["generated dictionaries"],
    "C04": ["generated dictionaries"], "C05": ["generated dictionaries"], "C06": ["generated dictionaries", "feature lists"],
    "C07": ["generated dictionaries"], "C09": ["generated dictionaries", "hostile text"], "C10": ["splitter settings"], "C11": ["chopped reads"],
    "C12": ["patterns"], "C13": ["generated dictionaries"], "C14": ["generated dictionaries"], "C17": ["IPA"],
    "C21": ["tokenize options", "tokenizer options"], "C28": ["generated dictionaries"], "C29": ["features filters"],
}
LEVEL = {p: "exploration" for p in ["C%02d" % i for i in range(1, 40)]}


def env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    e.update(extra or {})
    return e


def findings(prop):
    """The listed findings of a property: (key, text)."""
    import re
    ret = []
    with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) \[(.*?)\] (.*)", l)
            if m and m.group(1) == prop:
                ret.append((m.group(2), m.group(3)))
    return ret


class NoAnswer(Exception):
    pass


def build(work, race):
    src = os.path.join(work, "src")
    shutil.copytree(HARNESS, src)
    out = os.path.join(work, "verif.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=src, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("build failed:\n" + r.stdout[-4000:])
    return out


def build_kagome(work):
    out = os.path.join(work, "kagome")
    r = subprocess.run(["go", "build", "-o", out, "github.com/ikawaha/kagome/v2"], cwd=os.path.join(work, "src"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("build of kagome failed:\n" + r.stdout[-4000:])
    return out


# the part of the harness that the worker program of C26 consists of
WORKER = ["core_test.go", "gen_test.go", "ref_test.go", "big_test.go", "worker_test.go", "dot_test.go", "c01_c05_test.go", "race_off_test.go", "go.mod", "go.sum"]


def build_workers(work):
    """Worker programs for other platforms: (environment, what does not build there)."""
    src = os.path.join(work, "worker")
    os.makedirs(src)
    for f in WORKER:
        shutil.copy(os.path.join(HARNESS, f), src)
    shutil.copytree(os.path.join(HARNESS, "data"), os.path.join(src, "data"))
    goroot = subprocess.run(["go", "env", "GOROOT"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    node, script = shutil.which("node", path=env()["PATH"]), os.path.join(goroot, "lib", "wasm", "wasm_exec_node.js")
    platforms = [("386", {"GOOS": "linux", "GOARCH": "386"}, [])]
    if node and os.path.exists(script):
        platforms.append(("wasm", {"GOOS": "js", "GOARCH": "wasm"}, [node, "--stack-size=8192", script]))
    extra = {}
    for name, e, prefix in platforms:
        e["CGO_ENABLED"] = "0"
        out = os.path.join(work, "worker." + name)
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out, "."], cwd=src, env=env(e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            l = subprocess.run(["go", "build", "github.com/ikawaha/kagome/v2/tokenizer/...", "github.com/ikawaha/kagome/v2/filter/..."],
                               cwd=src, env=env(e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if l.returncode != 0 and "/repo/" in l.stdout or "../repo" in l.stdout:
                return extra, "the library builds here, but not on %s:\n%s" % (name, l.stdout[-3000:])
            raise NoAnswer("build of the worker for %s failed:\n%s" % (name, r.stdout[-3000:]))
        extra["VERIF_WORKER_" + name] = "\t".join(prefix + [out])
    return extra, None


def build_browser(work):
    """The commands that show the demo pages, see harness/data/page.js."""
    src = os.path.join(work, "src", "wasmdemo")
    os.makedirs(src)
    shutil.copy(os.path.join(REPO, "_examples/wasm/main.go"), src)
    goroot = subprocess.run(["go", "env", "GOROOT"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    node, glue = shutil.which("node", path=env()["PATH"]), os.path.join(goroot, "lib", "wasm", "wasm_exec.js")
    if not node or not os.path.exists(glue):
        raise NoAnswer("no node or no wasm_exec.js")
    out = os.path.join(work, "kagome.wasm")
    r = subprocess.run(["go", "build", "-o", out, "./wasmdemo"], cwd=os.path.join(work, "src"), env=env({"GOOS": "js", "GOARCH": "wasm", "CGO_ENABLED": "0"}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("build of the browser program failed:\n" + r.stdout[-3000:])
    page = os.path.join(work, "src", "data", "page.js")
    return {"VERIF_REPO": REPO, "VERIF_BROWSER_server": "\t".join([node, page]),
            "VERIF_BROWSER_wasm": "\t".join([node, "--stack-size=8192", page, glue, out])}


def start(job, out, prop, tier, extra=None):
    tag = job["tag"]
    scratch = os.path.join(out, "cwd." + tag)
    os.makedirs(scratch, exist_ok=True)
    e = env({"VERIF_PROPERTY": prop, "VERIF_TIER": tier, "VERIF_SEED": str(job["seed"]),
             "VERIF_SHARD": str(job["shard"]), "VERIF_SHARDS": str(job["shards"]), "VERIF_TAG": tag, "VERIF_OUT": out, "VERIF_SCRATCH": scratch,
             "GOMAXPROCS": os.environ.get("GOMAXPROCS", "4" if prop in RACE else "2"),
             "GORACE": "halt_on_error=0 exitcode=66 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + os.path.join(out, "race." + tag)})
    if tier == "thorough":
        e.setdefault("VERIF_BUDGET_S", "1500")
    e.update(extra or {})
    e.update(job.get("env", {}))
    log = open(os.path.join(out, "log." + tag), "w")
    return subprocess.Popen([job["binary"], "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=scratch,
                            env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def fuzz(prop, seed, work, binary, out, extra):
    """Runs the fuzzer on the sub-checks of the property: (failure or None, executions by sub-check)."""
    import glob, re
    src, fuzzer = os.path.join(work, "src"), os.path.join(work, "fuzz.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=FuzzVerif", "-o", fuzzer, "."], cwd=src, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("build of the fuzzer failed:\n" + r.stdout[-3000:])
    execs, seconds = {}, int(os.environ.get("VERIF_FUZZ_S", "180"))
    for i, name in enumerate(FUZZ[prop]):
        tag = "f%d" % i
        cwd = os.path.join(out, "cwd." + tag)
        os.makedirs(cwd)
        e = env({"VERIF_PROPERTY": prop, "VERIF_ONLY": name, "VERIF_SEED": str(seed), "VERIF_OUT": out, "VERIF_SCRATCH": cwd, "VERIF_TAG": tag})
        e.update(extra)
        cmd = [fuzzer, "-test.fuzz=FuzzVerif", "-test.run", "^$", "-test.fuzztime=%ds" % seconds, "-test.fuzzminimizetime=1x",
               "-test.parallel", str(len(os.sched_getaffinity(0))), "-test.fuzzcachedir=" + os.path.join(work, "cache." + tag)]
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            o, _ = p.communicate(timeout=seconds + 300)
        except subprocess.TimeoutExpired:
            kill(p)
            o = ""
        n = re.findall(r"execs: (\d+)", o)
        execs[name] = int(n[-1]) if n else 0
        if p.returncode == 0:
            continue
        cases = sorted(glob.glob(os.path.join(out, "fuzzfail.%s.*.json" % tag)), key=os.path.getmtime, reverse=True)
        if not cases:  # a worker died: look for the input it died of
            e["VERIF_RECORD"] = "1"
            subprocess.run([fuzzer, "-test.run", "FuzzVerif"], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            cases = glob.glob(os.path.join(out, "record.%s.json" % tag))
        for c in cases:
            if replay_once(binary, out, c, 300, extra)[0] in ("fails", "died"):
                return load(c), execs
    return None, execs


def kill(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def load(path):
    with open(path) as f:
        return json.load(f)


def races(out, tag):
    import glob
    txt = ""
    for p in sorted(glob.glob(os.path.join(out, "race.%s.*" % tag))):
        txt += tail(p, 6000)
    return txt if "DATA RACE" in txt else ""


def crashed_in_repo(log):
    """The Go runtime ended the process, in or because of code of the repository."""
    if "out of memory" in log or "cannot allocate" in log:
        return False
    return ("\nfatal error: concurrent map" in "\n" + log or "\nfatal error: all goroutines are asleep" in "\n" + log
            or ("\npanic: " in "\n" + log and "/repo/" in log.split("panic: ", 1)[1][:3000])
            or ("\nfatal error: " in "\n" + log and "/repo/" in log.split("fatal error: ", 1)[1][:3000]))


def replay_once(binary, out, path, timeout, extra=None):
    scratch = os.path.join(out, "cwd.replay")
    os.makedirs(scratch, exist_ok=True)
    e = env({"VERIF_REPLAY": path, "VERIF_OUT": out, "VERIF_SCRATCH": scratch, "VERIF_HANG_S": str(timeout + 60)})
    e.update(extra or {})
    p = subprocess.Popen([binary, "-test.run", "^TestReplay$", "-test.timeout", "0", "-test.v"], cwd=scratch, env=e,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", ""
    if "REPLAY-OK" in o and p.returncode == 0:
        return "ok", o
    if "REPLAY-FAILS" in o or "DATA RACE" in o:
        return "fails", o
    return "died", o


def save_replay(prop, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, int(time.time() * 1000)))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
    return path


def run(prop, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    failure = None
    try:
        binary = build(work, prop in RACE)
        plain = build(os.path.join(work, "plain"), False) if prop in RACE else None
        out = os.path.join(work, "out")
        os.makedirs(out)
        extra = {"VERIF_KNOWN": "\n".join(k for k, _ in findings(prop))}
        if prop in ("C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24"):
            extra["VERIF_KAGOME"] = build_kagome(work)
        if prop == "C30":
            extra.update(build_browser(work))
        if prop == "C26":
            workers, broken = build_workers(work)
            extra.update(workers)
            if broken:
                failure = {"property": prop, "check": "build", "error": broken, "case": None}
        built = time.time() - t0
        cpus = len(os.sched_getaffinity(0))
        shards = max(1, min(int(os.environ.get("VERIF_PROCS", "4" if prop in RACE else "8")), cpus))
        jobs = [{"binary": binary, "seed": seed, "shard": s, "shards": shards, "tag": str(s)} for s in range(shards)]
        if plain:  # other cases, at full speed and with the pools behaving as they do without the detector
            jobs += [{"binary": plain, "seed": seed + 1000003, "shard": s, "shards": shards, "tag": "p%d" % s} for s in range(shards)]
        if prop in RACE_ALSO:
            raced = build(os.path.join(work, "race"), True)
            jobs += [{"binary": raced, "seed": seed + 1000003, "shard": s, "shards": 2, "tag": "r%d" % s,
                      "env": {"VERIF_ONLY": RACE_ALSO[prop], "VERIF_SCALE_PERCENT": "25", "GOMAXPROCS": "4"}} for s in range(2)]
        procs = [(j, start(j, out, prop, tier, extra)) for j in jobs] if failure is None else []
        errors = []
        while procs and failure is None:
            for j, p in list(procs):
                rc = p.poll()
                if rc is None:
                    continue
                procs.remove((j, p))
                tag = j["tag"]
                fail = os.path.join(out, "fail.%s.json" % tag)
                hang = os.path.join(out, "hang.%s.json" % tag)
                log = os.path.join(out, "log." + tag)
                race = races(out, tag)
                if os.path.exists(fail):
                    failure = load(fail)
                elif race:
                    failure = {"property": prop, "check": "race detector", "error": race, "case": None}
                elif os.path.exists(hang):
                    f = load(hang)
                    if replay_once(j["binary"], out, hang, 300, extra)[0] == "hang":
                        failure = f
                    else:
                        errors.append("shard %s: a case took too long, but finished when run alone" % tag)
                elif rc != 0:
                    # The process died (fatal error of the runtime, out of memory, ...). Find the
                    # case by running the shard again, recording each case before it runs.
                    first = tail(log, 20000)
                    e = dict(extra); e["VERIF_RECORD"] = "1"
                    q = start(j, out, prop, tier, e)
                    try:
                        rc2 = q.wait(timeout=400)
                    except subprocess.TimeoutExpired:
                        kill(q); rc2 = 0
                    rec = os.path.join(out, "record.%s.json" % tag)
                    if rc2 not in (0, -9) and os.path.exists(rec) and not os.path.exists(fail) \
                            and replay_once(j["binary"], out, rec, 300, extra)[0] in ("died", "fails"):
                        failure = load(rec)
                        failure["error"] += "\n" + tail(log)
                    elif crashed_in_repo(first):
                        # not repeatable alone: it takes a particular schedule
                        failure = {"property": prop, "check": "process", "error": first, "case": None}
                    else:
                        errors.append("shard %s died (exit %d):\n%s" % (tag, rc, first[-3000:]))
                if failure:
                    break
            time.sleep(0.05)
        for _, p in procs:
            kill(p)
        if failure is None and errors:
            raise NoAnswer("\n".join(errors))
        execs = None
        if failure is None and tier == "thorough" and prop in FUZZ:
            failure, execs = fuzz(prop, seed, work, binary, out, extra)
        evidence(prop, tier, seed, out, t0, built, [j["tag"] for j in jobs], failure, execs)
        for _, text in findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if failure:
            path = save_replay(prop, failure)
            print("property %s, check %s:\n%s" % (prop, failure["check"], failure["error"][:3000]))
            print("case: %s" % json.dumps(failure["case"], ensure_ascii=False)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, seed, out, t0, built, tags, failure, execs=None):
    subs, hashes = {}, set()
    for s in tags:
        p = os.path.join(out, "stats.%s.json" % s)
        if not os.path.exists(p):
            continue
        for st in load(p) or []:
            a = subs.setdefault(st["name"], {"evaluations": 0, "nontrivial": 0, "batches": 0, "batches_skipped": 0, "labels": {}, "samples": []})
            for k in ("evaluations", "nontrivial", "batches", "batches_skipped"):
                a[k] += st[k]
            for k, v in (st["labels"] or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            a["samples"] += (st["samples"] or [])
        try:
            with open(os.path.join(out, "hashes.%s" % s), "rb") as f:
                b = f.read()
        except OSError:
            continue
        b = b[:len(b) // 8 * 8]
        hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    samples = []
    for name, a in sorted(subs.items()):
        for x in sorted(a.pop("samples"), key=lambda x: len(json.dumps(x)))[:2]:
            samples.append({"check": name, "case": x})
    rules = load(os.path.join(ROOT, "rules.json"))
    cov = {"evaluations": sum(a["evaluations"] for a in subs.values()), "distinct_nontrivial": len(hashes),
           "rule": rules[prop], "samples": samples, "checks": subs, "shards": len(tags), "build_s": round(built, 1)}
    if execs is not None:
        cov["fuzzer_executions"] = execs
    if failure:
        cov["failing_case"] = failure
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL[prop], "coverage": cov,
          "assumptions": rules.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (prop, tier, seed, cov["evaluations"], len(hashes), ev["wall_s"]))


def replay(path):
    f = load(path)
    prop = f["property"]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(work, prop in RACE)
        out = os.path.join(work, "out")
        os.makedirs(out)
        extra = {"VERIF_REPEAT": "20" if prop in RACE else "1"}
        if prop in ("C15", "C16", "C17", "C18", "C19", "C21", "C22", "C24"):
            extra["VERIF_KAGOME"] = build_kagome(work)
        if prop == "C26":
            extra.update(build_workers(work)[0])
        if prop == "C30":
            extra.update(build_browser(work))
        extra["VERIF_KNOWN"] = "\n".join(k for k, _ in findings(prop))
        if f.get("case") is None:
            print(f["error"])
            raise NoAnswer("this failure has no single case; run the check again")
        st, o = replay_once(binary, out, os.path.abspath(path), 400, extra)
        print(o[-4000:])
        if st == "ok":
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true", help="only build, to see that it can be done")
    a = ap.parse_args()
    try:
        if a.build:
            work = tempfile.mkdtemp(prefix="verif-build-")
            try:
                build(work, False), build(work + "/r", True), build_kagome(work), build_workers(work), build_browser(work)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            return 0
        if a.replay:
            return replay(a.replay)
        tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return run(a.property, tier, seed)
    except NoAnswer as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
