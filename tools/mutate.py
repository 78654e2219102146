#!/usr/bin/env python3
"""Runs the checks, scaled down, against small systematic changes to copies of the repository.

mutate.py OUT.jsonl [--sample PERCENT] [--workers N] [FILE...]

Each line of OUT says what became of one change: "build" (does not compile), the property
that noticed it, "tests" (only the repository's stable tests noticed it) or "SURVIVED".
Not a registered check: a tool to find what the checks miss.
"""
import argparse, json, os, random, shutil, subprocess, sys, threading, time, glob
REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run as R

ORDER = {
    "tokenizer/token.go": "C06 C03 C07 C15 C18 C14 C08",
    "tokenizer/tokenizer.go": "C01 C03 C05 C06 C09 C07 C21 C04 C02 C08",
    "tokenizer/tokenizer_option.go": "C21 C01 C07",
    "tokenizer/lattice/lattice.go": "C02 C05 C01 C09 C04 C03 C07 C06 C08",
    "tokenizer/lattice/node.go": "C09 C05 C06 C15",
    "tokenizer/lattice/mem/pool.go": "C20 C07 C08",
    "kagome.go": "C21 C15",
    "cmd/sentence/cmd.go": "C16 C21 C23",
    "cmd/server/cmd.go": "C22 C18 C21 C23",
    "cmd/server/api.go": "C18 C23",
    "cmd/server/demo.go": "C19 C23",
    "cmd/tokenize/cmd.go": "C15 C21 C23",
    "cmd/lattice/cmd.go": "C17 C24 C21 C23",
    "filter/pos.go": "C12 C13 C14", "filter/filter.go": "C13 C14", "filter/word.go": "C13 C14",
    "filter/feature.go": "C12 C13 C08", "filter/sentence_splitter.go": "C10 C11 C16",
    "filter/ja/loader.go": "C14", "filter/ja/filter.go": "C14 C08",
}


def sh(cmd, cwd, timeout=300, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or R.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        R.kill(p)
        return -99, ""


class Worker:
    def __init__(self, n, scale):
        self.dir = "/tmp/mw/%d" % n
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.repo = self.dir + "/repo"
        shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns(".git"))
        self.h = self.dir + "/harness"
        shutil.copytree(VERIF + "/harness", self.h)
        m = self.h + "/go.mod"
        s = open(m).read().replace("=> /repo", "=> " + self.repo)
        open(m, "w").write(s)
        self.scale = scale

    def checks(self, f):
        rc, o = sh(["go", "build", "./..."], self.repo)
        if rc:
            return "build"
        rc, o = sh(["go", "test", "-c", "-vet=off", "-o", self.dir + "/v.test", "."], self.h)
        if rc:
            return "build"
        sh(["go", "build", "-o", self.dir + "/kagome", "github.com/ikawaha/kagome/v2"], self.h)
        for prop in ORDER[f].split():
            out = self.dir + "/out"
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            extra = {"VERIF_KAGOME": self.dir + "/kagome", "VERIF_SCALE_PERCENT": str(self.scale), "VERIF_HANG_S": "60", "VERIF_BUDGET_S": "200", "GOMAXPROCS": "2", "GOMEMLIMIT": "4GiB"}
            ps = []
            for s in range(3):
                ps.append(R.start({"binary": self.dir + "/v.test", "seed": 7, "shard": s, "shards": 3, "tag": str(s)}, out, prop, "quick", extra))
            t = time.time()
            hit = None
            live = list(ps)
            while live and not hit:
                for p in list(live):
                    if p.poll() is not None:
                        live.remove(p)
                        if p.returncode != 0:
                            hit = "%s exit %d" % (prop, p.returncode)
                if time.time() - t > 400:
                    hit = prop + " timeout"
                time.sleep(0.05)
            for p in ps:
                R.kill(p)
            for x in glob.glob(out + "/fail.*.json"):
                hit = prop + " " + json.load(open(x))["check"]
            if hit:
                return hit
        return None

    def tests(self):
        want = {x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
        rc, pk = sh(["go", "list", "./..."], self.repo)
        pkgs = [p for p in pk.split() if not p.endswith("/v2/filter")]
        rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "120s"] + pkgs, self.repo)
        passed, failed = set(), set()
        def eat(o):
            for l in o.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if isinstance(e, dict) and e.get("Test") and e.get("Action") in ("pass", "fail"):
                    (passed if e["Action"] == "pass" else failed).add(e["Package"] + "/" + e["Test"])
        eat(o)
        sh(["go", "test", "-c", "-vet=off", "-o", self.dir + "/filter.test", "./filter"], self.repo)
        pre = "github.com/ikawaha/kagome/v2/filter"
        for t in sorted({x[len(pre) + 1:].split("/")[0] for x in want if x.startswith(pre + "/") and not x.startswith(pre + "/ja/")}):
            rc, o = sh(["go", "tool", "test2json", "-p", pre, self.dir + "/filter.test", "-test.v=test2json", "-test.timeout=20s", "-test.run", "^%s$" % t], self.repo + "/filter", 60)
            eat(o)
        return sorted(want - (passed - failed))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("files", nargs="*")
    ap.add_argument("--sample", type=int, default=100)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--scale", type=int, default=8)
    a = ap.parse_args()
    gen = "/tmp/mw.mutgen"
    subprocess.check_call(["go", "build", "-o", gen, "."], cwd=VERIF + "/tools/mutgen", env=R.env())
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            e = json.loads(l)
            done.add((e["file"], e["off"], e["end"], e["new"]))
    todo = []
    rnd = random.Random(1)
    for f in a.files or ORDER:
        for l in subprocess.check_output([gen, os.path.join(REPO, f)], text=True).splitlines():
            m = json.loads(l)
            m["file"] = f
            if (f, m["off"], m["end"], m["new"]) not in done and rnd.random() * 100 < a.sample:
                todo.append(m)
    rnd.shuffle(todo)
    print(len(todo), "changes")
    lock = threading.Lock()
    out = open(a.out, "a")

    def work(n):
        w = Worker(n, a.scale)
        if n == 0 and w.tests():
            print("the tests fail on the unchanged tree", w.tests())
            os._exit(1)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            p = os.path.join(w.repo, m["file"])
            src = open(os.path.join(REPO, m["file"]), "rb").read()
            open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
            try:
                r = w.checks(m["file"])
                if r is None:
                    t = w.tests()
                    r = "tests" if t else "SURVIVED"
            except Exception as e:
                r = "error %r" % e
            open(p, "wb").write(src)
            m["result"] = r
            with lock:
                out.write(json.dumps(m, ensure_ascii=False) + "\n")
                out.flush()
    ts = [threading.Thread(target=work, args=(n,)) for n in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree("/tmp/mw", ignore_errors=True)


main()
