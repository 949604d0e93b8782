#!/usr/bin/env python3
"""mkseed.py [id ...]: builds /verif/seeded/<id>/ from dev/seeds*.py and confirms it: the patch applies,
both build variants compile, the stable tests pass, the demonstration passes before and fails after,
and reports which checks catch it. Scratch copies live under /tmp."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
SEEDS = []
DROP = {"C16-wildcard-short-circuit", "C18-gradient-in-body-coords", "C19-distance-along-turned-normal", "C19-neighbour-turned-with-other", "C21-overlap-forgotten", "C33-static-body-with-a-shape"}  # change lines of the repairs only, or need what no caller can set
def S(id, prop, edits, needs, breaks, demo, imports="", tags=""):
    if id in DROP: return
    SEEDS.append(dict(tags=tags, id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports))
for f in sorted(glob.glob(here + "/seeds*.py")):
    exec(compile(open(f).read(), f, "exec"), {"S": S})
DEMO_SH = '''#!/bin/bash
# run in the repository: exit 0 when the demonstration passes
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout 60s .
'''
def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
ENVGO = ". /opt/vp/env.sh; "
def one(s, checks):
    d = os.path.join(root, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo)
        run("git checkout -q -- . && git clean -fdq", repo)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: %s: %d matches of %r" % (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        patch = run("git diff", repo).stdout
        open(d + "/patch.diff", "w").write(patch)
        imps = "".join('\t"%s"\n' % i for i in s["imports"].split())
        body = "package cp_test\n\nimport (\n\t\"testing\"\n%s\n\t\"github.com/jakecoffman/cp/v2\"\n)\n\nvar _ = cp.NewSpace\n\n%s\n" % (imps, s["demo"].strip())
        open(d + "/demo_test.go.txt", "w").write(body)
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("go test ", "go test -tags %s " % s["tags"]) if s["tags"] else DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = run(ENVGO + "go build ./... && go build -tags debug ./... && go test -count=1 .", repo)
        if r.returncode: return "%s: build/test: %s" % (s["id"], r.stdout[:800])
        r = run("bash %s/demo.sh" % d, repo)
        if r.returncode == 0: return "%s: demo passes with the patch" % s["id"]
        if "DEMO" not in r.stdout and "panic" not in r.stdout: return "%s: demo fails oddly: %s" % (s["id"], r.stdout[:800])
        r = run("git checkout -q -- . && bash %s/demo.sh" % d, repo)
        if r.returncode: return "%s: demo fails on unchanged: %s" % (s["id"], r.stdout[:800])
        run("git apply %s/patch.diff" % d, repo)
        caught = []
        for c in checks:
            r = run(ENVGO + root + "/bin/sa check " + c, "/verif", {"VERIF_REPO": repo, "VERIF_DIR": tmp, "GOFLAGS": "-mod=vendor"})
            if r.returncode: caught.append(c)
        ok = "CAUGHT" if s["prop"] in caught else "MISSED"
        return "%s (%s): %s by %s" % (s["id"], s["prop"], ok, ",".join(caught))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
allc = [c["property"] for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
todo = [s for s in SEEDS if not ids or s["id"] in ids]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(lambda s: one(s, allc if "-all" in sys.argv else [s["prop"]]), todo):
        print(r, flush=True)
