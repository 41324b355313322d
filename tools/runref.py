#!/usr/bin/env python3
"""Runs the checks on rewrites that keep the behaviour (tools/refactors*.py).

usage: runref.py [-p PROPS] [name...]
Each rewrite is applied to a scratch copy of /repo, built, tested, and put
through every check; anything but silence is reported.
"""
import glob, importlib.util, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, COPY, GOEXV = "/repo", "/tmp/ref%d" % os.getpid(), os.environ.get("GOEXV", "/tmp/goexv")
PROPS = ",".join("P%02d" % i for i in range(1, 36))
args = sys.argv[1:]
if args[:1] == ["-p"]:
    PROPS, args = args[1], args[2:]
refs = {}

def R(name, *edits):
    assert name not in refs, name
    refs[name] = edits

def E(file, old, new):
    def f(src):
        assert old in src, "not found in %s: %s" % (file, old)
        return src.replace(old, new)
    return file, f

def F(file, head, new):
    """Replaces the function whose declaration starts with head."""
    def f(src):
        i = src.find("\nfunc " + head)
        assert i >= 0, "no function %s in %s" % (head, file)
        j = src.index("\n}\n", i) + 3
        return src[:i + 1] + new.strip() + "\n" + src[j:]
    return file, f

def A(file, text):
    return file, lambda src: src.rstrip() + "\n\n" + text.strip() + "\n"

def I(file, *imps):
    """Adds imports; goimports drops what is unused."""
    def f(src):
        for m in imps:
            if '"%s"' % m not in src:
                if "import (" in src:
                    src = src.replace("import (", 'import (\n\t"%s"' % m, 1)
                else:
                    src = re.sub(r"(?m)^(package \w+)$", r'\1\n\nimport (\n\t"%s"\n)' % m, src, count=1)
        return src
    return file, f

def new(file, text):
    return file, lambda src: text.strip() + "\n"

for p in sorted(glob.glob(HERE + "/refactors*.py")):
    exec(open(p).read())

def run():
    bad = 0
    for name, edits in refs.items():
        if args and not any(re.fullmatch(a, name) for a in args):
            continue
        shutil.rmtree(COPY, ignore_errors=True)
        shutil.copytree(REPO, COPY, symlinks=True)
        try:
            for file, f in edits:
                p = os.path.join(COPY, file)
                src = open(p).read() if os.path.exists(p) else ""
                src = f(src)
                open(p, "w").write(src)
            files = [os.path.join(COPY, f) for f in {f for f, _ in edits}]
            subprocess.run(["goimports", "-w"] + files, check=False)
        except AssertionError as e:
            print("BROKEN", name, e); bad += 1; continue
        b = subprocess.run("go vet ./cnf ./query/... ./compute", shell=True, cwd=COPY, capture_output=True, text=True)
        if b.returncode:
            print("BROKEN", name, b.stderr[:600]); bad += 1; continue
        t = subprocess.run("bash /verif/tools/reftest.sh " + COPY, shell=True, capture_output=True, text=True)
        if t.returncode:
            print("BROKEN", name, "tests", t.stdout[-400:], t.stderr[-200:]); bad += 1; continue
        t0 = time.time()
        o = subprocess.run(["timeout", "900", GOEXV, "-repo", COPY, "-prop", PROPS, "-verif", "/tmp/w"], capture_output=True, text=True)
        dt = time.time() - t0
        und = [l for l in o.stdout.split("\n") if l.startswith("UNDECIDED")]
        vio = [l for l in o.stdout.split("\n") if "VIOLATION" in l or l.startswith("  ")]
        st = "ok"
        if o.returncode or any("VIOLATION" in l for l in vio):
            st = "ALARM" if vio else "NOANSWER"; bad += 1
        elif und:
            st = "undecided"
        print("%-9s %-28s rc=%d %.1fs" % (st, name, o.returncode, dt), flush=True)
        for l in (vio[:6] + und[:6]):
            print("      ", l[:300], flush=True)
    shutil.rmtree(COPY, ignore_errors=True)
    print("bad", bad)

run()
