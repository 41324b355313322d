#!/usr/bin/env python3
"""Runs the checks on small changes (see main.go).

usage: run.py MUTS.jsonl RESULTS.jsonl WORKERS
The checks of the changed package come first; the others follow while none
reports a violation. Changes no check reports are put through the stable tests.
"""
import json, os, shutil, subprocess, sys, threading, queue
muts = [json.loads(l) for l in open(sys.argv[1])]
outp, workers = sys.argv[2], int(sys.argv[3])
GOEXV = os.environ.get("GOEXV", "/tmp/goexv")
FIRST = {"subsumption": "P01", "lel": "P02", "isnode": "P03", "full": "P04", "cons": "P05", "allcomp": "P06", "dfs": "P07",
         "hepr": "P08", "leh": "P09", "logop": "P10,P11,P12,P19", "cnf": "P13,P14,P15,P16,P17", "query": "P18,P21,P22,P32",
         "compute": "P23,P24,P25,P26,P27"}
ALL = ["P%02d" % i for i in range(1, 33)]
done = {}
if os.path.exists(outp):
    for l in open(outp):
        d = json.loads(l); done[d["id"]] = d
q = queue.Queue()
for m in muts:
    if m["id"] not in done:
        q.put(m)
lock = threading.Lock()
out = open(outp, "a")
def sh(cmd, cwd, t=120):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -1, "timeout"
def work(k):
    d = "/tmp/mw%d" % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m["file"]); src = open(os.path.join("/repo", m["file"]), "rb").read()
        open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        pk = os.path.dirname(m["file"]).split("/")[-1]
        first = FIRST[pk].split(",")
        groups = [first, ["P28", "P29", "P30", "P31"]]
        if pk in ("cnf", "query", "logop", "compute"):
            groups.append([x for x in ALL if x not in first and x not in ("P28", "P29", "P30", "P31", "P20", "P09")])
        groups.append([x for x in ("P20", "P15", "P16", "P09") if x not in first])
        m["hit"], m["und"], m["res"] = [], [], "checks"
        for g in groups:
            rc, o = sh("timeout 600 env GOMAXPROCS=%s %s -repo %s -prop %s -verif /tmp/mww%d" % (os.environ.get("MP", "2"), GOEXV, d, ",".join(g), k), d, 650)
            m["hit"] += sorted({l.split("property=")[1].split()[0] for l in o.split("\n") if l.startswith("VIOLATION")})
            m["und"] += [l[:200] for l in o.split("\n") if l.startswith("UNDECIDED")][:5]
            if rc not in (0, 1): m["und"].append("rc %d %s" % (rc, o[-200:]))
            if m["hit"] or rc not in (0, 1): break
        if not m["hit"]:
            rc, o = sh("go build ./cnf ./query/... ./compute", d)
            if rc: m["res"] = "nobuild"
            else:
                rc, o = sh("bash /verif/tools/reftest.sh " + d, d, 200)
                m["res"] = "fail" if rc else "pass"
        open(p, "wb").write(src)
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
