#!/usr/bin/env python3
"""Mutation measurement: applies listed changes through a build overlay (never to /repo) and runs the matching checks.
usage: run.py MUTANTS.jsonl OUT.jsonl [workers]"""
import json, os, subprocess, sys, shutil, threading, queue, time
MUT, OUT = sys.argv[1], sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 4
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOMAXPROCS="4")
DIRS = [("pkg/modes/reader/crc", "03 24 28"), ("pkg/modes/reader", "01 02"), ("pkg/modes/messages", "01 02 26"), ("pkg/modes/fields", "02 04 05 26"),
 ("pkg/modes/common", "02 26 27"), ("pkg/bds/bds05", "08 04 07 26 06"), ("pkg/bds/bds06", "08 26 06"), ("pkg/bds/bds08", "10 26 06"), ("pkg/bds/bds09", "09 26 06"),
 ("pkg/bds/bds61", "11 26 06"), ("pkg/bds/bds62", "12 26 06 19"), ("pkg/bds/bds65", "13 26 06 19"), ("pkg/bds/bds07", "15 19 26"), ("pkg/bds/bds10", "15 19 26"),
 ("pkg/bds/bds17", "15 19 26"), ("pkg/bds/bds20", "10 19 26 18"), ("pkg/bds/encoding", "10"), ("pkg/bds/bds30", "14 19 26 18"), ("pkg/bds/bds00", "15 18 19 26"),
 ("pkg/bds/bds4", "16 17 19 26"), ("pkg/bds/bds5", "16 19 26"), ("pkg/bds/bds60", "16 19 26"), ("pkg/bds", "06 18 26"), ("pkg/adsb/airborne_pos", "07 08 06 26"),
 ("pkg/adsb/surface", "07 08 06 26"), ("pkg/adsb", "06 26 13 11 12 09"), ("pkg/acas", "14 26"), ("pkg/geo", "20 21 22 23"), ("pkg/bitutils", "05 04 14 03"), ("pkg/commb", "18"), ("cmd", "27")]
REST = "24 26 06 18 19 02 28"
def plan(f):
    rel = f[len("/repo/"):]
    for d, c in DIRS:
        if rel.startswith(d):
            c = c.split()
            return c + [x for x in REST.split() if x not in c]
    return REST.split()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        m = json.loads(l); done.add((m["file"], m["off"], m["end"], m["new"]))
q = queue.Queue()
n = 0
for l in open(MUT):
    m = json.loads(l)
    if (m["file"], m["off"], m["end"], m["new"]) not in done:
        q.put(m); n += 1
print(n, "to do", flush=True)
lock = threading.Lock()
tally = {}
def work(k):
    cache, d = f"/tmp/mutgc{k}", f"/tmp/mutw{k}"
    os.makedirs(d, exist_ok=True)
    env = dict(ENV, GOCACHE=cache, TMPDIR=d)
    used = 10**9
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        if used > 60:
            shutil.rmtree(cache, ignore_errors=True); shutil.copytree("/tmp/gcbase", cache); used = 0
        used += 1
        src = open(m["file"], "rb").read()
        assert src[m["off"]:m["end"]] == m["old"].encode()
        open(d + "/x.go", "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        json.dump({"Replace": {m["file"]: d + "/x.go"}}, open(d + "/o.json", "w"))
        b = subprocess.run(["go", "build", "-overlay", d + "/o.json", "-o", d + "/h", "."], cwd=os.environ.get("HARNESS", "/verif/harness"), env=env, capture_output=True, text=True)
        res = "?"
        if b.returncode: res = "build"
        else:
            if True:
                c = subprocess.run(["go", "build", "-overlay", d + "/o.json", "-o", d + "/modes", "./cmd"], cwd="/repo", env=env, capture_output=True, text=True)
            ids = plan(m["file"])
            res = "ALIVE"
            for i in ids:
                try:
                    r = subprocess.run([d + "/h", "-prop", "C" + i, "-rounds", "1", "-out", d, "-aux", d + "/modes"], env=env, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    res = "timeout C" + i; break
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = "C" + i; break
                if r.returncode != 0: res = f"exit{r.returncode} C{i} " + (r.stderr + r.stdout)[-300:]; break
        m["res"] = res
        with lock:
            open(OUT, "a").write(json.dumps(m) + "\n")
            key = res.split()[0]
            tally[key] = tally.get(key, 0) + 1
            if res[0] != "C" and res != "build": print(res[:150].replace("\n", " "), m["file"], m["line"], m["op"], repr(m["old"][:60]), "->", repr(m["new"][:70]), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)
for k in range(W): shutil.rmtree(f"/tmp/mutgc{k}", ignore_errors=True); shutil.rmtree(f"/tmp/mutw{k}", ignore_errors=True)
