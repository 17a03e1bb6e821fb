#!/usr/bin/env python3
"""Decides one property of /repo against the TLA+ specification.

  check.py P07 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep DIR]

1. builds the driver (harness/) against /repo's working tree;
2. TLC checks the design model and writes the scenarios (spec/Gen, Cursor,
   Sched, Pure, Stream);
3. the driver runs the real code and records what it did;
4. TLC validates every recorded session against the specification
   (spec/Trace), together with deliberately corrupted copies of some of them,
   which it must reject.

exit 0: the property held on everything explored; exit 1: VIOLATION line;
exit 2: the machinery itself failed.
"""
import argparse, concurrent.futures as cf, copy, json, os, random, re, resource, shutil
import subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ALL = ["core", "opt", "enum", "tags", "sizeof", "ext", "maps", "cust"]

# fams: scenario families; model: further design model and its parameters
CONF = {
    "P01": dict(fams=ALL), "P02": dict(fams=ALL), "P03": dict(fams=ALL), "P04": dict(fams=ALL),
    "P05": dict(model="Pure", doms=["compact", "string3"], extra=True),
    "P06": dict(model="Pure", doms=["varint"], fams=["varint"]),
    "P07": dict(fams=ALL), "P08": dict(fams=["core"]), "P09": dict(fams=ALL), "P10": dict(fams=ALL),
    "P11": dict(model="Cursor", extra=True),
    "P12": dict(model="Stream"),
    "P13": dict(model="Stream", fams=ALL),
    "P14": dict(fams=["opt"]), "P15": dict(fams=["maps"]), "P16": dict(fams=["enum"]),
    "P17": dict(fams=["tags"]), "P18": dict(fams=["sizeof"]), "P19": dict(fams=["ext"]),
    "P20": dict(model="Pure", doms=["varint", "sha"]),
    "P21": dict(model="Pure", doms=["dec128"], fams=["core"]),
    "P22": dict(model="Pure", doms=["json64"]),
    "P23": dict(model="Pure", doms=["case", "sha"]),
    "P24": dict(fams=ALL), "P25": dict(fams=ALL), "P26": dict(fams=ALL, model="Cursor"),
    "P27": dict(model="Sched", extra=True),
    "P28": dict(fams=["cust"]), "P29": dict(model="Cursor"), "P30": dict(fams=["unsup"]),
    "P31": dict(fams=ALL),
    "P32": dict(model="Pure", doms=["fmt"], fams=["core"]),
}


class Broken(Exception):
    pass


def goenv():
    e = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        e.update(dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x))
    except Exception:
        pass
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    return e


def build(work, race=False):
    mod = os.path.join(work, "mod")
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), os.path.join(mod, f))
    out = os.path.join(work, "vh-race" if race else "vh")
    cmd = ["go", "build", "-modfile", os.path.join(mod, "go.mod"), "-o", out] + (["-race"] if race else []) + ["."]
    env = goenv()
    if race:
        env["CGO_ENABLED"] = "1"
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("the driver does not build against /repo:\n" + p.stderr[-4000:])
    return out


def tlc(module, work, env, workers, name, heap="6g", cfg=None):
    md = os.path.join(work, "md-" + name)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", (cfg or module) + ".cfg", module + ".tla"]
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace")
    shutil.rmtree(md, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    return dict(rc=p.returncode, out=out, gen=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0)


def design(module, work, par, name, workers, cfg=None):
    """model check a design model; returns (result, path of what it wrote)"""
    pf, of = os.path.join(work, name + ".par"), os.path.join(work, name + ".nd")
    with open(pf, "w") as f:
        f.write(json.dumps(par) + "\n")
    r = tlc(module, work, {"VP_FAMS": pf, "VP_OUT": of}, workers, name, cfg=cfg)
    if "No error has been found" not in r["out"]:
        raise Broken("design model %s failed:\n%s" % (module, r["out"][-4000:]))
    return r, of


def models(prop, tier, seed, work):
    """design models of this property: (coverage list, scenario file, extra file)"""
    c = CONF[prop]
    th = tier == "thorough"
    cov, scen, extra = [], "", ""
    jobs = {}
    with cf.ThreadPoolExecutor(4) as ex:
        if c.get("fams"):
            many = len(c["fams"]) > 2
            stride = 1 if th else (60 if many else (12 if c["fams"][0] in ("opt", "sizeof", "enum", "tags") else 4))
            jobs["Gen"] = ex.submit(design, "Gen", work, {"fams": c["fams"], "stride": stride, "phase": seed}, "gen", 6)
        m = c.get("model")
        if m == "Pure":
            ln = (6 if "string3" in c["doms"] or "case" in c["doms"] else 60) if th else 4
            jobs["Pure"] = ex.submit(design, "Pure", work, {"doms": c["doms"], "len": ln}, "pure", 8)
        elif m == "Cursor":
            jobs["Cursor"] = ex.submit(design, "Cursor", work, {"stride": 1 if th else 6, "phase": seed}, "cursor", 4)
        elif m == "Stream":
            jobs["Stream"] = ex.submit(design, "Stream", work, {}, "stream", 8, "StreamDeep" if th else None)
        elif m == "Sched":
            sh = [[8, 7], [4, 4, 3], [2, 2, 2, 2]] if th else [[5, 5], [3, 3, 3]]
            jobs["Sched"] = ex.submit(design, "Sched", work, {"shapes": sh}, "sched", 4)
        for k, j in jobs.items():
            r, of = j.result()
            cov.append(dict(model=k, states=r["distinct"], transitions=r["gen"]))
            if k == "Gen":
                scen = of
            elif c.get("extra"):
                extra = of
    return cov, scen, extra


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def drive(vh, prop, tier, seed, scen, extra, work, tag, only=None, race=False):
    tr, cur = os.path.join(work, tag + ".tr"), os.path.join(work, tag + ".cur")
    cmd = [vh, "-prop", prop, "-tier", tier, "-seed", str(seed), "-scen", scen, "-extra", extra, "-out", tr, "-cur", cur]
    if only is not None:
        cmd += ["-only", str(only)]
    env = goenv()
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env.pop("DLOG", None)
    p = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace",
                       preexec_fn=None if race else limit_mem)
    at = -1
    try:
        at = int(open(cur).read().strip() or -1)
    except (OSError, ValueError):
        pass
    if p.returncode == 98:
        raise Broken("driver: " + p.stderr[-2000:])
    return dict(rc=p.returncode, err=p.stderr, at=at, trace=tr)


# -- corrupted observations the specification must reject ----------------

def corruptions(o):
    """copies of an observation with one thing changed"""
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                walk(x[k], path + [k])
        elif isinstance(x, list):
            if path and path[-1] in ("out", "outs", "got", "d", "v", "dv", "h", "snake", "pascal", "json", "le", "text", "cuts", "id", "ids", "after", "self", "head"):
                out.append((path, "list"))
            for i, y in enumerate(x[:3]):
                walk(y, path + [i])
        elif isinstance(x, bool):
            out.append((path, "bool"))
        elif isinstance(x, int):
            if path and path[-1] in ("pos", "w", "n", "size", "rem", "total", "kb", "ec", "dc"):
                out.append((path, "int"))
        elif isinstance(x, str):
            out.append((path, "str"))
    walk(o, [])
    return out


def corrupt(ev, which, rnd):
    ev = copy.deepcopy(ev)
    path, kind = which
    if not path:
        return None
    x = ev["o"]
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    if kind == "bool":
        x[k] = not x[k]
    elif kind == "int":
        x[k] += 1000000 if k == "kb" else 1
    elif kind == "str":
        x[k] = "panic" if x[k] in ("ok", "err") else "ok" if x[k] == "panic" else x[k] + "?"
    elif kind == "list":
        if x[k] and all(isinstance(y, int) and not isinstance(y, bool) for y in x[k]):
            i = rnd.randrange(len(x[k]))
            x[k][i] = (x[k][i] + 1) % 256
        else:
            return None
    return ev


def canaries(sessions, seed, per_op):
    """corrupted copies: list of (session, what was corrupted, event)"""
    rnd = random.Random(seed * 7919 + 1)
    byop = {}
    for s in sessions:
        for i, ev in enumerate(s["evs"]):
            byop.setdefault(ev["op"], []).append((s, i))
    res = []
    for op in sorted(byop):
        if op == "harness":
            continue
        picks = byop[op] if len(byop[op]) <= per_op else rnd.sample(byop[op], per_op)
        for s, i in picks:
            o = s["evs"][i]["o"]
            cs = corruptions(o)
            if len(cs) > 10:
                cs = rnd.sample(cs, 10)
            for c in cs:
                ev = corrupt(s["evs"][i], c, rnd)
                if ev is None or ev == s["evs"][i]:
                    continue
                key = op + ":" + ".".join(str(x) for x in c[0] if not isinstance(x, int))
                if isinstance(o, dict) and o.get("r", "ok") != "ok":
                    key += ":" + str(o["r"])
                res.append((dict(id=0, evs=s["evs"][:i] + [ev]), key, i + 1))
    return res


def must_reject(key):
    """what the specification leaves open may be changed without rejection"""
    parts = key.split(":")
    return len(parts) == 2 and not parts[1].endswith("nil") and key not in ("trunc:r", "fault:kind")


# -- trace validation -----------------------------------------------------

def validate(trace, work, seed, tag, per_op=24):
    """returns dict(rejects, states, transitions, sessions, events, canaries)"""
    size = os.path.getsize(trace)
    nchunk = max(1, min(4, size // 600000 + 1))
    if size > 4 * (20 << 20):
        nchunk = size // (20 << 20) + 1
    files = [open(os.path.join(work, "%s-%d.nd" % (tag, k)), "w") for k in range(nchunk)]
    weight = [0] * nchunk
    lens, sample, n = {}, [], 0
    ops = {}
    rnd = random.Random(seed)
    with open(trace) as f:
        for line in f:
            k = min(range(nchunk), key=lambda j: weight[j]) if nchunk <= 8 else n % nchunk
            weight[k] += len(line) + 200
            files[k].write(line)
            n += 1
            s = None
            # reservoir for the corrupted copies
            if len(sample) < 400:
                s = json.loads(line)
                sample.append(s)
            else:
                j = rnd.randrange(n)
                if j < 400:
                    s = json.loads(line)
                    sample[j] = s
            m = re.match(r'\{"evs":', line)
            if s is None:
                i = line.rindex('"id":')
                sid = int(re.match(r'"id":(\d+)', line[i:]).group(1))
                cnt = line.count('"op":"')
                lens[sid] = (cnt, k)
            else:
                lens[s["id"]] = (len(s["evs"]), k)
            for o in re.findall(r'"op":"(\w+)"', line):
                ops[o] = ops.get(o, 0) + 1
    can = canaries(sample, seed, per_op)
    cid = {}
    for j, (s, op, at) in enumerate(can):
        s["id"] = 100000000 + j
        cid[s["id"]] = (op, at)
        k = j % nchunk
        files[k].write(json.dumps(s) + "\n")
        lens[s["id"]] = (len(s["evs"]), k)
    for f in files:
        f.close()
    rejects, states, trans = {}, 0, 0
    unusable = []

    def one(k):
        """validate chunk k; sessions TLC cannot evaluate are set aside"""
        path = files[k].name
        rej, st, tr, odd = {}, 0, 0, []
        for attempt in range(12):
            r = tlc("Trace", work, {"VP_TRACE": path}, 8 if nchunk == 1 else 2, "%s-%d-%d" % (tag, k, attempt),
                    heap="4g")
            rej = {}
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+), "(\w+)">>', r["out"]):
                rej[int(m.group(1))] = (int(m.group(2)), m.group(3))
            if "No error has been found" in r["out"]:
                exp = 0
                for sid, (ln, kk) in lens.items():
                    if kk == k and sid not in odd:
                        exp += ln + 1 if sid not in rej else rej[sid][0] + 1
                if exp != r["distinct"]:
                    raise Broken("trace validation of chunk %d covered %d of %d states" % (k, r["distinct"], exp))
                return rej, r["distinct"], r["gen"], odd
            m = re.search(r"sid = (\d+)", r["out"])
            ms = re.findall(r"/\\ sid = (\d+)", r["out"])
            if not ms:
                raise Broken("trace validation failed:\n" + r["out"][-3000:])
            bad = int(ms[-1])
            lines = open(path).read().splitlines()
            s = json.loads(lines[bad - 1])
            odd.append(s["id"])
            at = re.findall(r"/\\ i = (-?\d+)", r["out"])
            unusable.append((s["id"], int(at[-1]) if at else 0, r["out"][-1500:]))
            del lines[bad - 1]
            open(path, "w").write("\n".join(lines) + ("\n" if lines else ""))
        if any(u[0] not in cid for u in unusable):
            return rej, 0, 0, odd
        raise Broken("too many sessions TLC cannot evaluate:\n" + unusable[-1][2])

    with cf.ThreadPoolExecutor(4) as ex:
        for rej, st, tr, _ in ex.map(one, range(nchunk)):
            rejects.update(rej)
            states += st
            trans += tr
    for f in files:
        os.unlink(f.name)
    # canaries: each field of each operation must have had a corrupted copy rejected
    total, hit = {}, {}
    odd = {u[0] for u in unusable}
    for sid, (op, at) in cid.items():
        total[op] = total.get(op, 0) + 1
        if sid in odd or (sid in rejects and rejects[sid][0] == at):
            hit[op] = hit.get(op, 0) + 1
    real = {sid: v for sid, v in rejects.items() if sid not in cid}
    for sid, at, why in unusable:
        if sid not in cid:
            real[sid] = (at, "unreadable")
    silent = [k for k in total if not hit.get(k) and total[k] >= 8 and must_reject(k) and not real]
    if silent:
        raise Broken("corrupted observations of %s were not rejected" % silent)
    return dict(rejects=real, states=states, transitions=trans, sessions=n, events=sum(ops.values()), ops=ops,
                canaries=sum(total.values()), caught=sum(hit.values()))


def find(trace, sid):
    with open(trace) as f:
        for line in f:
            s = json.loads(line)
            if s["id"] == sid:
                return s
    return None


def report(prop, tier, seed, kind, sid, at, op, session, detail):
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    path = os.path.join(HERE, "out", "%s-%s-%d-%s.json" % (prop, tier, seed, sid))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, kind=kind, session=sid, event=at, op=op,
                       replay="python3 %s/check.py %s --replay %s" % (HERE, prop, path),
                       detail=detail[-6000:], trace=session), f, indent=1)
    what = ""
    if session and 0 < at <= len(session["evs"]):
        what = json.dumps(session["evs"][at - 1])[:400]
    print("  %s: session %s, event %s (%s) %s" % (kind, sid, at, op, what))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    if a.prop not in CONF:
        print("no such property", a.prop)
        return 2
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.tier, a.seed, only = r["tier"], r["seed"], r["session"]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    work = tempfile.mkdtemp(prefix="vp-" + a.prop + "-")
    t0 = time.time()
    try:
        return run(a, only, work, t0)
    except Broken as e:
        print("BROKEN:", e)
        return 2
    finally:
        if a.keep:
            shutil.rmtree(a.keep, ignore_errors=True)
            shutil.copytree(work, a.keep)
        shutil.rmtree(work, ignore_errors=True)


def run(a, only, work, t0):
    prop, tier, seed = a.prop, a.tier, a.seed
    T = {}

    def lap(k, t):
        T[k] = round(time.time() - t, 1)
    race = prop == "P27"
    with cf.ThreadPoolExecutor(3) as ex:
        t = time.time()
        fb = ex.submit(build, work)
        fm = ex.submit(models, prop, tier, seed, work)
        fr = ex.submit(build, work, True) if race else None
        vh = fb.result()
        lap("build", t)
        cov, scen, extra = fm.result()
        lap("build+models", t)
        vhr = fr.result() if fr else None
    violations = []
    samples = 0
    parts = []
    runs = [(vh, prop, False)] + ([(vhr, "P27race", True)] if race else [])
    for exe, p, israce in runs:
        t = time.time()
        d = drive(exe, p, tier, seed, scen, extra, work, p, only if not israce else None, israce)
        lap("drive " + p, t)
        if d["rc"] in (97, -9):
            # a hang or a kill may be the machine's fault: once more, alone first
            d1 = drive(exe, p, tier, seed, scen, extra, work, p + "-again", d["at"] if not israce else None, israce)
            if d1["rc"] == 0:
                d1 = drive(exe, p, tier, seed, scen, extra, work, p, only if not israce else None, israce)
            d = dict(d1, at=d1["at"] if d1["at"] >= 0 else d["at"])
        if d["rc"] == 97:
            violations.append(("hang", d["at"], 0, "hang", None, d["err"]))
            continue
        if d["rc"] != 0:
            violations.append(("race" if "DATA RACE" in d["err"] else "crash", d["at"], 0, "crash", None, d["err"]))
            continue
        if os.path.getsize(d["trace"]) == 0:
            if only is None:
                raise Broken("the driver recorded nothing")
            continue
        t = time.time()
        v = validate(d["trace"], work, seed, p)
        lap("validate " + p, t)
        parts.append(v)
        for sid in sorted(v["rejects"])[:5]:
            at, op = v["rejects"][sid]
            violations.append(("rejected", sid, at, op, find(d["trace"], sid), ""))
    wall = round(time.time() - t0, 2)
    nrej = sum(len(v["rejects"]) for v in parts)
    ops = {}
    for v in parts:
        for k, n in v["ops"].items():
            ops[k] = ops.get(k, 0) + n
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(c["states"] for c in cov) + sum(v["states"] for v in parts),
                            transitions=sum(c["transitions"] for c in cov) + sum(v["transitions"] for v in parts),
                            traces_validated_against_impl=sum(v["sessions"] for v in parts),
                            samples=sum(v["events"] for v in parts),
                            design_models=cov, events_by_operation=ops,
                            corrupted_copies=sum(v["canaries"] for v in parts),
                            corrupted_copies_rejected=sum(v["caught"] for v in parts),
                            rejected_sessions=nrej, timing_s=T),
              wall_s=wall, violations=len(violations),
              assumptions=["the driver reports faithfully what the library returned",
                           "TLC evaluates the specification correctly",
                           "bounded: see DESIGN.md for the domains explored"])
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %s; %s" % (prop, tier, seed,
          ", ".join("%s %d states" % (c["model"], c["states"]) for c in cov),
          ", ".join("%d sessions %d events validated, %d/%d corrupted copies rejected" %
                    (v["sessions"], v["events"], v["caught"], v["canaries"]) for v in parts)), T, "%.1fs" % wall)
    for kind, sid, at, op, s, detail in violations[:5]:
        report(prop, tier, seed, kind, sid, at, op, s, detail)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
