#!/usr/bin/env python3
"""Decide one property: build the harness from /repo's working tree in the four
string configurations, run plans through the real library, and have TLC judge the
recorded histories against the specification in /verif/spec.

  check.py C01            one check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --setup        build everything once
  check.py --replay FILE  run one recorded session again
Exit 0: held; 1: VIOLATION printed; 2: the check itself failed.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MQV_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
CONFIGS = ["string", "cow", "boxed", "binary"]
FEATURE = {"string": None, "cow": "cow_string", "boxed": "boxed_string", "binary": "binary_string"}
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar"] + sorted(glob.glob("/opt/veriftools/tla/*ommunity*.jar")))
CORES = 8
METER = False      # whether memory is recorded: for C19 only, as configurations differ in it


class Broken(Exception):
    """the check could not be carried out"""


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "harness", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness", "Cargo.toml"),
             os.path.join(HERE, "harness", "Cargo.lock")]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build_one(config, want):
    target = os.path.join(BUILD, "t-" + config)
    binary = os.path.join(target, "debug", "mqv-harness")
    stamp = os.path.join(target, "stamp")
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
        return binary
    # do not trust modification times: rebuild the library and the harness
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "mq*")):
        shutil.rmtree(d)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml")]
    if FEATURE[config]:
        cmd += ["--features", FEATURE[config]]
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken(f"building configuration {config} failed:\n{p.stdout[-4000:]}")
    with open(stamp, "w") as f:
        f.write(want)
    return binary


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        with cf.ThreadPoolExecutor(4) as ex:
            jobs = {c: ex.submit(build_one, c, want) for c in CONFIGS}
        got = {}
        for c, j in jobs.items():
            try:
                got[c] = j.result()
            except Broken as e:
                # a tree on which only some configurations build is judged by those
                if c == "string":
                    raise
                print(f"note: {str(e)[:300]}", file=sys.stderr)
        return got


# ------------------------------------------------------------------ running the real code
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def lines_of(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in f.read().split("\n") if x]


def run_plan(binary, plan, out, secs=15):
    """Run every session; sessions in which the process hung or died are recorded as such."""
    entries = [json.loads(x) for x in lines_of(plan)]
    width = [len(j.get("lanes", [0])) for j in entries]      # records an entry leaves
    total, done, bad, careful = len(entries), 0, 0, False
    if os.path.exists(out):
        os.unlink(out)
    while done < total:
        env = dict(os.environ)
        env.pop("HARNESS_CAREFUL", None)
        env.pop("HARNESS_METER", None)
        if METER:
            env["HARNESS_METER"] = "1"
        if careful:
            env["HARNESS_CAREFUL"] = "1"
        p = subprocess.run([binary, "exec", plan, out, str(done), str(secs)], env=env, preexec_fn=limits,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        # a partial last line can only come from a process that died while writing
        if os.path.exists(out):
            data = open(out).read()
            if data and not data.endswith("\n"):
                open(out, "w").write(data[: data.rfind("\n") + 1])
        n, left = 0, len(lines_of(out))
        while n < total and left >= width[n]:
            left -= width[n]
            n += 1
        if left:
            # died between the records of one entry
            ls = lines_of(out)
            open(out, "w").write("".join(x + "\n" for x in ls[:len(ls) - left]))
        if p.returncode == 0:
            if n != total:
                raise Broken(f"{binary} wrote {n} of {total} sessions")
            return
        if p.returncode == 3:
            bad += 1
            done = n
        elif p.returncode == 101:
            raise Broken(f"harness failure in {plan}: {p.stderr[-2000:]}")
        elif not careful:
            careful, done = True, n
            continue
        else:
            with open(out, "a") as f:
                for k in range(width[n]):
                    f.write(json.dumps({"id": entries[n]["id"] + k, "mode": "one", "ref": [], "ev": [{"o": "X"}]},
                                       separators=(",", ":")) + "\n")
            bad += 1
            done = n + 1
        if bad >= 5:
            # enough to show; leave the rest of the plan aside, in every configuration alike
            return


def split_plan(plan, k):
    ls = lines_of(plan)
    parts = [ls[i::k] for i in range(k)]
    paths = []
    for i, part in enumerate(parts):
        if part:
            path = f"{plan}.{i}"
            with open(path, "w") as f:
                f.write("\n".join(part) + "\n")
            paths.append(path)
    return paths


def record(binaries, plan, work):
    """plan -> {config: {id: line}}"""
    configs = list(binaries)
    parts = split_plan(plan, 2)
    jobs = [(c, p, os.path.join(work, f"{c}-{os.path.basename(p)}.tr")) for c in configs for p in parts]
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda j: run_plan(binaries[j[0]], j[1], j[2]), jobs))
    got = {c: {} for c in configs}
    for c, _, out in jobs:
        for x in lines_of(out):
            got[c][int(x[6:x.index(",")])] = x
        os.unlink(out)
    for p in parts:
        os.unlink(p)
    return got


# ------------------------------------------------------------------ TLC
def tlc(module, env, work, name, cfg=None, heap="3g", extra=(), timeout=850):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", f"-Djava.io.tmpdir={meta}", "-cp", JARS,
           "tlc2.TLC", "-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg",
           *extra, module + ".tla"]
    log = os.path.join(work, name + ".log")
    try:
        with open(log, "w") as f:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT,
                               timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC on {module} ({name}) exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, open(log).read()


def judge(prop, shard, work, module):
    """TLC on one shard: (violation or None, sessions, events, states, coverage)"""
    name = os.path.basename(shard)
    rc, text = tlc(module, {"TRACE": shard, "PROP": prop}, work, name)
    tot = re.search(r'<<"TOTALS", (\d+), (\d+), (\d+)>>', text)
    if "Invariant Holds is violated" in text:
        t = text[text.index("Invariant Holds is violated"):]
        last = t[t.rindex("\nState "):]
        sid = int(re.search(r"/\\ id = (\d+)", last).group(1))
        at = int(re.search(r"/\\ l = (\d+)", last).group(1))
        viol = re.findall(r'"(C\d\d)"', re.search(r"/\\ viol = (\{.*?\})", last, re.S).group(1))
        conf = re.search(r"/\\ cf = (.*)", last).group(1)
        return {"id": sid, "event": at, "violates": viol, "cf": conf.strip('"')}, 0, 0, 0, {}
    if rc != 0 or not tot:
        raise Broken(f"TLC failed on {shard}:\n{text[-3000:]}")
    cov = {}
    m = re.search(r'<<"COVERAGE", "(.*)">>', text)
    if m:
        cov = json.loads(m.group(1).replace('\\"', '"') or "{}")
        if not isinstance(cov, dict):
            cov = {}
    return None, int(tot.group(1)), int(tot.group(2)), int(tot.group(3)), cov


def shards(lines, work, name, k=CORES):
    parts = [[] for _ in range(k)]
    size = [0] * k
    for x in sorted(lines, key=len, reverse=True):
        i = size.index(min(size))
        parts[i].append(x)
        size[i] += len(x) + 300
    paths = []
    for i, p in enumerate(parts):
        if p:
            path = os.path.join(work, f"{name}-{i}.nd")
            with open(path, "w") as f:
                f.write("\n".join(p) + "\n")
            paths.append(path)
    return paths


def sessions_for(prop, got):
    """Lines for TLC.  Byte-identical histories of several configurations are judged once;
    the raw-bytes configuration is judged under its own rules wherever they could matter."""
    lines = []
    ids = sorted(set().union(*[set(got[c]) for c in got]))
    for i in ids:
        by = {}
        for c in got:
            if i in got[c]:
                by.setdefault(got[c][i], []).append(c)
        if prop == "C14":
            if len(by) and sum(map(len, by.values())) == len(got):
                alts = ",".join('{"cfs":%s,"ev":%s' % (json.dumps(cs, separators=(",", ":")), x[x.index('"ev":') + 5:])
                                for x, cs in by.items())
                lines.append('{"id":%d,"alts":[%s]}' % (i, alts))
            continue
        for x, cs in by.items():
            if cs != ["binary"]:
                lines.append('{"cf":"text",' + x[1:])
            if "binary" in cs and (cs == ["binary"] or "NotUtf8" in x):
                lines.append('{"cf":"raw",' + x[1:])
    return lines


# ------------------------------------------------------------------ plans
# Families of plans that TLC enumerates from module MqttPeer, per property.
WRITTEN = "vals pairs reasons flags pkids sizes counts bounds same alike".split()
# ("fam:n": a quick check takes only n plans of it, spread over the whole family)
PEER = {
    "C01": WRITTEN + ["bigcounts", "duowr", "texts", "subsets"],
    "C02": WRITTEN + ["bigcounts", "texts", "subsets"],
    "C03": "vals pairs reasons flags pkids sizes counts same alike bigcounts bounds forms reasonnums texts subsets".split(),
    "C04": "cuts sections ids tags reasonnums utf8 bytes seq".split(),
    "C05": "parts same pairs cuts sections counts bounds ids forms utf8 subsets alike:800".split(),
    "C06": WRITTEN + ["bigcounts", "subsets", "texts:800"],
    "C07": "seqwr duowr storm gale flags vals bounds counts alike:800 same:400 reasons pkids:200".split(),
    "C08": "over sizes seqwr duowr bounds reasons pkids vals texts alike:800".split(),
    "C09": "limits again headers chops seq seqmax cuts tags forms bounds behind ids:800 reasonnums:600 utf8:800 sections:800"
           " alike:400 same:400".split(),
    "C10": "duo again headers chops trickle hints limits cuts sections seq tags behind".split(),
    "C11": "duo storm gale again seq seqmax hints chops trickle seqwr behind".split(),
    "C12": "limits again headers seqmax hints bounds".split(),
    "C13": "parts made deep storm:200 gale:300 again cuts sections over bytes utf8 ids tags reasonnums headers seqwr flags bigcounts"
           " texts:800 sizes:800 limits:600 counts:100 forms:600 alike:800 same:400 subsets:600 vals:600".split(),
    "C14": "parts made utf8 vals pairs sizes flags over cuts bytes tags texts alike:600".split(),
    "C15": "vals pairs reasons flags sizes forms tags reasonnums counts same alike bounds bytes utf8 texts subsets".split(),
    "C16": "tags ids reasonnums utf8 cuts bytes sections headers parts over seqwr".split(),
    "C17": "parts vals pairs reasons flags over forms tags cuts headers limits bounds seqmax chops texts subsets"
           " alike:800 same:400 ids:600 utf8:600 sections:600 reasonnums:400".split(),
    "C18": ["made"],
    "C19": "headers hints limits cuts sections parts bytes chops counts bigcounts bounds over reasonnums seqwr forms:400 vals:400".split(),
}
QUOTA = {p: {x.split(":")[0]: int(x.split(":")[1]) for x in fs if ":" in x} for p, fs in PEER.items()}
PEER = {p: [x.split(":")[0] for x in fs] for p, fs in PEER.items()}
# a quick check takes at most so many plans of a family, spread over all of it
LARGE = {"seq": 5000, "seqmax": 4000, "subsets": 2600, "behind": 4000, "gale": 600}
SIZE = 6000        # random sessions per round


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SPEC, "*"))):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def peer_family(fam, want):
    """All plans of one family (a file of JSON lines) and the size of its state graph; TLC also
    checks the specification's own theorems on it."""
    path = os.path.join(BUILD, "plans", f"{fam}-{want}.jsonl")
    meta = path + ".meta"
    if os.path.exists(meta):
        return path, json.load(open(meta))
    work = tempfile.mkdtemp(prefix="peer-", dir=BUILD)
    try:
        rc, text = tlc("MqttPeer", {"FAM": fam}, work, fam)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
        if rc != 0 or not m:
            raise Broken(f"TLC failed on MqttPeer, family {fam}:\n{text[-3000:]}")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        n = 0
        with open(path + f".{os.getpid()}", "w") as f:
            for x in text.split("\n"):
                if x.startswith('"PLAN '):
                    f.write(json.loads(x)[5:] + "\n")
                    n += 1
        os.replace(path + f".{os.getpid()}", path)
        info = {"plans": n, "transitions": int(m.group(1)), "states": int(m.group(2))}
        with open(meta + f".{os.getpid()}", "w") as f:
            json.dump(info, f)
        os.replace(meta + f".{os.getpid()}", meta)
        return path, info
    finally:
        shutil.rmtree(work, ignore_errors=True)


SLOW = ["counts", "seq", "duo", "tags", "seqmax", "bigcounts", "sizes", "utf8", "bounds"]


def peer_plans(prop):
    want = spec_hash()
    fams = sorted(PEER[prop], key=lambda f: SLOW.index(f) if f in SLOW else 99)
    with cf.ThreadPoolExecutor(CORES) as ex:
        return dict(zip(fams, ex.map(lambda f: peer_family(f, want), fams)))


# Module MCStream: with every judgement the stream-level guarantees follow; without these they do not
DESIGN = {"C03": "meaning", "C04": "refusal", "C09": "consumption", "C10": "requests", "C11": "consumption",
          "C12": "limit"}


def design(prop, work):
    """what TLC says of the design: the full set of judgements suffices, and this one is needed"""
    said = {}
    for drop in ("none", DESIGN[prop]):
        rc, text = tlc("MCStream", {"DROP": drop}, work, f"design-{drop}")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if not m or (rc == 0) != (drop == "none") or (rc and "violated" not in text):
            raise Broken(f"TLC on MCStream with {drop} left out:\n{text[-3000:]}")
        said[drop] = {"transitions": int(m[-1][0]), "states": int(m[-1][1]),
                      "outcome": "holds" if rc == 0 else "counterexample, as it must be"}
    return said


def spread(ls, k, seed):
    """k of the lines, spread evenly, which ones depending on the seed"""
    if len(ls) <= k:
        return ls
    off = (seed * 7919) % len(ls)
    return [ls[(off + i * len(ls) // k) % len(ls)] for i in range(k)]


def plan_line(j, first):
    """a plan entry under the ids from first on, and how many ids it takes"""
    lane = lambda x: {"mode": x.get("mode", "one"), "max": x.get("max", []), "ops": x["ops"]}
    if "lanes" in j:
        e = {"id": first, "lanes": [lane(x) for x in j["lanes"]], "sched": j["sched"]}
        if "storm" in j:
            e["storm"], e["burst"] = j["storm"], j["burst"]
    else:
        e = {"id": first, **lane(j)}
        if j.get("bare"):
            e["bare"] = 1
    return json.dumps(e, separators=(",", ":")), len(e.get("lanes", [0]))


def add_lines(dst, src, first):
    """append plan lines, renumbered: (entries, next id)"""
    n = 0
    with open(dst, "a") as f:
        for x in src:
            t, w = plan_line(json.loads(x) if isinstance(x, str) else dict(x), first)
            f.write(t + "\n")
            n += 1
            first += w
    return n, first


def mingle(ls, seed):
    """Some of the random sessions run in pairs, their steps interleaved, and some without
    the secondary observations in between."""
    rng = random.Random(seed)
    out, i = [], 0
    while i < len(ls):
        x = rng.random()
        if x < 0.08 and i + 1 < len(ls) and max(len(ls[i]), len(ls[i + 1])) < 20000:
            out.append({"lanes": [json.loads(ls[i]), json.loads(ls[i + 1])],
                        "sched": [rng.randrange(2) for _ in range(rng.randint(2, 9))]})
            i += 2
        else:
            j = json.loads(ls[i])
            if x < 0.25:
                j["bare"] = 1
            out.append(j)
            i += 1
    return out


def make_plan(prop, seed, rnd, binaries, work, tier, peer):
    """One round's plan: (path, description)"""
    path = os.path.join(work, f"plan-{rnd}")
    open(path, "w").close()
    count = SIZE if tier == "quick" else 2 * SIZE
    desc = {}
    first = 0
    rp = path + ".rnd"
    subprocess.run([binaries["string"], "gen", prop, str(seed * 1000 + rnd), str(count), rp, str(first),
                    "huge" if rnd == 0 else "-"], check=True)
    mixed = mingle(lines_of(rp), seed * 1000 + rnd)
    os.unlink(rp)
    desc["random sessions"], first = add_lines(path, mixed, first)
    desc["random sessions run in interleaved pairs"] = sum("lanes" in j for j in mixed)
    if rnd == 0:
        for fx in sorted(glob.glob(os.path.join(HERE, "plans", "*.jsonl"))):
            n, first = add_lines(path, lines_of(fx), first)
            desc["fixed plan " + os.path.basename(fx)] = n
        for fam, (fp, info) in sorted(peer.items()):
            some = spread(lines_of(fp), QUOTA[prop].get(fam, LARGE.get(fam, 10 ** 9)) if tier == "quick" else 10 ** 9, seed)
            desc["MqttPeer " + fam], first = add_lines(path, some, first)
    return path, desc


# ------------------------------------------------------------------ known findings
def known_findings(prop, binaries, work):
    """Sessions that are known to break a property; each must still do so to be reported."""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    shown = []
    for k in json.load(open(path)).get("findings", []):
        if k["property"] != prop:
            continue
        plan = os.path.join(work, "known-plan")
        with open(plan, "w") as f:
            f.write(json.dumps(dict(k["session"], id=0), separators=(",", ":")) + "\n")
        got = record(binaries, plan, work)
        lines = ['{"cf":"%s",' % k["judge_as"] + got[c][0][1:] for c in k["configurations"] if c in got]
        nd = os.path.join(work, "known.nd")
        with open(nd, "w") as f:
            f.write("\n".join(dict.fromkeys(lines)) + "\n")
        v = judge(prop, nd, work, "Trace")[0]
        if v:
            shown.append(k)
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
    return shown


# ------------------------------------------------------------------ a check
def write_replay(prop, seed, v, plan, got):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{seed}-{v['id']}.json")
    session = None
    for x in open(plan):
        j = json.loads(x)
        if j["id"] <= v["id"] < j["id"] + len(j.get("lanes", [0])):
            session = j
            break
    hist = {}
    for c in got:
        x = got[c].get(v["id"])
        if x is not None:
            hist[c] = json.loads(x)
    with open(path, "w") as f:
        json.dump({"property": prop, "judged_as": v["cf"], "violates": v["violates"],
                   "event": v["event"], "session": session, "histories": hist}, f, indent=1)
    return path


def check(prop):
    global METER
    METER = prop == "C19"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    work = tempfile.mkdtemp(prefix=f"run-{prop}-", dir=BUILD)
    module = "TraceCfg" if prop == "C14" else "Trace"
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            b = ex.submit(build)
            pp = ex.submit(peer_plans, prop)
            binaries, peer = b.result(), pp.result()
        tb = time.time()
        known = known_findings(prop, binaries, work)
        rounds = 1 if tier == "quick" else 40
        budget = 0 if tier == "quick" else 600
        aside = cf.ThreadPoolExecutor(1)
        model = aside.submit(design, prop, work) if tier == "thorough" and prop in DESIGN else None
        tot = {"sessions": 0, "events": 0, "states": 0}
        cov, descs, sample, found = {}, {}, None, None
        for rnd in range(rounds):
            if rnd and time.time() - t0 > budget:
                break
            tp = time.time()
            plan, desc = make_plan(prop, seed, rnd, binaries, work, tier, peer)
            got = record(binaries, plan, work)
            lines = sessions_for(prop, got)
            if not lines:
                raise Broken("no sessions")
            tj = time.time()
            sh = shards(lines, work, f"r{rnd}")
            for k, n in desc.items():
                descs[k] = descs.get(k, 0) + n
            if sample is None:
                sample = [json.loads(min(lines[:400], key=lambda x: abs(len(x) - 700)))]
            with cf.ThreadPoolExecutor(CORES) as ex:
                res = list(ex.map(lambda p: judge(prop, p, work, module), sh))
            times = f"recording {tj - tp:.1f}s, judging {time.time() - tj:.1f}s"
            bad = [r[0] for r in res if r[0]]
            for r in res:
                tot["sessions"] += r[1]
                tot["events"] += r[2]
                tot["states"] += r[3]
                for k, n in r[4].items():
                    cov[k] = cov.get(k, 0) + n
            if bad:
                found = min(bad, key=lambda v: v["id"])
                found["replay"] = write_replay(prop, seed, found, plan, got)
                break
            for p in sh:
                os.unlink(p)
            os.unlink(plan)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": tot["states"] + sum(i["states"] for _, i in peer.values()),
                "transitions": tot["events"] + sum(i["transitions"] for _, i in peer.values()),
                "traces_validated_against_impl": tot["sessions"],
                "trace_validation": {"module": module, "states": tot["states"], "events": tot["events"],
                                     "histories": tot["sessions"]},
                "plan_generation": {"module": "MqttPeer", "families": {f: i for f, (_, i) in sorted(peer.items())}},
                "plans": descs, "judged_by_class": dict(sorted(cov.items())),
                "configurations": list(binaries), "samples": sample or [],
            },
            "assumptions": ["TLC and the CommunityModules evaluate the specification correctly",
                            "the harness reports what the library returned",
                            "MqttTables.tla states the standard's numbers correctly"],
            "wall_s": round(time.time() - t0, 1), "violations": 1 if found else 0,
        }
        if model:
            evidence["coverage"]["design"] = {"module": "MCStream", "judgement left out": model.result()}
        if known:
            evidence["coverage"]["known_findings_shown"] = [k["what"] for k in known]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        if found:
            print(f"session {found['id']} event {found['event']} judged as {found['cf']}: {found['violates']}")
            print(f"VIOLATION property={prop} replay={found['replay']}")
            return 1
        print(f"{prop} held: {tot['sessions']} histories, {tot['events']} events, preparing {tb - t0:.1f}s, {times}, "
              f"total {time.time() - t0:.1f}s", flush=True)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    global METER
    r = json.load(open(path))
    METER = r["property"] == "C19"
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        binaries = build()
        plan = os.path.join(work, "plan")
        with open(plan, "w") as f:
            f.write(json.dumps(r["session"], separators=(",", ":")) + "\n")
        got = record(binaries, plan, work)
        prop = r["property"]
        lines = sessions_for(prop, got)
        nd = os.path.join(work, "r.nd")
        with open(nd, "w") as f:
            f.write("\n".join(lines) + "\n")
        v = judge(prop, nd, work, "TraceCfg" if prop == "C14" else "Trace")[0]
        print(json.dumps(v))
        return 1 if v else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    try:
        if sys.argv[1] == "--setup":
            build()
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Broken as e:
        print(f"CHECK BROKEN: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
