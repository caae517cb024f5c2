#!/usr/bin/env python3
"""Is the specification sensitive to everything the harness reports?  Records plans, alters one
observed value at a time (a number, a text, a truth value, a byte of a buffer), and lets TLC judge
the altered histories.  Prints, per kind of observation, how many alterations were refused.

  sensitivity.py [SESSIONS-PER-SOURCE [SEED]]
"""
import collections, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

PER = int(sys.argv[1]) if len(sys.argv) > 1 else 12
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def kind(path, ev):
    """where the value stands, without positions: e.g. W.r.n or R.r.p.props"""
    names = [p for p in path if isinstance(p, str)]
    return ".".join([ev["o"]] + names)


def alter(v, path, seen):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return rng.choice([v + 1, max(v - 1, 0) if v else 2])
    others = [x for x in seen[path[-1] if isinstance(path[-1], str) else "?"] if x != v]
    return rng.choice(others) if others else None


def main():
    work = tempfile.mkdtemp(prefix="sens-", dir=check.BUILD)
    try:
        b = check.build()["string"]
        want = check.spec_hash()
        plan = os.path.join(work, "plan")
        open(plan, "w").close()
        src = []
        for f in sorted(set(sum(check.PEER.values(), []))):
            ls = check.lines_of(check.peer_family(f, want)[0])
            src += rng.sample(ls, min(PER, len(ls)))
        for p in check.PEER:
            rp = os.path.join(work, "rnd")
            subprocess.run([b, "gen", p, "5", str(PER), rp, "0", "-"], check=True)
            src += check.lines_of(rp)
        src = [x for x in src if len(x) < 3000]
        check.add_lines(plan, src, 0)
        tr = os.path.join(work, "tr")
        check.run_plan(b, plan, tr)
        sess = [json.loads(x) for x in check.lines_of(tr)]
        seen = collections.defaultdict(set)
        for s in sess:
            for path, v in leaves(s["ev"]):
                if isinstance(v, str) and isinstance(path[-1], str):
                    seen[path[-1]].add(v)
        seen = {k: sorted(v) for k, v in seen.items()}
        seen.setdefault("?", [])
        out, what = [], {}
        for s in sess:
            if len(json.dumps(s)) > 20000 or not s["ev"]:
                continue
            all_ = [(e, p, v) for e in range(len(s["ev"])) for p, v in leaves(s["ev"][e])]
            # one per kind of place
            by = collections.defaultdict(list)
            for e, p, v in all_:
                by[kind(p, s["ev"][e])].append((e, p, v))
            for k, places in by.items():
                e, p, v = rng.choice(places)
                if not p or p[0] == "o" or k.endswith(".k") or ".t" == k[-2:]:
                    continue
                w = alter(v, p, seen)
                if w is None:
                    continue
                j = json.loads(json.dumps(s))
                x = j["ev"][e]
                for q in p[:-1]:
                    x = x[q]
                x[p[-1]] = w
                i = len(out)
                j["id"] = i
                what[i] = (k, s["id"], p, v, w)
                j = {"cf": "text", **j}
                out.append(json.dumps(j, separators=(",", ":")))
        print(len(out), "altered histories")

        # every shard is judged in pieces, since a value of the wrong shape can stop TLC
        refused, broken = set(), set()

        def run(lines, name):
            nd = os.path.join(work, name)
            with open(nd, "w") as f:
                f.write("\n".join(lines) + "\n")
            rc, text = check.tlc("Trace", {"TRACE": nd, "PROP": "ANY"}, work, name, cfg="TraceAll.cfg")
            for m in re.finditer(r'<<"VIOL", (\d+), (\d+),', text):
                refused.add(int(m.group(1)))
            if '"TOTALS"' not in text:
                if len(lines) == 1:
                    broken.add(int(re.search(r'"id":(\d+)', lines[0]).group(1)))
                    return
                h = len(lines) // 2
                run(lines[:h], name)
                run(lines[h:], name)
        with cf.ThreadPoolExecutor(check.CORES) as ex:
            list(ex.map(lambda i: run(out[i::64], f"s{i}"), range(64)))
        tally = collections.defaultdict(lambda: [0, 0, []])
        for i, (k, sid, p, v, w) in what.items():
            t = tally[k]
            t[0] += 1
            if i in refused or i in broken:
                t[1] += 1
            else:
                t[2].append((sid, p, v, w))
        for k, (n, r, left) in sorted(tally.items(), key=lambda x: x[1][1] / x[1][0]):
            print(f"{r:6d}/{n:<6d} {k}   {left[:2] if r < n else ''}")
        print("refused", sum(t[1] for t in tally.values()), "of", len(out), "(of which not evaluable:", len(broken), ")")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
