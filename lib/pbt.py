"""A small property-based testing core.

Every random decision of a case is drawn from a Src, which records the draws
as a list of bounded integers ("choice sequence").  A case is a pure function
of its choice sequence, so a failure is shrunk by editing the sequence
(deleting blocks, lowering values) and re-running generator and oracle, and a
replay file only has to hold the sequence (it also holds the program texts).
Cases are numbered; case i of a run draws from a generator seeded with
(VERIF_SEED, property, i) alone, so the run is a pure function of the code and
VERIF_SEED and does not depend on the number of worker processes.
"""
import hashlib, json, multiprocessing, os, random, sys, time, traceback
from . import common


class Overrun(Exception):
    pass


class Discard(Exception):
    """The generated case is outside the domain; counted, not judged."""


class Src:
    def __init__(self, seed=None, fixed=None):
        self.rng = random.Random(seed) if fixed is None else None
        self.fixed = fixed
        self.rec = []

    def below(self, n):
        """an integer in [0, n)"""
        if n <= 0:
            raise ValueError("below(%d)" % n)
        if self.fixed is not None:
            i = len(self.rec)
            v = self.fixed[i] if i < len(self.fixed) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n) if n > 1 else 0
        self.rec.append(v)
        if len(self.rec) > 200000:
            raise Overrun()
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, num=1, den=2):
        """true with probability num/den; shrinks to false"""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks to the first"""
        t = sum(w for w, _ in pairs)
        k = self.below(t)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def many(self, lo, hi):
        """the length of a list"""
        return self.int(lo, hi)

    def sample(self, seq, k):
        s = list(seq)
        out = []
        for _ in range(min(k, len(s))):
            out.append(s.pop(self.below(len(s))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def bits(self, n):
        """an n-bit integer biased to boundary values"""
        k = self.below(8)
        if k == 0:
            return self.below(min(1 << n, 16))
        if k == 1:
            return (1 << self.below(n)) & ((1 << n) - 1)
        if k == 2:
            return ((1 << self.below(n + 1)) - 1) & ((1 << n) - 1)
        if k == 3:
            return (-(1 << self.below(n))) & ((1 << n) - 1)
        if k == 4:
            return (-self.int(1, 300)) & ((1 << n) - 1)
        if k == 5:
            return self.below(min(1 << n, 1000))
        return self.below(1 << n)


class V:
    """Verdict on a case."""

    def __init__(self, fail=None, sig=None, labels=(), nontrivial=True, key=None, sample=None, files=None, n=1, keys=None):
        self.fail = fail          # None: holds; else a description
        self.sig = sig            # stable identification of what fails
        self.labels = labels
        self.nontrivial = nontrivial
        self.key = key            # identity of the case, for counting distinct ones
        self.sample = sample
        self.files = files        # for the replay file
        self.n = n                # evaluations in this case
        self.keys = keys          # several identities (a case that is a batch)


class Prop:
    id = None
    title = ""
    rule = ""
    level = "exploration"
    kinds = ("o1",)               # builds needed
    counts = {"quick": 1000, "thorough": 10000}
    assumptions = []
    wall = {"quick": 500, "thorough": 3600}   # give up (inconclusive part reported) after this

    def setup(self):
        pass

    def worker_init(self, wid):
        self.r = common.Runner(self.exe["o1"], "w%d_" % wid)

    def gen(self, c):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    # an optional deterministic part: list of cases (JSON-able) run besides the generated ones
    def fixed_cases(self, tier):
        return []

    def case_from_known(self, k):
        return k.get("case")


def _h(x):
    if not isinstance(x, (bytes, str)):
        x = json.dumps(x, sort_keys=True, default=str)
    if isinstance(x, str):
        x = x.encode("latin1", "replace")
    return hashlib.blake2b(x, digest_size=8).digest()


def case_seed(prop, seed, i):
    return int.from_bytes(hashlib.blake2b(("%s/%d/%d" % (prop.id, seed, i)).encode(), digest_size=8).digest(), "big")


def execute(prop, src):
    case = prop.gen(src)
    return case, prop.run(case)


def try_choices(prop, choices):
    s = Src(fixed=choices)
    try:
        case, v = execute(prop, s)
    except (Discard, Overrun):
        return None, None, s.rec
    return case, v, s.rec


def shrink(prop, choices, sig0, budget=60.0, known=()):
    """Minimise a failing choice sequence.  Keeps any failure that is not a
    known finding (so the result is the simplest failure reachable)."""
    end = time.time() + budget
    best = list(choices)

    def fails(ch):
        if time.time() > end:
            return None
        case, v, rec = try_choices(prop, ch)
        if v is not None and v.fail is not None and v.sig not in known:
            return rec[:]
        return None

    def trim(l):
        while l and l[-1] == 0:
            l = l[:-1]
        return l
    best = trim(best)
    improved = True
    while improved and time.time() < end:
        improved = False
        # delete blocks
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < end:
            i = len(best) - k
            while i >= 0 and time.time() < end:
                cand = best[:i] + best[i + k:]
                r = fails(cand)
                if r is not None and (len(trim(r)), trim(r)) < (len(best), best):
                    best = trim(r)
                    improved = True
                    i = min(i, len(best)) - k
                    continue
                # delete and lower an earlier length draw
                i -= k if k > 1 else 1
            k //= 2
        # lower the lengths: decrement a value and delete a following block
        i = 0
        while i < len(best) and time.time() < end:
            if best[i] > 0:
                for k in (1, 2, 3, 4, 6, 8, 12, 16):
                    if i + 1 + k > len(best):
                        break
                    cand = best[:i] + [best[i] - 1] + best[i + 1 + k:]
                    r = fails(cand)
                    if r is not None and (len(trim(r)), trim(r)) < (len(best), best):
                        best = trim(r)
                        improved = True
                        break
            i += 1
        # lower values
        i = 0
        while i < len(best) and time.time() < end:
            v = best[i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v:
                    cand = best[:i] + [nv] + best[i + 1:]
                    r = fails(cand)
                    if r is not None and (len(trim(r)), trim(r)) < (len(best), best):
                        best = trim(r)
                        improved = True
                        break
            i += 1
    return best


def _worker(prop, wid, nw, total, seed, known, deadline, q, fixed, stop):
    try:
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        except Exception:
            pass
        prop.worker_init(wid)
        st = {"evals": 0, "nontriv": 0, "labels": {}, "keys": set(), "samples": [], "discard": 0, "known": {}, "cases": 0, "trunc": False}
        todo = [("f", i) for i in range(wid, len(fixed), nw)] + [("g", i) for i in range(wid, total, nw)]
        nsent = 0
        for kind, i in todo:
            if stop.is_set():
                break
            if time.time() > deadline:
                st["trunc"] = True
                break
            choices = None
            if kind == "f":
                case = fixed[i]
                v = prop.run(case)
            else:
                s = Src(seed=case_seed(prop, seed, i))
                try:
                    case, v = execute(prop, s)
                except (Discard, Overrun):
                    st["discard"] += 1
                    continue
                choices = s.rec
            st["cases"] += 1
            st["evals"] += v.n
            for l in v.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if v.keys is not None:
                for k in v.keys:
                    st["keys"].add(_h(k))
            elif v.nontrivial:
                st["keys"].add(_h(v.key if v.key is not None else case))
            if v.sample is not None and len(st["samples"]) < 3 and (v.nontrivial or v.keys):
                st["samples"].append(v.sample)
            if v.fail is not None:
                if v.sig in known:
                    st["known"][v.sig] = st["known"].get(v.sig, 0) + 1
                    continue
                # replay before shrinking: a failure that does not repeat is a harness matter
                again = 0
                for _ in range(3):
                    if choices is not None:
                        _, v2, _ = try_choices(prop, choices)
                    else:
                        v2 = prop.run(case)
                    again += v2 is not None and v2.fail is not None
                if again < 3:
                    st["labels"]["flaky (not counted)"] = st["labels"].get("flaky (not counted)", 0) + 1
                    q.put(("flaky", wid, {"fail": v.fail, "choices": choices, "again": again}))
                    continue
                if choices is not None:
                    b = shrink(prop, choices, v.sig, prop.shrink_budget if hasattr(prop, "shrink_budget") else 45, known)
                    c2, v2, rec = try_choices(prop, b)
                    if v2 is not None and v2.fail is not None and v2.sig not in known:
                        case, v, choices = c2, v2, b
                q.put(("fail", wid, {"fail": v.fail, "sig": v.sig, "choices": choices, "case": case if choices is None else None,
                                     "files": v.files, "index": i}))
                nsent += 1
                if not os.environ.get("UV_KEEPGOING") or nsent > 40:
                    stop.set()
                    break
                known = set(known) | {v.sig}
        q.put(("done", wid, st))
    except BaseException:
        q.put(("crash", wid, traceback.format_exc()))


def load_known():
    p = os.path.join(common.VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main(prop):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--jobs", type=int, default=common.NCPU)
    ap.add_argument("--show", type=int, help="print the case with this number and its verdict")
    ap.add_argument("--exe-kind", default=None)
    a = ap.parse_args()
    t0 = time.time()
    seed = common.SEED if a.seed is None else a.seed
    tier = common.TIER if common.TIER in ("quick", "thorough") else "quick"
    prop.tier = tier
    common.tmproot()
    prop.exe = {k: common.build(k) for k in prop.kinds}
    if a.exe_kind:
        prop.exe["o1"] = common.build(a.exe_kind)
    prop.setup()
    if a.replay:
        d = json.load(open(a.replay))
        prop.worker_init(0)
        if d.get("choices") is not None:
            case, v, _ = try_choices(prop, d["choices"])
        else:
            case = d["case"]
            v = prop.run(case)
        if v is not None and v.fail is not None:
            print(v.fail)
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay))
            return 1
        print("replay: holds")
        return 0
    if a.show is not None:
        prop.worker_init(0)
        s = Src(seed=case_seed(prop, seed, a.show))
        case, v = execute(prop, s)
        print(case if isinstance(case, str) else json.dumps(case, indent=1, default=str))
        print("verdict:", v.fail, v.sig, v.labels, "nontrivial", v.nontrivial, "n", v.n)
        for n, t in (v.files or {}).items():
            print("---", n)
            print(t)
        return 0
    total = a.cases if a.cases is not None else prop.counts[tier]
    kf = [k for k in load_known()["findings"] if k["property"] == prop.id]
    # "class" findings are recognised by signature; the others by their one input, which the generator avoids
    known = {k["sig"] for k in kf if k.get("class")}
    fixed = prop.fixed_cases(tier)
    deadline = t0 + prop.wall[tier]
    q = multiprocessing.Queue()
    stop = multiprocessing.Event()
    ps = [multiprocessing.Process(target=_worker, args=(prop, w, a.jobs, total, seed, known, deadline, q, fixed, stop)) for w in range(a.jobs)]
    for p in ps:
        p.start()
    agg = {"evals": 0, "labels": {}, "keys": set(), "samples": [], "discard": 0, "known": {}, "cases": 0, "trunc": False}
    fails, crashes, flaky = [], [], []
    left = set(range(a.jobs))
    while left:
        try:
            k, w, x = q.get(timeout=5)
        except Exception:
            for w in list(left):
                if not ps[w].is_alive() and q.empty():
                    left.discard(w)
                    crashes.append("worker %d died with %s" % (w, ps[w].exitcode))
            continue
        if k == "done":
            left.discard(w)
            agg["evals"] += x["evals"]
            agg["cases"] += x["cases"]
            agg["discard"] += x["discard"]
            agg["trunc"] |= x["trunc"]
            agg["keys"] |= x["keys"]
            agg["samples"] += x["samples"][:1]
            for d in ("labels", "known"):
                for n, c in x[d].items():
                    agg[d][n] = agg[d].get(n, 0) + c
        elif k == "fail":
            fails.append(x)
        elif k == "flaky":
            flaky.append(x)
        else:
            crashes.append(x)
            left.discard(w)
    for p in ps:
        p.join()
    # the listed findings: is each still there?
    if kf:
        prop.worker_init(99)
        for k in kf:
            case = prop.case_from_known(k)
            still = None
            if case is not None:
                v = prop.run(case)
                still = v.fail is not None and (v.sig == k["sig"] or not k.get("class"))
                if v.fail is not None and not still:
                    fails.append({"fail": v.fail, "sig": v.sig, "choices": None, "case": case, "files": v.files, "index": -1})
            if still is False:
                print("note: listed finding no longer fails: %s" % k["sig"])
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    rc = 0
    viol = 0
    seen = set()
    for f in fails:
        key = f["sig"]
        if key in seen:
            continue
        seen.add(key)
        viol += 1
        d = os.path.join(common.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-%s.json" % (prop.id, hashlib.sha1(json.dumps([f["choices"], f["case"]], default=str).encode()).hexdigest()[:10]))
        f["property"] = prop.id
        f["seed"] = seed
        with open(name, "w") as fh:
            json.dump(f, fh, indent=1, default=str)
        print("----", f["sig"])
        print(f["fail"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop.id, name))
        rc = 1
    for c in crashes[:1]:
        print("HARNESS ERROR (%d)\n%s" % (len(crashes), c))
    if flaky:
        print("note: %d failure(s) did not repeat and were not counted: %s" % (len(flaky), flaky[0]["fail"][:300]))
    if crashes and rc == 0:
        rc = 2
    if agg["cases"] == 0 and rc == 0:
        print("HARNESS ERROR: no case was evaluated")
        rc = 2
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
          "coverage": {"evaluations": agg["evals"], "distinct_nontrivial": len(agg["keys"]), "rule": prop.rule,
                       "samples": agg["samples"][:6], "programs_run": agg["cases"], "discarded": agg["discard"],
                       "labels": dict(sorted(agg["labels"].items(), key=lambda kv: -kv[1])[:80]),
                       "known_finding_hits": agg["known"], "stopped_early_on_time": agg["trunc"]},
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(common.VERIF + "/evidence", exist_ok=True)
    with open(common.VERIF + "/evidence/%s.json" % prop.id, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d cases, %d evaluations, %d distinct non-trivial, %d discarded, %.1fs%s" % (
        prop.id, agg["cases"], agg["evals"], len(agg["keys"]), agg["discard"], time.time() - t0, " (time limit reached)" if agg["trunc"] else ""))
    return rc
