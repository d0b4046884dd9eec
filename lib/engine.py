"""The property-based testing engine: seeded generation over worker processes,
shrinking, replay files, known findings, evidence.

A check is a subclass of Check.  Case number i of worker w is generated from
the seed (VERIF_SEED, check id, w, i) alone, so every case can be regenerated.
"""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import build
import gen
import model
import prog

VERIF = build.VERIF
LEVEL = "exploration"


class Violation(Exception):
    """The property does not hold for the case."""


class Skip(Exception):
    """Nothing can be said about the case (out of the time the check gives a big search)."""


class Known(Exception):
    """A listed finding explains exactly what was observed."""

    def __init__(self, key, msg=""):
        Exception.__init__(self, msg)
        self.key = key


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


class Check:
    id = ""
    variant = "fast"
    cli = False             # the check also runs the plain executable
    harness = None          # name of a C++ harness the check drives instead of / besides the program
    quick = 14000           # cases
    thorough = 400000
    rule = ""               # what makes a case non-trivial
    quick_s = 150           # wall clock guards (cases that do not fit are not counted)
    thorough_s = 1500
    corpus = ()             # fixed cases run first (each a case dict)

    def __init__(self):
        self.prog = None
        self.labels = {}
        self.listed = {e["key"] for e in known_findings(self.id)}

    # hooks -------------------------------------------------------------
    def setup(self):
        pass

    def generate(self, g):
        raise NotImplementedError

    def valid(self, case):
        return gen.wellformed(case)

    def examine(self, case):
        """Raise Violation / Known, or return True when the case was non-trivial."""
        raise NotImplementedError

    # helpers -----------------------------------------------------------
    def label(self, name, n=1):
        self.labels[str(name)] = self.labels.get(str(name), 0) + n

    def run(self, case, outputs=("sbs", "json"), **kw):
        files, args = gen.command(case, outputs)
        return self.prog.run(files, args, **kw)

    def run_ok(self, case, outputs=("sbs", "json"), **kw):
        r = self.run(case, outputs, **kw)
        if r.status == "signal" and r.code in (9, 24) and len(case["ref"]["rows"]) + len(case["hyp"]["rows"]) > 50:
            raise Skip()
        need(r.ok, "the program failed on well-formed input: %s", r.describe())
        return r


STRANGE = "the output of the program cannot be understood"


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).digest()[:8]


def rng_for(seed, cid, worker, i):
    return random.Random("%s/%s/%s/%s" % (seed, cid, worker, i))


def start_program(check):
    check.prog = prog.Program(check.variant)
    check.setup()


def judge(check, case):
    """-> (verdict, message): ok | trivial | violation | known"""
    try:
        nt = check.examine(case)
        return ("ok" if nt else "trivial"), ""
    except Known as k:
        if k.key not in check.listed:
            return "violation", "%s (%s)" % (k, k.key)
        return "known", k.key
    except Violation as v:
        return "violation", str(v)
    except Skip:
        check.label("skipped: search too long")
        return "trivial", ""
    except prog.Malformed as m:
        return "violation", "malformed output: %s" % m
    except (ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
        # (nothing the program writes on the unchanged tree does this)
        return "violation", "%s: %s" % (STRANGE, traceback.format_exc()[-800:])


# --------------------------------------------------------------- shrinking

def _paths(x, path=()):
    """Every list inside the case (longest first decided by the caller)."""
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            out += _paths(v, path + (k,))
    elif isinstance(x, list):
        out.append(path)
        for i, v in enumerate(x):
            if isinstance(v, (list, dict)):
                out += _paths(v, path + (i,))
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _leaves(x, path=()):
    out = []
    if isinstance(x, dict):
        for k, v in x.items():
            out += _leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out += _leaves(v, path + (i,))
    else:
        out.append(path)
    return out


def shrink(check, case, budget=1500, seconds=90):
    t0 = time.time()
    tries = [0]
    best = [copy.deepcopy(case)]

    def attempt(cand):
        if tries[0] >= budget or time.time() - t0 > seconds:
            return False
        if cand == best[0]:
            return False
        try:
            if not check.valid(cand):
                return False
        except Exception:
            return False
        tries[0] += 1
        try:
            v, msg = judge(check, cand)
        except Exception:
            return False
        if v == "violation" and not msg.startswith(STRANGE):
            best[0] = cand
            return True
        return False

    def ddmin(path):
        try:
            n = len(_get(best[0], path))
        except (KeyError, IndexError, TypeError):
            return False
        changed = False
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while True:
                try:
                    cur = _get(best[0], path)
                except (KeyError, IndexError, TypeError):
                    return changed
                if i >= len(cur):
                    break
                cand = copy.deepcopy(best[0])
                del _get(cand, path)[i:i + size]
                if attempt(cand):
                    changed = True
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return changed

    def both():
        """Delete aligned stretches of both sides."""
        changed = False
        b = best[0]
        if not (isinstance(b.get("ref"), dict) and isinstance(b.get("hyp"), dict)):
            return False
        size = max(1, max(len(b["ref"]["rows"]), len(b["hyp"]["rows"])) // 2)
        while size >= 1:
            i = 0
            while i < len(best[0]["ref"]["rows"]):
                ok = False
                for off in (0, 1, -1, 2, -2):
                    if i + off < 0:
                        continue
                    cand = copy.deepcopy(best[0])
                    del cand["ref"]["rows"][i:i + size]
                    del cand["hyp"]["rows"][i + off:i + off + size]
                    if attempt(cand):
                        ok = changed = True
                        break
                if not ok:
                    i += size
            if size == 1:
                break
            size //= 2
        return changed

    def drop():
        changed = False
        for k in list(best[0].keys()):
            if best[0][k] is not None and k not in ("ref", "hyp", "opts", "cmd"):
                cand = copy.deepcopy(best[0])
                cand[k] = None
                changed |= attempt(cand)
        for where in ("opts", "norm", "sidecar"):
            if isinstance(best[0].get(where), dict):
                for k in list(best[0][where]):
                    cand = copy.deepcopy(best[0])
                    if k in cand[where]:
                        del cand[where][k]
                    changed |= attempt(cand)
        for s in ("ref", "hyp"):
            if isinstance(best[0].get(s), dict):
                for k in ("sep", "end", "cols"):
                    if k in best[0][s]:
                        cand = copy.deepcopy(best[0])
                        del cand[s][k]
                        changed |= attempt(cand)
        return changed

    def simplify():
        changed = False
        for path in _leaves(best[0]):
            try:
                v = _get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            if path[-1] in ("fmt", "cmd"):
                continue
            if isinstance(v, bool) or v is None:
                cands = []
            elif isinstance(v, str):
                cands = [x for x in ("", "a", "b", "0", "1", "LC", v[:len(v) // 2], v[:1]) if len(x) < len(v) or
                         (len(x) == len(v) and x < v)]
            elif isinstance(v, int):
                cands = [x for x in (0, 1, v // 2, v - 1) if abs(x) < abs(v)]
            elif isinstance(v, float):
                cands = [x for x in (0.0, 1.0) if abs(x) < abs(v)]
            else:
                cands = []
            for x in cands:
                cand = copy.deepcopy(best[0])
                _get(cand, path[:-1])[path[-1]] = x
                if attempt(cand):
                    changed = True
                    break
        return changed

    def unify():
        """Rename a word everywhere to a short one."""
        b = best[0]
        if not (isinstance(b.get("ref"), dict) and isinstance(b.get("hyp"), dict)):
            return False
        changed = False
        ws = list(dict.fromkeys(gen.words_of(b["ref"]) + gen.words_of(b["hyp"])))
        for w in ws:
            for x in ("a", "b", "c", "d", "e"):
                if len(x) > len(w) or (len(x) == len(w) and x >= w) or x in ws:
                    continue
                cand = copy.deepcopy(best[0])
                for path in _leaves(cand):
                    if _get(cand, path) == w and path[-1] not in ("fmt", "cmd", "case", "speaker"):
                        _get(cand, path[:-1])[path[-1]] = x
                if attempt(cand):
                    changed = True
                    break
        return changed

    for _round in range(6):
        ch = both()
        ch |= drop()
        for path in sorted(_paths(best[0]), key=len):
            ch |= ddmin(path)
        ch |= unify()
        ch |= simplify()
        if not ch or tries[0] >= budget or time.time() - t0 > seconds:
            break
    return best[0], tries[0]


# ----------------------------------------------------------------- workers

def worker(cls, seed, wid, count, deadline, stop, q):
    try:
        check = cls()
        start_program(check)
        res = dict(evaluations=0, nontrivial=0, trivial=0, known={}, samples=[], failure=None, sizes=0)
        seen = set()
        for i in range(count):
            if stop.is_set() or time.time() > deadline:
                break
            g = gen.Gen(rng_for(seed, check.id, wid, i))
            case = check.generate(g)
            if case is None:
                continue
            v, msg = judge(check, case)
            res["evaluations"] += 1
            if v == "violation":
                stop.set()
                small, tries = shrink(check, case)
                v2, msg2 = judge(check, small)
                if v2 != "violation":   # does not reproduce in this process
                    small, msg2 = case, msg
                res["failure"] = dict(case=small, message=msg2, original=case, worker=wid, index=i, tries=tries)
                break
            if v == "known":
                res["known"][msg] = res["known"].get(msg, 0) + 1
            elif v == "ok":
                d = digest(case)
                if d not in seen:
                    seen.add(d)
                    res["nontrivial"] += 1
                if wid == 0 and len(res["samples"]) < 3 and len(json.dumps(case)) < 1500:
                    res["samples"].append(case)
            else:
                res["trivial"] += 1
        res["labels"] = check.labels
        res["digests"] = b"".join(seen)
        if check.prog:
            check.prog.close()
        q.put(("ok", wid, res))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))


def regressions(cid):
    """Inputs that failed before a repair and that random search meets too rarely."""
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "regressions", cid + ".jsonl")
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path, encoding="utf-8") if l.strip()]


def known_findings(cid):
    """Entries of KNOWN_FINDINGS.jsonl for the property: (key, what, case)."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            e = json.loads(l)
            if e.get("finding") and e["property"] == cid:
                out.append(e)
    return out


def write_evidence(check, tier, seed, total, wall, extra):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(evaluations=total["evaluations"], distinct_nontrivial=total["nontrivial"], rule=check.rule,
               samples=total["samples"][:3])
    cov.update(extra)
    ev = dict(property=check.id, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(wall, 2))
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % check.id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, "evidence", check.id + ".json"))


def save_replay(check, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (check.id, digest(failure["case"]).hex())
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(dict(property=check.id, message=failure["message"], case=failure["case"],
                       found_by=dict(worker=failure.get("worker"), index=failure.get("index"))), f, indent=1,
                  ensure_ascii=False)
    return p


def main_check(cls, tier, seed, workers=None):
    t0 = time.time()
    check = cls()
    build.build_runner(check.variant)
    if check.cli:
        build.build_cli(check.variant)
    if check.harness:
        for h in check.harness:
            build.build_lib_harness(*h)
    t1 = time.time()
    total = dict(evaluations=0, nontrivial=0, trivial=0, samples=[])
    labels, known, failure = {}, {}, None
    n = check.quick if tier == "quick" else check.thorough
    n = int(os.environ.get("VERIF_CASES", n))
    limit = check.quick_s if tier == "quick" else check.thorough_s

    # the listed findings, and the fixed cases, first
    start_program(check)
    reported = []
    for e in known_findings(check.id):
        v, msg = judge(check, e["case"])
        if v == "known" and msg == e["key"]:
            reported.append(e)
        elif v == "violation":
            failure = dict(case=e["case"], message=msg)
    for c in list(check.corpus) + regressions(check.id):
        v, msg = judge(check, c)
        total["evaluations"] += 1
        if v == "violation" and failure is None:
            failure = dict(case=c, message=msg)
        elif v == "ok":
            total["nontrivial"] += 1
    for e in reported:
        print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
    sys.stdout.flush()

    if failure is None:
        w = workers or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
        per = -(-n // w)
        stop, q = mp.Event(), mp.Queue()
        ps = [mp.Process(target=worker, args=(cls, seed, k, per, time.time() + limit, stop, q)) for k in range(w)]
        for p in ps:
            p.start()
        errors = []
        alld = set()
        for _ in ps:
            st, wid, res = q.get()
            if st == "error":
                errors.append((wid, res))
                stop.set()
                continue
            total["evaluations"] += res["evaluations"]
            total["trivial"] += res["trivial"]
            total["samples"] += res["samples"]
            b = res["digests"]
            alld.update(b[i:i + 8] for i in range(0, len(b), 8))
            for k, v in res["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in res["known"].items():
                known[k] = known.get(k, 0) + v
            if res["failure"] and (failure is None or len(json.dumps(res["failure"]["case"])) <
                                   len(json.dumps(failure["case"]))):
                failure = res["failure"]
        for p in ps:
            p.join()
        total["nontrivial"] += len(alld)
        if errors and failure is None:
            print("harness error in worker %d:\n%s" % errors[0], file=sys.stderr)
            return 2
    wall = time.time() - t0
    write_evidence(check, tier, seed, total, wall,
                   dict(trivial=total["trivial"], labels=labels, matched_known_findings=known, requested=n,
                        build_s=round(t1 - t0, 2)))
    if failure is not None:
        path = save_replay(check, failure)
        # only what a fresh server shows again is reported
        bad = 0
        for _ in range(5):
            c2 = cls()
            start_program(c2)
            v, msg = judge(c2, failure["case"])
            c2.prog.close()
            bad += v == "violation"
        if bad:
            print("%s: %s" % (check.id, failure["message"]))
            print("VIOLATION property=%s replay=%s" % (check.id, path))
            check.prog.close()
            return 1
        print("unstable failure (%d of 5 replays), not reported: %s" % (bad, failure["message"]), file=sys.stderr)
        check.prog.close()
        return 2
    check.prog.close()
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" % (
        check.id, tier, total["evaluations"], total["nontrivial"], wall, t1 - t0,
        "; known: %s" % known if known else ""))
    if total["nontrivial"] < max(2, total["evaluations"] // 20):
        print("too few non-trivial cases", file=sys.stderr)
        return 2
    return 0


def main_replay(cls, path):
    check = cls()
    build.build_runner(check.variant)
    if check.cli:
        build.build_cli(check.variant)
    if check.harness:
        for h in check.harness:
            build.build_lib_harness(*h)
    start_program(check)
    case = json.load(open(path))
    case = case.get("case", case)
    v, msg = judge(check, case)
    print(v, msg)
    check.prog.close()
    return 1 if v == "violation" else 0
