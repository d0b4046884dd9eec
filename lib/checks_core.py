"""Alignment soundness, optimality and the transforms of the inputs."""
import copy

import gen
import model
from engine import Check, Known, Violation, need
from prog import Sbs, parse_json


def check_alignment(case, rows, L=None):
    """The side-by-side rows are an alignment of the two inputs."""
    hyp = [r.hyp for r in rows if r.hyp != "<del>"]
    want = model.hyp_tokens(case)
    need(hyp == want, "the hypothesis column reads %r, the hypothesis is %r", hyp, want)
    L = L or model.ref_lattice(case)
    bad = model.reads_reference(L, rows)
    need(bad is None, "the reference column is no reading of the reference: row %s of %r", bad, rows)
    for i, r in enumerate(rows):
        need(not (r.ref == "<ins>" and r.hyp == "<del>"), "row %d aligns nothing with nothing", i)
        need((r.err == "ERR") == (r.ref != r.hyp) and r.err in ("", "ERR"), "row %d: IsErr is %r for %r", i, r.err, r)
    i = 0
    while i < len(rows):
        j = i
        while j < len(rows) and rows[j].cls == rows[i].cls:
            j += 1
        if rows[i].cls:
            need(any(r.ref != "<ins>" for r in rows[i:j]), "class %s holds no reference word", rows[i].cls)
        i = j
    return L


class Alignment(Check):
    id = "C01"
    rule = "the alignment has at least one match and one error, or goes through an entity or a synonym"

    def generate(self, g):
        return gen_general(g, dense=0.012)

    def examine(self, case):
        run = self.run_ok(case, ("sbs",))
        sbs = Sbs(run.files["out.sbs"])
        check_alignment(case, sbs.rows)
        kinds = {r.kind for r in sbs.rows}
        cl = any(r.cls for r in sbs.rows)
        if any("_SYN_" in r.cls for r in sbs.rows):
            self.label("synonym taken")
        if cl:
            self.label("class rows")
        return cl or ("cor" in kinds and len(kinds) > 1)


def gen_general(g, fmts=None, approach=None, n=None, maxerr=None, syn=0.4, ent=0.6, norm=0.6, hyphens=0.15, rate=None,
                use_case=0.15, use_punct=0.15, approx=0.5, rich=True, vocab=None, cmd=0.0, big=0.04, dense=0.0):
    """A case exercising any combination of the documented features."""
    v = vocab or (g.vocab(["hyph"]) if g.p(hyphens) else g.vocab())
    a = approach if approach is not None else g.c(["adapted", "adapted", "standard", None])
    if a == "standard" and n is None:
        n = g.length(0, 45)
    n = n if n is not None else g.length(big)
    with_syn = g.p(syn)
    dense = with_syn and a != "standard" and g.p(dense)
    if n > 70 and with_syn:
        # synonyms, few words and many errors multiply into searches of a minute
        if len(set(v)) < 8:
            n = 70
        elif rate is None:
            rate = g.c([0, 0.03, 0.1])
    ref, hyp = g.pair(v, n=n, maxerr=maxerr, rate=rate)
    if dense:
        ref, hyp, dense_rules = g.dictionary()
    if not ref and not hyp:
        ref = [v[0]]
    opts = {}
    if g.p(use_case):
        opts["use_case"] = True
    mix = g.p(0.3)
    # (rules about a handful of words that fill a long text multiply into a search of minutes)
    busy = len(set(v)) < 3 and len(ref) > 20
    syn_lines = g.rules(ref, hyp, v, n=None if len(ref) <= 40 else g.i(1, 3)) if with_syn and not busy else None
    if dense:
        syn_lines = dense_rules
    R = [g.mixcase(w) for w in ref] if mix else ref
    H = [g.mixcase(w) for w in hyp] if mix else hyp
    fr = g.fmt(*(fmts[0] if fmts else ()))
    fh = g.fmt(*(fmts[1] if fmts else ()))
    case = dict(cmd="wer", opts=opts, syn=syn_lines, norm=None, sidecar=None)
    case["ref"] = g.side(R, fr, **(dict(entities=g.c([0, 0.1, 0.3]) if g.p(ent) else 0, rich=rich, cols=True) if fr == "nlp" else {}))
    case["hyp"] = g.side(H, fh, **(dict(entities=0.1 if g.p(0.2) else 0, rich=rich) if fh == "nlp" else {}))
    if fr == "nlp" and g.p(norm):
        case["norm"] = g.norm(case["ref"]["rows"], hyp, v)
    if fr == "nlp" and g.p(0.3):
        case["sidecar"] = g.sidecar(case["ref"]["rows"])
    if "nlp" in (fr, fh) and g.p(use_punct) and (len(ref) <= 70 or not with_syn):
        opts["use_punctuation"] = True
    if g.p(approx) and len(ref) <= 60:
        opts["disable_approx"] = True
    if g.p(0.1):
        opts["disable_cutoffs"] = True
    if g.p(0.1):
        opts["disable_hyphen_ignore"] = True
    if a:
        opts["approach"] = a
    if g.p(0.1):
        opts["numbests"] = g.c([1, 2, 10, 500])
    if g.p(0.1):
        opts["streak"] = g.c([0, 1, 3, 10])
    return case


def cost_of(rows):
    """Cost of an alignment in half units."""
    return sum({"ins": 2, "del": 2, "sub": 3, "cor": 0}[r.kind] for r in rows)


def wer_of(e, n):
    return e / n if n else (float("inf") if e else 0.0)


def check_optimal(case, rows):
    """No alignment the documentation allows is better than the reported one."""
    hyp = model.hyp_tokens(case)
    adapted = case["opts"].get("approach") != "standard"
    L = model.ref_lattice(case, whole=adapted)
    c = model.counts(rows)
    e = c.ins + c.dele + c.sub
    full = model.ref_lattice(case) if adapted else L
    need(e >= model.min_errors(full, hyp), "%d errors are fewer than any alignment has", e)
    for end in (False, True):
        cost, emin, emax, pairs = model.best_by_cost(L, hyp, end_token=end)
        worst = max(wer_of(a, n) for a, n in pairs)
        # (a synonym that is not matched whole can be cheaper still)
        if wer_of(e, c.words) <= worst + 1e-9 or cost_of(rows) < cost:
            if end:
                raise Known("trailing-eps", "%d errors in %d words" % (e, c.words))
            return
        # (then it also decides which of the other alignments the search still considers)
        if L.jumps and model.best_by_cost(full, hyp, end_token=end)[0] < cost:
            return
        if not (adapted and case["hyp"]["fmt"] in ("txt", "nlp")):
            break
        lim = worst
    need(False, "%d errors in %d words, while an alignment of minimal cost has a WER of %.4f", e, c.words, worst)


class Optimal(Check):
    id = "C03"
    rule = "both sides non-empty and different, with an optimum strictly between a perfect and an empty alignment"

    def long(self, g):
        """Long plain texts with up to 25 errors, so few that pruning may not lose the best alignment:
        with (e + 1)(e + 2) / 2 states at most that are reached with e insertions and deletions, the 20th best
        path has at least 5 errors, and a path is dropped when it has more than 20 errors above that."""
        v = g.vocab(["many", "many", "plain", "words"])
        if g.p(0.6):
            # the same passage again and again, and large pieces missing or added
            k = g.i(5, 30)
            passage = [g.c(v) for _ in range(k)]
            ref = (passage * 40)[:g.i(k, 170)]
            hyp = list(ref)
            left = 25
            for _ in range(g.i(1, 3)):
                if left < 2:
                    break
                size = g.i(1, min(left, 24)) if g.p(0.5) else left
                at = g.c([0, g.i(0, len(hyp))])
                side = g.c([ref, hyp])
                if g.p(0.5):
                    new = g.c([[g.c(v) for _ in range(size)], ["x%d" % i for i in range(size)], (passage * 5)[:size]])
                    side[at:at] = new[:size]
                else:
                    # replace a few words of one copy
                    for _ in range(min(size, 6)):
                        if len(side) > at:
                            side[g.i(at, min(len(side) - 1, at + k))] = g.c(["y0", "y1", "y2"])
                left -= size
        else:
            ref, hyp = g.pair(v, n=g.i(50, 160), rate=g.c([0.05, 0.1]), maxerr=25)
        opts = {"disable_approx": True}
        if g.p(0.3):
            opts["approach"] = "standard"
        return dict(cmd="wer", opts=opts, syn=None, norm=None, sidecar=None, ref=g.side(ref, "txt"), hyp=g.ctm(hyp))

    def generate(self, g):
        if g.p(0.06):
            case = self.long(g)
            return case if self.valid(case) else None
        n = g.length(0, 35)
        case = gen_general(g, n=n, syn=0.5, approx=1, rich=False)
        case["opts"]["disable_approx"] = True
        case["opts"].pop("numbests", None)
        if not g.p(0.3) and case["opts"].get("approach") != "standard" and case["hyp"]["fmt"] != "ctm":
            case["hyp"] = g.ctm(gen.words_of(case["hyp"]))
        return case

    def valid(self, case):
        if not gen.wellformed(case) or not case["opts"].get("disable_approx") or case["opts"].get("numbests"):
            return False
        r, h = gen.words_of(case["ref"]), gen.words_of(case["hyp"])
        return len(r) <= 45 or model.levenshtein([w.lower() for w in r], [w.lower() for w in h]) <= 25

    def examine(self, case):
        run = self.run_ok(case, ("sbs",))
        rows = Sbs(run.files["out.sbs"]).rows
        check_optimal(case, rows)
        k = {r.kind for r in rows}
        return "cor" in k and len(k) > 1


ALL = [Alignment, Optimal]
