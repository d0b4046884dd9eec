"""Inputs and outputs as a whole: lattices, alignment mode, other layouts of the files, damaged files."""
import copy
import os
import random
import struct
import subprocess

import build
import gen
import model
from checks_core import check_alignment, check_optimal, cost_of, gen_general, wer_of
from checks_files import errors, plain, rng, rows_of, same_rows, words
from checks_stats import check_nlp
from engine import Check, Violation, need
from prog import Log, Sbs, parse_json, parse_nlp

SPECIAL = ["<eps>", "<oov>", "<ins>", "<del>", "<sub>"]


def number(words, how, g):
    """Ids for the words of a symbol file; the first one is the empty word and stays 0."""
    if how == "few":
        # only <eps> of the special words has to be there
        words = [w for w in words if w == "<eps>" or w not in SPECIAL]
    k = len(words)
    if how == "gaps":
        ids = [0]
        for _ in range(k - 1):
            ids.append(ids[-1] + g.i(1, 3))
    elif how == "sparse":
        ids = [0] + sorted(g.r.sample(range(1, 20000), k - 1))
    else:
        ids = list(range(k))
    if how == "mixed":
        rest = ids[1:]
        g.r.shuffle(rest)
        ids = [0] + rest
    return dict(zip(words, ids))


def fst_bytes(H, ids):
    """The lattice as an OpenFST vector file."""
    arcs = {}
    for u, x, v in H["arcs"]:
        arcs.setdefault(u, []).append((ids[x] if x else 0, v))
    n = H["n"]
    out = [struct.pack("<i", 2125659606)]
    for s in (b"vector", b"standard"):
        out.append(struct.pack("<i", len(s)) + s)
    out.append(struct.pack("<iiQqqq", 2, 0, 3, H["start"], n, len(H["arcs"])))
    for u in range(n):
        out.append(struct.pack("<fq", 0.0 if u in H["finals"] else float("inf"), len(arcs.get(u, ()))))
        for i, v in arcs.get(u, ()):
            out.append(struct.pack("<iifi", i, i, 0.0, v))
    return b"".join(out)


class Lattices(Check):
    """A lattice hypothesis: the alignment of its best path."""
    id = "C21"
    rule = "the lattice has at least two different word sequences and there are matches"
    quick, thorough = 24000, 300000

    def generate(self, g):
        # (a small model of decoding: confusion networks, word graphs, and arbitrary acyclic graphs)
        v = g.vocab(["plain", "words", "uni", "many", "mix"], size=g.c([2, 3, 5, 10]))
        case = gen_general(g, n=g.length(0, 14), vocab=v, approx=1, hyphens=0, syn=0.5, rich=False)
        case["opts"]["disable_approx"] = True
        case["opts"].pop("numbests", None)
        case["opts"].pop("use_punctuation", None)
        case["opts"].pop("approach", None)
        if g.p(0.5):
            case["opts"]["approach"] = "standard"
        lower = lambda w: w if case["opts"].get("use_case") else w.lower()
        base = [lower(w) for w in gen.words_of(case["hyp"])]
        rbase = [lower(w) for w in gen.words_of(case["ref"])] if case["ref"]["fmt"] == "txt" else base
        v = [lower(w) for w in v]
        case["hyp"] = self.lattice(g, base, v)
        case["shuffle"] = g.i(0, 10 ** 6)
        case["ids"] = g.c(["dense", "dense", "gaps", "sparse", "mixed", "few"])
        if g.p(0.35):
            # the reference too can be an automaton
            case["ref"] = self.lattice(g, rbase[:10], v)
            case["sidecar"] = case["norm"] = None
            if g.p(0.3):
                # (standard only: for the adapted composition see the known finding of C03)
                case["hyp"] = self.lattice(g, base, v, "linear")
                case["plain"] = True
                case["opts"]["approach"] = "standard"
        return case if self.valid(case) else None

    def lattice(self, g, base, v, kind=None):
        kind = kind or g.c(["sausage", "graph", "random", "linear"])
        arcs, n, finals = [], 1, []
        if kind in ("sausage", "linear"):
            for w in base:
                arcs.append([n - 1, w, n])
                if kind == "sausage":
                    for _ in range(g.c([0, 0, 1, 2])):
                        arcs.append([n - 1, g.c(v), n])
                n += 1
            finals = [n - 1]
        elif kind == "graph":
            for w in base:
                arcs.append([n - 1, w, n])
                n += 1
            last = n - 1
            finals = [last]
            for _ in range(g.i(1, 4)):
                a = g.i(0, last)
                b = g.i(a, last)
                k = g.i(1, 3)
                if a == b:
                    continue
                u = a
                for j in range(k):
                    t = b if j == k - 1 else n
                    if t == n:
                        n += 1
                    arcs.append([u, g.c(v), t])
                    u = t
            if g.p(0.3):
                finals.append(g.i(0, n - 1))
        else:
            n = g.i(2, 9)
            for _ in range(g.i(1, 16)):
                a = g.i(0, n - 2)
                arcs.append([a, g.c(v), g.i(a + 1, n - 1)])
            finals = [n - 1] + ([g.i(0, n - 1)] if g.p(0.3) else [])
        if arcs and kind != "linear" and g.p(0.5):
            # the same word out of the same state, with different words after it
            for _ in range(g.i(1, 3)):
                a, w, b = g.c(arcs)
                after = [x for x in arcs if x[0] == b]
                arcs.append([n, g.c(v), g.c(after)[2] if after else b])
                arcs.insert(g.c([0, len(arcs)]), [a, w, n])
                n += 1
        if kind != "linear" and g.p(0.3):
            for _ in range(g.i(1, 2)):
                a = g.i(0, n - 1)
                b = g.i(a, n - 1)
                if a < b:
                    arcs.append([a, "", b])
        # any numbering of the states, any order of the arcs
        p = list(range(n))
        if g.p(0.5):
            g.r.shuffle(p)
            g.r.shuffle(arcs)
        return dict(fmt="fst", rows=[], n=n, start=p[0], arcs=[[p[a], w, p[b]] for a, w, b in arcs],
                    finals=sorted({p[f] for f in finals}))

    def valid(self, case):
        R, H = case["ref"], case["hyp"]
        if H["fmt"] != "fst" or not case["opts"].get("disable_approx"):
            return False
        plain = lambda X: dict(fmt="txt", rows=[w for _a, w, _b in X["arcs"] if w]) if X["fmt"] == "fst" else X
        if not gen.wellformed(dict(case, hyp=plain(H), ref=plain(R))):
            return False
        if case["opts"].get("use_punctuation") or case["opts"].get("numbests"):
            return False
        for X in (R, H):
            if X["fmt"] != "fst":
                continue
            if not all(0 <= x < X["n"] for a in X["arcs"] for x in (a[0], a[2])) or not 0 <= X["start"] < X["n"]:
                return False
            if not X["finals"] or not all(0 <= f < X["n"] for f in X["finals"]):
                return False
            order = model.lattice_order(X)
            if order is None or not set(order) & set(X["finals"]):
                return False
        if case.get("plain") and (self.words(H) is None or case["opts"].get("approach") != "standard"):
            return False
        if R["fmt"] != "fst":
            return bool(R["rows"] or H["arcs"])
        # (a synonym does not reach over an arc without a word)
        return bool(R["arcs"] or H["arcs"]) and not (case.get("syn") and any(not w for _a, w, _b in R["arcs"]))

    def words(self, H):
        """The words of a lattice with one path."""
        out, u = [], H["start"]
        after = {}
        for a, w, b in H["arcs"]:
            if a in after or not w:
                return None
            after[a] = w, b
        while u in after:
            if u in H["finals"]:
                return None
            w, u = after[u]
            out.append(w)
        return out if u in H["finals"] else None

    def files(self, case):
        R, H = case["ref"], case["hyp"]
        # the symbols of the lattices, in any order, with more words than they need
        g = gen.Gen(random.Random(case["shuffle"]))
        ws = sorted({w for X in (H, R) if X["fmt"] == "fst" for _a, w, _b in X["arcs"] if w} | {"zz0", "zz1"})
        g.r.shuffle(ws)
        if case.get("plain"):
            ws = [w for w in ws if w in {x for _a, x, _b in R["arcs"]}]
        ids = number(SPECIAL + ws, case.get("ids", "dense"), g)
        none = dict(fmt="txt", rows=self.words(H) if case.get("plain") else [])
        files, args = gen.command(dict(case, hyp=none, ref=R if R["fmt"] != "fst" else dict(none, rows=[])), ("sbs", "json"))
        for n, X in (("ref", R), ("hyp", H)):
            if X["fmt"] == "fst" and not (n == "hyp" and case.get("plain")):
                del files[n + ".txt"]
                files[n + ".fst"] = fst_bytes(X, ids)
                args[args.index(n + ".txt")] = n + ".fst"
        files["sym.txt"] = "".join("%s\t%d\n" % (w, i) for w, i in ids.items())
        return files, args + ["--symbols", "sym.txt"]

    def examine(self, case):
        H = case["hyp"]
        files, args = self.files(case)
        r = self.prog.run(files, args)
        need(r.ok, "the program failed on well-formed input: %s", r.describe())
        rows = rows_of(r)
        said = [x.hyp for x in rows if x.hyp != "<del>"]
        need(model.lattice_paths_ok(H, said), "the hypothesis column %r is no path of the lattice", said)
        c2 = dict(case, hyp=dict(fmt="txt", rows=said))
        L = check_alignment(c2, rows)
        c = model.counts(rows)
        e = c.ins + c.dele + c.sub
        if case["opts"].get("approach") != "standard":
            # (a synonym is only entered when the words ahead are all of it)
            full, L = L, model.ref_lattice(case, whole=True)
        cost, pairs = model.best_product(L, H)
        worst = max(wer_of(a, n) for a, n in pairs)
        need(wer_of(e, c.words) <= worst + 1e-9 or cost_of(rows) < cost
             or L.jumps and model.best_product(full, H)[0] < cost,
             "%d errors in %d words, while the best path of the lattice has a WER of %.4f", e, c.words, worst)
        js = parse_json(r.files["out.json"])["wer"]["bestWER"]
        need((js["numErrors"], js["numWordsInReference"]) == (e, c.words), "bestWER is %r", js)
        return len({tuple(a) for a in H["arcs"]}) > len(set(a[0] for a in H["arcs"])) and any(x.kind == "cor" for x in rows)



NOT_ALIGN = ("use_case", "use_punctuation", "record_case_stats", "add_inserts", "context")


def align_case(g, **kw):
    kw = dict(dict(fmts=(("nlp",), ("ctm",)), use_case=0, use_punct=0, ent=0.6), **kw)
    case = gen_general(g, **kw)
    case["cmd"] = "align"
    case["sidecar"] = None
    if g.p(0.3):
        times(case["hyp"], g)
    return case


def times(ctm, g):
    """Other times for a CTM: overlaps, jumps back, many digits, exponents."""
    kind = g.c(["random", "digits", "big", "exp"])
    for r in ctm["rows"]:
        if kind == "random":
            r["start"], r["dur"] = "%.3f" % (g.r.random() * 100), g.c(["0", "0.5", "3.25", "100"])
        elif kind == "digits":
            r["start"], r["dur"] = "%.7f" % (g.r.random() * 1000), "%.6f" % g.r.random()
        elif kind == "big":
            r["start"], r["dur"] = str(g.i(0, 200000)), g.c(["1", "0.25", "12.5"])
        else:
            r["start"], r["dur"] = "%de-%d" % (g.i(0, 99999), g.i(0, 3)), g.c(["1e-2", "2.5E1", "0.5", ".5", "5."])


def align_valid(case):
    return gen.wellformed(case) and case["cmd"] == "align" and case["ref"]["fmt"] == "nlp" and case["hyp"]["fmt"] == "ctm" \
        and not any(case["opts"].get(k) for k in NOT_ALIGN)


class AlignMode(Check):
    """`align` is `wer` with an aligned NLP."""
    id = "C28"
    rule = "there are matches and errors"

    def generate(self, g):
        return align_case(g)

    valid = staticmethod(align_valid)

    def examine(self, case):
        a = self.run_ok(case, ("nlp",))
        w = self.run_ok(dict(case, cmd="wer"), ("nlp", "sbs"))
        for r, n in ((a, "align"), (w, "wer")):
            need("out.nlp" in r.files, "%s wrote no aligned NLP", n)
        if a.files["out.nlp"] != w.files["out.nlp"]:
            x, y = a.files["out.nlp"].decode().split("\n"), w.files["out.nlp"].decode().split("\n")
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            need(False, "align and wer write different aligned NLPs: row %d, %r and %r", i, x[i:i + 1], y[i:i + 1])
        la, lw = Log(a.stdout), Log(w.stdout)
        need(la.best is not None and la.best == lw.best and la.ids == lw.ids and la.pr == lw.pr,
             "align says %r %r %r, wer %r %r %r", la.best, la.ids, la.pr, lw.best, lw.ids, lw.pr)
        rows = rows_of(w)
        need(la.best[:2] == (errors(rows), words(rows)), "align says %r, there are %d errors in %d words", la.best,
             errors(rows), words(rows))
        k = {r.kind for r in rows}
        return "cor" in k and len(k) > 1


class Timings(Check):
    """The times in the aligned NLP are those of the hypothesis words."""
    id = "C17"
    rule = "there are matches, errors, and an entity or a synonym was read in another number of words"

    def generate(self, g):
        case = align_case(g, ent=0.9, syn=0.6)
        if not g.p(0.5):
            times(case["hyp"], g)
        if g.p(0.4):
            # the hypothesis as an NLP file, where a word can have both times, one of them or none
            case["cmd"] = "wer"
            rows = []
            for r in case["hyp"]["rows"]:
                s, e = r["start"], "%.6g" % (float(r["start"]) + float(r["dur"]))
                k = g.c("bbbbsen")
                rows.append(dict(token=r["word"], speaker="", ts=s if k in "bs" else "", endTs=e if k in "be" else "",
                                 punctuation="", prepunctuation="", case="LC", tags=[], wer_tags=[], confidence=""))
            case["hyp"] = dict(fmt="nlp", rows=rows)
            case["opts"]["add_inserts"] = g.p(0.4)
        elif g.p(0.2):
            case["cmd"] = "wer"
            case["opts"]["add_inserts"] = True
        return case

    def valid(self, case):
        if case["cmd"] == "align":
            return align_valid(case)
        return gen.wellformed(case) and case["ref"]["fmt"] == "nlp" and case["hyp"]["fmt"] in ("ctm", "nlp") and \
            not any(r.get("tags") for r in case["hyp"]["rows"]) and \
            not any(case["opts"].get(k) for k in NOT_ALIGN if k != "add_inserts")

    def examine(self, case):
        a = self.run_ok(case, ("nlp",))
        need("out.nlp" in a.files, "no aligned NLP file was written")
        head, got = parse_nlp(a.files["out.nlp"])
        w = self.run_ok(dict(case, cmd="wer"), ("sbs",))
        rows = rows_of(w)
        if any(x["tags"] and model.may_be_left_out(case, x["tags"][0]) and x["token"].startswith("<")
               for x in case["ref"]["rows"]):
            return False        # (a noise code that is left out keeps its row)
        inserts = bool(case["opts"].get("add_inserts"))
        # every row of the alignment but the insertions is a row here; what is aligned to a word has its times
        h = iter(case["hyp"]["rows"])
        want = []
        for r in rows:
            x = next(h) if r.hyp != "<del>" else None
            if r.kind == "ins" and not inserts:
                continue
            if x is None:
                want.append(("", ""))
            elif "word" not in x:
                s, e = (x["ts"] or x["endTs"]), (x["endTs"] or x["ts"])
                want.append(("%.4f" % model.f32(float(s)), "%.4f" % model.f32(float(e))) if s else None)
            else:
                s = model.f32(float(x["start"]))
                want.append(("%.4f" % s, "%.4f" % model.f32(s + model.f32(float(x["dur"])))))
        need(len(got) == len(want), "%d rows for %d reference words", len(got), len(want))
        for i, (r, t) in enumerate(zip(got, want)):
            need(t is None or (r["ts"], r["endTs"]) == t, "row %d: times %r instead of %r", i, (r["ts"], r["endTs"]), t)
        # in order, as far as the hypothesis is
        ts = [float(r["ts"]) for r, t in zip(got, want) if t and r["ts"]]
        hs = [float(r["start"] if "word" in r else r["ts"] or r["endTs"] or "0") for r in case["hyp"]["rows"]]
        if hs == sorted(hs) and all("word" in r for r in case["hyp"]["rows"]):
            need(ts == sorted(ts), "the times run backwards")
        # the old times are kept
        if not inserts and not case.get("syn") and not case.get("norm") and \
                not any(r["tags"] for r in case["ref"]["rows"]) and not any("-" in r["token"] for r in case["ref"]["rows"]):
            need([(r["oldTs"], r["oldEndTs"]) for r in got] == [(r["ts"], r["endTs"]) for r in case["ref"]["rows"]],
                 "the times of the reference are not kept")
        k = {r.kind for r in rows}
        return "cor" in k and len(k) > 1 and any(r.cls for r in rows)


def nlp_side(got):
    """A reference side from a parsed aligned NLP."""
    rows = []
    for r in got:
        t = r["tags"]
        tags = [x.strip().strip("'") for x in t[1:-1].split(",")] if len(t) > 2 else []
        w = r["wer_tags"]
        rows.append(dict(token=r["token"], speaker=r["speaker"], ts=r["ts"], endTs=r["endTs"], punctuation=r["punctuation"],
                         prepunctuation=r["prepunctuation"], case=r["case"], tags=tags,
                         wer_tags=[x.strip().strip("'") for x in w[1:-1].split(",")] if len(w) > 2 else [],
                         confidence=r["confidence"], raw_tags=t))
    return dict(fmt="nlp", rows=rows)


class RoundTrip(Check):
    """An aligned NLP is an NLP: it can be read, aligned again and scored."""
    id = "C29"
    rule = "the aligned NLP differs from the reference in its words, or there are matches and errors"

    def generate(self, g):
        case = align_case(g)
        return case

    def valid(self, case):
        return align_valid(case)

    def examine(self, case):
        a = self.run_ok(case, ("nlp",))
        need("out.nlp" in a.files, "no aligned NLP file was written")
        head, got = parse_nlp(a.files["out.nlp"])
        if not got:
            return False
        # against itself: no errors, and the words it says
        files, args = gen.command(dict(case, cmd="wer", syn=None, norm=None, opts={"disable_approx": True}), ("sbs", "nlp"))
        files = {"ref.nlp": a.files["out.nlp"], "hyp.nlp": a.files["out.nlp"]}
        args[args.index("hyp.ctm")] = "hyp.nlp"
        r = self.prog.run(files, args)
        need(r.ok, "the aligned NLP cannot be read: %s", r.describe())
        rows = rows_of(r)
        need(errors(rows) == 0 and [x.hyp for x in rows] == [x["token"].lower() for x in got],
             "the aligned NLP against itself: %r", [x for x in rows if x.kind != "cor"][:3])
        h2, got2 = parse_nlp(r.files["out.nlp"])
        need(len(got2) == len(got), "%d rows became %d", len(got), len(got2))
        for i, (x, y) in enumerate(zip(got, got2)):
            for k in ("token", "speaker", "punctuation", "prepunctuation", "case", "tags", "wer_tags", "confidence"):
                need(x[k] == y[k], "row %d: %s %r became %r", i, k, x[k], y[k])
            need((y["oldTs"], y["oldEndTs"]) == (x["ts"], x["endTs"]), "row %d: old times %r, times were %r", i,
                 (y["oldTs"], y["oldEndTs"]), (x["ts"], x["endTs"]))
            if x["ts"] and x["endTs"]:
                need((y["ts"], y["endTs"]) == (x["ts"], x["endTs"]), "row %d: times %r, were %r", i,
                     (y["ts"], y["endTs"]), (x["ts"], x["endTs"]))
        # as the reference again, with the same hypothesis
        side = nlp_side(got)
        c2 = dict(case, ref=side, norm=None)
        plainref = not any(r["tags"] for r in case["ref"]["rows"]) and not case.get("syn") and \
            case["opts"].get("disable_hyphen_ignore") and case["opts"].get("disable_cutoffs")
        a2 = self.run_ok(c2, ("nlp",))
        h3, got3 = parse_nlp(a2.files["out.nlp"])
        if plainref:
            for i, (x, y) in enumerate(zip(got, got3)):
                for k in head:
                    if k not in ("oldTs", "oldEndTs"):
                        need(x[k] == y[k], "aligned again, row %d: %s %r became %r", i, k, x[k], y[k])
            need(len(got) == len(got3), "aligned again: %d rows became %d", len(got), len(got3))
        l1 = Log(a.stdout)
        rows = rows_of(self.run_ok(dict(c2, cmd="wer"), ("sbs",)))
        check_alignment(dict(c2, cmd="wer"), rows)
        if case["opts"].get("disable_approx") and not case["opts"].get("numbests"):
            check_optimal(dict(c2, cmd="wer"), rows)
        return [x["token"] for x in got] != [x["token"] for x in case["ref"]["rows"]] or \
            0 < l1.best[0] < l1.best[1]



def relaid(case, g):
    """The same inputs in files that look different; -> files, the columns that were left out."""
    files, args = gen.command(case, ("sbs", "json", "nlp"))
    gone = []
    for s in ("ref", "hyp"):
        side = case[s]
        name = "%s.%s" % (s, side["fmt"])
        eol = g.c(["\n", "\r\n"])
        end = g.c(["", eol])
        if side["fmt"] == "txt":
            out = [g.c(["", " ", "\n", "\t\n "])]
            for w in side["rows"]:
                out += [w, g.c([" ", " ", "\n", "\t", "  ", "\r\n", "\n\n", "\v", "\f"])]
            if g.p(0.3) and side["rows"]:
                out.pop()
            files[name] = "".join(out)
        elif side["fmt"] == "ctm":
            conf = g.p(0.5) if side["rows"] else False
            lines = []
            for r in side["rows"]:
                x = [g.c(["rec.wav", "a", "/x/y.wav", "7"]), g.c(["1", "0", "2", "A"]), r["start"], r["dur"], r["word"]]
                if conf:
                    x.append(g.c(["1", "0.25", "0", "1e-3"]))
                lines.append(" ".join(x))
                while g.p(0.1):
                    lines.append(g.c(["", "", " ", "\t"]))
            files[name] = eol.join(lines) + (end if lines else "")
        else:
            cols = list(side.get("cols") or gen.DEFAULT_COLS)
            if g.p(0.5):
                g.r.shuffle(cols)
            # a column that says nothing can be missing
            for c in ("prepunctuation", "confidence", "wer_tags"):
                if g.p(0.4) and all(not r.get(c) for r in side["rows"]):
                    cols.remove(c)
            more = ["note", "ali_comment", "oldTs", "oldEndTs", "x1", "Token"]
            for c in g.r.sample(more, g.c([0, 0, 1, 3])):
                cols.insert(g.i(0, len(cols)), c)
            pad = g.p(0.4)
            sp = lambda: g.c(["", "", " ", "\t", "  "]) if pad else ""
            lines = ["|".join(sp() + c + sp() for c in cols)]
            for r in side["rows"]:
                v = []
                for c in cols:
                    if c == "tags":
                        x = r.get("raw_tags") or gen.tags_raw(r["tags"])
                    elif c == "wer_tags":
                        x = gen.tags_raw(r["wer_tags"])
                    elif c in more:
                        x = g.c(["", "1.5", "zz", "['1']", "a b"])
                    else:
                        x = r.get(c, "")
                    v.append(sp() + x + sp())
                lines.append("|".join(v))
            files[name] = (g.c(["", "", "\ufeff"]) + eol.join(lines) + (end or eol if len(lines) == 1 else end))
    return files, args


class Layouts(Check):
    """What a CTM or NLP says does not depend on how the file is written."""
    id = "C25"
    rule = "there are matches and errors"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp", "nlp", "ctm", "txt"), ()), use_punct=0.1)
        for s in ("ref", "hyp"):
            if case[s]["fmt"] == "nlp" and g.p(0.5):
                for r in case[s]["rows"]:
                    r["prepunctuation"] = r["confidence"] = ""
                    r["wer_tags"] = []
            if case[s]["fmt"] == "nlp":
                case[s].pop("cols", None)
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def examine(self, case):
        base = self.run_ok(case, ("sbs", "json", "nlp"))
        files, args = relaid(case, rng(case))
        new = self.prog.run(files, args)
        need(new.ok, "the program failed on the same input in another layout: %s", new.describe())
        same_outputs("another layout of the files", base, new)
        k = {r.kind for r in rows_of(base)}
        return "cor" in k and len(k) > 1


def numbers(text):
    """What the log says, without the time of day."""
    t = Log(text)
    return (t.best, t.ids, t.pr, t.cls, t.speaker, t.tag)


def same_outputs(what, a, b, names=("out.sbs", "out.json", "out.nlp"), log=True):
    for n in names:
        x, y = a.files.get(n), b.files.get(n)
        if x != y:
            need(x is not None and y is not None, "%s: %s is not always written", what, n)
            x, y = x.decode("utf-8", "replace").split("\n"), y.decode("utf-8", "replace").split("\n")
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            need(False, "%s: %s differs in line %d: %r and %r", what, n, i + 1, x[i:i + 1], y[i:i + 1])
    if log:
        need(numbers(a.stdout) == numbers(b.stdout), "%s: the logs differ: %r and %r", what, numbers(a.stdout), numbers(b.stdout))


class Determinism(Check):
    """The outputs are a function of the inputs: whatever else is asked for, wherever the files are."""
    id = "C23"
    rule = "there are matches and errors"
    quick, thorough = 8000, 200000
    cli = True

    def generate(self, g):
        case = gen_general(g)
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def examine(self, case):
        g = rng(case)
        base = self.run_ok(case, ("sbs", "json", "nlp"))
        files, args = gen.command(case, ())
        pairs, flags, i = [], [], 1
        while i < len(args):
            if i + 1 < len(args) and not args[i + 1].startswith("--"):
                pairs.append(args[i:i + 2])
                i += 2
            else:
                flags.append([args[i]])
                i += 1
        outs = [["--output-sbs", "out.sbs"], ["--json-log", "out.json"], ["--output-nlp", "out.nlp"], ["--log", "out.log"]]
        asked = [o for o in outs if g.p(0.5)]
        if g.p(0.2):
            # an empty set of symbols to start from
            files["sym.txt"] = "<eps> 0\n<oov> 1\n<ins> 2\n<del> 3\n<sub> 4\n"
            pairs.append(["--symbols", "sym.txt"])
        # (a numeric value, the default, spelled out)
        dflt = dict([("--numbests", "100"), ("--pr_threshold", "0"), ("--speaker-switch-context", "5"),
                     ("--composition-approach", "adapted"), ("--levenstein-max-error-streak", "100")])
        for k, v in dflt.items():
            if g.p(0.2) and not any(p[0] == k for p in pairs):
                pairs.append([k, v])
        # other names and places
        d = self.prog.dir
        ren = {}
        for p in pairs:
            if p[1] in files and g.p(0.5):
                ext = os.path.splitext(p[1])[1]
                n = g.c(["x y%s", "other%s", "\u00e9%s", "a.b.c%s"]) % ext
                if n not in files and n not in ren.values():
                    ren[p[1]] = n
                    files[n] = files.pop(p[1])
                    p[1] = n
            if p[1] in files and g.p(0.3):
                p[1] = g.c([os.path.join(d, p[1]), "./" + p[1]])
        opts = pairs + flags + asked
        g.r.shuffle(opts)
        argv = [case["cmd"]]
        for o in opts:
            short = {"--ref": "-r", "--syn": "-s"}.get(o[0])
            if short and g.p(0.3):
                o = [short, o[1]]
            if len(o) == 2 and o[0].startswith("--") and g.p(0.3):
                argv.append("%s=%s" % (o[0], o[1]))
            else:
                argv += o
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": g.c(["C", "C.UTF-8", "POSIX", "en_US.UTF-8", ""]),
               "TZ": g.c(["UTC", "Asia/Tokyo"]), "MALLOC_PERTURB_": str(g.c([0, 1, 85, 170, 255]))}
        # (only an NLP can be written aligned)
        expect = {o[1] for o in asked if o[1] != "out.nlp" or case["ref"]["fmt"] == "nlp"}
        # results of an earlier run are replaced
        for n in sorted(expect):
            if g.p(0.3):
                files[n] = g.c(["", "old", "a|b\nold\n" * 200, "{\n\"wer\": {}}\n" * 999])
        new = self.prog.run(files, argv) if g.p(0.4) else plain_run(self.prog, files, argv, env)
        need(new.ok, "the program failed: %s", new.describe())
        need(set(new.files) == expect, "asked for %r, found %r", sorted(expect), sorted(new.files))
        same_outputs("another command line for the same run", base, new, expect - {"out.log"})
        if ["--log", "out.log"] in asked:
            need(numbers(new.files["out.log"].decode("utf-8", "replace")) == numbers(new.stdout), "the log file is not the log")
        k = {r.kind for r in rows_of(base)}
        return "cor" in k and len(k) > 1


def plain_run(prog, files, argv, env):
    """The plain executable in a process of its own."""
    from prog import OUTS, Run
    for f in os.listdir(prog.dir):
        os.unlink(os.path.join(prog.dir, f))
    for n, c in files.items():
        with open(os.path.join(prog.dir, n), "wb") as f:
            f.write(c if isinstance(c, bytes) else c.encode("utf-8"))
    try:
        p = subprocess.run([os.path.join(build.BUILD, "fstalign-fast")] + argv, cwd=prog.dir, env=env, timeout=120,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return Run("signal", 24, "", "timeout", {})
    got = {}
    for n in OUTS:
        q = os.path.join(prog.dir, n)
        if os.path.exists(q):
            with open(q, "rb") as f:
                got[n] = f.read()
    st = ("exit", p.returncode) if p.returncode >= 0 else ("signal", -p.returncode)
    return Run(st[0], st[1], p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), got)



class Faults(Check):
    """An input that cannot be read, or an output that cannot be written, is never reported as a success."""
    id = "C30"
    rule = "the same command without the fault succeeds"

    def generate(self, g):
        cmd = g.c(["wer", "wer", "align"])
        if cmd == "align":
            case = align_case(g, n=g.length(0, 20))
        else:
            case = gen_general(g, n=g.length(0, 20), fmts=(("nlp", "nlp", "txt", "ctm"), ()))
        case["opts"]["disable_approx"] = True
        kinds = ["missing", "missing", "directory", "output", "option", "args"]
        for s in ("ref", "hyp"):
            if case[s]["fmt"] in ("nlp", "ctm") and case[s]["rows"]:
                kinds += ["columns", "columns"]
            if case[s]["fmt"] == "ctm" and case[s]["rows"]:
                kinds += ["number", "number"]
            if case[s]["fmt"] == "nlp":
                kinds += ["header"]
        if case.get("norm") is not None or case.get("sidecar") is not None:
            kinds += ["json", "json"]
        if cmd == "align":
            kinds += ["kinds", "kinds"]
        else:
            kinds += ["fst", "fst", "fst"]
        case["fault"] = g.c(kinds)
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("disable_approx") and bool(case["ref"]["rows"] or case["hyp"]["rows"])

    def inject(self, case, g):
        """-> files, args, files to make directories; None when the fault does not apply."""
        f = case["fault"]
        outs = g.c([("sbs", "json", "nlp"), ("sbs",), ("json",), ("nlp",), ()])
        if case["cmd"] == "align":
            outs = ("nlp",)
        files, args = gen.command(case, outs)
        dirs = []
        if f in ("missing", "directory"):
            n = g.c(sorted(files))
            del files[n]
            if f == "directory":
                dirs.append(n)
        elif f == "output":
            o = [a for a in ("out.sbs", "out.json", "out.nlp") if a in args and (a != "out.nlp" or case["ref"]["fmt"] == "nlp")]
            if not o:
                return None
            n = g.c(o)
            if g.p(0.4):
                args[args.index(n)] = "/dev/full"      # (opens, but no space is left to write)
            elif g.p(0.5):
                dirs.append(n)
            else:
                args[args.index(n)] = "no/such/" + n
        elif f == "option":
            k = g.c(["--numbests", "--pr_threshold", "--levenstein-max-error-streak", "--composition-approach", "--nosuch"])
            if k in args:
                i = args.index(k)
                del args[i:i + 2]
            args += [k, g.c(["x", "1x", "one"]) if k != "--composition-approach" else
                     g.c(["x", "Standard ", "adapt", "adaptedx", "ADAPTED"])]
        elif f == "args":
            k = g.i(0, 3)
            if k == 0:
                del args[0]
            elif k == 1:
                i = args.index(g.c(["--ref", "--hyp"]))
                del args[i:i + 2]
            elif k == 2:
                args[0] = g.c(["WER", "score", "w"])
            elif case["cmd"] == "align":
                i = args.index("--output-nlp")
                del args[i:i + 2]
            else:
                args.append(g.c(["extra", "--ref", "-q"]))
        elif f in ("columns", "number"):
            ss = [s for s in ("ref", "hyp") if case[s]["rows"] and case[s]["fmt"] in (("nlp", "ctm") if f == "columns" else ("ctm",))]
            if not ss:
                return None
            s = g.c(ss)
            fmt = case[s]["fmt"]
            n = "%s.%s" % (s, fmt)
            sep = "|" if fmt == "nlp" else " "
            lines = files[n].split("\n")[:-1]
            first = 1 if fmt == "nlp" else 0
            if first >= len(lines):
                return None
            i = g.i(first, len(lines) - 1)
            v = lines[i].split(sep)
            if f == "number":
                j = g.c([2, 3] + ([5] if len(v) > 5 else []))
                v[j] = g.c(["x", "-", "abc", "one", ".", "e5"])
            elif g.p(0.5):
                # (the first row of a CTM tells whether there is a confidence)
                k = 1 if fmt == "nlp" or i > 0 and len(v) == 6 else len(v) - 4
                v = v[:len(v) - max(1, k)]
                if fmt == "nlp" and g.p(0.3):
                    v = v[:1]
            else:
                v += ["9"] * (1 if fmt == "nlp" or i > 0 or len(v) == 6 else 2)
                if fmt == "ctm" and i == 0 and len(v) == 6:
                    return None
            lines[i] = sep.join(v)
            files[n] = "\n".join(lines) + "\n"
        elif f == "header":
            s = g.c([s for s in ("ref", "hyp") if case[s]["fmt"] == "nlp"] or [None])
            if s is None:
                return None
            files["%s.nlp" % s] = ""
        elif f == "json":
            n = g.c([n for n in ("norm.json", "side.json") if n in files] or [None])
            if n is None or len(files[n]) < 2:
                return None
            t = files[n]
            k = g.i(0, 2)
            files[n] = t[:g.i(0, len(t.rstrip()) - 1)] if k == 0 else "x" + t if k == 1 else t.replace("{", "[", 1)
            if k == 2 and t.strip() == "{}":
                files[n] = "["
        elif f == "kinds":
            s, e = g.c([("ref", ".txt"), ("ref", ".ctm"), ("hyp", ".txt"), ("hyp", ".nlp")])
            o = "ref.nlp" if s == "ref" else "hyp.ctm"
            n = s + e
            w = gen.words_of(case[s])
            files[n] = gen.side_text(retyped(w, e[1:]))
            args[args.index(o)] = n
        elif f == "fst":
            n = "hyp.%s" % case["hyp"]["fmt"]
            w = sorted({x.lower() for x in gen.words_of(case["hyp"])})
            ids = {x: i for i, x in enumerate(SPECIAL + w)}
            H = dict(n=len(case["hyp"]["rows"]) + 1, start=0, finals=[len(case["hyp"]["rows"])],
                     arcs=[[i, x.lower(), i + 1] for i, x in enumerate(gen.words_of(case["hyp"]))])
            b = fst_bytes(H, ids)
            files["sym.txt"] = "".join("%s %d\n" % (x, i) for x, i in ids.items())
            args[args.index(n)] = "hyp.fst"
            for k in ("--composition-approach",):
                if k in args:
                    i = args.index(k)
                    del args[i:i + 2]
            args += ["--composition-approach", "standard"]
            k = g.i(0, 5)
            if k == 0:
                b = b[:g.i(0, len(b) - 1)]
            elif k == 1:
                b = bytes([b[0] ^ 1]) + b[1:]
            elif k == 2:
                b = g.c([b"", b"a b c\n", b"0 1 5 5\n1\n"])
            if k == 5:
                # a word of the lattice that has no symbol (the last id would be given to a word of the reference)
                if len(w) < 2:
                    return None
                x = g.c(w[:-1])
                files["sym.txt"] = "".join("%s %d\n" % (y, i) for y, i in ids.items() if y != x)
            if k != 4:
                args += ["--symbols", "sym.txt"]
            if k == 3:
                del files["sym.txt"]
            files["hyp.fst"] = b
        else:
            return None
        return files, args, dirs

    def examine(self, case):
        self.run_ok(case, ("sbs",) if case["cmd"] == "wer" else ("nlp",))
        x = self.inject(case, rng(case))
        if x is None:
            return False
        files, args, dirs = x
        for f in os.listdir(self.prog.dir):
            os.unlink(os.path.join(self.prog.dir, f))
        for d in dirs:
            os.makedirs(os.path.join(self.prog.dir, d), exist_ok=True)
        try:
            r = self.prog.run(files, args, keep=dirs, want=[o for o in ("out.json", "out.sbs", "out.nlp") if o not in dirs])
        finally:
            for d in dirs:
                os.rmdir(os.path.join(self.prog.dir, d))
        self.label(case["fault"])
        need(not r.ok, "%s: the program succeeded: %s", case["fault"], " ".join(args))
        need(r.status == "exit" or r.code == 6, "%s: the program crashed: %s", case["fault"], r.describe())
        need("Assertion" not in r.stderr and "__glibcxx" not in r.stderr, "%s: %s", case["fault"], r.describe())
        return True


def retyped(w, fmt):
    if fmt == "txt":
        return dict(fmt="txt", rows=w)
    if fmt == "ctm":
        return dict(fmt="ctm", rows=[dict(start=str(i), dur="1", word=x, conf=None) for i, x in enumerate(w)])
    return dict(fmt="nlp", rows=[dict(token=x, speaker="1", tags=[], wer_tags=[]) for x in w])



ODD = ["<eps>", "<ins>", "<del>", "<sub>", "<oov>", "<unk>", "<>", "<", ">", "-", "--", "-a", "a--b", "a-b-", "___1_X___", "___100000_SYN_1-1___",
       "___100000_SYN_2-1___", "___a_SYN_x___", "___", "|", ";", "a|b", "a;b", "#", "!!noop", "\u0130", "\u1e9e", "\U0001f600", "\u200b", "", "a" * 300,
       "{}", "{0}", "%s%n", "\\", "'", "\"", "0:", ":", "[]", "[", "['", "['0:CARDINAL']", "['0:A','1:B']", "['1']", "1e999", "-1", "nan",
       "inf", "99999999999999999999", "\x00", "\x7f", "\t", "\xc3"]


class Robust(Check):
    """No input makes the program touch memory that is not its own, or do what C++ leaves undefined."""
    id = "C22"
    variant = "asan"
    rule = "the program read the inputs and reported a WER for them"
    quick, thorough = 12000, 200000
    quick_s = 120

    def generate(self, g):
        case = gen_general(g, n=g.length(0, 16))
        if g.p(0.4):
            case["opts"]["record_case_stats"] = True
        if g.p(0.4):
            case["opts"]["add_inserts"] = True
        if g.p(0.2):
            case["cmd"] = "align"
            case["ref"] = g.nlp(gen.words_of(case["ref"]), entities=0.3)
            case["hyp"] = g.ctm(gen.words_of(case["hyp"]))
            for k in NOT_ALIGN:
                case["opts"].pop(k, None)
            case["sidecar"] = None
        if g.p(0.1):
            case["opts"][g.c(["numbests", "streak", "pr_threshold"] + (["context"] if case["cmd"] == "wer" else []))] = \
                g.c([-1, 0, 1, 1000000, -1000000])
        files, args = gen.command(case, g.c([("sbs", "json", "nlp"), ("sbs", "json", "nlp"), ("nlp",), ()]))
        if case["cmd"] == "wer" and g.p(0.2):
            self.graphs(g, case, files, args)
        # strange words in well-formed files
        kind = g.c(["plain", "words", "words", "fields", "fields", "lines", "bytes", "bytes", "garbage"])
        # (OpenFST does not check the states named in an FST file; only well-formed ones are used)
        names = sorted(n for n in files if not n.endswith(".fst"))
        for _ in range(0 if kind == "plain" else g.c([1, 1, 2, 4])):
            n = g.c(names)
            t = files[n]
            t = t.encode() if isinstance(t, str) else t
            files[n] = self.mutate(g, kind, n, t)
        return dict(files={k: (v if isinstance(v, str) else v.decode("latin-1")) for k, v in files.items()},
                    utf8=[k for k, v in files.items() if isinstance(v, str)], args=args)

    def graphs(self, g, case, files, args):
        """FST files in place of the inputs, of any shape, and symbols of any ids."""
        ws = list(dict.fromkeys(x.lower() for x in gen.words_of(case["ref"]) + gen.words_of(case["hyp"])))
        words = SPECIAL + [w for w in ws if w not in SPECIAL] + ["zz%d" % i for i in range(g.i(0, 3))]
        ids = number(words, g.c(["dense", "gaps", "sparse", "mixed", "few"]), g)
        if g.p(0.3):
            ids[g.c(words[1:])] = g.c([1 << 20, 30000000])
        for s in g.c([(), ("hyp",), ("hyp",), ("ref",), ("ref", "hyp")]):
            n = g.c([0, 1, 2, 4, 7])
            H = dict(n=n, start=g.i(-1, n - 1) if g.p(0.2) else 0 if n else -1, arcs=[],
                     finals=[f for f in range(n) if f == n - 1 and g.p(0.9) or g.p(0.1)])
            for i in range(g.i(0, 12)):
                if n < 2:
                    break
                a = g.i(0, n - 2) if i >= n - 1 else i
                H["arcs"].append([a, g.c(words) if g.p(0.9) else "", g.i(a + 1, n - 1) if i >= n - 1 else a + 1])
            if n and g.p(0.05):
                H["arcs"].append([g.i(0, n - 1), g.c(words), g.i(0, n - 1)])
            old = "%s.%s" % (s, case[s]["fmt"])
            args[args.index(old)] = s + ".fst"
            files[s + ".fst"] = fst_bytes(H, {w: ids.get(w, 3000000) for w in words})
        if "--symbols" not in args:
            args += ["--symbols", "sym.txt"]
        lines = ["%s%s%d" % (w, g.c(" \t"), i) for w, i in ids.items() if i == 0 or g.p(0.97)]
        files["sym.txt"] = "\n".join(lines) + "\n"

    def mutate(self, g, kind, name, t):
        odd = lambda: g.c(ODD).encode("utf-8", "surrogateescape")
        if kind == "garbage":
            return g.c([b"", bytes(g.i(0, 255) for _ in range(g.i(1, 60))), b"\n" * 3, b"|" * 9, b" " * 5 + b"a"])
        if kind in ("words", "fields", "lines"):
            lines = t.split(b"\n")
            if not lines:
                return t
            i = g.i(0, len(lines) - 1)
            if kind == "lines":
                op = g.i(0, 3)
                if op == 0:
                    del lines[i]
                elif op == 1:
                    lines.insert(i, g.c(lines))
                elif op == 2:
                    lines[i] = b""
                else:
                    j = g.i(0, len(lines) - 1)
                    lines[i], lines[j] = lines[j], lines[i]
            else:
                sep = b"|" if name.endswith(".nlp") or name == "syn.rules" else b"\"" if name.endswith(".json") else b" "
                v = lines[i].split(sep)
                j = g.i(0, len(v) - 1)
                if kind == "words" and name.endswith(".nlp"):
                    j = 0
                if kind == "words" and name.endswith(".ctm"):
                    j = min(4, len(v) - 1)
                op = g.i(0, 4) if kind == "fields" else 0
                if op <= 2:
                    v[j] = odd()
                elif op == 3:
                    v.insert(j, odd())
                else:
                    del v[j]
                lines[i] = sep.join(v)
            return b"\n".join(lines)
        b = bytearray(t)
        for _ in range(g.c([1, 1, 3, 10])):
            op = g.i(0, 3)
            i = g.i(0, len(b)) if b else 0
            if op == 0:
                b.insert(i, g.i(0, 255))
            elif op == 1 and b:
                b[i % len(b)] = g.c([0, 10, 32, 34, 39, 45, 58, 59, 60, 62, 91, 93, 95, 124, 128, 255, g.i(0, 255)])
            elif op == 2 and b:
                del b[i:i + g.c([1, 2, 8])]
            else:
                j = g.i(0, len(b)) if b else 0
                b[i:i] = b[j:j + g.i(1, 12)]
        return bytes(b)

    def valid(self, case):
        return isinstance(case.get("files"), dict) and len(case["args"]) > 0

    def examine(self, case):
        files = {k: (v if k in case["utf8"] else v.encode("latin-1", "replace")) for k, v in case["files"].items()}
        r = self.prog.run(files, case["args"], cpu=10)
        if r.status == "signal" and r.code in (24, 9):
            self.label("too long")
            return False
        err = r.stderr
        bad = "ERROR: AddressSanitizer" in err or "runtime error:" in err or "Sanitizer:" in err or "Assertion" in err
        fine = r.status == "exit" and r.code not in (86, 87) or \
            r.status == "signal" and r.code == 6 and "terminate called" in err
        if bad or not fine:
            if "allocation-size-too-big" in err or "out-of-memory" in err:
                self.label("memory")
                return False
            i = err.find("runtime error") if "runtime error" in err else err.find("ERROR: Addr")
            need(False, "%s %s: %s", r.status, r.code, err[max(0, i - 100):i + 1200] if i >= 0 else err[-800:])
        self.label("exit %d" % r.code if r.status == "exit" else "exception")
        return "best WER: INS" in r.stdout


ALL = [Lattices, AlignMode, Timings, RoundTrip, Layouts, Determinism, Faults, Robust]
