"""Relations between runs: what must not change the result, and how it must change."""
import copy
import json
import os
import random
import re

import build
import gen
import model
from checks_core import check_alignment, check_optimal, cost_of, gen_general, wer_of
from checks_stats import check_nlp
from engine import Check, Known, Skip, Violation, need
from prog import Log, Sbs, parse_json, parse_nlp


def rng(case, salt=""):
    return gen.Gen(random.Random("%s/%s" % (case.get("vseed", 0), salt)))


def rows_of(run):
    need("out.sbs" in run.files, "no side-by-side file was written")
    return Sbs(run.files["out.sbs"]).rows


def plain(rows, tags=False):
    """Comparable form of the rows."""
    return [(r.ref, r.hyp, r.err, r.cls) + ((r.tags,) if tags else ()) for r in rows]


def same_rows(what, a, b):
    a, b = plain(a), plain(b)
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        need(False, "%s: the alignments differ at row %d: %r and %r", what, i, a[i:i + 4], b[i:i + 4])


def errors(rows):
    return sum(r.kind != "cor" for r in rows)


def words(rows):
    return sum(r.kind != "ins" for r in rows)


def retype(words_, fmt, g):
    s = g.side(words_, fmt, **(dict(rich=False) if fmt == "nlp" else {}))
    return s


class Identity(Check):
    """A hypothesis that is one of the acceptable readings of the reference has no errors."""
    id = "C05"
    rule = "the reading goes through at least one alternative, or is longer than 60 words"

    def generate(self, g):
        long = g.p(0.15)
        n = g.i(60, 900) if long else g.length(0.03)
        v = g.vocab(["hyph"]) if g.p(0.2) else g.vocab(size=g.c([4, 6, 10, 30]))
        case = gen_general(g, dense=0.012, n=n, vocab=v, rate=g.c([0.1, 0.6]), fmts=(("nlp", "nlp", "txt", "ctm"), ()),
                           approach=g.c(["adapted", None]) if n > 45 else None, ent=0.8, norm=0.8, syn=0.5,
                           use_punct=0.1)
        case["opts"].pop("streak", None)
        case["opts"].pop("numbests", None)
        plainref = g.p(0.3) or n > 120
        if plainref:
            case["syn"] = None
            case["opts"]["disable_hyphen_ignore"] = case["opts"]["disable_cutoffs"] = True
            case["norm"] = None
            if not g.p(0.3):
                case["opts"].pop("disable_approx", None)
        else:
            case["opts"]["disable_approx"] = True
            if len(case["ref"]["rows"]) > 30:
                # (of few words and many alternatives more than 100 worse readings can be complete before the best one)
                case["opts"]["numbests"] = 5000
        case["hyp"] = None
        L = model.ref_lattice(dict(case, hyp=dict(fmt="txt", rows=[])))
        w = L.walk(g.c)
        if not case["opts"].get("use_case") and g.p(0.4):
            w = [g.mixcase(x) for x in w]
        case["hyp"] = retype(w, g.fmt(), g)
        return case

    def valid(self, case):
        if not gen.wellformed(case):
            return False
        o = case["opts"]
        alts = case.get("syn") or case.get("norm") or not (o.get("disable_hyphen_ignore") and o.get("disable_cutoffs"))
        if not o.get("disable_approx") and alts or o.get("streak") is not None:
            return False
        if o.get("numbests", 100) < (5000 if alts and len(case["ref"]["rows"]) > 30 else 100):
            return False
        L = model.ref_lattice(case)
        return model.min_errors(L, model.hyp_tokens(case)) == 0

    def examine(self, case):
        rows = rows_of(self.run_ok(case, ("sbs",)))
        need(errors(rows) == 0, "%d errors for a hypothesis that is a reading of the reference: %r", errors(rows),
             [r for r in rows if r.kind != "cor"][:4])
        return any(r.cls for r in rows) or len(rows) > 60


class Formats(Check):
    """The same words as text, CTM or NLP are the same reference and the same hypothesis."""
    id = "C06"
    rule = "there are matches and errors"

    def generate(self, g):
        case = gen_general(g, ent=0, norm=0, use_punct=0, rich=g.p(0.5))
        case["norm"] = case["sidecar"] = None
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def valid(self, case):
        return gen.wellformed(case) and not case["opts"].get("use_punctuation") and not case.get("norm") and \
            not any(r["tags"] for r in case["ref"]["rows"] if isinstance(r, dict) and "tags" in r)

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        c2 = copy.deepcopy(case)
        c2["sidecar"] = None
        # the end of a CTM is not marked the way the end of a text or an NLP is, so that equally good
        # alignments can be told apart in another way
        group = lambda f: ["ctm"] if f == "ctm" else ["txt", "nlp"]
        rf, hf = case["ref"]["fmt"], case["hyp"]["fmt"]
        exact = case["opts"].get("disable_approx") and not case["opts"].get("numbests")
        adapted = case["opts"].get("approach") != "standard"
        c2["ref"] = retype(gen.words_of(case["ref"]), g.c(gen.FMTS if exact else group(rf)), g)
        # (finding `trailing-eps` of C03)
        c2["hyp"] = retype(gen.words_of(case["hyp"]), g.c(gen.FMTS if exact and not adapted else group(hf)), g)
        loose = group(c2["ref"]["fmt"]) != group(rf) or group(c2["hyp"]["fmt"]) != group(hf)
        for s in ("ref", "hyp"):
            f = c2[s]["fmt"]
            if g.p(0.3):
                c2[s]["ext"] = g.c({"txt": [".text", "", ".csv", ".nlp.txt", ".TXT", ".ctm1"], "ctm": [".CTM", ".x.Ctm"],
                                    "nlp": [".NLP", ".ctm.nlp"]}[f])
            elif g.p(0.15):
                # a name that is nothing but an extension, or an extension without its dot
                c2[s]["name"] = g.c({"txt": [s[0] + "nlp", "ctm" if s == "ref" else "nlp", ".txt" if s == "ref" else ".x"],
                                     "ctm": [".ctm" if s == "ref" else ".CTM"], "nlp": [".nlp" if s == "ref" else ".Nlp"]}[f])
        new = rows_of(self.run_ok(c2, ("sbs",)))
        what = "%s/%s and %s/%s" % (rf, hf, c2["ref"]["fmt"], c2["hyp"]["fmt"])
        if loose:
            check_alignment(c2, new)
            if c2["hyp"]["fmt"] == "ctm" or not adapted:
                check_optimal(c2, new)
            self.label("ctm and another format")
        else:
            same_rows(what, base, new)
        k = {r.kind for r in base}
        return "cor" in k and len(k) > 1


def rename(case, ren, rules=True):
    """The case with other words: in the inputs, and in the rules and candidates when asked."""
    c2 = copy.deepcopy(case)
    for s in ("ref", "hyp"):
        for i, r in enumerate(c2[s]["rows"]):
            if c2[s]["fmt"] == "txt":
                c2[s]["rows"][i] = ren(r)
            else:
                k = "word" if c2[s]["fmt"] == "ctm" else "token"
                r[k] = ren(r[k])
                if r.get("punctuation") and case["opts"].get("use_punctuation"):
                    r["punctuation"] = ren(r["punctuation"])
    if c2.get("syn") and rules:
        out = []
        for l in c2["syn"]:
            if l.strip() and not l.strip().startswith("#"):
                a, b = l.split("|")
                l = "%s | %s" % (" ".join(ren(w) for w in a.split()), ";".join(" ".join(ren(w) for w in x.split())
                                                                              for x in b.split(";")))
            out.append(l)
        c2["syn"] = out
    for v in (c2.get("norm") or {}).values():
        for c in v["candidates"]:
            c["verbalization"] = [ren(w) for w in c["verbalization"]]
    return c2


def same_wer(what, base, new, case=None):
    if cost_of(base) == cost_of(new):
        return          # of several alignments of the same cost either run may find another one
    if abs(wer_of(errors(base), words(base)) - wer_of(errors(new), words(new))) < 1e-9:
        return
    if case and case["opts"].get("disable_approx") and not case["opts"].get("numbests"):
        check_optimal(case, new)
        return
    need(errors(base) == errors(new) and not words(base) + words(new), what + ": %d/%d and %d/%d", errors(base), words(base),
         errors(new), words(new))


class Casing(Check):
    """Letter case counts only with --use-case."""
    id = "C07"
    rule = "some word is written in two ways"

    def generate(self, g):
        v = g.vocab(["plain", "words", "uni", "mix", "confus", "hyph"])
        case = gen_general(g, vocab=v, use_case=0.4, ent=0.4)
        for s in ("ref", "hyp"):
            for i, r in enumerate(case[s]["rows"]):
                if g.p(0.4):
                    if case[s]["fmt"] == "txt":
                        case[s]["rows"][i] = g.mixcase(r)
                    else:
                        k = "word" if case[s]["fmt"] == "ctm" else "token"
                        r[k] = g.mixcase(r[k])
        if case["opts"].get("use_case"):
            # words that are written in the same way everywhere, rules and candidates included
            how = {}
            case = rename(case, lambda w: w if "-" in w or g.p(0.1) else how.setdefault(w.lower(), g.mixcase(w) if g.p(0.4) else w))
        case["vseed"] = g.i(0, 10 ** 9)
        return case if gen.wellformed(case) else None

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        uc = case["opts"].get("use_case")
        used = {}

        def respell(w):
            if not uc:
                return g.mixcase(w)
            # different spellings become different words
            return used.setdefault(w, "%s%s" % (w.lower(), "" if w == w.lower() else "=%d" % len(used)))
        # (the words of the rules have to be given as they are after lowercasing)
        c2 = rename(case, respell, rules=uc)
        seen = {}
        for s in ("ref", "hyp"):
            for w in gen.words_of(case[s]):
                seen.setdefault(w.lower(), set()).add(w)
        if uc:
            c2["opts"] = dict(c2["opts"], use_case=False)
        new = rows_of(self.run_ok(c2, ("sbs",)))
        if uc:
            back = {v: k for k, v in used.items()}
            for r in new:
                r.ref, r.hyp = back.get(r.ref, r.ref), back.get(r.hyp, r.hyp)
            if any("-" in w for w in used):
                return False    # (words made of other words)
        if uc and (case.get("syn") or case.get("norm")):
            # equally good readings are told apart by their words
            same_wer("other letter cases", base, new, c2)
        else:
            same_rows("other letter cases", base, new)
        return any(len(x) > 1 for x in seen.values())


class Punctuation(Check):
    """--use-punctuation: an NLP file is the text with the marks as words of their own."""
    id = "C08"
    rule = "some mark is matched and there is an error"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp", "nlp", "txt"), ("nlp", "nlp", "txt")), ent=0.6, use_punct=1, syn=0.25,
                           n=g.length(0, 60))
        if case["opts"].get("approach") == "standard":
            case["opts"]["disable_approx"] = True   # (finding of C01: no alignment for very erroneous input)
        for s in ("ref", "hyp"):
            if case[s]["fmt"] == "nlp":
                for r in case[s]["rows"]:
                    if g.p(0.3):
                        r["punctuation"] = g.c(gen.PUNCT[:3])
            else:
                case[s]["rows"] = [x for w in case[s]["rows"] for x in ([w, g.c(gen.PUNCT[:3])] if g.p(0.3) else [w])]
        if case["ref"]["fmt"] != "nlp" or g.p(0.5):
            for r in case["ref"]["rows"] if case["ref"]["fmt"] == "nlp" else ():
                r["tags"] = []
            case["norm"] = None
        case["sidecar"] = None
        case["opts"]["use_punctuation"] = True
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("use_punctuation") and case["hyp"]["fmt"] != "ctm"

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        c2 = copy.deepcopy(case)
        for s in ("ref", "hyp"):
            if c2[s]["fmt"] == "nlp" and s == "ref" and any(r["tags"] for r in c2[s]["rows"]):
                # a mark in an entity is a word of its own reading, a mark after it is a row
                w = []
                for i, r in enumerate(c2[s]["rows"]):
                    nxt = c2[s]["rows"][i + 1:i + 2]
                    mark, r["punctuation"] = r["punctuation"], ""
                    w.append(r)
                    if mark:
                        inside = r["tags"] and nxt and nxt[0]["tags"][:1] == r["tags"][:1]
                        w.append(dict(r, token=mark, case="LC", tags=r["tags"] if inside else []))
                c2[s]["rows"] = w
            elif c2[s]["fmt"] == "nlp":
                w = []
                for r in c2[s]["rows"]:
                    w += [r["token"]] + ([r["punctuation"]] if r["punctuation"] else [])
                c2[s] = g.txt(w)
        c2["opts"]["use_punctuation"] = g.p(0.5)
        new = rows_of(self.run_ok(c2, ("sbs",)))
        same_rows("punctuation as words", base, new)
        # and without the flag the marks do not exist
        c3 = copy.deepcopy(case)
        c3["opts"]["use_punctuation"] = False
        if case["ref"]["fmt"] == case["hyp"]["fmt"] == "nlp":
            c4 = copy.deepcopy(c3)
            for s in ("ref", "hyp"):
                for r in c4[s]["rows"]:
                    r["punctuation"] = ""
            same_rows("punctuation without the flag", rows_of(self.run_ok(c3, ("sbs",))), rows_of(self.run_ok(c4, ("sbs",))))
        return any(r.ref in gen.PUNCT and r.kind == "cor" for r in base) and any(r.kind != "cor" for r in base)


def norm_syn(rows):
    """Rows with the numbers of the synonym occurrences removed (they count rules, too)."""
    out = []
    for r in rows:
        m = re.fullmatch(r"___\d+(_SYN_\d+-\d+___)", r.cls)
        out.append((r.ref, r.hyp, r.err, m.group(1) if m else r.cls))
    return out


class SynonymFile(Check):
    """The synonym file: layout is irrelevant, rules are one way, more rules never hurt."""
    id = "C09"
    rule = "a synonym is used"

    def generate(self, g):
        case = gen_general(g, syn=1, approx=1, n=g.length(0, 40), hyphens=0.1)
        case["opts"]["disable_approx"] = True
        case["opts"].pop("numbests", None)
        if case["syn"] is None:
            case["syn"] = ["a | b", "c d | e"]
        if case["hyp"]["fmt"] != "ctm":
            case["hyp"] = g.ctm(gen.words_of(case["hyp"]))
        case["vseed"] = g.i(0, 10 ** 9)
        if g.p(0.15) and case["ref"]["fmt"] == "txt" and case["ref"]["rows"] and case["hyp"]["rows"]:
            # words that would be rules if they were not comments
            ref, hyp = case["ref"]["rows"], gen.words_of(case["hyp"])
            for _ in range(g.i(1, 3)):
                j = g.i(0, len(ref) - 1)
                w = hyp[min(j, len(hyp) - 1)]
                if not w.startswith("#"):
                    ref[j] = "#" + w
                    case["syn"].insert(g.i(0, len(case["syn"])), g.c(["#%s | %s", "  #%s|%s"]) % (w, w))
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("disable_approx") and case["hyp"]["fmt"] == "ctm" and \
            case.get("syn") is not None and not case["opts"].get("numbests")

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        rules = [l for l in case["syn"] if l.strip() and not l.strip().startswith("#")]
        # another layout of the same rules
        out = ["%s | %s" % (w, w[1:]) for w in gen.words_of(case["ref"]) if w.startswith("#") and "|" not in w and g.p(0.5)]
        for l in rules:
            while g.p(0.3):
                out.append(g.c(["", "#", "# a | b", "   ", "  # c | d ; e", "\t"]))
            a, b = l.split("|")
            sp = g.c([" ", "", "  ", "\t"])
            a = g.c(["", " ", "\t"]) + g.c([" ", "  "]).join(a.split()) + sp
            b = g.c([";", " ; ", "; ", " ;"]).join(" ".join(x.split()) for x in b.split(";"))
            out.append(a + "|" + g.c(["", " ", "  "]) + b + g.c(["", " ", "\t"]))
            if g.p(0.2):
                out.append("%s|%s" % (a.strip(), g.c(["zz9", "b", "a b"])))     # a second definition is ignored
        c2 = dict(case, syn=out)
        new = rows_of(self.run_ok(c2, ("sbs",)))
        a, b = norm_syn(base), norm_syn(new)
        need(a == b, "another layout of the rules changes the alignment: %r", [(x, y) for x, y in zip(a, b) if x != y][:3])
        # one way: without the rules there is no synonym but the generated ones, with them the result is optimal
        check_optimal(case, base)
        bare = rows_of(self.run_ok(dict(case, syn=None), ("sbs",)))
        check_alignment(dict(case, syn=None), bare)
        check_optimal(dict(case, syn=None), bare)
        return any("_SYN_" in r.cls for r in base)


class Hyphens(Check):
    """Generated synonyms are the rules one would have written."""
    id = "C10"
    rule = "a generated synonym is used"

    def generate(self, g):
        case = gen_general(g, syn=0.3, approx=1, n=g.length(0, 35), hyphens=1, rate=g.c([0, 0.1, 0.25]))
        case["opts"]["disable_approx"] = True
        for k in ("numbests", "disable_cutoffs", "disable_hyphen_ignore"):
            case["opts"].pop(k, None)
        if g.p(0.3):
            case["opts"]["disable_cutoffs"] = True
        if g.p(0.3):
            case["opts"]["disable_hyphen_ignore"] = True

        def chop(ws):
            out = []
            for w in ws:
                if w.endswith("-") and len(w) > 1 and g.p(0.5):
                    out.append(w[:-1])
                elif "-" in w[1:-1] and g.p(0.5):
                    out += w.split("-")
                else:
                    out.append(w)
            return out
        if g.p(0.4) and case["ref"]["fmt"] != "nlp":
            # compounds that the reference has as separate words
            case["ref"] = g.side(chop(gen.words_of(case["ref"])), case["ref"]["fmt"])
            case["hyp"] = g.ctm(gen.words_of(case["hyp"]))
        else:
            case["hyp"] = g.ctm(chop(gen.words_of(case["hyp"])))
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("disable_approx") and case["hyp"]["fmt"] == "ctm" and \
            not case["opts"].get("numbests")

    def examine(self, case):
        base = rows_of(self.run_ok(case, ("sbs",)))
        L = model.ref_lattice(case, synonyms=False)
        vocab = [t for arcs in L.arcs for t, _c, _v in arcs]
        table = model.synonym_table(case, vocab)
        lines = ["%s | %s" % (" ".join(k), " ; ".join(" ".join(a) for a in alts)) for k, alts in table.items() if alts]
        c2 = dict(case, syn=lines, opts=dict(case["opts"], disable_cutoffs=True, disable_hyphen_ignore=True))
        new = rows_of(self.run_ok(c2, ("sbs",)))
        check_optimal(case, base)
        # (of several alignments of the same cost either run may find another one)
        check_optimal(c2, new)
        used = [r for r in base if "_SYN_" in r.cls]
        given = model.parse_rules(case.get("syn") or [])
        if case["opts"].get("disable_cutoffs") and case["opts"].get("disable_hyphen_ignore") and not given:
            need(not used, "synonyms were generated although both kinds are disabled: %r", used[:3])
        return bool(used)


class Normalisation(Check):
    """Normalisation candidates: what they say counts, not how the file is laid out."""
    id = "C11"
    rule = "a candidate other than the words of the reference is used"

    def generate(self, g):
        n = g.length(0, 35)
        case = gen_general(g, n=n, fmts=(("nlp",), ("ctm",)), ent=1, norm=1, syn=0.2, approx=1, rate=g.c([0, 0.1, 0.25]),
                           use_punct=0)
        case["opts"]["disable_approx"] = True
        case["opts"].pop("numbests", None)
        L = model.ref_lattice(dict(case, hyp=dict(fmt="txt", rows=[])))
        if g.p(0.6):
            w = []
            for t in L.walk(g.c):
                if g.p(0.9):
                    w.append(t)
                if g.p(0.05):
                    w.append(g.c(["zz", "a"]))
            case["hyp"] = g.ctm(w)
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("disable_approx") and case["hyp"]["fmt"] == "ctm" and \
            case["ref"]["fmt"] == "nlp" and not case["opts"].get("numbests")

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        check_alignment(case, base)
        hyp = model.hyp_tokens(case)
        check_optimal(case, base)
        norm = {}
        ids = list((case.get("norm") or {}).items())
        g.r.shuffle(ids)
        for k, v in ids:
            cands = [dict(c, probability=g.c([0.1, 0.9, 1])) for c in v["candidates"]]
            g.r.shuffle(cands)
            if cands and g.p(0.3):
                cands.append(g.c(cands))
            norm[k] = {"class": g.c(["C", "D"]), "candidates": cands}
        norm["12345"] = {"candidates": [{"verbalization": hyp[:3] or ["x"]}], "class": "C"}
        new = rows_of(self.run_ok(dict(case, norm=norm), ("sbs",)))
        # (of several alignments of the same cost either run may find another one)
        check_alignment(dict(case, norm=norm), new)
        check_optimal(dict(case, norm=norm), new)
        # without the file there are only the words of the reference
        without = rows_of(self.run_ok(dict(case, norm=None), ("sbs",)))
        check_alignment(dict(case, norm=None), without)
        check_optimal(dict(case, norm=None), without)
        return errors(base) < errors(without)


class Renaming(Check):
    """Words are names: a one-to-one renaming renames the result."""
    id = "C27"
    rule = "there are matches and errors"

    def generate(self, g):
        case = gen_general(g, vocab=g.vocab(["plain", "words", "uni", "noise", "confus", "many", "mix"]), use_case=0.05,
                           hyphens=0)
        if not self.valid(case):
            return None
        case["vseed"] = g.i(0, 10 ** 9)
        return case

    def valid(self, case):
        return gen.wellformed(case) and not any("-" in w or w.lower() == "<unk>" for s in ("ref", "hyp") for w in gen.words_of(case[s]))

    def examine(self, case):
        g = rng(case)
        base = rows_of(self.run_ok(case, ("sbs",)))
        names = {}
        style = g.c(["q%d", "w%d", "%dx", "é%d", "na%dme", "<%d>", "zz%d'", "x___%d", "_%d___", "a_syn_%d_1___", "%d:money", "%d:b>", "<%d", "%d>", "a<%d:b>", "%d.", "['%d']", "(%d)", "\\n%d", "%d%%"] + ([] if case.get("syn") else ["#%d", "ln%d;"]))
        uc = case["opts"].get("use_case")

        def ren(w):
            k = w if uc else w.lower()
            return names.setdefault(k, style % len(names))
        c2 = rename(case, ren)
        new = rows_of(self.run_ok(c2, ("sbs",)))
        back = {v: k for k, v in names.items()}
        for r in new:
            r.ref, r.hyp = back.get(r.ref, r.ref), back.get(r.hyp, r.hyp)
        if case.get("syn") or case.get("norm"):
            # equally good readings are told apart by their words
            same_wer("renamed words", base, new, c2)
        else:
            same_rows("renamed words", base, new)
        k = {r.kind for r in base}
        return "cor" in k and len(k) > 1


class Candidates(Check):
    """--numbests: looking at more candidates never gives a worse WER."""
    id = "C26"
    rule = "there are matches and errors"

    def generate(self, g):
        case = gen_general(g, approx=1, n=g.length(0, 40))
        case["opts"]["disable_approx"] = True
        case["opts"]["numbests"] = g.c([1, 1, 2, 3, 5])
        case["more"] = case["opts"]["numbests"] + g.c([1, 2, 10, 200])
        return case

    def valid(self, case):
        return gen.wellformed(case) and case["opts"].get("disable_approx") and case["opts"].get("numbests", 0) > 0 and \
            case["more"] > case["opts"]["numbests"]

    def examine(self, case):
        a = rows_of(self.run_ok(case, ("sbs",)))
        c2 = dict(case, opts=dict(case["opts"], numbests=case["more"]))
        b = rows_of(self.run_ok(c2, ("sbs",)))
        need(wer_of(errors(b), words(b)) <= wer_of(errors(a), words(a)) + 1e-9,
             "%d/%d with %d candidates, %d/%d with %d", errors(a), words(a), case["opts"]["numbests"], errors(b),
             words(b), case["more"])
        k = {r.kind for r in a}
        return "cor" in k and len(k) > 1


class ApproxPass(Check):
    """The approximate pass is a shortcut: where errors are sparse it changes nothing."""
    id = "C04"
    rule = "the approximate pass ran and there are errors"

    def generate(self, g):
        kind = g.c(["sparse", "sparse", "small", "streak", "plain"])
        v = g.vocab(["plain", "words", "uni", "many", "mix"], size=g.c([6, 10, 30]))
        big = g.p(0.2)
        case = gen_general(g, n=g.i(0, 10) if kind == "small" else g.i(150, 700) if big and kind == "sparse" else g.i(11, 60),
                           vocab=v, syn=0.4 if kind in ("small", "streak") else 0, approx=0,
                           ent=0.5 if kind in ("small", "streak") else 0, approach="adapted", hyphens=0, use_punct=0)
        case["opts"].pop("disable_approx", None)
        case["opts"].pop("streak", None)
        case["opts"].pop("numbests", None)
        case["kind"] = kind
        if kind == "small":
            pass
        elif kind == "streak":
            case["opts"]["streak"] = 0
            w = gen.words_of(case["hyp"])
            w.insert(g.i(0, len(w)), "zzz")
            # (errors at the very end are no streak)
            tail = ["end%d" % i for i in range(4)]
            case["hyp"] = retype(w + tail, g.fmt(), g)
            if case["ref"]["fmt"] == "nlp":
                case["ref"]["rows"] += g.nlp(tail, rich=False)["rows"]
            else:
                case["ref"]["rows"] += g.side(tail, case["ref"]["fmt"])["rows"]
                if case["ref"]["fmt"] == "ctm":
                    for r in case["ref"]["rows"]:
                        r["conf"] = None
        elif kind == "sparse":
            case["syn"] = None
            w = gen.words_of(case["ref"])
            out, last = [], -1
            gap = 12
            i = 0
            while i < len(w):
                if i - last > gap and g.p(0.15) and i + gap < len(w):
                    op = g.c(["sub", "ins", "del"])
                    if op == "del":
                        i += 1
                    elif op == "sub":
                        out.append("zz%d" % g.i(0, 3))
                        i += 1
                    else:
                        out.append("zz%d" % g.i(0, 3))
                    last = i
                    continue
                out.append(w[i])
                i += 1
            case["hyp"] = retype(out, g.fmt(), g)
        return case

    def valid(self, case):
        if not gen.wellformed(case) or case["opts"].get("disable_approx"):
            return False
        r, h = gen.words_of(case["ref"]), gen.words_of(case["hyp"])
        if case["opts"].get("approach") == "standard":
            return False
        k = case["kind"]
        if k == "small":
            return len(r) <= 10 or len(h) <= 10
        if k == "streak":
            if not (len(r) > 4 < len(h) and r[-4:] == h[-4:] and all((r + h).count(x) == 2 for x in r[-4:])):
                return False
            return case["opts"].get("streak") == 0 and bool({x.lower() for x in h} - {x.lower() for x in r})
        return not case.get("syn")

    def examine(self, case):
        k = case["kind"]
        a = rows_of(self.run_ok(case, ("sbs",)))
        exact = dict(case, opts=dict(case["opts"], disable_approx=True))
        r, h = gen.words_of(case["ref"]), gen.words_of(case["hyp"])
        ran = len(r) > 10 and len(h) > 10
        if k in ("small", "streak") or not ran:
            same_rows("the approximate pass (%s)" % k, rows_of(self.run_ok(exact, ("sbs",))), a)
            return errors(a) > 0 and k != "small" and ran
        L = model.levenshtein([x.lower() for x in r], [x.lower() for x in h])
        if case["opts"].get("use_case"):
            L = model.levenshtein(r, h)
        check_alignment(case, a)
        if k == "sparse":
            need(errors(a) == L, "%d errors where the edit distance is %d", errors(a), L)
        else:
            self.label("loss %d" % (errors(a) - L))
            need(errors(a) >= L, "%d errors where the edit distance is %d", errors(a), L)
        return errors(a) > 0


ALL = [Identity, Formats, Casing, Punctuation, SynonymFile, Hyphens, Normalisation, Renaming, Candidates, ApproxPass]
