"""The statistics: every number the program reports against its definition."""
import json
import math
import re

import gen
import model
from checks_core import gen_general
from engine import Check, Known, Violation, need
from prog import ANSI, Log, Sbs, parse_json, parse_nlp


def observe(check, case, outputs=("sbs", "json")):
    run = check.run_ok(case, outputs)
    need("out.sbs" in run.files, "no side-by-side file was written")
    rows = Sbs(run.files["out.sbs"]).rows
    js = None
    if "json" in outputs:
        need("out.json" in run.files, "no JSON log was written")
        js = parse_json(run.files["out.json"])["wer"]
    return run, rows, js


def same_result(name, got, want, meta=None):
    """A JSON result block against the counts it has to show."""
    need(isinstance(got, dict), "%s is %r", name, got)
    for k, v in want.key().items():
        need(got.get(k) == v, "%s: %s is %r, not %r (%r)", name, k, got.get(k), v, want.key())
    if meta is not None:
        need(got.get("meta") == meta, "%s: meta is %r", name, got.get("meta"))
    if want.words == 0 and name != "bestWER":
        return              # no ratio to speak of
    w = got.get("wer")
    need(isinstance(w, (int, float)) and model.close(float(w), model.wer_value(want)), "%s: wer is %r for %r", name, w,
         want.key())


def log_value(name, got, want):
    """(errors, words, ratio text) of a log line."""
    e = want.ins + want.dele + want.sub
    need(got is not None, "%s is not in the log", name)
    need(got[0] == e and got[1] == want.words, "%s: the log says %r/%r for %r", name, got[0], got[1], want.key())
    if want.words == 0 and "best" not in name:
        return
    v = float(got[2])
    w = model.wer_value(want)
    need(abs(v - w) <= 0.5001e-4 + 1e-6 * abs(w) if math.isfinite(w) else v == w, "%s: the log says %s for %r", name,
         got[2], want.key())


def same_map(name, got, want, **kw):
    got = got or {}
    need(set(got) == set(want), "%s has entries %r, expected %r", name, sorted(got), sorted(want))
    for k in want:
        same_result("%s[%s]" % (name, k), got[k], want[k], **kw)


def no_log(run):
    return Log(run.stdout)


class Totals(Check):
    id = "C02"
    rule = "the alignment has matches and at least two kinds of error"

    def generate(self, g):
        return gen_general(g)

    def examine(self, case):
        run, rows, js = observe(self, case, ("sbs", "json", "log"))
        c = model.counts(rows)
        same_result("bestWER", js.get("bestWER"), c, meta={})
        p, r = model.precision_recall(c)
        for k, v in (("precision", p), ("recall", r)):
            need(model.close(js["bestWER"].get(k), v), "bestWER: %s is %r, not %r", k, js["bestWER"].get(k), v)
        need("out.log" in run.files, "no log was written")
        for where, text in (("the log file", run.files["out.log"].decode("utf-8", "replace")), ("standard output", run.stdout)):
            lg = Log(text)
            log_value("best WER in " + where, lg.best, c)
            need(lg.best[3] == c.words, "%s: total words %d, not %d", where, lg.best[3], c.words)
            need(lg.ids == (c.ins, c.dele, c.sub), "%s: INS, DEL, SUB are %r, not %r", where, lg.ids, (c.ins, c.dele, c.sub))
            need(lg.pr is not None, "%s has no precision and recall", where)
            for t, v in zip(lg.pr, (p, r)):
                t = float(t)
                need(math.isnan(t) if v is None else abs(t - v) < 1.1e-6, "%s: precision, recall are %r, not %r", where,
                     lg.pr, (p, r))
        return len({x.kind for x in rows} - {"cor"}) > 1 and any(x.kind == "cor" for x in rows)


class ClassWer(Check):
    id = "C12"
    rule = "at least two classes have words and one of them an error"

    def generate(self, g):
        return gen_general(g, fmts=(("nlp", "nlp", "nlp", "txt"), ()), ent=1, syn=0.5)

    def examine(self, case):
        run, rows, js = observe(self, case)
        want = model.class_counts(rows, model.stitch(case, rows))
        same_map("classWER", js.get("classWER"), want, meta={})
        lg = Log(run.stdout)
        need(set(lg.cls) == set(want), "the log has classes %r, expected %r", sorted(lg.cls), sorted(want))
        for k in want:
            log_value("class " + k, lg.cls[k], want[k])
        return len(want) > 1 and any(c.dele + c.sub for c in want.values())


class Speakers(Check):
    id = "C13"
    rule = "there are at least two speakers and errors"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp",), ()), ent=0.5, syn=0.35, use_case=0.1, use_punct=0.1)
        if g.p(0.7):
            case["opts"]["context"] = g.c([0, 1, 1, 2, 3, 5, 8, 40, -3])
        return case

    def examine(self, case):
        run, rows, js = observe(self, case)
        st = model.stitch(case, rows)
        if not model.settled(st):
            return False
        want = model.speaker_counts(st)
        same_map("speakerWER", js.get("speakerWER"), want, meta={})
        lg = Log(run.stdout)
        need(set(lg.speaker) == set(want), "the log has speakers %r, expected %r", sorted(lg.speaker), sorted(want))
        for k in want:
            log_value("speaker " + k, lg.speaker[k], want[k])
        ctx = case["opts"].get("context")
        ctx = 5 if ctx is None else ctx
        if ctx > 0:
            sw = model.switch_counts(st, ctx)
            same_result("speakerSwitchWER", js.get("speakerSwitchWER"), sw, meta={"windowSize": ctx})
            m = re.search(r"Speaker switch WER: (\d+)/(\d+) = (\S+)", ANSI.sub("", run.stdout))
            log_value("speaker switch WER", (int(m.group(1)), int(m.group(2)), m.group(3)) if m else None, sw)
        else:
            need("speakerSwitchWER" not in js, "there is a speakerSwitchWER although the context is %d", ctx)
        return len(want) > 1 and any(r.kind != "cor" for r in rows)


class Sentences(Check):
    id = "C14"
    rule = "there are at least two sentences or a tagged word, and errors"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp",), ()), ent=0.5, syn=0.35, use_case=0.1, use_punct=0)
        if g.p(0.6):
            case["sidecar"] = g.sidecar(case["ref"]["rows"])
        return case

    def valid(self, case):
        return gen.wellformed(case) and not case["opts"].get("use_punctuation")

    def examine(self, case):
        run, rows, js = observe(self, case)
        st = model.stitch(case, rows)
        if not model.settled(st):
            return False
        want = model.sentence_counts(st)
        got = js.get("sentenceWer")
        need(got is not None or not want, "there is no sentenceWer")
        got = got or []
        need(len(got) == len(want), "there are %d sentences, expected %d", len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            same_result("sentence %d" % i, a, b)
        tags = model.tag_counts(st)
        same_map("wer_tag", js.get("wer_tag"), tags, meta={})
        lg = Log(run.stdout)
        need(set(lg.tag) == set(tags), "the log has tags %r, expected %r", sorted(lg.tag), sorted(tags))
        for k in tags:
            log_value("tag " + k, lg.tag[k], tags[k])
        for i, (r, t) in enumerate(zip(rows, model.sbs_tags(st, case.get("sidecar")))):
            need(r.tags == t, "row %d of the side-by-side file has the tags %r, expected %r", i, r.tags, t)
        return (len(want) > 1 or tags) and any(r.kind != "cor" for r in rows)


class Grams(Check):
    id = "C15"
    rule = "some n-gram is reported with both correct and wrong occurrences"

    def generate(self, g):
        case = gen_general(g, syn=0.25, ent=0.4)
        if g.p(0.4):
            case["opts"]["pr_threshold"] = g.c([0, 1, 2, 3, 5])
        return case if self.valid(case) else None

    def valid(self, case):
        # (words with ___ anywhere are left out of the n-grams by the program)
        return gen.wellformed(case) and "___" not in json.dumps([case.get(k) for k in ("ref", "hyp", "syn", "norm")])

    def examine(self, case):
        run, rows, js = observe(self, case)
        th = case["opts"].get("pr_threshold") or 0
        nt = False
        for name, want in (("unigrams", model.unigrams(rows)), ("bigrams", model.bigrams(rows))):
            got = js.get(name) or {}
            want = {k: v for k, v in want.items() if model.gram_total(v) >= th}
            need(set(got) == set(want), "%s are reported for %r but not for %r", name, sorted(set(got) - set(want)),
                 sorted(set(want) - set(got)))
            for w in want:
                for k, v in want[w].items():
                    x = got[w].get(k)
                    need(isinstance(x, (int, float)) and (model.close(x, v, 2e-5) if k in ("precision", "recall") else x == v),
                         "%s of %r: %s is %r, not %r", name, w, k, x, v)
                if want[w]["correct"] and model.gram_total(want[w]) > want[w]["correct"]:
                    nt = True
        return nt


class ErrorGroups(Check):
    id = "C18"
    rule = "there are at least two error groups, one of them of several rows"

    def generate(self, g):
        return gen_general(g)

    def examine(self, case):
        run = self.run_ok(case, ("sbs",))
        s = Sbs(run.files["out.sbs"])
        want = model.error_groups(s.rows)
        need(s.groups == want, "the error groups are %r, expected %r", s.groups, want)
        return len(want) > 1 and sum(r.kind != "cor" for r in s.rows) > len(want)


class CaseStats(Check):
    id = "C24"
    rule = "there are true and false positives or negatives"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp",), ("nlp", "ctm", "txt")), ent=0.5, syn=0.3, use_case=0.2, use_punct=0.1,
                           vocab=g.vocab(["plain", "words", "mix", "confus", "uni"]) if g.p(0.8) else None)
        for s in ("ref", "hyp"):
            rows = case[s]["rows"]
            for i, r in enumerate(rows):
                if g.p(0.5):
                    if case[s]["fmt"] == "txt":
                        rows[i] = g.mixcase(r)
                    else:
                        k = "word" if case[s]["fmt"] == "ctm" else "token"
                        r[k] = g.mixcase(r[k])
                        if "case" in r and g.p(0.8):
                            r["case"] = "LC" if r[k] == r[k].lower() else g.c(["UC", "CA"])
        if not g.p(0.1):
            case["opts"]["record_case_stats"] = True
        return case

    def examine(self, case):
        run, rows, js = observe(self, case)
        got = js.get("caseWER")
        if not case["opts"].get("record_case_stats"):
            need(got is None, "there is a caseWER although it was not asked for")
            return False
        want = model.case_counts(model.stitch(case, rows))
        need(isinstance(got, dict) and set(got) == {"matching", "all"}, "caseWER is %r", got)
        for k, (tp, fp, fn) in want.items():
            g = got[k]
            need((g.get("true_positive"), g.get("false_positive"), g.get("false_negative")) == (tp, fp, fn),
                 "caseWER of %s is %r, expected tp, fp, fn = %r", k, g, (tp, fp, fn))
            p = tp / (tp + fp) if tp + fp else None
            r = tp / (tp + fn) if tp + fn else None
            need(model.close(g.get("precision"), p) and model.close(g.get("recall"), r), "caseWER of %s is %r", k, g)
        tp, fp, fn = want["all"]
        return bool(tp and (fp or fn))


class AlignedRows(Check):
    """--output-nlp: the rows."""
    id = "C16"
    rule = "at least one row went through an entity, a normalisation or a synonym, or is an error"

    def generate(self, g):
        case = gen_general(g, fmts=(("nlp",), ()), ent=0.7, syn=0.4, dense=0.006)
        if g.p(0.3):
            case["opts"]["add_inserts"] = True
        return case

    def examine(self, case):
        run = self.run_ok(case, ("sbs", "nlp"))
        rows = Sbs(run.files["out.sbs"]).rows
        need("out.nlp" in run.files, "no aligned NLP file was written")
        head, got = parse_nlp(run.files["out.nlp"])
        check_nlp(case, rows, head, got)
        return any(r.cls or r.kind != "cor" for r in rows)


def check_nlp(case, rows, head, got, times=True):
    from prog import NLP_HEADER
    need(head == NLP_HEADER, "the header of the aligned NLP is %r", head)
    st = model.stitch(case, rows)
    want = model.expected_nlp(case, st, case["opts"].get("add_inserts"))
    if len(got) < len(want):
        want = [b for b in want if not b.get("left_out")]
    need(len(got) == len(want), "the aligned NLP has %d rows, expected %d", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        for k in set(b) - ({"left_out", "ali_comment"} if b.get("left_out") else set()):
            need(a[k] == b[k], "row %d of the aligned NLP: %s is %r, expected %r in %r", i, k, a[k], b[k], a)
    return st


ALL = [Totals, ClassWer, Speakers, Sentences, Grams, ErrorGroups, CaseStats, AlignedRows]
