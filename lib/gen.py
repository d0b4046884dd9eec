"""Seeded random generators of whole cases, and their serialisation to files.

A case is plain JSON data:
  {"cmd": "wer"|"align", "ref": {"fmt", "rows", ...}, "hyp": {"fmt", "rows", ...},
   "opts": {...}, "syn": [lines] | None, "norm": {...} | None, "sidecar": {...} | None}
"""
import json
import re

PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"]
WORDS = ["the", "cat", "sat", "on", "mat", "dog", "we", "will", "have", "victory", "it's", "don't", "twenty", "50$",
         "o'neil", "3.5", "u.s.", "a", "i", "100", "2020", "&", "#hash", "c++", "50%", "{x}", "back\\slash", "a;b",
         "q\"uote", "semi;", "e=mc2", "x_y", "foo___bar", "__init__", "x___", "_syn_", "http://rev.com", "~", "*", "a/b", "(paren)", "[brk]", "<5>%", "<b>bold</b>", "<i", "x>", "a<b"]
UNI = ["\u00e9t\u00e9", "\u00f1and\u00fa", "\u0436\u0443\u043a", "\u00fcber", "\u65e5\u672c", "na\u00efve",
       "\u03bb\u03b2\u03b3\u03bf", "\u0161\u010d\u017e", "\u00e6\u00f8\u00e5", "\u0141\u00f3d\u017a".lower(), "caf\u00e9"]
NOISE = ["<laugh>", "<5>%", "<laugh", "<unk>", "<crosstalk>", "<silence>", "<inaudible>", "<affirmative>"]
LONG = ["antidisestablishmentarianism", "pneumonoultramicroscopicsilicovolcanoconiosis", "x" * 70,
        "incomprehensibilities", "internationalization", "exactly20characters_", "exactly21characters__"]
HYPH = ["best-ever", "best", "ever", "the-", "the", "long-term", "long", "term", "s-", "s", "a-b-c", "a", "b", "c",
        "he-", "he", "mother-in-law", "mother", "in", "law", "re-do", "re", "do"]
CONFUS = ["cat", "cats", "Cat".lower(), "car", "cart", "art", "ca", "c"]

KINDS = {"plain": PLAIN, "words": WORDS, "uni": UNI, "noise": NOISE + PLAIN[:5], "long": LONG + PLAIN[:3],
         "confus": CONFUS}
PUNCT = [".", ",", "?", "!", ";", "\u2026", ":"]
CLASSES = ["CARDINAL", "MONEY", "DATE", "ORG", "CONTRACTION", "SPACY_TIME", "X", "ORDINAL", "PERSON", "A_B_C", "FALLBACK"]
SPEAKERS = ["1", "2", "3", "0", "A", "spk-4", "12", "Bob"]
TIMES = ["0.0", "1.25", "3", "10.5", "0.01", "123.456", "7.123456", "2.00005", "86399.99", "0"]
FMTS = ["txt", "ctm", "nlp"]
RESERVED = {"<eps>", "<oov>", "<ins>", "<del>", "<sub>"}


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.c = rng.choice
        self.i = rng.randint
        self.p = lambda q: rng.random() < q

    # ------------------------------------------------------------- words
    def length(self, big=0.04, mx=None):
        x = self.r.random()
        if x < 0.04:
            n = 0
        elif x < 0.45:
            n = self.i(1, 9)
        elif x < 0.75:
            n = self.i(8, 20)
        elif x < 1 - big:
            n = self.i(15, 60)
        else:
            n = self.i(60, 260)
        return n if mx is None else min(n, mx)

    def vocab(self, kinds=None, size=None):
        k = self.c(kinds or ["plain", "plain", "words", "uni", "noise", "long", "confus", "many", "mix"])
        n = size or self.c([1, 2, 3, 4, 6, 10, 30])
        if k == "many":
            return ["w%d" % i for i in range(max(n, 10) * 6)]
        if k == "hyph":
            return self.r.sample(HYPH, min(len(HYPH), max(4, n)))
        if k == "mix":
            base = PLAIN + WORDS + UNI + NOISE
        else:
            base = KINDS[k]
        return self.r.sample(base, min(n, len(base)))

    def pair(self, vocab, n=None, rate=None, maxerr=None):
        """Reference and hypothesis words; the latter is an edit of the former (mostly)."""
        if n is None:
            n = self.length()
        w = lambda: self.c(vocab)
        ref = []
        while len(ref) < n:
            if len(ref) > 3 and self.p(0.08):  # repeated phrases make ambiguous alignments
                k = self.i(1, 4)
                j = self.i(0, len(ref) - 1)
                ref += ref[j:j + k]
            else:
                ref.append(w())
        ref = ref[:n]
        if rate is None:
            rate = self.c([0, 0.03, 0.1, 0.1, 0.25, 0.6, 2])
        if rate == 2 and maxerr is None:
            return ref, [w() for _ in range(self.length(0))]
        hyp = []
        i = err = 0
        while i < len(ref):
            t = ref[i]
            if self.p(rate) and (maxerr is None or err < maxerr):
                k = self.c([1, 1, 1, 1, 2, 3, 5])
                if maxerr is not None:
                    k = min(k, maxerr - err)
                op = self.i(0, 4)
                if op <= 1:
                    i += k
                elif op <= 3:
                    hyp += [w() for _ in range(k)]
                    i += k if op == 3 else 0
                    if op == 2:
                        hyp.append(t)
                        i += 1
                else:
                    hyp.append(w())
                    i += 1
                err += k
            else:
                hyp.append(t)
                i += 1
        if not (maxerr is not None and err >= maxerr) and self.p(rate):
            hyp += [w() for _ in range(self.i(1, 2))]
        return ref, hyp

    def mixcase(self, w):
        m = self.i(0, 6)
        if m == 2:
            v = w.upper()
        elif m in (3, 4):
            v = w[:1].upper() + w[1:]
        elif m == 5:
            v = "".join(c.upper() if k % 2 else c for k, c in enumerate(w))
        else:
            return w
        return v if v.lower() == w else w

    # ------------------------------------------------------------- sides
    def fmt(self, *fs):
        return self.c(fs or FMTS)

    def txt(self, words):
        s = dict(fmt="txt", rows=list(words))
        if self.p(0.4):
            s["sep"] = self.c(["\n", "  ", "\t", " \n ", "\r\n"])
            s["end"] = self.c(["\n", "", " ", "\n\n"])
        return s

    def ctm(self, words):
        step = self.c([0.5, 0.25, 1.0, 0.33, 0.01, 37.7])
        t0 = self.c([0, 0, 1.5, 100, 3599.99])
        dur = self.c(["0.2", "0.25", "0", "1.5", "0.111"])
        conf = self.p(0.5)
        rows = []
        for k, w in enumerate(words):
            rows.append(dict(start="%.2f" % (t0 + k * step), dur=dur if self.p(0.8) else self.c(TIMES), word=w,
                             conf=self.c(["1", "0.5", "0.98", "0", "1.00"] if self.p(0.6) else
                                        ["0.1", "0.02", "0.2", "0.333", "0.7", "0.85", "0.999", "1.5", "0.5"]) if conf else None))
        return dict(fmt="ctm", rows=rows)

    def nlp(self, words, entities=0.0, rich=True, maxspan=4, speakers=None, wer_tags=None, cols=False, punct=None,
            classes=None, span_punct=None):
        n = len(words)
        rows = []
        if classes is None and self.p(0.12):
            classes = ["FALLBACK", "FALLBACK", "MONEY"]
        nspk = speakers or (self.c([1, 2, 2, 3, 5]) if rich else 1)
        spks = self.r.sample(SPEAKERS, nspk)
        turn = self.c([0.05, 0.15, 0.4])
        spk = spks[0]
        pp = punct if punct is not None else (self.c([0, 0.1, 0.25, 0.6]) if rich else 0)
        wt = wer_tags if wer_tags is not None else (self.c([0, 0, 0.2, 0.5]) if rich else 0)
        nid = 0
        # numbers that begin with each other, and numbers in any order
        ids = self.c([None, None, self.r.sample(range(10 ** self.c([2, 3, 5])), 60) + list(range(10 ** 5, 10 ** 5 + n)),
                      [1, 10, 100, 11, 110, 0, 12, 120, 1000, 2, 20, 200, 21, 112, 1001] + list(range(3000, 3000 + n))])
        left, cur = 0, []
        more_tags = rich and self.p(0.2)
        if span_punct is None:
            span_punct = self.p(0.6)    # marks inside an entity of several rows, too
        for k, w in enumerate(words):
            if nspk > 1 and k and self.p(turn):
                spk = self.c(spks)
            if left > 0:
                left -= 1
            elif entities and self.p(entities):
                left = self.i(0, maxspan - 1)
                if ids:
                    nid = ids.pop(0)
                cur = ["%d:%s" % (nid, self.c(classes or CLASSES))]
                if more_tags:
                    # only the first one counts
                    cur += ["%d:%s" % (self.c([nid, 500, 7]), self.c(CLASSES)) for _ in range(self.c([0, 1, 1, 2]))]
                nid += self.c([1, 1, 1, 7])
            else:
                cur = []
            pu = ""
            if self.p(pp):
                pu = self.c(PUNCT) if self.p(0.6) else "."
            if cur and left > 0 and not span_punct:
                pu = ""
            tags = []
            if self.p(wt):
                tags = [str(self.i(0, 4))]
                while len(tags) < 5 and self.p(0.35):
                    t = self.c([str(self.i(5, 12)), str(self.i(13, 150))])
                    if t not in tags:
                        tags.append(t)
            case = "LC"
            if w[:1] != w[:1].lower():
                case = "UC" if w[1:] == w[1:].lower() else "CA"
            if rich and self.p(0.1):
                case = self.c(["UC", "LC", "CA", "MC", ""])
            ts = rich and self.p(0.1)
            rows.append(dict(token=w, speaker=spk, ts=self.c(TIMES) if ts else "",
                             endTs=self.c(TIMES) if (ts and self.p(0.7)) or (rich and self.p(0.05)) else "",
                             punctuation=pu, prepunctuation=self.c(["\"", "(", "\u00bf"]) if rich and self.p(0.05) else "",
                             case=case, tags=list(cur), wer_tags=tags,
                             confidence=self.c(["0.5", "1", "0.98"]) if rich and self.p(0.1) else ""))
        s = dict(fmt="nlp", rows=rows)
        if cols and self.p(0.5):
            c = list(DEFAULT_COLS)
            self.r.shuffle(c)
            s["cols"] = c
        return s

    def side(self, words, fmt, **kw):
        if fmt == "txt":
            return self.txt(words)
        if fmt == "ctm":
            return self.ctm(words)
        return self.nlp(words, **kw)

    # ----------------------------------------------------------- sidecars
    def norm(self, rows, hyp_words, vocab):
        """Normalisation candidates for some of the entities, half of them what the hypothesis could say."""
        ids = list(dict.fromkeys(r["tags"][0].split(":")[0] for r in rows if r["tags"]))
        out = {}
        for i in ids:
            if not self.p(0.7):
                continue
            cands = []
            if any(r["tags"] and r["tags"][0] == i + ":FALLBACK" for r in rows) and self.p(0.6):
                cands.append({"probability": 0.5, "verbalization": []})     # it may be left out
            for _ in range(self.i(1, 3)):
                n = self.c([1, 1, 2, 3, 4])
                if hyp_words and self.p(0.6):
                    j = self.i(0, len(hyp_words) - 1)
                    v = hyp_words[j:j + n]
                else:
                    v = [self.c(vocab) for _ in range(n)]
                cands.append({"probability": 0.5, "verbalization": [self.mixcase(x) for x in v]})
            out[i] = {"candidates": cands, "class": "C"}
        if self.p(0.2):
            out["999"] = {"candidates": [{"verbalization": ["zzz"]}], "class": "C"}
        return out

    def sidecar(self, rows):
        ids = sorted({t for r in rows for t in r["wer_tags"]})
        return {t: {"entity_type": self.c(["YEAR", "SPACY>TIME", "ORG", "CARDINAL", ""])} for t in ids if self.p(0.8)}

    def rules(self, ref, hyp, vocab, n=None):
        """Synonym rules, mostly about phrases that occur, with comments, blanks and duplicates."""
        lines = []
        keep = lambda ws: [w for w in ws if ";" not in w and "|" not in w]
        ref, hyp, vocab = keep(ref), keep(hyp), keep(vocab) or ["a"]

        def phrase(words):
            k = self.c([1, 1, 1, 2, 2, 3])
            if words and self.p(0.75):
                j = self.i(0, len(words) - 1)
                return words[j:j + k]
            return [self.c(vocab) for _ in range(k)]
        for _ in range(n if n is not None else self.c([1, 1, 2, 3, 5, 9])):
            if self.p(0.08):
                lines.append(self.c(["", "# x | y", "   ", "#|#", "\t"]))
                continue
            pad = self.c([" ", " ", "", "   ", "\t"])
            sc = self.c([";", " ; ", "; "])
            alts = [phrase(hyp) for _ in range(self.c([1, 1, 2, 3]))]
            gap = self.c([" ", " ", " ", "  "])
            lines.append(self.c(["", "", " "]) + gap.join(phrase(ref)) + pad + "|" + (" " if pad == "\t" else pad) +
                         sc.join(" ".join(a) for a in alts))
        return lines

    def dictionary(self):
        """A long text in which nearly every word has a synonym: (words, hypothesis, rules)."""
        v = ["w%d" % i for i in range(self.i(60, 180))]
        ref = [self.c(v) for _ in range(self.i(80, 220))]
        alt = {w: [["%s%s%d" % (self.c("xyz"), w, k)] + (["q"] if self.p(0.15) else []) for k in range(self.c([1, 1, 2]))] for w in v}
        use, err = self.c([0.2, 0.5, 1]), self.c([0, 0.01, 0.04])
        hyp = []
        for w in ref:
            if not self.p(err):
                hyp += self.c(alt[w]) if self.p(use) else [w]
            if self.p(err):
                hyp.append(self.c(v))
        return ref, hyp, ["%s | %s" % (w, " ; ".join(" ".join(x) for x in a)) for w, a in alt.items()]


# --------------------------------------------------------------- validity

BADWORD = re.compile(r"[\s|]|^___|<ins>|<del>|<eps>|<sub>|<oov>")


HYPHENS = re.compile(r"[^-]+(-[^-]+)*|[^-]+-")


def good_word(w):
    return bool(w) and ("-" not in w or HYPHENS.fullmatch(w)) and not BADWORD.search(w) and w.lower() not in RESERVED and w.isprintable() and "!!noop" not in w


def good_rule(line):
    t = line.strip()
    if not t or t.startswith("#"):
        return True
    p = t.split("|")
    if len(p) != 2:
        return False
    for phrase in [p[0]] + p[1].split(";"):
        if "\t" in phrase.strip() or not phrase.strip() or not all(good_word(w) for w in phrase.split()):
            return False
    return True


def words_of(side):
    return [r if side["fmt"] == "txt" else r["word"] if side["fmt"] == "ctm" else r["token"] for r in side["rows"]]


def wellformed(case):
    """The inputs follow the documented formats (kept by every shrinking step)."""
    try:
        for k in ("ref", "hyp"):
            s = case[k]
            if s["fmt"] not in FMTS or not all(good_word(w) for w in words_of(s)):
                return False
            if s["fmt"] == "ctm":
                if len({r.get("conf") is None for r in s["rows"]}) > 1:
                    return False
                for r in s["rows"]:
                    float(r["start"]), float(r["dur"])
                    if r.get("conf") is not None:
                        float(r["conf"])
            if s["fmt"] == "nlp":
                last, done, ids = "", set(), {}
                for r in s["rows"]:
                    lab = r["tags"][0] if r["tags"] else ""
                    if lab:
                        if not re.fullmatch(r"\d+:[A-Z][A-Z_]*", lab) or lab in done and lab != last:
                            return False
                        i = lab.split(":")[0]
                        if ids.setdefault(i, lab) != lab:
                            return False
                    if last and lab != last:
                        done.add(last)
                    last = lab
                    if r["punctuation"] and not good_word(r["punctuation"]):
                        return False
                    if not r["speaker"] or any(not t.isalnum() for t in r["wer_tags"]):
                        return False
        if case["opts"].get("approach") not in (None, "adapted", "standard"):
            return False
        if case["opts"].get("numbests", 1) < 1:
            return False
        for l in case.get("syn") or []:
            if not good_rule(l):
                return False
        optional = {r["tags"][0].split(":")[0] for r in case["ref"]["rows"]
                    if case["ref"]["fmt"] == "nlp" and r["tags"] and "FALLBACK" in r["tags"][0]}
        for k, v in (case.get("norm") or {}).items():
            for c in v["candidates"]:
                if not c["verbalization"] and k not in optional or not all(good_word(w) for w in c["verbalization"]):
                    return False
        return True
    except (KeyError, ValueError, TypeError, AttributeError, IndexError):
        return False


# ------------------------------------------------------------ serialisation

def tags_raw(tags):
    return "[" + ", ".join("'%s'" % t for t in tags) + "]"


DEFAULT_COLS = ["token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags",
                "confidence"]


def nlp_text(side):
    cols = side.get("cols") or DEFAULT_COLS
    out = ["|".join(cols)]
    for r in side["rows"]:
        v = []
        for c in cols:
            if c == "tags":
                v.append(r.get("raw_tags") or tags_raw(r["tags"]))
            elif c == "wer_tags":
                v.append(tags_raw(r["wer_tags"]))
            else:
                v.append(r.get(c, ""))
        out.append("|".join(v))
    return "\n".join(out) + "\n"


def ctm_text(side):
    return "".join(" ".join(["rec.wav", "1", r["start"], r["dur"], r["word"]] +
                            ([r["conf"]] if r.get("conf") is not None else [])) + "\n" for r in side["rows"])


def txt_text(side):
    sep = side.get("sep") or " "
    return sep.join(side["rows"]) + side.get("end", "\n")


def side_text(side):
    if side.get("text") is not None:
        return side["text"]
    return {"txt": txt_text, "ctm": ctm_text, "nlp": nlp_text}[side["fmt"]](side)


FLAGS = dict(disable_cutoffs="--disable-cutoffs", disable_hyphen_ignore="--disable-hyphen-ignore",
             disable_approx="--disable-approx-alignment", use_case="--use-case", use_punctuation="--use-punctuation",
             record_case_stats="--record-case-stats", add_inserts="--add-inserts-nlp")
VALUES = dict(numbests="--numbests", streak="--levenstein-max-error-streak", pr_threshold="--pr_threshold",
              approach="--composition-approach", context="--speaker-switch-context")


def command(case, outputs=("sbs", "json")):
    """-> files, args"""
    files = {}
    cmd = case.get("cmd", "wer")
    rn, hn = (case[k].get("name") or "%s%s" % (k, case[k].get("ext", "." + case[k]["fmt"])) for k in ("ref", "hyp"))
    assert rn != hn
    files[rn] = side_text(case["ref"])
    files[hn] = side_text(case["hyp"])
    args = [cmd, "--ref", rn, "--hyp", hn]
    if case.get("syn") is not None:
        files["syn.rules"] = "\n".join(case["syn"]) + "\n"
        args += ["--syn", "syn.rules"]
    if case.get("norm") is not None:
        files["norm.json"] = json.dumps(case["norm"], ensure_ascii=False)
        args += ["--ref-json", "norm.json"]
    if case.get("sidecar") is not None and cmd == "wer":
        files["side.json"] = json.dumps(case["sidecar"], ensure_ascii=False)
        args += ["--wer-sidecar", "side.json"]
    o = case["opts"]
    for k, f in FLAGS.items():
        if o.get(k):
            args.append(f)
    for k, f in VALUES.items():
        if o.get(k) is not None:
            args += [f, str(o[k])]
    if "sbs" in outputs:
        args += ["--output-sbs", "out.sbs"]
    if "json" in outputs and cmd == "wer":
        args += ["--json-log", "out.json"]
    if "nlp" in outputs:
        args += ["--output-nlp", "out.nlp"]
    if "log" in outputs:
        args += ["--log", "out.log"]
    args += case.get("extra") or []
    return files, args
