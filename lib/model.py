"""Executable reference model: what the program is supposed to report.

Nothing here looks at the program's search.  Given the inputs it builds the
lattice of acceptable readings of the reference and, by plain dynamic
programming, the optimum; given the rows of a side-by-side alignment it
recomputes every statistic and the aligned NLP file from their definitions.
"""
import math
import struct
from collections import Counter, OrderedDict, defaultdict

INS, DEL = "<ins>", "<del>"
RESERVED = {"<eps>", "<oov>", "<ins>", "<del>", "<sub>"}


def f32(x):
    """The double nearest to x that a C float can hold."""
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def lower(s, use_case=False):
    return s if use_case else s.lower()


# --------------------------------------------------------------- references

def class_label(best):
    return "" if best == "" else "___" + best.replace(":", "_") + "___"


def spans(rows):
    """Consecutive rows carrying the same first label form one entity."""
    out = []
    for r in rows:
        lab = r["tags"][0] if r["tags"] else ""
        if lab and out and out[-1][0] == lab:
            out[-1][1].append(r)
        elif lab:
            out.append((lab, [r]))
        else:
            out.append(("", [r]))
    return out


class Lattice:
    """Acceptable readings of a reference: nodes 0..n-1, arcs node -> [(token, cls, next)].

    cls is None for plain text, a class label for an entity, or ("SYN", n, m)
    for a synonym replacing n words by m."""

    def __init__(self):
        self.arcs = [[]]
        self.final = 0
        self.jumps = {}         # node -> [(words, next)]: expressions that only count when matched whole
        self.eps = {}           # node -> [next]: an entity that may be left out

    def new(self):
        self.arcs.append([])
        return len(self.arcs) - 1

    def add(self, u, tok, cls, v):
        self.arcs[u].append((tok, cls, v))

    def nexts(self, u):
        return [a[-1] for a in self.arcs[u]] + [j[-1] for j in self.jumps.get(u, ())] + self.eps.get(u, [])

    def closure(self, states):
        out = set(states)
        todo = list(out)
        while todo:
            for v in self.eps.get(todo.pop(), ()):
                if v not in out:
                    out.add(v)
                    todo.append(v)
        return out

    def walk(self, choose):
        """One reading: the words along a path."""
        u, w = 0, []
        while u != self.final:
            t, _c, u = choose(self.arcs[u] + [(None, None, v) for v in self.eps.get(u, ())])
            if t is not None:
                w.append(t)
        return w

    def topo(self):
        seen, order = set(), []
        stack = [(0, iter(self.nexts(0)))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(self.nexts(v))))
                    break
            else:
                order.append(u)
                stack.pop()
        return order[::-1]


def ref_lattice(case, synonyms=True, whole=False):
    """whole: synonyms as jumps, usable only when the hypothesis has all of their words in a row."""
    use_case = bool(case["opts"].get("use_case"))
    L = Lattice()
    cur = 0
    ref = case["ref"]
    vocab = []
    if ref["fmt"] == "nlp":
        norm = case.get("norm") or {}
        for lab, rows in spans(ref["rows"]):
            if lab:
                ident = lab.split(":")[0]
                cands = [list(c["verbalization"]) for c in norm.get(ident, {}).get("candidates", [])]
                own = []
                for i, r in enumerate(rows):
                    own.append(lower(r["token"], use_case))
                    # (the marks inside an entity belong to its own words, the last one follows it)
                    if i < len(rows) - 1 and case["opts"].get("use_punctuation") and r.get("punctuation"):
                        own.append(r["punctuation"])
                cands = [[lower(t, use_case) for t in c] for c in cands] + [own]
                end = L.new()
                for c in cands:
                    if not c:
                        L.eps.setdefault(cur, []).append(end)
                    u = cur
                    for i, t in enumerate(c):
                        vocab.append(t)
                        v = end if i == len(c) - 1 else L.new()
                        L.add(u, t, class_label(lab), v)
                        u = v
                cur = end
                if case["opts"].get("use_punctuation"):
                    t = rows[-1].get("punctuation", "")
                    if t:
                        v = L.new()
                        L.add(cur, t, None, v)
                        vocab.append(t)
                        cur = v
            else:
                r = rows[0]
                v = L.new()
                t = lower(r["token"], use_case)
                vocab.append(t)
                L.add(cur, t, None, v)
                cur = v
                if case["opts"].get("use_punctuation") and r.get("punctuation"):
                    v = L.new()
                    L.add(cur, r["punctuation"], None, v)
                    vocab.append(r["punctuation"])
                    cur = v
    elif ref["fmt"] == "fst":
        ids = {}
        for s in lattice_order(ref):
            ids[s] = L.new() if ids else cur
        for u, t, v in ref["arcs"]:
            if u in ids:
                if t:
                    L.add(ids[u], t, None, ids[v])
                    vocab.append(t)
                else:
                    L.eps.setdefault(ids[u], []).append(ids[v])
        cur = L.new()
        for f in ref["finals"]:
            if f in ids:
                L.eps.setdefault(ids[f], []).append(cur)
    else:
        for t in ref_tokens(case):
            v = L.new()
            L.add(cur, t, None, v)
            vocab.append(t)
            cur = v
    L.final = cur
    if synonyms:
        apply_synonyms(L, synonym_table(case, vocab), whole)
    return L


def ref_tokens(case):
    """The reference words when it is plain text or CTM, or an NLP without entities."""
    return side_tokens(case["ref"], case["opts"])


def side_tokens(side, opts):
    uc = bool(opts.get("use_case"))
    if side["fmt"] == "txt":
        return [lower(t, uc) for t in side["rows"]]
    if side["fmt"] == "ctm":
        return [lower(r["word"], uc) for r in side["rows"]]
    out = []
    for r in side["rows"]:
        out.append(lower(r["token"], uc))
        if opts.get("use_punctuation") and r.get("punctuation"):
            out.append(r["punctuation"])
    return out


def hyp_tokens(case):
    return side_tokens(case["hyp"], case["opts"])


def hyp_originals(case):
    """The hypothesis words as written."""
    h = case["hyp"]
    if h["fmt"] == "txt":
        return list(h["rows"])
    if h["fmt"] == "ctm":
        return [r["word"] for r in h["rows"]]
    return [r["token"] for r in h["rows"]]


# ----------------------------------------------------------------- synonyms

def parse_rules(lines):
    """Synonym file -> ordered {lhs tuple: [rhs tuples]}; the first definition of an LHS wins."""
    table = OrderedDict()
    for line in lines:
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        parts = line.split("|")
        if len(parts) != 2:
            continue
        key = tuple(parts[0].split())
        alts = [tuple(a.split()) for a in parts[1].split(";")]
        alts = [a for a in alts if a]
        if key and key not in table:
            table[key] = alts
    return table


def synonym_table(case, ref_vocab):
    table = OrderedDict()
    if case.get("syn") is not None:
        table = parse_rules(case["syn"])
    opts = case["opts"]
    words = list(dict.fromkeys(list(ref_vocab) + hyp_tokens(case)))
    for w in words:
        if "-" not in w:
            continue
        first = w.index("-")
        if first == len(w) - 1:
            if not opts.get("disable_cutoffs"):
                table.setdefault((w,), [(w[:-1],)] if w[:-1] else [])
        elif not opts.get("disable_hyphen_ignore"):
            parts = tuple(p for p in w.split("-"))
            table.setdefault((w,), [parts])
            table.setdefault(parts, [(w,)])
    return table


def apply_synonyms(L, table, whole=False):
    n = len(L.arcs)
    by_first = defaultdict(list)
    for k in table:
        by_first[k[0]].append(k)
    base = [list(a) for a in L.arcs]
    add = []

    def ends(u, key, i, cls, first):
        if i == len(key):
            return [(u, cls)]
        out = []
        for t, c, v in base[u]:
            if t == key[i] and (first or c == cls):
                out += ends(v, key, i + 1, c, False)
        return out

    for u in range(n):
        seen = set()
        for t, c, v in base[u]:
            for key in by_first.get(t, ()):
                if key in seen:
                    continue
                seen.add(key)
                for end, cls in ends(u, key, 0, None, True):
                    for alt in table[key]:
                        if alt:
                            add.append((u, end, alt, cls if cls else ("SYN", len(key), len(alt))))
    for u, end, alt, cls in add:
        if whole:
            L.jumps.setdefault(u, []).append((alt, end))
            continue
        x = u
        for i, w in enumerate(alt):
            y = end if i == len(alt) - 1 else L.new()
            L.add(x, w, cls, y)
            x = y


# ------------------------------------------------------------------ optimum

def levenshtein(a, b):
    if len(a) > 64 and len(b) > 64:
        return levenshtein_bits(a, b)
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(prev[j - 1] if x == y else 1 + min(prev[j - 1], prev[j], cur[j - 1]))
        prev = cur
    return prev[-1]


def levenshtein_bits(a, b):
    """The same distance, a column of the table at a time (Myers/Hyyro, on Python's integers)."""
    m = len(a)
    if not m:
        return len(b)
    peq = {}
    for i, x in enumerate(a):
        peq[x] = peq.get(x, 0) | (1 << i)
    mask, top = (1 << m) - 1, 1 << (m - 1)
    pv, mv, d = mask, 0, m
    for y in b:
        eq = peq.get(y, 0)
        xv = eq | mv
        xh = (((eq & pv) + pv) ^ pv) | eq
        ph = (mv | ~(xh | pv)) & mask
        mh = pv & xh
        if ph & top:
            d += 1
        if mh & top:
            d -= 1
        ph = ((ph << 1) | 1) & mask
        mh = (mh << 1) & mask
        pv = (mh | ~(xv | ph)) & mask
        mv = ph & xv
    return d


def min_errors(L, hyp):
    """The smallest number of errors over every reading of the reference (unit costs)."""
    m = len(hyp)
    INF = 10 ** 9
    D = {}
    order = L.topo()
    for u in order:
        D[u] = [INF] * (m + 1)
    D[0][0] = 0
    for u in order:
        du = D[u]
        for j in range(1, m + 1):
            if du[j - 1] + 1 < du[j]:
                du[j] = du[j - 1] + 1
        for v in L.eps.get(u, ()):
            D[v] = [min(x, y) for x, y in zip(du, D[v])]
        for t, _c, v in L.arcs[u]:
            dv = D[v]
            for j in range(m + 1):
                x = du[j] + 1
                if x < dv[j]:
                    dv[j] = x
                if j < m:
                    x = du[j] + (0 if hyp[j] == t else 1)
                    if x < dv[j + 1]:
                        dv[j + 1] = x
    return D[L.final][m]


END = object()


def best_by_cost(L, hyp, dele=2, ins=2, sub=3, end_token=False):
    """(C, Emin, Emax, pairs): minimum cost in half units, the error counts and the set
    of (errors, reference words) of the alignments that reach it.

    end_token: what the adapted composition does with a text or NLP hypothesis, see the
    finding `trailing-eps`: an end marker costs as much as a word, and is no error itself."""
    if end_token:
        hyp = list(hyp) + [END]
    m = len(hyp)
    INF = 10 ** 9
    order = L.topo()
    C = {u: [INF] * (m + 1) for u in order}
    S = {u: [set() for _ in range(m + 1)] for u in order}
    C[0][0] = 0
    S[0][0] = {(0, 0)}

    def relax(v, j, c, pairs, de, dn):
        if c < C[v][j]:
            C[v][j] = c
            S[v][j] = {(e + de, n + dn) for e, n in pairs}
        elif c == C[v][j]:
            S[v][j] |= {(e + de, n + dn) for e, n in pairs}

    for u in order:
        for j in range(m + 1):
            c = C[u][j]
            if c >= INF:
                continue
            s = S[u][j]
            for v in L.eps.get(u, ()):
                relax(v, j, c, s, 0, 0)
            if j < m:
                relax(u, j + 1, c + ins, s, 0 if hyp[j] is END else 1, 0)
            for words, v in L.jumps.get(u, ()):
                if tuple(hyp[j:j + len(words)]) == words:
                    relax(v, j + len(words), c, s, 0, len(words))
            for t, _c, v in L.arcs[u]:
                relax(v, j, c + dele, s, 1, 1)
                if j < m:
                    if hyp[j] == t:
                        relax(v, j + 1, c, s, 0, 1)
                    else:
                        relax(v, j + 1, c + sub, s, 1, 1)
    pairs = S[L.final][m]
    es = [e for e, _ in pairs]
    return C[L.final][m], min(es), max(es), pairs


# -------------------------------------------------------- reading a row list

SYN = "_SYN_"


def row_cls_matches(cls, label):
    if cls is None:
        return label == ""
    if isinstance(cls, tuple):
        return label.startswith("___") and label.endswith("%s%d-%d___" % (SYN, cls[1], cls[2]))
    return cls == label


def reads_reference(L, rows):
    """None if the reference column is one reading of the lattice, else the index of the
    first row at which no reading survives (len(rows) when it stops too early)."""
    # a label identifies one synonym occurrence, so a run of equal labels has to be one path:
    # the lattice chains guarantee it because a chain's inner nodes have one successor
    states = L.closure({0})
    for i, r in enumerate(rows):
        if r.ref == INS:
            continue
        nxt = set()
        for u in states:
            for t, c, v in L.arcs[u]:
                if t == r.ref and row_cls_matches(c, r.cls):
                    nxt.add(v)
        if not nxt:
            return i
        states = L.closure(nxt)
    if L.final not in states:
        return len(rows)
    return None


# --------------------------------------------------------------- statistics

class Counts:
    __slots__ = ("ins", "dele", "sub", "words")

    def __init__(self):
        self.ins = self.dele = self.sub = self.words = 0

    def key(self):
        return dict(insertions=self.ins, deletions=self.dele, substitutions=self.sub,
                    numWordsInReference=self.words, numErrors=self.ins + self.dele + self.sub)

    def add(self, kind):
        if kind == "ins":
            self.ins += 1
        elif kind != "out":
            self.words += 1
            if kind == "del":
                self.dele += 1
            elif kind == "sub":
                self.sub += 1
        return self


def counts(rows):
    c = Counts()
    for r in rows:
        c.add(r.kind)
    return c


def wer_value(c):
    e = c.ins + c.dele + c.sub
    if c.words > 0:
        return f32(e / c.words)
    return math.inf if e > 0 else 0.0


def close(a, b, tol=2e-6):
    if a is None or b is None:
        return a is None and b is None
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def precision_recall(c):
    cor = c.words - c.dele - c.sub
    p = cor + c.ins + c.sub
    r = cor + c.sub + c.dele
    return (cor / p if p else None), (cor / r if r else None)


def class_counts(rows, st=()):
    out = {}
    for r in list(rows) + [s.row for s in st if s.kind == "out"]:
        if r.cls:
            name = r.cls[3:-3].split("_", 1)[1]
            out.setdefault(name, Counts()).add(r.kind)
    return out


def unigrams(rows):
    cor, dele, ins, fp, fn = Counter(), Counter(), Counter(), Counter(), Counter()
    for r in rows:
        k = r.kind
        if k == "cor":
            cor[r.ref] += 1
        elif k == "del":
            dele[r.ref] += 1
        elif k == "ins":
            ins[r.hyp] += 1
        else:
            fn[r.ref] += 1
            fp[r.hyp] += 1
    return gram_stats(cor, dele, ins, fp, fn, set(cor) | set(dele) | set(ins) | set(fp) | set(fn))


def bigrams(rows):
    cor, dele, ins, fp, fn = Counter(), Counter(), Counter(), Counter(), Counter()
    allb = set()
    for a, b in zip(rows, rows[1:]):
        rb = (a.ref, b.ref)
        hb = (a.hyp, b.hyp)
        rv = INS not in rb
        hv = DEL not in hb
        rs, hs = " ".join(rb), " ".join(hb)
        if rv:
            allb.add(rs)
        if hv:
            allb.add(hs)
        if rs == hs:
            cor[rs] += 1
        elif rv and hv:
            fn[rs] += 1
            fp[hs] += 1
        if not hv:
            dele[rs] += 1
        if not rv:
            ins[hs] += 1
    return gram_stats(cor, dele, ins, fp, fn, allb)


def gram_stats(cor, dele, ins, fp, fn, words):
    out = {}
    for w in words:
        p = cor[w] + ins[w] + fp[w]
        r = cor[w] + dele[w] + fn[w]
        out[w] = dict(correct=cor[w], deletions=dele[w], insertions=ins[w], substitutions_fp=fp[w],
                      substitutions_fn=fn[w], precision=100.0 * cor[w] / p if p else 0.0,
                      recall=100.0 * cor[w] / r if r else 0.0)
    return out


def gram_total(g):
    return g["correct"] + g["deletions"] + g["insertions"] + g["substitutions_fp"] + g["substitutions_fn"]


def error_groups(rows):
    """[(line, text)] of the maximal runs of error rows."""
    out = []
    i = 0
    while i < len(rows):
        if rows[i].ref == rows[i].hyp:
            i += 1
            continue
        j = i
        while j < len(rows) and rows[j].ref != rows[j].hyp:
            j += 1
        ops = ("<ins>", "<del>", "<sub>")
        ref = "".join(r.ref + " " for r in rows[i:j] if r.ref and r.ref not in ops) or "*** "
        hyp = "".join(" " + r.hyp for r in rows[i:j] if r.hyp and r.hyp not in ops) or " ***"
        out.append((i + 2, ref + "<->" + hyp))
        i = j
    return out


# ----------------------------------------------- rows <-> reference NLP rows

class Stitch:
    __slots__ = ("row", "kind", "nlp", "comment", "start", "end", "orig")

    def __init__(self, row):
        self.row = row
        self.kind = row.kind
        self.comment = {"ins": "ins", "del": "del", "cor": "", "sub": "sub(" + row.hyp + ")", "out": ""}[self.kind]
        self.nlp = None
        self.start = self.end = None
        self.orig = ""


class LeftOut:
    """The place of an entity that the chosen reading leaves out: no row of the side-by-side."""
    kind, ref, hyp = "out", "", ""

    def __init__(self, cls):
        self.cls = cls


def may_be_left_out(case, label):
    cands = ((case.get("norm") or {}).get(label.split(":")[0]) or {}).get("candidates", [])
    return any(not c["verbalization"] for c in cands)


def settled(st):
    """Whether the order of the rows is known: an insertion can stand on either side of what was left out."""
    for k, s in enumerate(st):
        if s.kind == "out":
            near = [x.kind for x in st[max(0, k - 1):k + 2]]
            if "ins" in near:
                return False
            if k + 1 < len(st) and st[k + 1].kind == "out":
                j = k + 1
                while j < len(st) and st[j].kind == "out":
                    j += 1
                if j < len(st) and st[j].kind == "ins":
                    return False
    return True


def blank_nlp(**kw):
    d = dict(token="", speaker="", ts="", endTs="", punctuation="", prepunctuation="", case="", tags=[], wer_tags=[],
             confidence="", raw_tags="")
    d.update(kw)
    return d


def best_label(r):
    return r["tags"][0] if r["tags"] else ""


def stitch(case, rows):
    """Attach to every row the hypothesis timing and the reference row it comes from."""
    st = [Stitch(r) for r in rows]
    hyp = case["hyp"]
    hrows = list(hyp["rows"])
    if hyp["fmt"] == "nlp" and case["opts"].get("use_punctuation"):
        hrows = []
        for r in hyp["rows"]:
            hrows.append(r)
            if r.get("punctuation"):
                hrows.append(blank_nlp())
    k = 0
    for s in st:
        if s.kind in ("del", "out"):
            continue
        s.start = s.end = 0.0
        if k < len(hrows):
            h = hrows[k]
            if hyp["fmt"] == "ctm":
                s.start = f32(float(h["start"]))
                s.end = f32(s.start + f32(float(h["dur"])))
                s.orig = h["word"]
            elif hyp["fmt"] == "nlp":
                s.orig = h["token"]
                a, b = h.get("ts", ""), h.get("endTs", "")
                if a and b:
                    s.start, s.end = f32(float(a)), f32(float(b))
                elif a or b:
                    s.start = s.end = f32(float(a or b))
            else:
                s.orig = h
        k += 1
    if case["ref"]["fmt"] == "nlp":
        attach_nlp(case, st)
    return st


def nlp_rows(case):
    out = []
    for k, r in enumerate(case["ref"]["rows"]):
        r = dict(blank_nlp(), **r)
        r["raw_tags"] = r["raw_tags"] or tags_string(r["tags"])
        out.append(r)
        after = case["ref"]["rows"][k + 1:k + 2]
        inside = best_label(r) and after and best_label(dict(blank_nlp(), **after[0])) == best_label(r)
        if case["opts"].get("use_punctuation") and r.get("punctuation") and not inside:
            out.append(blank_nlp(speaker=r["speaker"]))
    return out


def attach_nlp(case, st):
    rows = nlp_rows(case)
    i = k = 0
    n = len(st)
    while i < n or k < len(rows):
        s = st[i] if i < n else None
        if s and s.kind == "ins":
            i += 1
            continue
        if k >= len(rows):
            break
        r = rows[k]
        lab = class_label(best_label(r))
        if may_be_left_out(case, best_label(r)) and (s is None or s.row.cls != lab):
            s = Stitch(LeftOut(lab))
            s.nlp = dict(r)
            while k < len(rows) and class_label(best_label(rows[k])) == lab:
                s.nlp["punctuation"] = rows[k]["punctuation"]
                k += 1
            st.insert(i, s)
            i, n = i + 1, n + 1
            continue
        if s is None:
            break
        syn = SYN in s.row.cls
        if not syn and s.row.cls == "" and lab == "":
            s.nlp = r
            i += 1
            k += 1
            continue
        if syn:
            a, b = s.row.cls[:-3].rsplit(SYN, 1)[1].split("-")
            nn, ns = int(a), int(b)
            while i + ns < n and st[i + ns].row.cls == s.row.cls:
                ns += 1
        else:
            ns = nn = 1
            while i + ns < n and st[i + ns].row.cls == s.row.cls:
                ns += 1
            while k + nn < len(rows) and class_label(best_label(rows[k + nn])) == lab:
                nn += 1
        part = st[i:i + ns]
        if nn == ns == 1:
            s.nlp = r
        elif nn == ns:
            for x, y in zip(part, rows[k:k + nn]):
                x.nlp = y
                x.comment += ",direct"
        elif nn == 1:
            for x in part:
                x.nlp = dict(r, punctuation="", prepunctuation="", case="LC", confidence="")
                x.comment += ",push_last"
            part[0].nlp["case"] = r["case"]
            part[-1].nlp = dict(r, case="LC")
        elif ns == 1:
            s.nlp = dict(r, punctuation=rows[k + nn - 1]["punctuation"])
            s.comment += ",split_worst"
        else:
            for x in part:
                x.nlp = blank_nlp(speaker=r["speaker"], case="LC", tags=r["tags"], wer_tags=r["wer_tags"],
                                  raw_tags=r.get("raw_tags", ""))
                x.comment += ",split_worst"
            part[0].nlp = r
            part[-1].nlp = rows[k + nn - 1]
        i += ns
        k += nn


def speaker_of(s):
    return s.nlp["speaker"] if s.nlp else ""


def speaker_counts(st):
    """Words belong to their speaker; an error belongs to the speaker who holds the floor,
    and what comes before the first known speaker belongs to that speaker."""
    out = {}
    cur = ""
    pending = []
    for s in st:
        sp = speaker_of(s)
        if sp:
            if not cur:
                for p in pending:
                    _sp_add(out.setdefault(sp, Counts()), p, "")
                pending = []
            cur = sp
        if not cur:
            pending.append(s)
        else:
            _sp_add(out.setdefault(cur, Counts()), s, sp)
    if pending:
        for p in pending:
            _sp_add(out.setdefault("", Counts()), p, "")
    return out


def _sp_add(c, s, sp):
    if s.kind == "ins":
        c.ins += 1
    elif s.kind == "del":
        c.dele += 1
    elif s.kind == "sub":
        c.sub += 1
    if sp and s.kind != "out":
        c.words += 1


def switch_counts(st, context):
    """Words less than `context` words away from a change of speaker, each counted once; an
    insertion counts when it lies strictly inside such a window."""
    switches = []
    last = ""
    i = 0
    for s in st:
        sp = speaker_of(s)
        if sp and sp != last:
            if last:
                switches.append(i)
            last = sp
        if s.kind != "ins":
            i += 1
    c = Counts()
    i = 0
    for s in st:
        if s.kind == "ins":
            if any(w - context < i < w + context for w in switches):
                c.ins += 1
        else:
            if any(w - context <= i < w + context for w in switches):
                c.add(s.kind)
            i += 1
    return c


def sentence_counts(st):
    out = []
    cur = Counts()
    for s in st:
        cur.add(s.kind)
        if s.nlp and s.nlp["punctuation"] in (".", "?", "!"):
            out.append(cur)
            cur = Counts()
    if cur.words > 0:
        out.append(cur)
    return out


def tag_counts(st):
    out = {}
    for s in st:
        if s.nlp:
            for t in s.nlp["wer_tags"]:
                out.setdefault(t, Counts()).add(s.kind)
    return out


def nupper(s):
    return sum(1 for c in s if "A" <= c <= "Z")


def case_counts(st):
    """{'matching': (tp, fp, fn), 'all': (tp, fp, fn)}"""
    m = [0, 0, 0]
    a = [0, 0, 0]
    for s in st:
        if s.kind in ("ins", "del", "out"):
            continue
        nl = s.nlp or blank_nlp()
        h = nupper(s.orig)
        if nl["case"] == "LC":
            w = 1 if h else None
        else:
            r = nupper(nl["token"])
            w = 0 if r == h else (2 if r > h else 1)
        if w is not None:
            a[w] += 1
            if s.kind == "cor":
                m[w] += 1
    return dict(matching=tuple(m), all=tuple(a))


def tags_string(tags):
    return "[" + ", ".join("'%s'" % t for t in tags) + "]"


def sbs_tags(st, sidecar):
    out = []
    for s in st:
        t = ""
        if s.kind == "out":
            continue
        if s.nlp:
            for w in s.nlp["wer_tags"]:
                t += "###%s_%s###|" % (w, (sidecar or {}).get(w, {}).get("entity_type", ""))
        out.append(t)
    return out


def expected_nlp(case, st, add_inserts=False):
    """Rows of the aligned NLP file."""
    out = []
    for s in st:
        if s.kind == "ins" and not add_inserts:
            continue
        nl = s.nlp or blank_nlp()
        if s.kind == "out" and not (nl["token"].startswith("<") and nl["token"].find(">") == len(nl["token"]) - 1):
            continue            # (a noise code may stay in the transcript)
        tok = s.row.ref
        comment = s.comment
        orig = nl["token"]
        if tok.lower() == orig.lower():
            tok = orig
        elif orig.startswith("<") and orig.find(">") == len(orig) - 1:
            tok = orig
        elif s.kind == "ins":
            tok = ""
            comment = "ins(" + s.row.hyp + ")"
        if s.kind == "del":
            ts = te = ""
        elif s.kind == "out":
            ts = te = "0.0000"
        else:
            ts = None if s.start is None else "%.4f" % s.start
            te = None if s.end is None else "%.4f" % s.end
        out.append(dict(token=tok, speaker=nl["speaker"], ts=ts, endTs=te, punctuation=nl["punctuation"],
                        prepunctuation=nl["prepunctuation"], case=nl["case"], tags=nl.get("raw_tags", ""),
                        wer_tags=tags_string(nl["wer_tags"]), oldTs=nl["ts"], oldEndTs=nl["endTs"],
                        ali_comment=comment, confidence=nl["confidence"]))
        if s.kind == "out":
            out[-1]["left_out"] = True
    return out


# ------------------------------------------------------------- lattice hypotheses

def lattice_paths_ok(H, words):
    """Whether `words` is the word sequence of a path of H = {n, start, arcs: [[u, word, v]], finals}."""
    cur = {H["start"]}
    cur = _close(H, cur)
    for w in words:
        cur = {v for u, x, v in H["arcs"] if u in cur and x == w}
        cur = _close(H, cur)
        if not cur:
            return False
    return bool(cur & set(H["finals"]))


def _close(H, s):
    s = set(s)
    todo = list(s)
    while todo:
        u = todo.pop()
        for a, x, v in H["arcs"]:
            if a == u and x == "" and v not in s:
                s.add(v)
                todo.append(v)
    return s


def lattice_order(H):
    """States reachable from the start in topological order, or None when there is a cycle."""
    nxt = {}
    for u, _x, v in H["arcs"]:
        nxt.setdefault(u, []).append(v)
    state, order = {}, []
    stack = [(H["start"], iter(nxt.get(H["start"], ())))]
    state[H["start"]] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if state.get(v) == 1:
                return None
            if v not in state:
                state[v] = 1
                stack.append((v, iter(nxt.get(v, ()))))
                break
        else:
            state[u] = 2
            order.append(u)
            stack.pop()
    return order[::-1]


def _follow(H, out, h, words):
    """The states of the lattice that `words` lead to from h."""
    cur = _close(H, {h})
    for w in words:
        cur = _close(H, {v for u in cur for x, v in out.get(u, ()) if x == w})
    return cur


def best_product(L, H, dele=2, ins=2, sub=3):
    """Like best_by_cost, for the best path of an unweighted lattice."""
    INF = 10 ** 9
    horder = lattice_order(H)
    out = {}
    for u, x, v in H["arcs"]:
        out.setdefault(u, []).append((x, v))
    C, S = {}, {}

    def relax(k, c, pairs, de, dn):
        o = C.get(k, INF)
        if c < o:
            C[k] = c
            S[k] = {(e + de, n + dn) for e, n in pairs}
        elif c == o:
            S[k] |= {(e + de, n + dn) for e, n in pairs}

    C[0, H["start"]] = 0
    S[0, H["start"]] = {(0, 0)}
    for u in L.topo():
        for h in horder:
            c = C.get((u, h))
            if c is None:
                continue
            s = S[u, h]
            for x, v in out.get(h, ()):
                relax((u, v), c + (ins if x else 0), s, 1 if x else 0, 0)
            for w in L.eps.get(u, ()):
                relax((w, h), c, s, 0, 0)
            for t, _c, w in L.arcs[u]:
                relax((w, h), c + dele, s, 1, 1)
                for x, v in out.get(h, ()):
                    if x:
                        ok = x == t
                        relax((w, v), c + (0 if ok else sub), s, 0 if ok else 1, 1)
            for words, w in L.jumps.get(u, ()):
                for v in _follow(H, out, h, words):
                    relax((w, v), c, s, 0, len(words))
    best, pairs = INF, set()
    for f in H["finals"]:
        c = C.get((L.final, f), INF)
        if c < best:
            best, pairs = c, set(S[L.final, f])
        elif c == best < INF:
            pairs |= S[L.final, f]
    return best, pairs
