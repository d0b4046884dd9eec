"""The script in tools/ that makes test data."""
import os
import subprocess
import tempfile
import shutil
import atexit

import build
from engine import Check, need


def scripts(n, m, edits):
    """Is there an edit script between the sequences with exactly these insertions, deletions and substitutions?"""
    ref, hyp = n, m
    ins, dele, sub = edits
    # table[j]: {deletions: set of substitutions as bits}; the insertions follow from the lengths
    cur = None
    for i in range(len(ref) + 1):
        new = [None] * (len(hyp) + 1)
        for j in range(len(hyp) + 1):
            t = {}
            if i == j == 0:
                t = {0: 1}
            if i and j and cur[j - 1]:
                same = ref[i - 1] == hyp[j - 1]
                for d, s in cur[j - 1].items():
                    t[d] = t.get(d, 0) | (s if same else s << 1)
            if i and cur[j]:
                for d, s in cur[j].items():
                    if d < dele:
                        t[d + 1] = t.get(d + 1, 0) | s
            if j and new[j - 1]:
                for d, s in new[j - 1].items():
                    if d + j - i <= ins:
                        t[d] = t.get(d, 0) | s
            new[j] = t
        cur = new
    return bool(cur[-1].get(dele, 0) >> sub & 1) and len(hyp) == len(ref) + ins - dele


class TestData(Check):
    """The generated pair of texts differs as announced."""
    id = "C20"
    rule = "there are announced errors and words that stayed"
    quick, thorough = 6000, 60000
    harness = ()

    def setup(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, self.dir, True)

    def valid(self, c):
        return c["length"] > 0 and c["voc"] > 0 and (c["iref"] is None or bool("".join(c["iref"]).split())) and \
            (c["sub"] == 0 or self.words(c) > 1) and c["ins"] >= 0 and c["dele"] >= 0 and c["sub"] >= 0

    @staticmethod
    def words(c):
        return c["voc"] if c["iref"] is None else len(set(" ".join(c["iref"]).split()))

    def generate(self, g):
        f = lambda: g.c([0, 0, 0.1, 0.2, 0.3, 0.5, 0.9, 1, round(g.r.random(), 3)])
        c = dict(ins=f(), dele=f(), sub=f(), length=g.c([1, 2, 5, g.i(1, 40), g.i(1, 40), g.i(40, 120)]),
                 voc=g.c([1, 2, 2, 3, 5, 10, 50, 1000]), iref=None, seed=g.i(0, 10 ** 9))
        if g.p(0.4):
            v = g.c([["a", "b"], ["a", "b", "c", "d", "e"], ["w%d" % i for i in range(60)], ["\u00e9", "it's", "x-y", "<laugh>"]])
            c["iref"] = [" ".join(g.c(v) for _ in range(g.i(0, 30))) + g.c(["", "", " ", "\t"]) for _ in range(g.i(1, 3))]
        return c if self.valid(c) else None

    def examine(self, c):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        cmd = ["perl", os.path.join(build.REPO, "tools", "generate_wer_test_data.pl"), "--ins_fract", str(c["ins"]),
               "--del_fract", str(c["dele"]), "--sub_fract", str(c["sub"]), "--ref_length", str(c["length"]),
               "--voc_length", str(c["voc"]), "--oref", "r.txt", "--ohyp", "h.txt"]
        if c["iref"] is not None:
            with open(os.path.join(self.dir, "i.txt"), "w", encoding="utf-8") as f:
                f.write("\n".join(c["iref"]) + "\n")
            cmd += ["--iref", "i.txt"]
        env = {"PATH": "/usr/bin:/bin", "PERL_RAND_SEED": str(c["seed"]), "PERL_HASH_SEED": str(c["seed"] % 65536),
               "PERL_PERTURB_KEYS": "1"}
        try:
            p = subprocess.run(cmd, cwd=self.dir, env=env, timeout=20, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            need(False, "the script does not end")
        err = p.stderr.decode("utf-8", "replace")
        need(p.returncode == 0, "the script failed: %s", err)
        text = {}
        for n in ("r.txt", "h.txt"):
            with open(os.path.join(self.dir, n), encoding="utf-8") as f:
                text[n] = f.read()
        ref, hyp = text["r.txt"].split(), text["h.txt"].split()
        if c["iref"] is None:
            need(len(ref) == c["length"], "%d reference words, asked for %d", len(ref), c["length"])
            voc = {"w%06d" % i for i in range(c["voc"])}
            need(set(ref) <= voc, "words %r outside the vocabulary", sorted(set(ref) - voc))
        else:
            want = " ".join(c["iref"]).split()
            need(ref == want, "the reference %r is not the given one %r", ref, want)
            voc = set(want)
        need(set(hyp) <= voc, "words %r outside the vocabulary", sorted(set(hyp) - voc))
        out = p.stdout.decode().split("\n")
        n = {}
        wer = None
        for l in out:
            v = l.split()
            if len(v) == 2 and v[1] in ("INS", "DEL", "SUB"):
                n[v[1]] = int(v[0])
            elif l.startswith("expected WER "):
                wer = l.split()[2]
        need(len(n) == 3 and wer is not None, "the script said %r", out)
        e = (n["INS"], n["DEL"], n["SUB"])
        need(abs(float(wer) - sum(e) / len(ref)) <= 0.0005001, "expected WER %s with %r errors in %d words", wer, e, len(ref))
        for k, f in zip(e, (c["ins"], c["dele"], c["sub"])):
            need(f > 0 or k == 0, "%r errors with the fractions %r", e, (c["ins"], c["dele"], c["sub"]))
        if c["dele"] == 1 and c["ins"] == 0 or c["sub"] == 1 and c["ins"] == c["dele"] == 0:
            need(sum(e) == len(ref), "%r errors in %d words when all have one", e, len(ref))
        if len(ref) * len(hyp) <= 10000:
            need(scripts(ref, hyp, e), "%r and %r do not differ by %d insertions, %d deletions and %d substitutions", ref, hyp, *e)
        else:
            need(len(hyp) == len(ref) + e[0] - e[1], "%d and %d words with %r errors", len(ref), len(hyp), e)
        return sum(e) > 0 and bool(set(ref) & set(hyp))


ALL = [TestData]
