"""Checks of single components through small C++ harnesses."""
import os
import subprocess

import build
import model
from engine import Check, Violation, need


class LineServer:
    def __init__(self, path):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
        self.path, self.env = path, env
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=self.env)

    def ask(self, line):
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = ""
        if not out:
            self.p.kill()
            self.p.wait()
            code = self.p.returncode
            self.start()
            raise Violation("the component crashed (%s) on: %s" % (code, line[:300]))
        return out


class FastD(Check):
    id = "C19"
    variant = "fast"
    harness = (("fastd", "fast"),)
    rule = "both sequences non-empty, different, and with at least one common symbol"
    quick, thorough = 150000, 3000000

    def setup(self):
        self.srv = LineServer(os.path.join(build.BUILD, "fastd-fast"))

    def valid(self, c):
        return isinstance(c.get("a"), list) and all(isinstance(x, int) and x >= 0 for x in c["a"] + c["b"]) and \
            isinstance(c["cutoff"], int)

    def generate(self, g):
        n = g.c([2, 3, 5, 12, 100])
        v = list(range(g.c([0, 1, 5]), n + 6))[:n]
        if g.p(0.004):
            # long enough for distances that do not fit into a byte
            a, b = ([g.c(v) for _ in range(g.i(100, 900))] for _ in "ab")
            if g.p(0.5):
                a = [x + n * g.i(0, 3) for x in a]
        else:
            a, b = g.pair(v, n=g.length(0.02))
        if g.p(0.5):
            a, b = b, a
        return dict(a=a, b=b, cutoff=g.c([0, 0, 1, 2, 3, 5, 100]), m=[g.c([-1, 1]) if g.p(0.5) else -1 for _ in range(g.i(0, 12))])

    def examine(self, c):
        a, b = c["a"], c["b"]
        out = self.srv.ask("D %d %s %d %s" % (len(a), " ".join(map(str, a)), len(b), " ".join(map(str, b))))
        t = [int(x) for x in out.split()]
        d, d2, d3, same = t[:4]
        na = t[4]
        ma = t[5:5 + na]
        nb = t[5 + na]
        mb = t[6 + na:]
        want = model.levenshtein(a, b)
        need(d == d2 == d3 == want, "edit distance of %r and %r: %d, %d and %d, should be %d", a, b, d, d2, d3, want)
        need(same == 1, "the sequences were modified")
        need(na == len(a) and nb == len(b) == len(mb), "maps of sizes %d and %d", na, len(mb))
        need(all(x in (-1, 1) for x in ma + mb), "map values %r %r", ma, mb)
        pa = [i for i, x in enumerate(ma) if x > 0]
        pb = [i for i, x in enumerate(mb) if x > 0]
        need([a[i] for i in pa] == [b[i] for i in pb], "the marked words differ: %r of %r, %r of %r", pa, a, pb, b)
        # the marked words are the matches of one minimal edit script
        cost, i0, j0 = 0, 0, 0
        for i, j in list(zip(pa, pb)) + [(len(a), len(b))]:
            cost += model.levenshtein(a[i0:i], b[j0:j])
            i0, j0 = i + 1, j + 1
        need(cost == want, "the marked matches %r/%r of %r and %r are on no minimal edit script (%d edits, not %d)",
             pa, pb, a, b, cost, want)
        m = c["m"]
        for mm in (m, ma, mb):
            got = int(self.srv.ask("S %d %d %s" % (c["cutoff"], len(mm), " ".join(map(str, mm)))))
            run, bad = 0, False
            for x in mm:
                if x <= 0:
                    run += 1
                else:
                    bad = bad or run > c["cutoff"]
                    run = 0
            # (whether a streak that nothing follows counts is left open)
            need(got == int(bad) or (not bad and run > c["cutoff"]), "error streak longer than %d in %r: said %d", c["cutoff"], mm, got)
        return bool(a and b and a != b and set(a) & set(b))


ALL = [FastD]
