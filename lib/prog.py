"""Running the program under test and reading what it wrote."""
import atexit
import json
import os
import re
import shutil
import subprocess
import tempfile

import build

OUTS = ("out.json", "out.sbs", "out.nlp", "out.log")


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "."


class Run:
    """What one execution did."""
    __slots__ = ("status", "code", "stdout", "stderr", "files")

    def __init__(self, status, code, stdout, stderr, files):
        self.status, self.code, self.stdout, self.stderr, self.files = status, code, stdout, stderr, files

    @property
    def ok(self):
        return self.status == "exit" and self.code == 0

    def describe(self):
        return "%s %s; stderr: %s" % (self.status, self.code, self.stderr[-1500:].strip())


class Program:
    def __init__(self, variant="fast", binary=None):
        self.variant = variant
        self.binary = binary or os.path.join(build.BUILD, "runner-" + variant)
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        atexit.register(self.close)
        self.proc = None
        self.count = 0

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()
            self.proc = None
        if self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def _start(self):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": self.dir,
               # leaks are not part of any property here: the process is short-lived
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
                               "detect_stack_use_after_return=0:max_allocation_size_mb=4096",
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=87:halt_on_error=1"}
        self.proc = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, cwd=self.dir, env=env)

    def run(self, files, args, cpu=20, mem_mb=None, want=OUTS, keep=()):
        """files: {name: str|bytes} written in the scratch directory, args: argv[1:]."""
        for f in os.listdir(self.dir):
            if f not in keep:
                os.unlink(os.path.join(self.dir, f))
        for n, c in files.items():
            with open(os.path.join(self.dir, n), "wb") as f:
                f.write(c if isinstance(c, bytes) else c.encode("utf-8"))
        if mem_mb is None:
            mem_mb = 0 if self.variant == "asan" else 3000
        self.count += 1
        for attempt in (0, 1):
            if self.proc is None or self.proc.poll() is not None:
                self._start()
            argv = ["fstalign"] + list(args)
            msg = [b"%d\n%d\n%d\n" % (cpu, mem_mb, len(argv))]
            for s in [self.dir, "stdout.txt", "stderr.txt"] + argv:
                b = s.encode("utf-8", "surrogateescape")
                msg.append(b"%d\n" % len(b))
                msg.append(b)
            try:
                self.proc.stdin.write(b"".join(msg))
                self.proc.stdin.flush()
                line = self.proc.stdout.readline().decode()
            except BrokenPipeError:
                line = ""
            if line and not line.startswith("forkfail"):
                break
            self.proc.kill()
            self.proc.wait()
            self.proc = None
        else:
            raise RuntimeError("the fork server does not answer")
        status, code = line.split()
        got = {}
        for n in want:
            p = os.path.join(self.dir, n)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    got[n] = f.read()

        def rd(n):
            with open(os.path.join(self.dir, n), "rb") as f:
                return f.read().decode("utf-8", "replace")
        return Run(status, int(code), rd("stdout.txt"), rd("stderr.txt"), got)


# ---------------------------------------------------------------- outputs

class Malformed(Exception):
    """An output file does not have its documented form."""


class Row:
    __slots__ = ("ref", "hyp", "err", "cls", "tags")

    def __init__(self, ref, hyp, err, cls, tags):
        self.ref, self.hyp, self.err, self.cls, self.tags = ref, hyp, err, cls, tags

    def __repr__(self):
        return "(%s|%s|%s|%s|%s)" % (self.ref, self.hyp, self.err, self.cls, self.tags)

    @property
    def kind(self):
        if self.ref == "<ins>":
            return "ins"
        if self.hyp == "<del>":
            return "del"
        return "cor" if self.ref == self.hyp else "sub"


class Sbs:
    def __init__(self, data):
        text = data.decode("utf-8", "replace")
        lines = text.split("\n")
        if not lines or lines[-1] != "":
            raise Malformed("side-by-side file does not end with a newline")
        lines.pop()
        if len(lines) < 3:
            raise Malformed("side-by-side file too short")
        self.header = lines[0].split("\t")
        if [h.strip() for h in self.header][:4] != ["ref_token", "hyp_token", "IsErr", "Class"]:
            raise Malformed("side-by-side header %r" % lines[0])
        try:
            cut = lines.index("-" * 60)
        except ValueError:
            raise Malformed("side-by-side file has no error group section")
        self.rows = []
        for l in lines[1:cut]:
            p = l.split("\t")
            if len(p) < 4:
                raise Malformed("side-by-side row %r" % l)
            tags = p[4] if len(p) > 4 else ""
            self.rows.append(Row(p[0].strip(), p[1].strip(), p[2].strip(), p[3].strip(), tags.strip()))
        self.groups = []
        for l in lines[cut + 2:]:
            p = l.split("\t", 1)
            if len(p) != 2:
                raise Malformed("error group row %r" % l)
            try:
                n = int(p[0].strip())
            except ValueError:
                raise Malformed("error group row %r" % l)
            self.groups.append((n, p[1].strip()))


def parse_json(data):
    return json.loads(data.decode("utf-8", "replace"))


NLP_HEADER = ["token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags",
              "oldTs", "oldEndTs", "ali_comment", "confidence"]


def parse_nlp(data):
    """The aligned NLP output: list of dicts."""
    lines = data.decode("utf-8", "replace").split("\n")
    if lines[-1] != "":
        raise Malformed("NLP output does not end with a newline")
    lines.pop()
    if not lines:
        raise Malformed("NLP output is empty")
    head = lines[0].split("|")
    rows = []
    for l in lines[1:]:
        p = l.split("|")
        if len(p) != len(head):
            raise Malformed("NLP output row %r has %d fields, the header %d" % (l, len(p), len(head)))
        rows.append(dict(zip(head, p)))
    return head, rows


ANSI = re.compile(r"\x1b\[[0-9;]*m")


class Log:
    """The counts in the text log."""

    def __init__(self, text):
        text = ANSI.sub("", text)
        self.text = text
        self.best = None
        m = re.search(r"\[wer\] best WER: (-?\d+)/(-?\d+) = (\S+) \(Total words in reference: (-?\d+)\)", text)
        if m:
            self.best = (int(m.group(1)), int(m.group(2)), m.group(3), int(m.group(4)))
        m = re.search(r"\[wer\] best WER: INS:(-?\d+) DEL:(-?\d+) SUB:(-?\d+)", text)
        self.ids = tuple(int(x) for x in m.groups()) if m else None
        m = re.search(r"\[wer\] best WER: Precision:(\S+) Recall:(\S+)", text)
        self.pr = m.groups() if m else None
        self.cls = {m.group(1): (int(m.group(2)), int(m.group(3)), m.group(4)) for m in
                    re.finditer(r"\[wer\] class (\S+)\s+WER: (-?\d+)/(-?\d+) = (\S+)", text)}
        self.speaker = {m.group(1): (int(m.group(2)), int(m.group(3)), m.group(4)) for m in
                        re.finditer(r"\[wer\] speaker (\S*) WER: (-?\d+)/(-?\d+) = (\S+)", text)}
        self.tag = {m.group(1): (int(m.group(2)), int(m.group(3)), m.group(4)) for m in
                    re.finditer(r"\[wer\] Wer Entity ID (\S*) WER: (-?\d+)/(-?\d+) = (\S+)", text)}
