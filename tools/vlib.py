"""Running the library (through the harness) and judging its traces (with TLC)."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
SPECS = os.path.join(VERIF, "specs")
CPUS = max(1, min(8, os.cpu_count() or 1))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*xs):
    print(*xs, file=sys.stderr, flush=True)


# ------------------------------------------------------------------- building
def build():
    """Builds the harness, and with it the library from /repo's working tree, in both profiles."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    ps = [subprocess.Popen(["cargo", "build", "--offline", "-q"] + flags, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True) for flags in ([], ["--release"])]
    errs = [p.communicate()[1] for p in ps]
    for p, err in zip(ps, errs):
        if p.returncode != 0:
            raise ToolError("the harness does not build:\n" + err[-4000:])
    return {"debug": os.path.join(HARNESS, "target/debug/yharness"), "release": os.path.join(HARNESS, "target/release/yharness")}


# ------------------------------------------------------------- running cases
def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


HANGS = 4   # after so many hangs the remaining cases are left out: the point is made


class Runner:
    """One harness process working through a list of (number, case)."""

    hangs = 0

    def __init__(self, binary, todo, path, patience, gb):
        self.binary, self.todo, self.path, self.patience, self.gb = binary, todo, path, patience, gb
        self.results = {}
        self.start()

    def start(self):
        with open(self.path + ".in", "w") as f:
            for num, ops in self.todo:
                f.write('{"id":"%d","ops":%s}\n' % (num, json.dumps(ops, separators=(",", ":"))))
        self.out = open(self.path + ".out", "wb")
        self.err = open(self.path + ".err", "wb")
        self.p = subprocess.Popen([self.binary], stdin=open(self.path + ".in"), stdout=self.out, stderr=self.err, preexec_fn=limits(self.gb))
        self.seen, self.when = 0, time.time()

    def poll(self):
        """True when everything is done."""
        rc = self.p.poll()
        why = None
        if rc is None:
            size = os.path.getsize(self.path + ".out")
            if size != self.seen:
                self.seen, self.when = size, time.time()
            if time.time() - self.when < self.patience:
                return False
            self.p.kill()
            self.p.wait()
            why = "hang"
            Runner.hangs += 1
        elif rc < 0:
            why = "signal %d" % -rc
        elif rc > 0:
            why = "exit %d" % rc
        self.out.close()
        self.err.close()
        part = {}
        ended = set()
        with open(self.path + ".out", errors="replace") as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                bits = line[:-1].split("\t", 2)
                if bits[1] == "end":
                    ended.add(int(bits[0]))
                else:
                    part.setdefault(int(bits[0]), []).append(bits[2])
        rest = []
        for i, (num, ops) in enumerate(self.todo):
            if num in ended:
                self.results[num] = part.get(num, [])
                continue
            why = why or "exit 0"
            tail = open(self.path + ".err", errors="replace").read()[-300:]
            got = part.get(num, [])
            if len(got) < len(ops):
                got = got + [json.dumps({"ok": False, "crash": why + " " + tail})]
            self.results[num] = got
            rest = self.todo[i + 1:]
            break
        if rest and Runner.hangs < HANGS:
            self.todo = rest
            self.start()
            return False
        return True


def run_cases(binary, cases, tag, patience=20, gb=3, procs=CPUS):
    """The raw results of every call of every case (None for a case left out)."""
    os.makedirs(os.path.join(WORK, "run"), exist_ok=True)
    todo = list(enumerate(cases))
    if not todo:
        return []
    n = max(1, min(procs, len(todo)))
    Runner.hangs = 0
    rs = [Runner(binary, todo[i::n], os.path.join(WORK, "run", "%s.%d.%d" % (tag, os.getpid(), i)), patience, gb) for i in range(n) if todo[i::n]]
    live = list(rs)
    while live:
        live = [r for r in live if not r.poll()]
        if live:
            time.sleep(0.02)
    out = {}
    for r in rs:
        out.update(r.results)
        for x in (".in", ".out", ".err"):
            os.remove(r.path + x)
    return [out.get(i) for i in range(len(cases))]


def traces_of(cases, results):
    """Trace lines: a case whose debug and release results agree gives one trace, otherwise one for each."""
    lines = []
    for i, ops in enumerate(cases):
        seen = set()
        for prof, res in results.items():
            if res[i] is None:
                continue
            key = "\n".join(res[i])
            if key in seen:
                continue
            seen.add(key)
            evs = [json.dumps(o, separators=(",", ":"))[:-1] + ',"r":' + r + "}" for o, r in zip(ops, res[i])]
            lines.append((i, prof, len(evs), '{"id":"%d","evs":[%s]}' % (i, ",".join(evs))))
    return lines


# ------------------------------------------------------------------------ TLC
def java(workers, heap, extra=()):
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, workers), "-Xmx%dg" % heap, "-Xss512m",
            "-Dtlc2.TLC.stopAfter=100000", "-cp", JARS] + list(extra) + ["tlc2.TLC"]


def spec_dir(name):
    d = os.path.join(WORK, "tlc", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPECS):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(SPECS, f), d)
    return d


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(d, module, cfg, env, workers=1, heap=3, args=(), timeout=800, module_file=None):
    """Starts TLC; returns the process with its output file."""
    out = open(os.path.join(d, "%s.%s.log" % (module, cfg)), "w+")
    meta = os.path.join(d, "meta." + module + "." + cfg)
    cmd = java(workers, heap, ["-Djava.io.tmpdir=" + d]) + ["-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + list(args) + [module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, env=dict(os.environ, **env), stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    p.started, p.limit, p.out = time.time(), timeout, out
    return p


def tlc_wait(p):
    try:
        p.wait(max(1, p.limit - (time.time() - p.started)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise ToolError("TLC took longer than %d s" % p.limit)
    p.out.seek(0)
    text = p.out.read()
    p.out.close()
    return text


class Batch:
    """Trace lines judged by one TLC process."""

    def __init__(self, d, k, lines, focus):
        self.d, self.k, self.lines, self.focus = d, k, lines, focus
        self.rejects = []
        self.states = self.generated = 0
        self.start()

    def start(self):
        name = "trace%d.ndjson" % self.k
        with open(os.path.join(self.d, name), "w") as f:
            for x in self.lines:
                f.write(x[3] + "\n")
        cfg = "Session%d.cfg" % self.k
        with open(os.path.join(self.d, cfg), "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        self.p = tlc(self.d, "Session", cfg, {"TRACE": os.path.join(self.d, name), "FOCUS": self.focus}, 1, 3)

    def finish(self):
        while True:
            text = tlc_wait(self.p)
            hits = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', text)]
            if "Model checking completed. No error has been found" in text:
                g, s = map(int, STATES.findall(text)[-1])
                rej = dict(hits)
                want = sum(rej.get(i + 1, x[2] + 1) for i, x in enumerate(self.lines))
                if s != want:
                    # some call has no matching action at all
                    if len(self.lines) == 1:
                        self.rejects.append((self.lines[0], min(s, self.lines[0][2]), "no action of the specification matches this call"))
                        self.states += s
                        return
                    mid = len(self.lines) // 2
                    for part in (self.lines[:mid], self.lines[mid:]):
                        self.lines = part
                        self.start()
                        self.finish()
                    return
                self.states += s
                self.generated += g
                for i, l in rej.items():
                    self.rejects.append((self.lines[i - 1], l, "not an allowed step"))
                return
            m = re.findall(r"/\\ c = (\d+)", text)
            lm = re.findall(r"/\\ l = (\d+)", text)
            if not m:
                raise ToolError("TLC failed:\n" + text[-3000:])
            # a result the specification cannot even compare with what it allows
            i = int(m[-1]) - 1
            why = "evaluation: " + " ".join(x for x in text.split("\n") if x.startswith("Error"))[:300]
            self.rejects.append((self.lines[i], int(lm[-1]), why))
            self.lines = self.lines[:i] + self.lines[i + 1:]
            if len(self.rejects) > 20 or not self.lines:
                return
            self.start()


def validate(lines, focus, tag):
    """Judges trace lines; returns (rejected, states)."""
    d = spec_dir(tag)
    lines = sorted(lines, key=lambda x: -len(x[3]))
    n = max(1, min(CPUS, len(lines) // 20 + 1))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for x in lines:
        k = load.index(min(load))
        bins[k].append(x)
        load[k] += len(x[3]) + 300 * x[2]
    batches = [Batch(d, k, b, focus) for k, b in enumerate(bins) if b]
    rejects, states, generated = [], 0, 0
    for b in batches:
        b.finish()
        rejects += b.rejects
        states += b.states
        generated += b.generated
    shutil.rmtree(d, ignore_errors=True)
    return rejects, states, generated
