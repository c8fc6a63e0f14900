"""Property-based testing engine for the Python parts: generators that read a
sequence of choices, shrinking of that sequence, replay files."""
import argparse
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import tempfile
import time
import traceback


class Discard(Exception):
    pass


class Violation(Exception):
    pass


class Gen:
    """Draws read (or extend) a list of integers: smaller is simpler."""

    def __init__(self, choices=None, rng=None):
        self.choices = list(choices or [])
        self.used = []
        self.rng = rng
        self.log = None

    def raw(self, bound):
        """integer in [0, bound]"""
        i = len(self.used)
        if i < len(self.choices):
            v = min(self.choices[i], bound)
        else:
            v = self.rng.randint(0, bound) if self.rng else 0
        self.used.append(v)
        if self.log:
            self.log.write(b"%d " % v)
            self.log.flush()
        return v

    def integer(self, lo, hi):
        if lo <= 0 <= hi:  # towards zero
            v = self.raw(hi - lo)
            return v if v <= hi else hi - v
        return lo + self.raw(hi - lo)

    def boolean(self, p=0.5):
        return self.raw(999) >= 1000 - round(p * 1000)

    def unit(self):
        return self.raw((1 << 30) - 1) / (1 << 30)

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def pick(self, seq):
        return seq[self.raw(len(seq) - 1)]

    def subset(self, seq, p):
        return [x for x in seq if self.boolean(p)]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.raw(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Case:

    def __init__(self):
        self.notes = []
        self.labels = []
        self.is_nontrivial = False
        self.log = None

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))
        if self.log:
            self.log.write(self.notes[-1].encode() + b"\n")
            self.log.flush()

    def label(self, name):
        self.labels.append(name)

    def nontrivial(self, yes=True):
        self.is_nontrivial = self.is_nontrivial or bool(yes)

    def fail(self, *a):
        raise Violation(" ".join(str(x) for x in a))

    def check(self, cond, *a):
        if not cond:
            self.fail(*a)


PROPERTIES = []


def prop(weight):

    def add(f):
        PROPERTIES.append((f.__name__, weight, f))
        return f

    return add


def run(f, choices, rng=None, g=None, c=None):
    """-> (choices used, outcome, message, case)"""
    g, c = g or Gen(choices, rng), c or Case()
    try:
        f(g, c)
        return g.used, "ok", "", c
    except Discard:
        return g.used, "discard", "", c
    except Violation as e:
        return g.used, "fail", str(e), c
    except Exception:  # the code under test raised something unexpected
        return g.used, "fail", traceback.format_exc()[-1800:], c


def shrink(f, choices, budget=25.0, run=run):
    end = time.time() + budget
    best = list(choices)

    def fails(x):
        used, out, _, _ = run(f, x)
        return used if out == "fail" else None

    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                for cand in (best[:i] + best[i + size:], best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    if cand == best:
                        continue
                    u = fails(cand)
                    if u is not None and (len(u), u) < (len(best), best):
                        best, progress = u, True
                        break
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            lo, hi = 0, best[i] if i < len(best) else 0
            while lo < hi and time.time() < end:
                mid = (lo + hi) // 2
                u = fails(best[:i] + [mid] + best[i + 1:])
                if u is not None and (len(u), u) < (len(best), best):
                    best, progress = u, True
                    hi = mid
                    if i >= len(best):
                        break
                else:
                    lo = mid + 1
    return best


def isolated(f, choices, rng=None, limit=60.0):
    """run, in a child of its own: one that dies or stalls is a failure"""
    log, err, notes = tempfile.TemporaryFile(), tempfile.TemporaryFile(), tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            g, c = Gen(choices, rng), Case()
            g.log, c.log = log, notes
            os.dup2(err.fileno(), 2)
            signal.alarm(int(limit))
            _, out, msg, c = run(f, choices, rng, g, c)
            log.write(("R" + json.dumps([out, msg, c.notes])).encode())
            log.flush()
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    log.seek(0)
    drawn, _, end = log.read().decode(errors="replace").partition("R")
    used = [int(x) for x in drawn.split()]
    c = Case()
    if status == 0 and end:
        out, msg, c.notes = json.loads(end)
        return used, out, msg, c
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
        return used, "killed", "", c
    notes.seek(0)
    c.notes = notes.read().decode(errors="replace").splitlines()
    err.seek(0)
    text = err.read().decode(errors="replace")
    text = text[max(0, text.find("ERROR:"), text.find("runtime error:") - 200):][:1500]
    why = "stalled" if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM else "died, status %d" % status
    return used, "fail", "the process " + why + "\n" + text, c


def worker(args, progress):
    seed, index, cases, seconds, only = args
    end = time.time() + seconds
    names = [p for p in PROPERTIES if not only or p[0] == only]
    weights = [w for _, w, _ in names]
    res = dict(evaluations=0, discarded=0, labels={}, per_property={}, samples=[], keys=[], failure=None)
    for k in range(cases):
        if time.time() > end:
            break
        key = "%d-%d-%d" % (seed, index, k)
        rng = random.Random(key)
        name, _, f = rng.choices(names, weights)[0]
        os.pwrite(progress, ("%s %s %f\n" % (key, name, time.time())).ljust(120).encode(), 0)
        used, out, msg, c = run(f, [], rng)
        if out == "discard":
            res["discarded"] += 1
            continue
        res["evaluations"] += 1
        res["per_property"][name] = res["per_property"].get(name, 0) + 1
        for l in set(c.labels):
            k = name + ":" + l
            res["labels"][k] = res["labels"].get(k, 0) + 1
        if c.is_nontrivial:
            res["keys"].append(hash((name, tuple(used))))
            if len(res["samples"]) < 3:
                res["samples"].append((name + ": " + "; ".join(c.notes))[:400])
        if out == "fail":
            res["failure"] = (name, used, msg)
            break
    return res


STALL = 200.0


def pool(jobs, out):
    """Runs the workers; one that dies or stalls gives the case it was at"""
    context = multiprocessing.get_context("fork")
    parts, running = [], []
    for job in jobs:
        progress = os.open(os.path.join(out, "progress%d" % job[1]), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        r, w = context.Pipe(False)

        def body(job=job, progress=progress, w=w):
            w.send(worker(job, progress))
            w.close()

        p = context.Process(target=body)
        p.start()
        w.close()
        running.append([job, p, r, progress])
    while running:
        multiprocessing.connection.wait([x[2] for x in running], 5.0)
        for x in list(running):
            job, p, r, progress = x
            state = os.pread(progress, 120, 0).decode().split()
            stalled = False
            if r.poll():
                try:
                    parts.append(r.recv())
                    p.join()
                    running.remove(x)
                    continue
                except EOFError:
                    p.join()
            elif p.is_alive():
                stalled = bool(state) and time.time() - float(state[2]) > STALL
                if not stalled:
                    continue
                p.kill()
                p.join()
            running.remove(x)
            if p.exitcode == -signal.SIGKILL and not stalled:
                print("note: a worker was killed: not a verdict")
                continue
            if not state:
                print("error: a worker died before its first case")
                sys.exit(2)
            key, name = state[:2]
            f = [q for q in PROPERTIES if q[0] == name][0][2]
            rng = random.Random(key)
            rng.choices([q for q in PROPERTIES], [1] * len(PROPERTIES))
            used, outcome, msg, c = isolated(f, [], rng)
            if outcome != "fail":
                msg = "worker %s at case %s, which passed when run again" % ("stalled" if stalled else "died (%s)" % p.exitcode, key)
                print("note: " + msg)
                if stalled:
                    continue
            parts.append(dict(evaluations=1, discarded=0, labels={}, per_property={name: 1}, samples=[], keys=[], failure=(name, used, msg), died=True))
    return parts


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--cases", type=int, default=1000)
    a.add_argument("--seconds", type=float, default=0)
    a.add_argument("--out", default="/tmp")
    a.add_argument("--only", default="")
    a.add_argument("--replay", default="")
    a.add_argument("--workers", type=int, default=8)
    o = a.parse_args()
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if o.replay:
        name, choices = None, []
        for line in open(o.replay):
            w = line.split()
            if w[:1] == ["prop"]:
                name = w[1]
            if w[:1] == ["choices"]:
                choices = [int(x) for x in w[1:]]
        f = [p for p in PROPERTIES if p[0] == name][0][2]
        _, out, msg, c = isolated(f, choices)
        print("\n".join(c.notes))
        print(out, msg)
        sys.exit(1 if out == "fail" else 0)
    t0 = time.time()
    seconds = o.seconds or (120 if os.environ.get("VERIF_TIER", "quick") == "quick" else 600)
    jobs = [(o.seed, i, (o.cases + o.workers - 1) // o.workers, seconds, o.only) for i in range(o.workers)]
    parts = pool(jobs, o.out)
    res = dict(evaluations=0, discarded=0, labels={}, per_property={}, samples=[], failure=None)
    keys = set()
    for p in parts:
        res["evaluations"] += p["evaluations"]
        res["discarded"] += p["discarded"]
        keys.update(p["keys"])
        res["samples"] += p["samples"]
        for d in ("labels", "per_property"):
            for k, v in p[d].items():
                res[d][k] = res[d].get(k, 0) + v
        if p["failure"] and not res["failure"]:
            name, used, msg = p["failure"]
            f = [q for q in PROPERTIES if q[0] == name][0][2]
            again = isolated if p.get("died") else run
            small = shrink(f, used, run=again)
            used2, out, msg2, c = again(f, small)
            if out != "fail":
                used2, out, msg2, c = again(f, used)
            confirmed = out == "fail"
            text = "; ".join(c.notes)
            res["failure"] = dict(prop=name, message=((msg2 or msg) + "\n  case: " + text)[:3000], original_message=msg, confirmed=confirmed, hang=False)
            with open(os.path.join(o.out, "replay.txt"), "w") as s:
                s.write("prop %s\nchoices %s\n# %s\n" % (name, " ".join(map(str, used2)), (msg2 or msg).replace("\n", "\n# ")))
    res["samples"] = res["samples"][:8]
    res["distinct_nontrivial"] = len(keys)
    res["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(o.out, "result.json"), "w") as s:
        json.dump(res, s)
    sys.exit(1 if res["failure"] else 0)
