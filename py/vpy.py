"""Reporting for the Python checks: forked workers, evidence, replay files, verdicts.
The evidence has the fields of harness/src/rep.rs."""
import json
import mmap
import os
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

import numpy as np

ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HANG_S = 200.0


class Viol(Exception):
    def __init__(self, sig, detail):
        super().__init__(sig)
        self.sig, self.detail = sig, detail


class Case:
    """Per-case recorder; everything it gathers travels to the parent as one record."""

    def __init__(self, stream, idx):
        self.stream, self.idx = stream, idx
        self.counts, self.keys, self.samples = {}, [], []

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def nontrivial(self, *what):
        self.keys.append(hash_of(self.stream, *what))

    def sample(self, text):
        if self.idx < 3:
            self.samples.append("[%d:%d] %s" % (self.stream, self.idx, text))


def hash_of(*what):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for w in what:
        if isinstance(w, np.ndarray):
            h.update(str(w.shape).encode())
            h.update(np.ascontiguousarray(w).tobytes())
        else:
            h.update(repr(w).encode())
        h.update(b"|")
    return h.hexdigest()


class Report:
    def __init__(self, ident, rule):
        self.id, self.rule = ident, rule
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.thorough = os.environ.get("VERIF_TIER") == "thorough"
        only = os.environ.get("VH_CASE")
        self.only = tuple(int(v) for v in only.split(":")) if only else None
        self.t0 = time.time()
        self.soft = 3 * 3600.0 if self.thorough else 300.0
        self.hard = 4 * 3600.0 if self.thorough else 840.0
        self.evals = self.planned = 0
        self.cut = False
        self.distinct, self.counters, self.samples, self.viols = set(), {}, [], []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _run_one(self, fn, stream, i):
        c = Case(stream, i)
        rec = {"i": i}
        try:
            fn(np.random.default_rng([self.seed, stream, i]), c)
        except Viol as v:
            rec["viol"] = [v.sig, v.detail]
        except MemoryError:
            rec["broken"] = "out of memory"
        except BaseException as e:  # noqa: a PanicException is no Exception
            text = "".join(traceback.format_exception(e))
            if isinstance(e, KeyboardInterrupt):
                raise
            if not isinstance(e, Exception) or "sparseglm" in text.split("vpy.py")[-1]:
                rec["viol"] = ["exception:" + type(e).__name__, text]
            else:
                rec["broken"] = text
        rec.update(counts=c.counts, keys=c.keys, samples=c.samples)
        return rec

    def _worker(self, fn, stream, idxs, slot, wfd):
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)
        log = os.open(os.path.join(ROOT, "build", self.id.lower() + ".stderr"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(log, 2)
        with os.fdopen(wfd, "w") as out:
            for i in idxs:
                slot[0:24] = struct.pack("<qdq", i, time.time(), 1)
                rec = self._run_one(fn, stream, i)
                slot[0:24] = struct.pack("<qdq", i, time.time(), 2)
                out.write(json.dumps(rec) + "\n")
                out.flush()

    def cases(self, stream, n, fn, workers=8):
        if self.only:
            if self.only[0] != stream:
                return
            idxs = [self.only[1]]
        else:
            idxs = list(range(n))
        self.planned += len(idxs)
        open(os.path.join(ROOT, "build", self.id.lower() + ".stderr"), "w").close()
        todo = [idxs[w::workers] for w in range(workers)]
        live = {}

        def spawn(work):
            if not work:
                return
            slot = mmap.mmap(-1, 64)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self._worker(fn, stream, work, slot, w)
                except BaseException:
                    traceback.print_exc()
                    code = 77
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = [pid, slot, work, b"", False]

        for work in todo:
            spawn(work)
        while live:
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for r in rd:
                st = live[r]
                data = os.read(r, 1 << 16)
                st[3] += data
                while b"\n" in st[3]:
                    line, st[3] = st[3].split(b"\n", 1)
                    self._take(stream, json.loads(line))
                if not data:
                    os.close(r)
                    del live[r]
                    _, status = os.waitpid(st[0], 0)
                    i, _, phase = struct.unpack("<qdq", st[1][0:24])
                    if status != 0 and not st[4]:
                        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
                            self.broken("worker failed, see build/%s.stderr" % self.id.lower())
                        if phase == 1:
                            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                                self.broken("worker killed by SIGKILL in case %d:%d" % (stream, i))
                            self.evals += 1
                            self.viols.append((stream, i, "crash", "the process died with wait status %d" % status))
                        done = st[2].index(i) + 1
                        spawn(st[2][done:])
            now = time.time()
            for r, st in list(live.items()):
                i, t, phase = struct.unpack("<qdq", st[1][0:24])
                if phase == 1 and now - t > HANG_S and not st[4]:
                    st[4] = True
                    self.viols.append((stream, i, "hang", "no answer after %d s" % HANG_S))
                    os.kill(st[0], signal.SIGKILL)
            late = now - self.t0 > self.soft
            if (late or len(self.viols) >= 40) and not self.only:
                self.cut = self.cut or late
                for r, st in live.items():
                    if not st[4]:
                        st[4] = True
                        os.kill(st[0], signal.SIGKILL)

    def _take(self, stream, rec):
        self.evals += 1
        if "broken" in rec:
            self.broken(rec["broken"])
        for k, v in rec["counts"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct.update(rec["keys"])
        self.samples += rec["samples"]
        if "viol" in rec:
            self.viols.append((stream, rec["i"], rec["viol"][0], rec["viol"][1]))

    def broken(self, why):
        print("INCONCLUSIVE: the check itself failed: " + why)
        sys.stdout.flush()
        os._exit(3)

    def finish(self, need, assumptions):
        known = []
        path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        pre = "known: property=%s " % self.id
        if os.path.exists(path):
            known = [ln[len(pre):].split(" -- ")[0].strip() for ln in open(path) if ln.startswith(pre)]
        self.viols.sort(key=lambda v: v[:2])
        fresh, seen = [], set()
        for v in self.viols:
            if v[2] in known:
                if v[2] not in seen:
                    seen.add(v[2])
                    print("KNOWN-FINDING: property=%s %s" % (self.id, v[2]))
            else:
                fresh.append(v)
        wall = time.time() - self.t0
        tier = "thorough" if self.thorough else "quick"
        ev = {"property": self.id, "tier": tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "planned": self.planned, "cut_short": self.cut,
                           "observed": dict(sorted(self.counters.items())), "samples": self.samples[:40]},
              "assumptions": list(assumptions), "wall_s": round(wall, 3), "violations": len(fresh)}
        if not self.only:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", self.id + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.id, self.evals, len(self.distinct), wall))
        for k, v in sorted(self.counters.items()):
            print("  %s: %d" % (k, v))
        if fresh:
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            path = os.path.join(ROOT, "replay", self.id + ".txt")
            with open(path, "w") as f:
                for st, i, sig, det in fresh:
                    f.write("== case %d:%d sig=%s\nreplay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s VH_CASE=%d:%d bash run.sh %s\n%s\n\n"
                            % (st, i, sig, self.seed, tier, st, i, self.id, det))
            for st, i, sig, det in fresh[:5]:
                print("-- case %d:%d [%s] %s" % (st, i, sig, det[:700]))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            sys.exit(1)
        if not self.only:
            for k, m in need:
                have = self.evals if k == "evaluations" else self.counters.get(k, 0)
                if have < m:
                    print("INCONCLUSIVE: observed %d of '%s', need %d" % (have, k, m))
                    sys.exit(3)
        sys.exit(0)


class Ref:
    """The Rust reference server, one per process."""
    _p, _pid = None, None

    @classmethod
    def ask(cls, head, arrays):
        if cls._pid != os.getpid():
            cls._p = subprocess.Popen([os.environ["VH_PYREF"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            cls._pid = os.getpid()
        toks = list(head)
        for a in arrays:
            toks += ["%x" % v for v in np.ascontiguousarray(a, dtype=np.float64).ravel().view(np.uint64)]
        cls._p.stdin.write(" ".join(str(t) for t in toks) + "\n")
        cls._p.stdin.flush()
        ans = cls._p.stdout.readline().split()
        if not ans:
            raise RuntimeError("reference server died")
        if ans[0] != "ok":
            return None
        return np.array([int(v, 16) for v in ans[1:]], dtype=np.uint64).view(np.float64)


def hexf(v):
    return "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]
