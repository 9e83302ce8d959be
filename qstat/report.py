"""Obligations, verdicts, evidence and exit status of one check run."""
import json, os, pickle, select, sys, time, traceback
import state
from state import Unsupported
from compare import doubtful

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Check:
    def __init__(self, prop, tier, seed, rule):
        self.prop, self.tier, self.seed, self.rule = prop, tier, seed, rule
        self.t0 = time.time()
        self.obs = []
        self.counts = {}
        self.assumptions = []
        self.functions = set()
        self.paths = 0

    def ob(self, name, verdict, where, detail="", st=None):
        """verdict: True (proved), False (refuted), None (undecided); a refutation on a path
        whose conditions are not all understood counts as undecided"""
        if verdict is False and st is not None and doubtful(st):
            verdict, detail = None, "on a path with conditions of unknown meaning: " + detail
        self.obs.append((name, verdict, where, detail))
        return verdict

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def guard(self, name, where, fn, *a):
        """run one analysis step; a construct outside the analysed fragment leaves it undecided"""
        saved = state.DEADLINE
        if saved is None:
            now = time.time()
            state.DEADLINE = min(now + 150, max(self.t0 + 600, now + 0.3))
        try:
            return fn(*a)
        except (Unsupported, RecursionError, MemoryError) as e:
            self.ob(name, None, where, f"not analysable: {type(e).__name__}: {e}")
        except Exception as e:
            if type(e).__name__ == "Anchor":
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(name, None, where, f"analysis stopped: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
            if os.environ.get("QSTAT_DEBUG"):
                traceback.print_exc()
        finally:
            state.DEADLINE = saved
        return None

    def parallel(self, jobs):
        """run analysis steps (name, where, fn, args...) in processes of their own and collect
        what they report, in the order of the jobs"""
        width = max(1, min(8, os.cpu_count() or 1))
        if width == 1 or len(jobs) == 1:
            for j in jobs:
                self.guard(j[0], j[1], j[2], self, *j[3:])
            return
        todo, live, results = list(enumerate(jobs)), {}, {}
        sys.stdout.flush()
        sys.stderr.flush()
        while todo or live:
            while todo and len(live) < width:
                i, j = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        mine = Check(self.prop, self.tier, self.seed, self.rule)
                        mine.t0 = self.t0
                        try:
                            mine.guard(j[0], j[1], j[2], mine, *j[3:])
                            err = None
                        except Exception as e:
                            err = (type(e).__name__, str(e))
                        with os.fdopen(w, "wb") as f:
                            f.write(pickle.dumps((mine.obs, mine.counts, mine.functions, mine.paths, mine.assumptions, err)))
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (pid, i, [])
            for fd in select.select(list(live), [], [])[0]:
                b = os.read(fd, 1 << 20)
                pid, i, parts = live[fd]
                if b:
                    parts.append(b)
                    continue
                os.close(fd)
                del live[fd]
                os.waitpid(pid, 0)
                results[i] = b"".join(parts)
        for i, j in enumerate(jobs):
            if not results[i]:
                self.ob(j[0], None, j[1], "analysis stopped: out of memory or ended from outside")
                continue
            obs, counts, functions, paths, assumptions, err = pickle.loads(results[i])
            if err and err[0] == "Anchor":
                raise type("Anchor", (Exception,), {})(err[1])
            self.obs += obs
            for k, n in counts.items():
                self.count(k, n)
            self.functions |= functions
            self.paths += paths
            self.assumptions += [a for a in assumptions if a not in self.assumptions]

    def used(self, P):
        self.functions |= set(P.visited)
        self.paths += P.paths

    def finish(self, explanation):
        bad = {}
        for n, v, w, d in self.obs:
            if v is False:
                bad.setdefault((n, w), d)
        known = known_findings(self.prop)
        viol, found = [], []
        for (n, w), d in sorted(bad.items()):
            key = f"{n} @ {w}"
            if key in known:
                found.append((key, known[key]))
            else:
                viol.append({"rule": n, "construct": w, "detail": d})
        proved = sum(1 for o in self.obs if o[1] is True)
        undecided = [{"rule": n, "construct": w, "why": d} for n, v, w, d in self.obs if v is None]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": explanation, "rule": self.rule,
                "obligations": len(self.obs), "proved": proved, "undecided": len(undecided), "refuted": len(bad),
                "functions_analysed": len(self.functions), "path_partitions": self.paths,
                **self.counts,
                "undecided_list": undecided[:int(os.environ.get("QSTAT_LIST", "40"))],
                "functions": sorted(self.functions)[:120],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
            "assumptions": self.assumptions,
        }
        d = os.environ.get("QSTAT_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for key, text in found:
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if viol:
            rp = os.path.join(d, f"replay-{self.prop}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": viol, "rerun": f"python3 /verif/check.py {self.prop} --tier {self.tier}"}, f, indent=1)
                f.write("\n")
            for v in viol:
                print(f"  {v['rule']} @ {v['construct']}: {v['detail']}"[:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"{self.prop}: {proved} obligations proved, {len(undecided)} undecided, {len(self.functions)} functions, {ev['wall_s']} s")
        return 0


def known_findings(prop):
    """finding: property=<id> key=<rule @ construct> :: <what fails>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("::")
                kv = head.strip()
                if kv.startswith(f"property={prop} key="):
                    out[kv.split("key=", 1)[1].strip()] = text.strip()
    return out
