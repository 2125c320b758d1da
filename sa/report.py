"""Obligations, verdicts, evidence and the command-line contract of a check."""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = [0]     # wall-clock limit of the analysis: what is not decided by then is reported as undecided
PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


class AnchorLost(Exception):
    """a public anchor of the property is gone: the analysis cannot answer"""


class Divided(object):
    """An analysis that replaces an internal function of the tree by its contract.  The contract is a lemma about how this tree
    happens to divide the work: when it does not hold, its failure counts only if the callers are right under it, that is, if
    they use the function as the contract says.  Otherwise the callers are analysed with the function inlined."""
    suspect = ()

    def contract(self, n0):
        """the obligations since n0 are the contract"""
        self.suspect = [o for o in self.rep.obs[n0:] if o["status"] != PROVED] and self.rep.obs[n0:]

    probing = False

    def attempt(self, run):
        if self.suspect and not self.inlined:
            n0 = len(self.rep.obs)
            self.probing = True             # a few sizes decide whether the callers follow the contract
            run()
            self.probing = False
            ok = all(o["status"] == PROVED for o in self.rep.obs[n0:])
            del self.rep.obs[n0:]
            for o in self.suspect:
                if ok and o.pop("dead", None):
                    o["status"] = REFUTED
                elif not ok and o["status"] != PROVED:
                    o["status"], o["detail"] = UNDECIDED, "not used by its callers according to this contract"
            if not ok:
                self.comp, self.hooks, self.inlined = None, {}, True
            self.suspect = ()
        run()


class Report(object):
    def __init__(self, pid, rule, trusted=(), level="proof"):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.trusted = list(trusted)
        self.obs = []
        self.t0 = time.time()
        self.assumptions = []
        self.functions = set()
        self.rows = []       # records of any kind, gathered from the workers
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.extra = {}
        self.min_obs = 1

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ob(self, name, status, where="", detail=None):
        self.obs.append({"obligation": name, "status": status, "where": where, "detail": detail})
        if os.environ.get("SA_VERBOSE"):
            print("%-10s %s %s %s" % (status, name, where, "" if detail is None else str(detail)[:1500]), flush=True)
        return status

    def guard(self, name, fn, where="", internal=False):
        """run an obligation's analysis; analysis limits are reported as undecided, never as a violation.  A call that
        cannot return for any of its (valid) inputs is a violation, except for internal functions"""
        from .cinterp import Undecided, Dead
        from .cspec import Missing
        try:
            return fn()
        except Undecided as e:
            self.ob(name, UNDECIDED, where, "analysis limit: %s" % e)
        except Dead as e:
            if str(e) and not internal:
                self.ob(name, REFUTED, where, "no path returns: " + str(e))
            else:
                self.ob(name, UNDECIDED, where, "no return path: " + str(e))
                if str(e):
                    self.obs[-1]["dead"] = True
        except Missing as e:
            raise AnchorLost("missing function: %s" % e)
        except RecursionError:
            self.ob(name, UNDECIDED, where, "analysis limit: recursion")
        except AnchorLost:
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            self.ob(name, UNDECIDED, where, "analysis limit: %s in %s" % (repr(e)[:200], traceback.format_exc().strip().split("\n")[-3].strip()[:160]))

    def pmap(self, tasks, procs=8):
        """run independent obligations (callables recording into this report) in forked workers"""
        import pickle
        import tempfile
        procs = min(procs, len(tasks))
        if procs <= 1 or os.environ.get("SA_SERIAL"):
            for t in tasks:
                t()
            return
        kids = []
        sys.stdout.flush()
        for k in range(procs):
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                try:
                    n0, r0 = len(self.obs), len(self.rows)
                    err = None
                    try:
                        for t in tasks[k::procs]:
                            t()
                    except AnchorLost as e:
                        err = ("anchor", str(e))
                    except BaseException:
                        err = ("error", traceback.format_exc())
                    pickle.dump((self.obs[n0:], self.functions, self.rows[r0:], err), f)
                    f.flush()
                finally:
                    os._exit(0)
            kids.append((pid, f))
        res = []
        errs = []
        for pid, f in kids:
            os.waitpid(pid, 0)
            f.seek(0)
            try:
                o, fn, rows, err = pickle.load(f)
            except Exception:
                o, fn, rows, err = [], set(), [], ("error", "worker died")
            res.append(o)
            self.functions |= fn
            self.rows += rows
            if err:
                errs.append(err)
            f.close()
        for i in range(max([len(r) for r in res] or [0])):
            for r in res:
                if i < len(r):
                    self.obs.append(r[i])
        for kind, e in errs:
            if kind == "anchor":
                raise AnchorLost(e)
            if os.environ.get("SA_DEBUG"):
                raise RuntimeError(e)
            self.ob("analysis worker", UNDECIDED, "", "analysis limit: " + e.strip()[-300:])

    def known(self):
        """known findings: lines 'finding: property=<id> key=<obligation>|<where> ...'"""
        r = []
        try:
            with open(os.path.join(HERE, "known-findings.txt")) as f:
                for l in f:
                    l = l.strip()
                    if l.startswith("finding: property=%s " % self.pid) and " key=" in l:
                        r.append((l.split(" key=", 1)[1].split(" :: ")[0], l))
        except IOError:
            pass
        return r

    def finish(self):
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        ref = [o for o in self.obs if o["status"] == REFUTED]
        und = [o for o in self.obs if o["status"] == UNDECIDED]
        prv = [o for o in self.obs if o["status"] == PROVED]
        kn = self.known()
        new = []
        for o in ref:
            key = o["obligation"]
            hit = [l for k, l in kn if k == key]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, key))
            else:
                new.append(o)
        cov = {"explanation": self.rule, "obligations": len(self.obs), "discharged": len(prv),
               "undecided": [{k: (str(v)[:400] if v is not None else None) for k, v in o.items()} for o in und][:60],
               "checker_cmd": "python3 %s" % " ".join(sys.argv), "trusted_base": self.trusted,
               "functions_analysed": sorted(self.functions),
               "samples": [o["obligation"] + (" @ " + o["where"] if o["where"] else "") for o in prv][:40]}
        cov.update(self.extra)
        level = self.level
        if level == "proof" and len(prv) < len(self.obs) and not new:
            level = "other"
        data = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(data, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d refuted (%.1f s)" % (
            self.pid, len(self.obs), len(prv), len(und), len(ref), time.time() - self.t0))
        for o in und[:6]:
            print("  undecided: %s %s: %s" % (o["obligation"], o["where"], str(o["detail"])[:300]))
        if new:
            rp = os.path.join(ev, self.pid + ".replay.txt")
            with open(rp, "w") as f:
                for o in new:
                    f.write("obligation: %s\nwhere: %s\n%s\n\n" % (o["obligation"], o["where"], o["detail"]))
            for o in new[:6]:
                print("  refuted: %s %s\n    %s" % (o["obligation"], o["where"], str(o["detail"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if len(self.obs) < self.min_obs:
            print("analysis broken: only %d obligations, expected at least %d" % (len(self.obs), self.min_obs))
            return 2
        return 0


def main(fn, pid):
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = [3]
    DEADLINE[0] = time.time() + (420 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 1500)

    def go():
        try:
            res[0] = fn()
        except AnchorLost as e:
            print("analysis broken: %s" % e)
            res[0] = 2
        except Exception:
            traceback.print_exc()
            res[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0])
