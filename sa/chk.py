"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback
import rat as R
import tf
import interp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


EDGES = []


class Report:
    def __init__(self, pid, explanation):
        self.pid, self.explanation = pid, explanation
        self.obs = []
        self.t0 = time.time()
        self.progs = []
        self.assumptions = []
        self.extra = {}

    def ob(self, name, verdict, where="", detail="", how="normal form"):
        """verdict: True proved, False refuted, None not decided"""
        self.obs.append({"obligation": name, "verdict": {True: "holds", False: "VIOLATED", None: "undecided"}[verdict],
                         "where": where, "detail": detail, "how": how})
        return verdict

    def guard(self, name, f, where=""):
        """run a group of obligations; constructs outside the model make it undecided"""
        try:
            return f()
        except tf.Unsupported as e:
            w = where
            if getattr(e, "node", None) is not None and getattr(e, "fn", None) is not None:
                w = "%s:%s:%s" % (rel(getattr(e.fn.module, "file", "")), e.fn.qual, getattr(e.node, "lineno", 0))
            self.ob(name, None, w, "not modelled: %s" % e, "interpretation")
        except RecursionError:
            self.ob(name, None, where, "recursion limit", "interpretation")
        except Exception as e:                            # a defect of the checker, never of the code
            tb = traceback.format_exc(limit=-3)
            self.ob(name, None, where, "checker error: %r\n%s" % (e, tb), "interpretation")
        return None

    def parallel(self, items, f, workers=8):
        """f(sub-report, item) for every item, in forked processes; the analysis shares nothing between items"""
        items = list(items)
        if os.environ.get("SA_SERIAL") or len(items) < 2:
            for x in items:
                f(self, x)
            return
        import pickle
        todo = list(range(len(items)))
        live, res = {}, {}
        import selectors
        sel = selectors.DefaultSelector()
        while todo or live:
            while todo and len(live) < workers:
                k = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        sub = Report(self.pid, "")
                        try:
                            f(sub, items[k])
                        except Exception:
                            sub.ob("group %d" % k, None, "", "checker error: " + traceback.format_exc(limit=-3), "interpretation")
                        cons, vis = set(), set()
                        for p in sub.progs + self.progs:
                            cons |= set(map(str, p.consulted))
                            vis |= {(str(a), b) for a, b in getattr(p, "visited", ())}
                        with os.fdopen(w, "wb") as h:
                            pickle.dump((sub.obs, cons, vis), h)
                    except BaseException:
                        code = 1
                    os._exit(code)
                os.close(w)
                live[r] = (k, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select():
                k, pid, buf = live[key.fd]
                d = os.read(key.fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                del live[key.fd]
                try:
                    res[k] = pickle.loads(b"".join(buf))
                except Exception as e:
                    res[k] = ([{"obligation": "group %d" % k, "verdict": "undecided", "where": "",
                                "detail": "worker ended: %r" % e, "how": "interpretation"}], set(), set())

        class Seen:
            pass
        for k in range(len(items)):
            obs, cons, vis = res[k]
            self.obs += obs
            s = Seen()
            s.consulted, s.visited = cons, vis
            self.progs.append(s)

    def edges(self):
        """results of the runs at the edge sizes: violations join those of this run"""
        import shutil
        out = {}
        for e, d, pr in EDGES:
            try:
                pr.wait(timeout=max(5, 840 - (time.time() - self.t0)))
                with open(os.path.join(d, self.pid + ".json")) as f:
                    cov = json.load(f)["coverage"]
                out[e] = {k: cov[k] for k in ("obligations", "discharged", "undecided", "violated")}
                vp = os.path.join(d, self.pid + ".violation.json")
                if os.path.exists(vp):
                    with open(vp) as f:
                        for o in json.load(f)["violations"]:
                            self.obs.append({**o, "obligation": "[%s] %s" % (e, o["obligation"])})
            except Exception as x:
                if pr.poll() is None:
                    pr.kill()
                out[e] = "not finished: %r" % x
            shutil.rmtree(d, ignore_errors=True)
        if out:
            self.extra["edge_sizes"] = out

    def finish(self):
        self.edges()
        known = load_known(self.pid)
        bad, found = [], []
        for o in self.obs:
            if o["verdict"] == "VIOLATED":
                k = next((k for k in known if k[0] in o["obligation"] + " @" + o["where"]), None)
                if k is not None:
                    if k not in found:
                        found.append(k)
                else:
                    bad.append(o)
        und = [o for o in self.obs if o["verdict"] == "undecided"]
        files, funcs = set(), set()
        for p in self.progs:
            files |= {rel(f) for f in p.consulted}
            funcs |= {"%s:%s" % (rel(f), q) for f, q in getattr(p, "visited", ())}
        hows = {}
        for o in self.obs:
            if o["verdict"] == "holds":
                hows[o["how"]] = hows.get(o["how"], 0) + 1
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick"),
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": self.explanation,
                           "obligations": len(self.obs),
                           "discharged": sum(1 for o in self.obs if o["verdict"] == "holds"),
                           "undecided": len(und), "violated": len(bad),
                           "known_findings": len(found), "discharged_by": hows,
                           "functions_analysed": sorted(funcs), "files_read": sorted(files),
                           "samples": [o for o in self.obs if o["verdict"] != "holds"][:40] + trim(self.obs),
                           **self.extra},
              "assumptions": self.assumptions,
              "violations": len(bad), "wall_s": round(time.time() - self.t0, 3)}
        d = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in found:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k[1]))
        rp = os.path.join(d, self.pid + ".violation.json")
        if os.path.exists(rp):
            os.remove(rp)
        if bad:
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "violations": bad}, f, indent=1, default=str)
            for o in bad[:20]:
                print("%s: %s -- %s" % (o["where"], o["obligation"], str(o["detail"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for o in und[:20]:
            print("UNDECIDED %s: %s -- %s" % (o["where"], o["obligation"], str(o["detail"])[:400]))
        if 2 * len(und) > len(self.obs) or not self.obs:
            return 2                                      # nothing like an answer
        if und:
            print("%s: %d of %d obligations hold; the others could not be read and are not covered"
                  % (self.pid, len(self.obs) - len(und), len(self.obs)))
            return 0
        print("%s: %d obligations hold (%s)" % (self.pid, len(self.obs),
                                                ", ".join("%s: %d" % x for x in sorted(hows.items()))))
        return 0


def trim(obs, k=12):
    """a few discharged obligations, one per distinct kind of name"""
    seen, out = set(), []
    for o in obs:
        if o["verdict"] != "holds":
            continue
        w = o["obligation"].split(":")[0]
        if w in seen and len(out) >= k // 2:
            continue
        seen.add(w)
        out.append(o)
        if len(out) >= k:
            break
    return out


def rel(f):
    f = str(f)
    for p in (interp.REPO + "/", interp.SITE + "/"):
        if f.startswith(p):
            return f[len(p):]
    return f


def load_known(pid):
    """[(key, text)] of findings that are listed and not repaired"""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % pid):
                    r = l.split(" ", 2)[2]
                    key, _, text = r.partition(" | ")
                    out.append((key.replace("key=", "", 1), text))
    except OSError:
        pass
    return out


# ------------------------------------------------------------- comparison
def same(x, y, fixed=None, dims=None, points=2, magnitudes=True):
    """(verdict, how, detail) for the equality of two tensor forms"""
    if x is y:
        return True, "normal form", ""
    import numev
    if [str(s) for s in x.shape] != [str(s) for s in y.shape]:
        return False, "shape", "shape %s instead of %s" % (x.shape, y.shape)
    r = numev.compare(x, y, syms_list=dims, fixed=fixed, points=points, magnitudes=magnitudes)
    if r == "eq":
        return True, "random interpretation", ""
    if r[0] == "ne":
        return False, "random interpretation", r[1]
    return None, "random interpretation", "not evaluated: %s; %s  vs  %s" % (r[1], tf.show(x)[:300], tf.show(y)[:300])
