"""Oracles of the in-node modes."""
import json

from engine import Run, Violation, compare, judge, short, tol_of


SLACK = 2e-5      # the clock advances by a microsecond at each reading; the model's readings surround the library's


class XRun(Run):
    def check_op(self, n, spec, out, rec):
        where = "node %d op %d" % (n.idx, n.i)
        if out["k"] == "dead":
            raise Violation("death", "%s: the process died (%s) during %s" % (where, out["m"], short(spec)))
        if "threads" in spec:
            return self.check_threads(n, spec, out, where)
        if "tree" in spec or "stats" in spec:
            return self.check_stats(n, spec, out, where)
        if "alloc" in spec:
            return self.check_alloc(n, spec, out, where)
        if "sweep" in spec:
            return self.check_sweep(n, spec, out, where)
        if "intr" in spec:
            self.probe("interrupts requested")
            if out.get("hit"):
                self.probe("interrupts delivered")
                self.probe("interrupted in " + out["hit"].split(":")[0])
                self.sig.update(out["hit"].encode())
                n.faulted = True
                n.disturbed = True
                f = self.stats.setdefault("faults", {})
                k = "interrupt " + spec["intr"]["exc"]
                f[k] = f.get(k, 0) + 1
                if out["k"] == "exc":
                    self.stats["ops_exc_faulted"] += 1
                    out = dict(out, b=False)
        if "blocks" in out:
            h = n.spec["xcfg"]["heap"]
            self.probes["blocks of the component"] = self.probes.get("blocks of the component", 0) + out["blocks"] - getattr(n, "blocks", 0)
            n.blocks = out["blocks"]
            f = self.stats.setdefault("faults", {})
            k = "calls with heap contents %d, reuse %d" % (h["fill"], h["reuse"])
            f[k] = f.get(k, 0) + 1
        if out.get("heap"):
            raise Violation("memory", "%s: %s during %s" % (where, out["heap"], short(spec)))
        super().check_op(n, spec, out, rec)

    def check_sweep(self, n, spec, out, where):
        sp = {k: v for k, v in spec.items() if k not in ("sweep", "steps")}
        f = self.stats.setdefault("faults", {})
        n.faulted = True
        n.disturbed = True
        if "base" in out:
            judge(self.eng, sp, out["base"], False, where)
            self.probe("places passed by swept calls", out["sites"])
        for k, exc, o, again in out["tries"]:
            w = "%s, %s at step %d (%s)" % (where, exc, k, o.get("hit"))
            self.probe("interrupts requested")
            if o.get("hit"):
                self.probe("interrupts delivered")
                self.sig.update(o["hit"].encode())
                f["interrupt " + exc] = f.get("interrupt " + exc, 0) + 1
                if o["k"] == "exc":
                    o = dict(o, b=False)
            judge(self.eng, sp, o, True, w)
            if again:
                judge(self.eng, sp, again, False, w + ", then called again")

    def probe(self, k, v=1):
        self.probes[k] = self.probes.get(k, 0) + v

    def check_threads(self, n, spec, out, where):
        self.probe("thread steps", out["steps"])
        self.probe("of these at file operations without the interpreter lock", out["sys"])
        self.probe("of these within a line, after a call", out["mid"])
        self.stats["switches"] += out["switches"]
        self.sig.update(b"%d" % out["trail"])
        if out.get("deadlock"):
            raise Violation("deadlock", "%s: the threads wait for each other: %s" % (where, short(spec)))
        if out.get("cfg"):
            raise Violation("state", "%s: process or library state changed (%s) by concurrent calls" % (where, out["cfg"]))
        for t, (prog, outs) in enumerate(zip(spec["threads"], out["outs"])):
            for o, r in zip(prog, outs):
                judge(self.eng, dict(o, set=spec.get("set", {})), r, False, "%s thread %d" % (where, t))
        if out.get("mut"):
            raise Violation("mutation", "%s: arguments modified (%s) by concurrent calls" % (where, out["mut"]))

    # -- statistics
    def check_stats(self, n, spec, out, where):
        bad = self.stats_problem(n, spec, out)
        if bad:
            raise Violation("stats", "%s: %s: %s" % (where, bad, short(spec, 600)))
        if "tree" not in spec:
            super().check_op(n, {k: v for k, v in spec.items() if k != "stats"}, out, None)

    def stats_problem(self, n, spec, out):
        trails = spec.get("set", {}).get("trails")
        d = out["delta"]
        if out["gone"]:
            return "statistics of %s are gone" % out["gone"]
        for k, (c, t) in d.items():
            if t < 0:
                return "time of %s decreased" % k
        if out["shown"] or out["unshown"]:
            return "print_stats does not show the counts (%s)" % (list(out["shown"]) + out["unshown"])
        if "tree" in spec:
            m = out["model"]
            if out.get("struck"):
                # Whether it was before or after the call that the interrupt came, is not ours to say:
                # what counts is that the level and the statistics of all later calls are right
                self.probe("calls struck at a reading of the clock")
                f = self.stats.setdefault("faults", {})
                f["interrupt at a clock reading"] = f.get("interrupt at a clock reading", 0) + 1
                entered = [k for _, k in m["enter"]]
                for k, (c, _) in d.items():
                    if not m["stats"].get(k, [0])[0] <= c <= entered.count(k):
                        return "%s was entered %d times, counted %d" % (k, entered.count(k), c)
                return None
            for k in set(m["stats"]) | set(d):
                e = m["stats"].get(k, [0, 0])
                g = d.get(k, [0, 0])
                if e[0] != g[0]:
                    return "%s completed %d times, counted %d" % (k, e[0], g[0])
                # the model brackets each call by its own readings of the same clock
                if not e[1]/1e9 - SLACK*max(1, e[0]) <= g[1] <= e[1]/1e9 + 1e-9:
                    return "calls of %s took %.6f s, accumulated %.6f" % (k, e[1]/1e9, g[1])
            self.probe("instrumented calls", sum(e[0] for e in m["stats"].values()))
            if trails and [[a, a, k] for a, k in m["enter"]] != out["enter"]:
                return "nesting shown %s instead of %s" % (out["enter"], m["enter"])
            if trails:
                bad = self.lines_problem(m["lines"], out["lines"], spec.get("threshold", 0))
                if bad:
                    return bad
            if not trails and out["enter"]:
                return "trails printed although switched off"
        else:
            ref = self.eng.isolated(dict(self.eng.ref_key(spec), stats=1), extra="xnode") if json.dumps(spec, sort_keys=True) not in self.cache() else None
            if ref is not None:
                self.cache()[json.dumps(spec, sort_keys=True)] = ref
            ref = self.cache()[json.dumps(spec, sort_keys=True)]
            if ref["k"] == "dead":
                return None
            if out["k"] == ref["k"] and {k: v[0] for k, v in d.items()} != {k: v[0] for k, v in ref["delta"].items()}:
                return "counted %s instead of %s" % ({k: v[0] for k, v in d.items()}, {k: v[0] for k, v in ref["delta"].items()})
            if trails and out["k"] == ref["k"] and out["enter"] != ref["enter"]:
                return "nesting shown %s instead of %s" % (out["enter"][:6], ref["enter"][:6])
        if trails:
            stack = []
            for l in out["lines"]:
                if l[0] == "E":
                    while stack and stack[-1][0] >= l[1]:
                        stack.pop()
                    if l[1] != (stack[-1][0] + 1 if stack else 0):
                        return "nesting shown jumps to %d at %s" % (l[1], l[2])
                    stack.append((l[1], l[2]))
                elif not any(s == (l[1], l[2]) for s in stack):
                    return "end of %s shown at level %d, where it was not entered" % (l[2], l[1])
                elif float(l[3]) < 0:
                    return "negative time shown for %s" % l[2]
        return None

    def lines_problem(self, model, shown, threshold):
        """Every completed call shows its time when it took longer than the threshold, and no other."""
        i = 0
        for l in model:
            if l[0] == "F":
                t = l[3]/1e9
                if t - SLACK <= threshold <= t:      # too close to tell
                    if i < len(shown) and shown[i][:3] == l[:3] and abs(float(shown[i][3]) - t) < SLACK:
                        i += 1
                    continue
                if t <= threshold:
                    continue
            if i >= len(shown) or shown[i][:3] != l[:3]:
                return "trails show %s instead of %s" % (shown[i] if i < len(shown) else "nothing", l)
            if l[0] == "F" and not t - SLACK <= float(shown[i][3]) <= t + 1e-9:
                return "%s took %.6f s, shown %s" % (l[2], t, shown[i][3])
            i += 1
        return "trails show %s in addition" % shown[i] if i < len(shown) else None

    def cache(self):
        if not hasattr(self.eng, "statrefs"):
            self.eng.statrefs = {}
        return self.eng.statrefs

    # -- memory
    def check_alloc(self, n, spec, out, where):
        f = self.stats.setdefault("faults", {})
        sp = {k: v for k, v in spec.items() if k != "alloc"}
        judge(self.eng, sp, out["base"], False, where)
        self.probe("allocations seen", out["total"])
        for t in out["tries"]:
            w = "%s, allocation %d of %d failing" % (where, t["k"], out["total"])
            for o in t["outs"]:
                f["failed allocation"] = f.get("failed allocation", 0) + (1 if t["reached"] else 0)
                if o["k"] == "exc":
                    self.probe("raised " + o["t"])
                judge(self.eng, sp, o, True, w)
            judge(self.eng, sp, t["again"], False, w + ", then memory available again")
            l = t["lives"]
            if len(l) >= 4 and l[-1] > l[2] and all(b > a for a, b in zip(l[2:], l[3:])):
                raise Violation("leak", "%s: %d bytes more are held after each failure: %s" % (w, l[-1] - l[-2], short(sp)))
        if out["heap"]:
            raise Violation("memory", "%s: %s during %s" % (where, out["heap"], short(spec)))
        self.sig.update(repr([t["k"] for t in out["tries"]]).encode())
