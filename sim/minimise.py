"""Shrinks a failing (plan, decisions) while the same class of violation persists."""
import copy
import time


def ddmin(items, test, deadline):
    n = 2
    while items and time.time() < deadline:
        size = max(1, len(items)//n)
        for i in range(0, len(items), size):
            c = items[:i] + items[i+size:]
            if time.time() > deadline:
                return items
            if test(c):
                items = c
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                return items
            n = min(n*2, len(items))
    return items


def minimise(plan, dec, test, budget):
    deadline = time.time() + budget

    def ok(p, d):
        return time.time() < deadline and test(p, d)

    # nodes
    i = 0
    while len(plan["nodes"]) > 1 and i < len(plan["nodes"]):
        p = copy.deepcopy(plan)
        del p["nodes"][i]
        if ok(p, dec):
            plan = p
        else:
            i += 1
    # decisions
    flat = [(k, f, v) for k, d in dec.items() for f, v in d.items()]

    def undec(l):
        d = {}
        for k, f, v in l:
            d.setdefault(k, {})[f] = v
        return d
    flat = ddmin(flat, lambda l: ok(plan, undec(l)), deadline)
    # operations
    if plan.get("epilogue"):
        p = dict(plan, epilogue=[])
        if ok(p, undec(flat)):
            plan = p
        else:
            e = ddmin(list(plan["epilogue"]), lambda l: ok(dict(plan, epilogue=l), undec(flat)), deadline)
            plan = dict(plan, epilogue=e)
    for i in range(len(plan["nodes"])):
        def put(l, i=i):
            p = dict(plan, nodes=[dict(n) for n in plan["nodes"]])
            p["nodes"][i]["ops"] = l
            return p
        l = ddmin(list(plan["nodes"][i]["ops"]), lambda l: ok(put(l), undec(flat)), deadline)
        plan = put(l)
    # inner schedules and operation lists (threads, interrupts, allocations)
    for i, n in enumerate(plan["nodes"]):
        for j, o in enumerate(n["ops"]):
            for key in ("sched", "threads", "steps", "specs"):
                if isinstance(o.get(key), list) and o[key]:
                    def put2(l, i=i, j=j, key=key):
                        p = copy.deepcopy(plan)
                        p["nodes"][i]["ops"][j][key] = l
                        return p
                    l = ddmin(list(o[key]), lambda l: ok(put2(l), undec(flat)), deadline)
                    plan = put2(l)
                    o = plan["nodes"][i]["ops"][j]
    flat = ddmin(flat, lambda l: ok(plan, undec(l)), deadline)
    return plan, undec(flat)
