"""Can the processes of one run get stuck under some schedule?

Input: what every process did to queues and processes, in its own order, in one execution.  All operations wait until they
can be done and every queue has one reading and one writing process, so each process does the same in every schedule (what
it gets does not depend on the schedule) - until it waits.  The solver looks for a schedule that ends in a state where
nobody can go on and not everybody is done."""
import z3


class NotNet(Exception):
    pass


def traces(qtrace):
    t = {}
    for who, op, q in qtrace:
        t.setdefault(who, []).append((op, q))
    rd, wr = {}, {}
    for who, ops in t.items():
        for op, q in ops:
            if op in ("put", "get"):
                d = wr if op == "put" else rd
                if d.setdefault(q, who) != who:
                    raise NotNet("queue %s is used by several processes" % q)
    return t


def key(t, caps):
    """the same network gets the same key"""
    return tuple(sorted((w, tuple(o)) for w, o in t.items())), tuple(sorted(caps.items()))


def stuck(t, caps, ms=20000):
    """(verdict, {process: number of operations done} of a stuck state or None, number of operations)

    done[p][i]: operation i of p is done; rank: when.  Any solution is a schedule: operations in order of rank respect program
    order, a get comes after the put of the same item, a put into a full queue after the get that makes room, a join after
    the end of the process."""
    procs = sorted(t, key=lambda p: (p != "main", p))
    S = z3.Solver()
    S.set("timeout", ms)
    done = {p: [z3.Bool("d_%s_%d" % (p, i)) for i in range(len(t[p]))] for p in procs}
    rank = {p: [z3.Int("r_%s_%d" % (p, i)) for i in range(len(t[p]))] for p in procs}
    nth = {}                      # (op, queue, k) -> position
    starts = {}
    for p in procs:
        c = {}
        for i, (o, x) in enumerate(t[p]):
            if o in ("put", "get"):
                k = c[o, x] = c.get((o, x), -1) + 1
                nth[o, x, k] = (p, i, k)
            elif o == "start":
                starts[x] = (p, i)

    def needs(p, i):
        """what must have happened before operation i of p can be done: position, False if it never does, None if nothing"""
        o, x = t[p][i]
        if o == "get":
            k = [v for v in nth.items() if v[1][:2] == (p, i)][0][0][2]
            return nth.get(("put", x, k), (False,))[:2] if ("put", x, k) in nth else False
        if o == "put" and caps.get(x):
            k = [v for v in nth.items() if v[1][:2] == (p, i)][0][0][2] - caps[x]
            if k >= 0:
                return nth[("get", x, k)][:2] if ("get", x, k) in nth else False
        if o == "join" and x in t and t[x]:
            return (x, len(t[x]) - 1)
        return None
    blocked, alldone = [], []
    for p in procs:
        alts = [done[p][-1]] if t[p] else [z3.BoolVal(True)]
        for i in range(len(t[p])):
            if i:
                S.add(z3.Implies(done[p][i], z3.And(done[p][i - 1], rank[p][i - 1] < rank[p][i])))
            elif p in starts:
                q, j = starts[p]
                S.add(z3.Implies(done[p][0], z3.And(done[q][j], rank[q][j] < rank[p][0])))
            n = needs(p, i)
            here = z3.And(z3.Not(done[p][i]), done[p][i - 1]) if i else z3.Not(done[p][i])
            why = []
            if i == 0 and p in starts:
                why.append(z3.Not(done[starts[p][0]][starts[p][1]]))
            if n is False:
                S.add(z3.Not(done[p][i]))
                why.append(z3.BoolVal(True))
            elif n is not None:
                q, j = n
                S.add(z3.Implies(done[p][i], z3.And(done[q][j], rank[q][j] < rank[p][i])))
                why.append(z3.Not(done[q][j]))
            if why:
                alts.append(z3.And(here, z3.Or(*why)))
        blocked.append(z3.Or(*alts))
        if t[p]:
            alldone.append(done[p][-1])
    S.add(z3.And(*blocked), z3.Not(z3.And(*alldone)))
    r = S.check()
    n = sum(len(o) for o in t.values())
    if r == z3.sat:
        m = S.model()
        return r, {p: sum(1 for d in done[p] if z3.is_true(m.eval(d, model_completion=True))) for p in procs}, n
    return r, None, n
