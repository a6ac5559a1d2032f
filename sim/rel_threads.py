"""Real threads sharing built graphs, preempted between lines of library code by a seeded scheduler: C09."""
import _thread
import sys
import threading

from . import relmodel as M
from . import relobs as O
from .core import Scenario, Violation, RELNET
from .labels import random_spec
from .rel_history import Gen, net_subset, random_edges, sub_edges
from .rel_join import random_factors, sample_of
from .relworld import World, load

_CURRENT = None          # the scheduler of the run in progress (locks made by the library ask it to switch)


class Stop(BaseException):
    pass


class Sched:
    """Runs threads one at a time; a thread gives way only between two lines of library code (or at a lock)."""

    def __init__(self, n, switches, rec, fine=False):
        self.n, self.rec = n, rec
        self.event = "opcode" if fine else "line"
        self.switches = list(switches)
        self.pos = 0
        self.sem = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.live = set(range(n))
        self.current = None
        self.budget = 0
        self.killed = False
        self.order = []

    def next_choice(self):
        if self.pos < len(self.switches):
            steps, pick = self.switches[self.pos]
            self.pos += 1
        else:
            steps, pick = 1 << 60, 0
        self.budget = steps
        live = sorted(self.live)
        return live[pick % len(live)]

    def line(self, i):
        if self.killed:
            raise Stop()
        self.budget -= 1
        if self.budget <= 0:
            self.to(i, self.next_choice())

    def to(self, i, target):
        if target == i:
            return
        self.order.append(target)
        self.current = target
        self.sem[target].release()
        self.sem[i].acquire()
        if self.killed:
            raise Stop()

    def blocked(self):
        """The running thread waits for a lock: let another one run."""
        i = self.current
        others = sorted(self.live - {i})
        if not others:
            raise Violation("deadlock", "a thread waits for a lock that nobody will release")
        self.rec.probe("lock_wait")
        self.to(i, others[(others.index(min(others, key=lambda x: (x <= i, x))))])

    def finish(self, i):
        self.live.discard(i)
        if not self.live:
            self.done.release()
            return
        target = self.next_choice()
        self.order.append(target)
        self.current = target
        self.sem[target].release()

    def run(self, bodies):
        results = [None] * self.n

        def local(i):
            def f(frame, event, arg):
                if event == self.event:
                    self.line(i)
                return f

            def g(frame, event, arg):
                if not frame.f_code.co_filename.startswith(RELNET):
                    return None
                if self.event == "opcode":
                    frame.f_trace_opcodes, frame.f_trace_lines = True, False
                return f
            return g

        def main(i):
            self.sem[i].acquire()
            if self.killed:
                return
            out = []
            try:
                sys.settrace(local(i))
                try:
                    bodies[i](out)
                finally:
                    sys.settrace(None)
            except Stop:
                return
            except BaseException as e:
                out.append(("raised", type(e).__name__, str(e)[:300]))
            results[i] = out
            self.finish(i)
        for i in range(self.n):
            _thread.start_new_thread(main, (i,))
        first = self.next_choice()
        self.order.append(first)
        self.current = first
        self.sem[first].release()
        try:
            self.done.acquire()
        except BaseException:
            self.killed = True
            for s in self.sem:
                try:
                    s.release()
                except RuntimeError:
                    pass
            raise
        return results


class SimLock:
    """threading.Lock as seen by library code: waiting for it is a scheduling point."""

    def __init__(self):
        self._owner = None
        self._count = 0

    reentrant = False

    def _me(self):
        return _CURRENT.current if _CURRENT is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking or timeout == 0:
                return False
            if _CURRENT is None:
                raise RuntimeError("lock left locked")
            _CURRENT.blocked()
        self._owner = me
        self._count += 1
        return True

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


INIT = dict(mk=6, gb_add=10, gb_build=4, cond=4, tb_new=2, tb_add=6, tb_build=3, relgraph=1)
PROFILE = dict(weights=INIT, multi=False, cancel=0, provider=0, callback=0, foreign=0, preload=1.0, no_k0=True)


def q_value(w, q, shared):
    """One query of a reader thread; returns something comparable."""
    U = w.U
    r = w.h.get(q["h"])
    if r is None or (r.kind in ("G", "K", "T") and len(r.m) > 14 and q["q"] in ("join", "on", "group")):
        return "skip"
    x, L, kind = r.real, U.label, q["q"]
    if kind == "cond" and r.kind == "G":
        e = w.h.get(q["e"])
        if e is None or e.kind != "S":
            return "skip"
        k = x.conditional_graph(e.real)
        res = [O.obs_items(U, k.outcomes), O.obs_sample(U, k.evidence)]
        if e.m[0]:
            res.append(O.obs_activation(U, k.activation_graph()))
        return res
    if kind == "fold" and r.kind in ("G", "K") and r.m:
        return O.obs_folded(U, x.folded_graph())
    if kind == "marg" and r.kind in ("G", "K") and r.m:
        return O.obs_marginals(U, x.marginal_variables_probability(None, q.get("u", False)))
    if kind == "act" and r.kind == "K" and r.extra[0]:
        return O.obs_activation(U, x.activation_graph({L(v) for v in q["f"]} if q.get("f") else None))
    if kind == "find" and r.kind in ("G", "K"):
        return O.obs_items(U, x.find_for_values({w.labels_pair(tuple(n)) for n in q["values"]}))
    if kind == "text" and r.kind in ("G", "K"):
        return [x.print_samples(), repr(x), repr(x.outcomes), {k: (frozenset(map(str, v)) if isinstance(v, set) else v)
                                                                for k, v in x.describe().items()}]
    if kind == "text" and r.kind == "S":
        return O.obs_sample_full(U, x)
    if kind == "probs" and r.kind in ("G", "K", "T") and r.m:
        t = x if r.kind == "T" else x.outcomes
        return [{O.obs_sample(U, s): O.fl(p) for s, p in t.probabilities()},
                {O.obs_sample(U, s): O.fl(t.probability_of(s)) for s in t.samples()}]
    if kind == "has" and r.kind in ("G", "K", "T"):
        t = x if r.kind == "T" else x.outcomes
        vs = w.nets[r.net]["vars"]
        return [t.is_all_values_match(), {v: (t.have_variable(L(v)), {y: t.have_value(L(v), L(y)) for y in sorted(vs[v])})
                                          for v in sorted(vs)}]
    if kind == "shape" and r.kind in ("G", "K"):
        out = [frozenset((O.obs_edges_set(U, view), c) for view, c in x.outcomes_as_edges_sets()),
               O.obs_items(U, x.relation_graph("again").outcomes)]
        if r.kind == "G":
            out += [x.is_joined(), x.is_factorized()]
            if out[-1]:
                out.append(frozenset(frozenset(O.obs_items(U, t).items()) for t in x.factorized()))
        return out
    if kind == "near" and r.kind == "S" and r.m[0]:
        ns = sorted(x.nodes, key=lambda n: O.canon(O.obs_node(U, n)))
        others = [o for o in w.h.values() if o.kind == "S" and o.net == r.net]
        return [[{O.obs_node(U, k): O.obs_edge(U, e) for k, e in x.neighboring_values(n).items()} for n in ns],
                [(x.is_subgraph(o.real), O.fl(x.similarity(o.real)), x == o.real) for o in others]]
    if kind == "full" and r.kind in ("G", "K"):
        return O.obs_space_full(U, x)
    if kind == "set" and r.kind == "T":
        return [O.obs_set_full(U, x), O.obs_items(U, x.union(x)),
                O.obs_items(U, x.filter_samples(lambda s: len(s.nodes) > 1))]
    if kind == "group" and r.kind == "T":
        return {frozenset(U.name(v) for v in k): O.obs_items(U, t) for k, t in x.group_intersecting().items()}
    if kind == "derive" and r.kind in ("G", "K") and r.m:
        b = x.builder()
        s = sorted(x.outcomes.samples(), key=lambda s: O.canon(O.obs_sample(U, s)))[0]
        b.add_outcome(s, 3)
        return O.obs_items(U, b.build().outcomes)
    if kind == "rebuild" and r.kind == "S" and r.m[0]:
        b = x.builder()
        n = sorted(r.m[0])[0]
        for v in sorted(w.nets[r.net]["vars"]):
            if v not in M.variables_of(r.m):
                b.add_relation({w.labels_pair(n), w.labels_pair((v, sorted(w.nets[r.net]["vars"][v])[-1]))},
                               L(sorted(w.nets[r.net]["rels"])[0]))
        return O.obs_sample_full(U, b.build())
    if kind == "transform" and r.kind == "S" and r.m[0]:
        v = sorted(M.variables_of(r.m))[0]
        return O.obs_sample_full(U, x.transform_with_replaced_values(
            {L(v): L(y) for y in sorted(w.nets[r.net]["vars"][v])[-1:]}))
    if kind == "external" and r.kind == "S" and r.m[1]:
        n = sorted(x.nodes, key=lambda n: O.canon(O.obs_node(U, n)))[0]
        return {O.obs_node(U, k): frozenset(O.obs_edge(U, e) for e in es) for k, es in x.external_nodes({n}).items()}
    if kind == "join" and r.kind == "G":
        return O.obs_items(U, x.make_joined().outcomes)
    if kind == "on" and r.kind == "G":
        return O.obs_items(U, x.joined_on_variables({L(v) for v in q["vars"]}).outcomes)
    return "skip"


class C09(Scenario):
    id = "C09"
    quick_runs = 7000
    thorough_runs = 60000
    rule = "one evaluation = one schedule of 2-4 threads over shared objects; non-trivial when at least 5 preemptions happened inside library code"
    distinct_measure = "SHA-1 over the sequence of threads run, their results, and the programs"
    real_components = ["scripts/relnet (all modules except visualisation), run by real OS threads"]
    stub_components = ["thread scheduler: threads are released one at a time by sys.settrace line events",
                       "threading.Lock and RLock, should library code use them"]
    assumptions = ["preemption between lines (in a quarter of the runs between any two bytecode instructions)", "at most one thread works on a given builder"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        joinable = rng.random() < 0.3
        if joinable:
            both = random_factors(rng, "quick", True, True)
            spec = dict(vars=both["vars"], rels=both["rels"], kind=rng.choice(["str", "obj", "int"]),
                        hash=rng.choice(["rand", "low", "few"]), hseed=rng.randrange(1 << 30))
            config = dict(labels=spec, nets=[dict(vars=spec["vars"], rels=spec["rels"])])
            init = [dict(op="gb_new", c=0, net=0, out="GB0")]
            k = 0
            for f in both["factors"]:
                for o in f:
                    k += 1
                    init.append(dict(op="mk", c=0, net=0, edges=o["edges"], node=o.get("node"), out=f"S{k}", style="edges"))
                    init.append(dict(op="gb_add", c=0, gb="GB0", s=f"S{k}", n=o["n"]))
            init.append(dict(op="gb_build", c=0, gb="GB0", out="G0"))
            g = Gen(rng, config, PROFILE)
            for op in init:
                g.w.apply(op)
        else:
            spec = random_spec(rng, nvars=(2, 4))
            config = dict(labels=spec, nets=[net_subset(rng, spec, True)])
            g = Gen(rng, config, PROFILE)
            init = g.run(rng.randint(4, 14))
        handles = {k: [h for h, r in g.w.h.items() if r.kind == k] for k in ("S", "T", "G", "K", "GB")}
        nreaders = rng.randint(1, 3)
        ops = []
        kinds = ["probs", "has", "shape", "near", "cond", "cond", "fold", "marg", "act", "find", "text", "full", "set", "group", "derive", "rebuild",
                 "transform", "external"] + (["join", "join", "on", "on"] if joinable else [])
        for t in range(nreaders):
            for _ in range(rng.randint(1, 3)):
                q = rng.choice(kinds)
                pool = dict(probs="GKT", has="GKT", shape="GK", near="S", cond="G", fold="GK", marg="GK", act="K", find="GK", text="GKS", full="GK", set="T", group="T",
                            derive="GK", rebuild="S", transform="S", external="S", join="G", on="G")[q]
                hs = [h for p in pool for h in handles[p]]
                if not hs:
                    continue
                qq = dict(q=q, h=rng.choice(hs), t=t)
                if rng.random() < 0.5:      # readers meeting on one object
                    qq["h"] = hs[0]
                nd = g.w.nets[0]
                if q == "cond" and handles["S"]:
                    qq["e"] = rng.choice(handles["S"])
                if q == "marg":
                    qq["u"] = rng.random() < 0.5
                if q == "act" and rng.random() < 0.5:
                    qq["f"] = rng.sample(sorted(nd["rels"]), rng.randint(1, len(nd["rels"])))
                if q == "find":
                    qq["values"] = [g.node(nd) for _ in range(rng.randint(0, 2))]
                if q == "on":
                    qq["vars"] = rng.sample(sorted(nd["vars"]), rng.randint(1, len(nd["vars"])))
                if q == "cond" and "e" not in qq:
                    continue
                ops.append(qq)
        if ops and rng.random() < 0.5:      # all readers ask the same, of objects nobody has asked before
            first = [q for q in ops if q["t"] == ops[0]["t"]][:2]
            ops = [dict(q, t=t) for t in range(nreaders) for q in first]
        for _ in range(rng.randint(1, 4)):
            nodes, edges = random_edges(rng, g.w.nets[0])
            ops.append(dict(q="build", t=nreaders, edges=edges, node=list(nodes[0]), n=rng.randint(1, 4)))
        opcodes = rng.random() < 0.25
        fine = rng.choice([3, 20, 200] if not opcodes else [3, 30, 300, 2000])
        for _ in range(rng.randint(4, 60)):
            ops.append(dict(s=[rng.choice([1, rng.randint(1, 3), rng.randint(1, fine)]), rng.randrange(12)]))
        return dict(config=dict(config, init=init, readers=nreaders, opcodes=opcodes), ops=ops)

    def program(self, trace, w, t):
        qs = [q for q in trace["ops"] if "q" in q and q["t"] == t]

        def body(out):
            for q in qs:
                if q["q"] != "build":
                    out.append((q["q"], q_value(w, q, None)))
                    continue
                gb = next((r for r in w.h.values() if r.kind == "GB"), None)
                if gb is None:
                    continue
                w2 = gb.real
                sb = w2.sample_builder()
                if q["edges"]:
                    for e in q["edges"]:
                        x, y, r = tuple(e[0]), tuple(e[1]), e[2]
                        if isinstance(r, list):
                            src, dst = (x, y) if x[0] == r[1] else (y, x)
                            sb.add_directed_relation(w.labels_pair(src), w.labels_pair(dst), w.U.label(r[3]))
                        else:
                            sb.add_relation({w.labels_pair(x), w.labels_pair(y)}, w.U.label(r))
                    s = sb.build()
                else:
                    s = sb.build_single_node(*w.labels_pair(tuple(q["node"])))
                w2.add_outcome(s, q["n"])
                out.append(("build", O.obs_sample_full(w.U, s), O.obs_items(w.U, w2.build().outcomes)))
        return body

    def run(self, trace, rec):
        global _CURRENT
        cfg = trace["config"]
        n = cfg["readers"] + 1
        old = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, SimRLock
        try:
            worlds = []
            for _ in range(2):
                w = World(cfg, active=(), real=True, rec=rec)
                for op in cfg["init"]:
                    w.apply(op)
                worlds.append(w)
            alone = []
            for t in range(n):
                out = []
                try:
                    self.program(trace, worlds[0], t)(out)
                except Exception as e:
                    out.append(("raised", type(e).__name__, str(e)[:300]))
                alone.append(out)
            sched = Sched(n, [q["s"] for q in trace["ops"] if "s" in q], rec, cfg.get("opcodes", False))
            _CURRENT = sched
            together = sched.run([self.program(trace, worlds[1], t) for t in range(n)])
        finally:
            _CURRENT = None
            threading.Lock, threading.RLock = old
        rec.fault("preemption", len(sched.order))
        rec.nontrivial = len(sched.order) >= 5 + n
        for t in range(n):
            a, b = alone[t], together[t]
            for i in range(max(len(a), len(b))):
                x = a[i] if i < len(a) else None
                y = b[i] if i < len(b) else None
                if not O.nearly(x, y):
                    from .relworld import diff
                    d = diff(O.canon(x), O.canon(y))
                    raise Violation("thread-answer:" + str((x or y)[0]), f"thread {t} step {i}: alone {d[0]} with other "
                                                                         f"threads {d[1]}")
            rec.log(t, O.canon([x[0] for x in a]))
        rec.log(sched.order)
        rec.ops += sum(map(len, alone))

    def simplify_op(self, op):
        if "s" in op and op["s"][0] > 1:
            yield dict(s=[1, op["s"][1]])

    def simplify_config(self, trace):
        if trace["config"].get("opcodes"):
            yield dict(trace, config=dict(trace["config"], opcodes=False))


SCENARIOS = {"C09": C09}
