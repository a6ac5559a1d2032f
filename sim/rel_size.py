"""Large networks under a nearly used-up call stack: C33.

The simulator decides how many stack frames a call into the library may use (a fault every deep caller meets) and
builds samples, sets and graphs much larger than that.  What a call needs of the stack may not grow with the network.
A call may also be starved (a handful of frames): it may then fail with RecursionError, but everything it was given
stays as it was and the same call works when repeated with a normal share of the stack.
"""
import random
import sys

from . import relmodel as M
from . import relobs as O
from .core import Scenario, Violation
from .relworld import load

VALUES = ("x0", "x1", "x2")
RELS = ("r0", "r1", "r2")


class Numbers:
    """Labels are distinct integers, so a large network is cheap; hseed decides how they lie in hash tables."""

    def __init__(self, n, hseed, policy):
        rng = random.Random(hseed)
        names = [f"v{i}" for i in range(n)]
        order = list(range(n))
        rng.shuffle(order)
        step = {"dense": 1, "sparse": 1009, "aligned": 64}[policy]
        self.labels = {v: (k + 1) * step for v, k in zip(names, order)}
        base = (n + 2) * step
        for j, x in enumerate(rng.sample(VALUES, 3) + rng.sample(RELS, 3)):
            self.labels[x] = base + 1 + j
        self.names = {k: v for v, k in self.labels.items()}
        self.spec = dict(vars={v: list(VALUES) for v in names}, rels=list(RELS))

    def label(self, name):
        return self.labels[name]

    def name(self, label):
        return self.names.get(label, "?" + repr(label))


def stack_depth():
    f, d = sys._getframe(1), 0
    while f is not None:
        d, f = d + 1, f.f_back
    return d


def with_stack(frames, do):
    """Run do() with that many stack frames left."""
    old = sys.getrecursionlimit()
    here = stack_depth()
    sys.setrecursionlimit(here + frames)
    try:
        return do()
    finally:
        sys.setrecursionlimit(old)


def parents(n, shape, rng):
    if shape == "chain":
        return [0] + list(range(n - 1))
    if shape == "star":
        return [0] * n
    if shape == "comb":
        return [0] + [i - 1 if i % 2 else max(i - 2, 0) for i in range(1, n)]
    if shape == "arms":
        arms = rng.randint(2, 6)
        return [0] + [max(0, i - arms) for i in range(1, n)]
    return [0] + [max(0, i - rng.randint(1, 4)) for i in range(1, n)]     # "bush": deep random tree


class World:
    def __init__(self, cfg):
        self.lib = load()
        n = self.n = cfg["n"]
        rng = random.Random(cfg["tseed"])
        self.par = parents(n, cfg["shape"], rng)
        self.U = Numbers(n, cfg["hseed"], cfg["hash"])
        self.val = [rng.choice(VALUES) for _ in range(n)]
        self.rel = [rng.choice(RELS) if rng.random() < 0.5 else RELS[0] for _ in range(n)]
        L = self.U.label
        self.provider = self.lib.gc.BuilderComponentsProvider(
            {L(f"v{i}"): {L(x) for x in VALUES} for i in range(n)}, {L(r) for r in RELS})
        self.gb = self.lib.rg.RelationGraphBuilder(components_provider=self.provider, name="g")

    def node(self, i, val=None):
        return (f"v{i}", val or self.val[i])

    def edge(self, i, vi=None, vp=None):
        """The model edge from variable i to its parent."""
        return (frozenset((self.node(i, vi), self.node(self.par[i], vp))), self.rel[i])

    def lnode(self, nd):
        return (self.U.label(nd[0]), self.U.label(nd[1]))

    def ledge(self, e):
        return (frozenset(self.lnode(x) for x in e[0]), self.U.label(e[1]))

    def sample(self, edges, node=None):
        """Model sample and library sample of these edges, built without any limit, step by step."""
        edges = list(edges)
        b = self.gb.sample_builder()
        if not edges:
            return (frozenset({node}), frozenset()), b.build_single_node(*self.lnode(node))
        for e in edges:
            ep, r = self.ledge(e)
            b.add_relation(set(ep), r)
        return (frozenset(x for ep, _ in edges for x in ep), frozenset(edges)), b.build()

    def prefix(self, m):
        return [self.edge(i) for i in range(1, max(2, min(self.n, m)))]

    def single_edge_set(self, rng, dup=0.0):
        """{model sample: count} and [(library sample, count)] with one outcome for each edge."""
        mset, real = {}, []
        for i in range(1, self.n):
            ms, s = self.sample([self.edge(i)])
            for _ in range(2 if rng.random() < dup else 1):
                c = rng.choice([1, 1, 2, 3, 10 ** 6])
                mset[ms] = mset.get(ms, 0) + c
                real.append((s, c))
        return mset, real


class C33(Scenario):
    id = "C33"
    quick_runs = 1600
    thorough_runs = 40000
    rule = ("one evaluation = one generated network of 150-900 variables on which 1-3 operations run with 90-260 stack "
            "frames left; non-trivial when the network is larger than the stack it was given")
    distinct_measure = "distinct digests of (network, stack left, operations, results)"
    real_components = ["scripts/relnet: all modules but the visualisation"]
    stub_components = ["none; labels are integers and the recursion limit is set by the simulator"]
    assumptions = ["at least 90 frames of stack are left to a call that has to succeed",
                   "reference: sim/relmodel.py and closed forms"]

    def setup(self):
        load()

    OPS = ("edges", "edges", "join", "join", "conflict", "transform", "views", "outer", "group", "joinsets",
           "space", "cond", "make_joined", "joined_on", "wide", "wide", "act", "sets", "outcomes", "rounds", "rounds")

    def generate(self, rng, index, tier):
        frames = rng.randint(90, 160) if rng.random() < 0.7 else rng.randint(160, 260)
        shape = rng.choice(["chain", "chain", "star", "comb", "arms", "bush"])
        ops = []
        for _ in range(rng.randint(1, 3)):
            op = dict(op=rng.choice(self.OPS), seed=rng.randrange(1 << 30))
            if rng.random() < 0.25:
                op["starve"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, rng.randint(1, 40)])
            ops.append(op)
        heavy = any(o["op"] in ("group", "make_joined", "outer", "act", "joinsets") for o in ops)
        n = int(frames * rng.uniform(1.4, 2.2)) if heavy else int(frames * rng.uniform(1.5, 4.5))
        return dict(config=dict(n=n, shape=shape, tseed=rng.randrange(1 << 30), hseed=rng.randrange(1 << 30),
                                hash=rng.choice(["dense", "sparse", "aligned"]), frames=frames), ops=ops)

    def run(self, trace, rec):
        cfg = trace["config"]
        w = World(cfg)
        self.frames = cfg["frames"]
        rec.log("network", cfg["n"], cfg["shape"], cfg["frames"])
        for op in trace["ops"]:
            rec.ops += 1
            rng = random.Random(op["seed"])
            getattr(self, "do_" + op["op"])(w, op, rng, rec)
            rec.probe(op["op"])
            if cfg["n"] > cfg["frames"]:
                rec.nontrivial = True

    def call(self, op, rec, what, do, view, want, unchanged=None, refused=False):
        """do() starved (if asked to) and then with the run's share of the stack; view(result) must equal want."""
        if op.get("starve"):
            done = False
            try:
                with_stack(op["starve"], do)
                done = True
            except RecursionError:
                rec.fault("stack_exhausted")
            except Exception as e:
                if not (refused and isinstance(e, AssertionError)):
                    raise Violation("starved", f"{what} with {op['starve']} frames of stack left: "
                                               f"{type(e).__name__}: {str(e)[:200]}")
            if unchanged is not None and not done:
                unchanged("a starved call")
            if done and refused:
                raise Violation("not-refused", f"{what} was accepted")
        rec.fault("short_of_stack")
        try:
            got = with_stack(self.frames, do)
        except RecursionError:
            raise Violation("stack", f"{what} needs more than {self.frames} frames of stack: RecursionError")
        except AssertionError as e:
            if refused:
                if unchanged is not None:
                    unchanged("a refused call")
                rec.log(what, "refused")
                return None
            raise Violation("refused", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        except Exception as e:
            raise Violation("refused", f"{what}: {type(e).__name__}: {str(e)[:300]}")
        if refused:
            raise Violation("not-refused", f"{what} was accepted")
        seen = view(got)
        if not O.nearly(seen, want) if isinstance(want, dict) else seen != want:
            raise Violation("wrong", f"{what}: {self.differ(seen, want)}")
        rec.log(what, O.canon(seen)[:2000])
        return got

    @staticmethod
    def differ(seen, want):
        if isinstance(seen, dict) and isinstance(want, dict):
            extra = {k: v for k, v in seen.items() if k not in want or not O.nearly(v, want[k])}
            missing = {k: v for k, v in want.items() if k not in seen or not O.nearly(v, seen[k])}
            return f"{len(extra)} wrong entries {O.canon(extra)[:300]} for {len(missing)} {O.canon(missing)[:300]}"
        return f"{O.canon(seen)[:300]} instead of {O.canon(want)[:300]}"

    # ------------------------------------------------------------------------------------------------- samples
    def do_edges(self, w, op, rng, rec):
        edges = [w.edge(i) for i in range(1, w.n)]
        if rng.random() < 0.3 and w.n > 3:                        # close a cycle
            a, b = rng.sample(range(w.n), 2)
            if w.par[a] != b and w.par[b] != a:
                edges.append((frozenset((w.node(a), w.node(b))), RELS[1]))
        if rng.random() < 0.35:                                   # leave one out: often no longer connected
            edges.pop(rng.randrange(len(edges)))
        nodes = frozenset(x for ep, _ in edges for x in ep)
        ok = M.connected(nodes, edges)
        given = frozenset(w.ledge(e) for e in edges)
        rec.probe("edges_connected" if ok else "edges_not_connected")
        self.call(op, rec, f"build_from_edges of {len(edges)} edges",
                  lambda: w.gb.sample_builder().build_from_edges(given),
                  lambda s: O.obs_sample(w.U, s), (nodes, frozenset(edges)), refused=not ok)

    def do_join(self, w, op, rng, rec):
        whole, s = w.sample([w.edge(i) for i in range(1, w.n)])
        m = rng.choice([0, 1, rng.randrange(w.n), w.n - 1])
        if m == 0:
            b = w.gb.sample_builder()
        else:
            b = w.sample(w.prefix(m))[1].builder()
        before = held(w, b)

        def unchanged(after):
            if held(w, b) != before:
                raise Violation("changed", f"join_sample: {after} left the builder changed")
        self.call(op, rec, f"join_sample of {w.n - 1} edges into {m}", lambda: b.join_sample(s),
                  lambda x: O.obs_sample(w.U, x.build()), whole, unchanged)

    def do_conflict(self, w, op, rng, rec):
        whole, s = w.sample([w.edge(i) for i in range(1, w.n)])
        m = rng.randrange(1, w.n)                                 # a prefix in which one leaf has another value
        other = next(x for x in VALUES if x != w.val[m])
        mine = w.prefix(m) if m > 1 else []
        b = w.sample(mine + [w.edge(m, vi=other)])[1].builder()
        before = held(w, b)

        def unchanged(after):
            if held(w, b) != before:
                raise Violation("changed", f"join_sample: {after} left the builder changed")
        self.call(op, rec, f"join_sample in conflict at {m}", lambda: b.join_sample(s), None, None, unchanged,
                  refused=True)

    def do_transform(self, w, op, rng, rec):
        whole, s = w.sample([w.edge(i) for i in range(1, w.n)])
        rep = {f"v{i}": rng.choice(VALUES) for i in range(w.n) if rng.random() < 0.5}
        new = lambda nd: (nd[0], rep.get(nd[0], nd[1]))           # noqa: E731
        want = (frozenset(new(x) for x in whole[0]),
                frozenset((frozenset(new(x) for x in ep), r) for ep, r in whole[1]))
        given = {w.U.label(v): w.U.label(x) for v, x in rep.items()}

        def unchanged(after):
            if O.obs_sample(w.U, s) != whole:
                raise Violation("changed", f"transform_with_replaced_values: {after} changed its source")
        self.call(op, rec, f"transform of {len(rep)} values", lambda: s.transform_with_replaced_values(given),
                  lambda x: O.obs_sample(w.U, x), want, unchanged)
        unchanged("a call")

    def do_views(self, w, op, rng, rec):
        whole, s = w.sample([w.edge(i) for i in range(1, w.n)])
        part, p = w.sample(w.prefix(rng.randrange(1, w.n)))

        def ask():
            return dict(
                values=s.values(), vars=s.included_variables, pairs=s.edges_endpoint_variables(),
                view=s.edges_set_view(), sub=(p.is_subgraph(s), s.is_subgraph(p)), sim=s.similarity(p),
                again=s.builder().build() == s, text=len(s.text_view()) > 0, eq=(s == p),
                joinable=w.gb.sample_builder().join_sample(p).can_sample_be_joined(s))
        same = part == whole
        want = dict(
            values=whole[0], vars=M.variables_of(whole), pairs=M.var_pairs(whole), view=whole,
            sub=(True, same), sim=float(M.similarity(whole, part)), again=True, text=True, eq=same, joinable=True)
        U = w.U

        def view(d):
            return dict(d, values=frozenset((U.name(v), U.name(x)) for v, x in d["values"]),
                        vars=frozenset(U.name(v) for v in d["vars"]),
                        pairs=frozenset(frozenset(U.name(v) for v in q) for q in d["pairs"]),
                        view=O.obs_edges_set(U, d["view"]))
        self.call(op, rec, "questions to a sample", ask, view, want)

    def do_outer(self, w, op, rng, rec):
        whole, s = w.sample([w.edge(i) for i in range(1, w.n)])
        centre = {w.node(i) for i in {rng.choice([0, w.n - 1, rng.randrange(w.n)]) for _ in range(rng.randint(1, 2))}}
        flt = set(rng.sample(RELS, rng.randint(1, 2))) if rng.random() < 0.3 else None
        dist = M.distances(whole, centre, flt)
        want = {}
        for ep, r in whole[1]:
            if flt and r not in flt:
                continue
            a, b = sorted(ep, key=lambda x: dist.get(x, -1))
            if a in dist and b in dist and dist[a] != dist[b]:
                want.setdefault(b, set()).add((ep, r))
        nodes = {x for x in s.nodes if O.obs_node(w.U, x) in centre}
        self.call(op, rec, f"external_nodes around {sorted(centre)}",
                  lambda: s.external_nodes(nodes, None if flt is None else {w.U.label(r) for r in flt}),
                  lambda d: {O.obs_node(w.U, k): frozenset(O.obs_edge(w.U, e) for e in es) for k, es in d.items()},
                  {k: frozenset(v) for k, v in want.items()})

    # ---------------------------------------------------------------------------------------------------- sets
    def do_group(self, w, op, rng, rec):
        mset, b = {}, w.lib.ss.SampleSetBuilder(w.provider)
        cut = rng.choice([0.0, 0.0, 0.01, 0.05])
        for i in range(1, w.n):
            es = [w.edge(i)]
            if w.par[i] and rng.random() >= cut:
                es.append(w.edge(w.par[i]))
            ms, s = w.sample(es)
            c = rng.choice([1, 2, 5])
            mset[ms] = mset.get(ms, 0) + c
            b.add(s, c)
        want = M.groups(mset)
        if want is None:
            return
        t = b.build()

        def unchanged(after):
            if O.obs_items(w.U, t) != mset:
                raise Violation("changed", f"group_intersecting: {after} changed the set")
        self.call(op, rec, f"group_intersecting of {len(mset)} samples", t.group_intersecting,
                  lambda d: {frozenset(w.U.name(v) for v in k): O.obs_items(w.U, x) for k, x in d.items()}, want,
                  unchanged)
        unchanged("a call")

    def do_joinsets(self, w, op, rng, rec):
        mset, real = w.single_edge_set(rng, 0.2)
        rng.shuffle(real)
        sets, i = [], 0
        B = w.lib.ss.SampleSetBuilder
        while i < len(real):
            k = rng.choice([1, 1, 1, 2, 3])
            b = B(w.provider)
            for s, c in real[i:i + k]:
                b.add(s, c)
            sets.append(b.build())
            i += k
        before = [O.obs_items(w.U, t) for t in sets[:3]]
        given = list(sets)
        self.call(op, rec, f"join_sample_set of {len(sets)} sets", lambda: B.join_sample_set(given),
                  lambda t: O.obs_items(w.U, t), mset)
        if given != sets or [O.obs_items(w.U, t) for t in sets[:3]] != before:
            raise Violation("changed", "join_sample_set changed the sets it was given")

    def do_sets(self, w, op, rng, rec):
        """Union, add_all, remove_all and filtering of large sets."""
        B = w.lib.ss.SampleSetBuilder
        mset, real = w.single_edge_set(rng)
        one, two, ms = B(w.provider), B(w.provider), sorted(mset, key=repr)
        lib_of = {O.obs_sample(w.U, s): s for s, _ in real}
        split = [rng.choice([1, 1, 2, 3]) for _ in ms]
        for m, k in zip(ms, split):
            if k & 1:
                one.add(lib_of[m], mset[m])
            if k & 2:
                two.add(lib_of[m], 5)
        a, b = one.build(), two.build()
        A, Bm = {m: mset[m] for m, k in zip(ms, split) if k & 1}, {m: 5 for m, k in zip(ms, split) if k & 2}
        both = {m: A.get(m, 0) + Bm.get(m, 0) for m in {**A, **Bm}}
        keep = {lib_of[m] for m in ms if rng.random() < 0.5}
        see = lambda d: {k: O.obs_items(w.U, t) for k, t in d.items()}      # noqa: E731
        self.call(op, rec, "union of large sets", lambda: dict(u=a.union(b), v=B(w.provider).add_all(a).add_all(b).build()),
                  see, dict(u=both, v=both))
        self.call(op, rec, "filter and remove_all on large sets",
                  lambda: dict(f=a.filter_samples(lambda x: x in keep),
                               r=a.builder().remove_all(a.filter_samples(lambda x: x in keep)).build()), see,
                  dict(f={m: c for m, c in A.items() if lib_of[m] in keep},
                       r={m: c for m, c in A.items() if lib_of[m] not in keep}))

    def do_rounds(self, w, op, rng, rec):
        """Objects derived from each other many hundred times are as good as the first."""
        B = w.lib.ss.SampleSetBuilder
        mset, t = {}, B(w.provider)
        for i in {1, w.n - 1, rng.randrange(1, w.n)}:
            ms, s = w.sample([w.edge(i)])
            c = rng.choice([1, 4])
            mset[ms] = mset.get(ms, 0) + c
            t.add(s, c)
        t = t.build()
        empty, nothing = B(w.provider).build(), w.gb.sample_builder().build_empty()
        gb = w.lib.rg.RelationGraphBuilder(components_provider=w.provider, name="g")
        for x, c in t.items():
            gb.add_outcome(x, c)
        g = gb.build()
        toggle = [(frozenset({w.node(0, x), w.node(1, VALUES[0])}), frozenset({(frozenset({w.node(0, x), w.node(1, VALUES[0])}),
                                                                               RELS[0])})) for x in VALUES[:2]]
        s = w.sample(toggle[0][1])[1]
        v0 = w.U.label("v0")
        by_set = {"copy": lambda t: t.builder().build(), "filter": lambda t: t.filter_samples(lambda x: True),
                  "union": lambda t: t.union(empty), "addall": lambda t: B(w.provider).add_all(t).build(),
                  "joinsets": lambda t: B.join_sample_set([t, empty]), "bcopy": lambda t: t.builder().copy().build()}
        by_graph = {"copy": lambda g: g.builder().build(), "rel": lambda g: g.relation_graph(),
                    "cond": lambda g: g.conditional_graph(nothing).relation_graph(),
                    "join": lambda g: g.joined_on_variables(set())}
        how = [rng.sample(sorted(by_set), rng.randint(1, 2)), rng.sample(sorted(by_graph), rng.randint(1, 2))]
        rounds = int(self.frames * rng.uniform(1.2, 2))

        def do():
            a, b, c = t, g, s
            for i in range(rounds):
                a = by_set[how[0][i % len(how[0])]](a)
                b = by_graph[how[1][i % len(how[1])]](b)
                c = c.transform_with_replaced_values({v0: w.U.label(VALUES[1 - i % 2])})
                if i % 3 == 0:
                    c = c.builder().build()
            return dict(set=O.obs_set_full(w.U, a), graph=O.obs_items(w.U, b.outcomes), c=O.obs_sample(w.U, c), same=a == t,
                        marginal=O.obs_marginals(w.U, b.marginal_variables_probability()), h=hash(a) == hash(t))
        self.call(op, rec, f"{rounds} rounds of {how}", do, lambda d: d, dict(
            set=O.obs_set_full(w.U, t), graph=mset, c=toggle[(rounds) % 2], same=True, h=True,
            marginal=M.marginals(mset, set(w.U.spec["vars"]), False)))

    # -------------------------------------------------------------------------------------------------- graphs
    def do_outcomes(self, w, op, rng, rec):
        """Many outcomes added with one call, or through a generator of samples."""
        mset, real = w.single_edge_set(rng)
        mset = {m: 3 for m in mset}
        samples = [s for s, _ in real]
        single = rng.random() < 0.5

        def do():
            gb = w.lib.rg.RelationGraphBuilder(components_provider=w.provider, name="many")
            if single:
                for s in samples:
                    gb.build_sample(lambda b: b.join_sample(s).build())
                return gb.add_outcomes(samples, 2).build()
            return gb.add_outcomes(samples, 3).build()
        self.call(op, rec, f"{len(samples)} outcomes at once", do, lambda g: O.obs_items(w.U, g.outcomes), mset)

    def graph(self, w, rng):
        mset, real = w.single_edge_set(rng)
        gb = w.lib.rg.RelationGraphBuilder(components_provider=w.provider, name="big")
        for s, c in real:
            gb.add_outcome(s, c)
        return mset, gb.build()

    def do_space(self, w, op, rng, rec):
        mset, g = self.graph(w, rng)
        U = w.U
        nodes, edges = M.folded(mset)

        def ask():
            f = g.folded_graph()
            return dict(
                m=g.marginal_variables_probability(), inc=g.included_variables(), rels=g.included_relations(),
                fac=g.is_factorized(), facs=len(g.factorized()), joined=g.is_joined(), n=g.outcomes.length,
                printed=len(g.print_samples().splitlines()), fn=f.nodes, fe=f.edges,
                p=sum(p for _, p in g.outcomes.probabilities()), d=g.describe()["number_of_outcomes"]
                if "number_of_outcomes" in g.describe() else None,
                match=g.outcomes.is_all_values_match(), views=len(g.outcomes_as_edges_sets()),
                found=g.find_for_values({w.lnode(w.node(0))}))
        want = dict(
            m=M.marginals(mset, set(U.spec["vars"]), False), inc=M.included_variables(mset),
            rels=M.included_relations(mset), fac=True, facs=len(mset), joined=M.is_joined(mset), n=M.total(mset),
            printed=len(mset), fn=nodes, fe=edges, p=1.0, match=True, views=len(mset),
            found={s: c for s, c in mset.items() if w.node(0) in s[0]})

        def view(d):
            d = dict(d, m=O.obs_marginals(U, d["m"]), inc=O.obs_variables(U, d["inc"]),
                     rels=frozenset(O.obs_relation(U, r) for r in d["rels"]), found=O.obs_items(U, d["found"]),
                     fn={U.name(n.variable): {O.obs_node(U, x): c for x, c in n.value_nodes} for n in d["fn"]},
                     fe={frozenset(U.name(v) for v in e.endpoints): {O.obs_edge(U, x): c for x, c in e.relation_edges}
                         for e in d["fe"]})
            d["fn"] = {v: {x[1]: c for x, c in q.items()} for v, q in d["fn"].items()}
            d.pop("d")
            return d
        self.call(op, rec, "questions to a graph", ask, view, want)

    def evidence(self, w, rng):
        k = rng.choice(["empty", "node", "edge", "part"])
        if k == "empty":
            return (frozenset(), frozenset()), w.gb.sample_builder().build_empty()
        if k == "node":
            return w.sample([], w.node(rng.randrange(w.n), rng.choice([None, VALUES[0]])))
        if k == "edge":
            return w.sample([w.edge(rng.randrange(1, w.n))])
        return w.sample(w.prefix(rng.randrange(1, w.n)))

    def do_cond(self, w, op, rng, rec):
        mset, g = self.graph(w, rng)
        ev, e = self.evidence(w, rng)
        self.call(op, rec, f"conditional_graph on {len(ev[0])} nodes", lambda: g.conditional_graph(e),
                  lambda c: O.obs_items(w.U, c.outcomes), M.condition(mset, ev))

    def do_act(self, w, op, rng, rec):
        edges = [w.edge(i) for i in range(1, w.n)]
        gb = w.lib.rg.RelationGraphBuilder(components_provider=w.provider, name="big")
        mset = {}
        for part in (edges, edges[:rng.randrange(1, w.n)], edges[:1]):
            ms, s = w.sample(part)
            c = rng.choice([1, 3, 10 ** 330])
            mset[ms] = mset.get(ms, 0) + c
            gb.add_outcome(s, c)
        ev, e = w.sample([], w.node(rng.choice([0, 0, 1])))
        kept = M.condition(mset, ev)
        flt = set(rng.sample(RELS, 2)) if rng.random() < 0.2 else None
        allv = {v: list(VALUES) for v in w.U.spec["vars"]}
        nodes, rels = M.activation(kept, ev, allv, flt)
        cg = gb.build().conditional_graph(e)

        def view(a):
            d = O.obs_activation(w.U, a)
            return dict(nodes=d["nodes"], edges={k: (c, q) for k, (c, q) in d["edges"].items()})
        self.call(op, rec, "activation_graph",
                  lambda: cg.activation_graph(None if flt is None else {w.U.label(r) for r in flt}), view,
                  dict(nodes=nodes, edges=rels))

    def joined(self, mset):
        n = 1
        for c in mset.values():
            n *= c
        return {(frozenset().union(*[s[0] for s in mset]), frozenset().union(*[s[1] for s in mset])): n}

    def do_make_joined(self, w, op, rng, rec):
        mset, g = self.graph(w, rng)
        self.call(op, rec, f"make_joined of {len(mset)} factors", g.make_joined,
                  lambda j: O.obs_items(w.U, j.outcomes), self.joined(mset))
        if O.obs_items(w.U, g.outcomes) != mset:
            raise Violation("changed", "make_joined changed its source")

    def do_joined_on(self, w, op, rng, rec):
        mset, g = self.graph(w, rng)
        i = rng.choice([0, 0, rng.randrange(w.n)])
        take = {s: c for s, c in mset.items() if f"v{i}" in M.variables_of(s)}
        want = {s: c for s, c in mset.items() if s not in take}
        want.update(self.joined(take))
        given = {w.U.label(f"v{i}")}
        self.call(op, rec, f"joined_on_variables of {len(take)} factors", lambda: g.joined_on_variables(given),
                  lambda j: O.obs_items(w.U, j.outcomes), want)

    def do_wide(self, w, op, rng, rec):
        """Few variables, but factors of hundreds of outcomes: a star, chain or comb of complete binary factors."""
        n = 8 if self.frames < 120 else 9
        shape = rng.choice(["star", "chain", "comb"])
        par = parents(n, shape, rng)
        cnt = {(i, a, b): rng.choice([1, 1, 2, 3]) for i in range(1, n) for a in (0, 1) for b in (0, 1)}
        gb = w.lib.rg.RelationGraphBuilder(components_provider=w.provider, name="wide")
        for (i, a, b), c in cnt.items():
            gb.add_outcome(w.sample([(frozenset(((f"v{i}", VALUES[a]), (f"v{par[i]}", VALUES[b]))), RELS[0])])[1], c)
        want = {}
        for k in range(2 ** n):
            bit = [k >> i & 1 for i in range(n)]
            c = 1
            for i in range(1, n):
                c *= cnt[i, bit[i], bit[par[i]]]
            nd = [(f"v{i}", VALUES[bit[i]]) for i in range(n)]
            want[(frozenset(nd), frozenset((frozenset((nd[i], nd[par[i]])), RELS[0]) for i in range(1, n)))] = c
        g = gb.build()
        on = rng.random() < 0.3
        self.call(op, rec, f"joining {n - 1} factors to {2 ** n} outcomes",
                  (lambda: g.joined_on_variables()) if on else g.make_joined,
                  lambda j: O.obs_items(w.U, j.outcomes), want)

    def simplify_op(self, op):
        if "starve" in op:
            yield {k: v for k, v in op.items() if k != "starve"}

    def simplify_config(self, trace):
        cfg = trace["config"]
        for n in (cfg["n"] // 4, cfg["n"] // 2, cfg["n"] * 3 // 4, cfg["n"] - 10, cfg["n"] - 1):
            if 3 <= n < cfg["n"]:
                yield {**trace, "config": {**cfg, "n": n}}
        for shape in ("chain", "star"):
            if cfg["shape"] not in ("chain", "star"):
                yield {**trace, "config": {**cfg, "shape": shape}}


def held(w, b):
    """What a sample builder holds, read by building it."""
    try:
        return O.obs_sample(w.U, b.build())
    except AssertionError:
        return "empty"


SCENARIOS = {"C33": C33}
