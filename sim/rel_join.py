"""Joining factorised networks under every elimination order (label hashes), with interruptions: C05, C06."""
import sys
from itertools import combinations

from . import relmodel as M
from . import relobs as O
from .core import Scenario, Violation
from .labels import BIG_COUNTS, Universe, pick, pools
from .relworld import Cancelled, LineCanceller, edge_in, load, rel_in


def random_structure(rng, vs, connected, avoid_twins, most=3):
    """Edge-disjoint connected factors over the variables: list of lists of variable pairs (or a single variable)."""
    pairs = [p for p in combinations(vs, 2)]
    rng.shuffle(pairs)
    factors, used = [], []

    def twins(edges):
        """Could two groups of these edges span the same variables?  (needs 2(k-1) edges inside k variables)"""
        for k in range(4, len(vs) + 1):
            for sub in combinations(vs, k):
                if sum(1 for a, b in edges if a in sub and b in sub) >= 2 * (k - 1):
                    return True
        return False

    def try_use(p):
        if p in used or (avoid_twins and twins(used + [p])):
            return False
        used.append(p)
        return True

    shape = rng.choice(["chain", "star", "tree", "cycle", "random", "random"])
    if shape == "chain":
        want = [tuple(sorted((vs[i], vs[i + 1]))) for i in range(len(vs) - 1)]
    elif shape == "star":
        want = [tuple(sorted((vs[0], v))) for v in vs[1:]]
    elif shape == "tree":
        want = [tuple(sorted((vs[i], vs[rng.randrange(i)]))) for i in range(1, len(vs))]
    elif shape == "cycle":
        want = [tuple(sorted((vs[i], vs[(i + 1) % len(vs)]))) for i in range(len(vs))]
    else:
        want = [tuple(sorted((vs[i], vs[rng.randrange(i)]))) for i in range(1, len(vs))]
        want += [tuple(sorted(p)) for p in pairs if rng.random() < 0.3]
    if not connected:
        want = [p for p in want if rng.random() < 0.8]
    for p in want:
        if len(p) == 2 and p[0] != p[1] and try_use(p):
            f = [p]
            # sometimes grow the factor to several edges
            for q in pairs:
                q = tuple(sorted(q))
                if len(f) < most and rng.random() < (0.15 if most < 4 else 0.5) and set(q) & {v for e in f for v in e} and try_use(q):
                    f.append(q)
            factors.append(f)
    # sometimes merge two touching factors
    if len(factors) > 2 and rng.random() < 0.3:
        a, b = rng.sample(range(len(factors)), 2)
        if {v for e in factors[a] for v in e} & {v for e in factors[b] for v in e}:
            factors[a] += factors[b]
            del factors[b]
    covered = {v for f in factors for e in f for v in e}
    for v in vs:
        if (v not in covered and (not connected or len(vs) == 1)) or rng.random() < 0.15:
            factors.append([[v]])
    return factors


def random_factors(rng, tier, connected, avoid_twins):
    while True:
        wide = rng.random() < 0.08
        nv = rng.randint(6, 10) if wide else rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5] + ([] if tier == "quick" else [6, 6]))
        va, vl, rl = pools(rng)
        big = rng.random() < 0.1
        vs = pick(rng, va, nv)
        vals = {v: pick(rng, vl, 1 if wide and rng.random() < 0.6 else rng.randint(1, 3)) for v in vs}
        rels = pick(rng, rl, rng.randint(1, 3))
        structure = random_structure(rng, vs, connected, avoid_twins, 8 if wide and rng.random() < 0.5 else 3)
        if not structure:
            continue
        nj = rng.randint(1, 6)
        joint = [{v: rng.choice(vals[v]) for v in vs} for _ in range(nj)]
        if rng.random() < 0.2:        # a full product space
            joint = [{}]
            for v in vs:
                joint = [dict(j, **{v: x}) for j in joint for x in vals[v]]
                if len(joint) > 24:
                    joint = joint[:24]
        factors, cost = [], 1
        for f in structure:
            outs, seen = [], set()
            for j in joint:
                variants = 2 if rng.random() < 0.08 and len(f[0]) == 2 else 1
                for _ in range(variants):
                    if len(f[0]) == 1:
                        o = dict(node=[f[0][0], j[f[0][0]]], edges=[])
                    else:
                        es = []
                        for a, b in f:
                            r = rng.choice(rels) if variants == 2 or rng.random() < 0.3 else rels[0]
                            if rng.random() < 0.15:
                                r = ["D", a, b, r]
                            es.append([[a, j[a]], [b, j[b]], r])
                        o = dict(edges=es)
                    key = O.canon(sample_of(o))
                    vkey = (frozenset(sample_of(o)[0]))
                    if key in seen or (variants == 1 and vkey in seen):
                        continue
                    seen.add(key)
                    seen.add(vkey)
                    o["n"] = rng.choice(BIG_COUNTS if big else [1, 1, 2, 3, 4, 7, 9])
                    outs.append(o)
            factors.append(outs)
            cost *= len(outs)
        if cost <= (2500 if tier == "quick" else 6000) and len(joint) >= 1:
            return dict(vars=vals, rels=rels, factors=factors)


def random_loose(rng):
    """Outcomes that need not fit together, of any connected shape, with at most one value per variable."""
    va, vl, rl = pools(rng)
    vs = pick(rng, va, rng.choice([2, 3, 3, 4, 4, 5]))
    vals = {v: pick(rng, vl, rng.randint(1, 3)) for v in vs}
    rels = pick(rng, rl, rng.randint(1, 3))
    shapes = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.2:
            shapes.append([[rng.choice(vs)]])
            continue
        seen, f = [rng.choice(vs)], []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            a = rng.choice(seen)
            b = rng.choice([v for v in vs if v != a])
            if tuple(sorted((a, b))) not in f:
                f.append(tuple(sorted((a, b))))
                seen.append(b)
        shapes.append(f)
    outs, seen = [], set()
    for _ in range(rng.randint(1, 8)):
        f = rng.choice(shapes)
        j = {v: rng.choice(vals[v]) for v in vs}
        if len(f[0]) == 1:
            o = dict(node=[f[0][0], j[f[0][0]]], edges=[])
        else:
            o = dict(edges=[[[a, j[a]], [b, j[b]], rng.choice(rels) if rng.random() < 0.9 else ["D", a, b, rels[0]]]
                            for a, b in f])
        if O.canon(sample_of(o)) not in seen:
            seen.add(O.canon(sample_of(o)))
            o["n"] = rng.choice([1, 1, 2, 3, 5, 9])
            outs.append(o)
    return dict(vars=vals, rels=rels, factors=[outs])


def sample_of(o):
    edges = frozenset(edge_in(e) for e in o["edges"])
    if edges:
        return (frozenset(n for ep, _ in edges for n in ep), edges)
    return (frozenset({tuple(o["node"])}), frozenset())


class Join(Scenario):
    quick_runs = 24000
    thorough_runs = 150000
    real_components = ["scripts/relnet: relation_graph, sample_set, sample_space, sample_graph, graph_components"]
    stub_components = ["components provider wrapped by a failing pass-through", "labels with simulator-chosen hashes"]
    assumptions = ["factors are projections of one non-empty joint table (they fit together)",
                   "factors share no edge; for C06 no two groups can span exactly the same variables by different edges "
                   "(known finding)", "reference: natural join by enumeration, sim/relmodel.py"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        loose = self.id == "C06" and rng.random() < 0.35
        spec = random_loose(rng) if loose else random_factors(rng, tier, self.id == "C05", self.id == "C06")
        labels = dict(vars=spec["vars"], rels=spec["rels"], kind=rng.choice(["str", "str", "int", "tuple", "obj", "mixed"]),
                      hash=rng.choice(["rand", "rand", "low", "few", "collide"]), hseed=rng.randrange(1 << 30))
        order = [(i, k) for i, f in enumerate(spec["factors"]) for k in range(len(f))]
        rng.shuffle(order)
        ops = []
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.15:
                ops.append(dict(op="extend", i=rng.randrange(len(order))))
            op = dict(op="join")
            if self.id == "C06":
                vs = sorted(spec["vars"])
                if rng.random() < 0.85:
                    op["vars"] = rng.sample(vs, rng.randint(0, len(vs)))
                    if rng.random() < 0.05:
                        op["vars"].append("unheard")
            if rng.random() < 0.2:
                op["cancel"] = rng.choice([rng.randint(1, 30), rng.randint(1, 300), rng.randint(1, 3000)])
            elif rng.random() < 0.1:
                op["fault"] = dict(provider=rng.randint(1, 3))
            if loose:
                op["vars"] = [rng.choice(sorted(spec["vars"]))]
                op["chain"] = rng.random() < 0.6
            if rng.random() < 0.15:
                op["name"] = "j"
            ops.append(op)
        return dict(config=dict(labels=labels, factors=spec["factors"], order=order, loose=loose,
                                via=rng.choice(["build", "build", "cond", "sets"])), ops=ops)

    def build(self, cfg, rec):
        lib = load()
        U = Universe(cfg["labels"]).prime()
        L = U.label
        provider = lib.FlakyProvider(lib.gc.BuilderComponentsProvider(
            {L(v): {L(x) for x in xs} for v, xs in cfg["labels"]["vars"].items()}, {L(r) for r in cfg["labels"]["rels"]}))
        gb = lib.rg.RelationGraphBuilder(components_provider=provider, name="g")
        made = []

        def rel(r):
            r = rel_in(r)
            return lib.gc.DirectedRelation(L(r[1]), L(r[2]), L(r[3])) if isinstance(r, tuple) else L(r)
        for i, k in cfg["order"]:
            if i >= len(cfg["factors"]) or k >= len(cfg["factors"][i]):
                continue
            o = cfg["factors"][i][k]
            b = gb.sample_builder()
            if o["edges"]:
                s = b.build_from_edges(frozenset((frozenset((L(n[0]), L(n[1])) for n in e[:2]), rel(e[2]))
                                                 for e in o["edges"]))
            else:
                s = b.build_single_node(L(o["node"][0]), L(o["node"][1]))
            gb.add_outcome(s, o["n"])
            made.append((s, o))
        g = gb.build()
        if cfg["via"] == "cond":
            g = g.conditional_graph(gb.sample_builder().build_empty()).relation_graph()
        elif cfg["via"] == "sets":
            g = g.builder().build()
        return lib, U, provider, gb, g, made

    def expected(self, cfg, op, source):
        if cfg.get("loose"):
            return M.join_on(source, op["vars"][0], 1500) if op.get("vars") else (source, 0)
        factors = [{sample_of(o): o["n"] for o in f} for f in cfg["factors"]]
        if self.id == "C05":
            return M.natural_join(factors), len(factors)
        vs = op.get("vars")
        fv = [M.variables_of(next(iter(f))) for f in factors]
        chosen = set().union(*fv) if vs is None else set(vs)
        group = list(range(len(factors)))

        def root(i):
            while group[i] != i:
                i = group[i]
            return i
        for i in range(len(factors)):
            for j in range(i):
                if fv[i] & fv[j] & chosen:
                    group[root(i)] = root(j)
        res, biggest = {}, 0
        for r in {root(i) for i in range(len(factors))}:
            members = [factors[i] for i in range(len(factors)) if root(i) == r]
            biggest = max(biggest, len(members))
            for k, c in M.natural_join(members).items():
                res[k] = res.get(k, 0) + c
        return res, biggest

    def run(self, trace, rec):
        cfg = trace["config"]
        lib, U, provider, gb, g, made = self.build(cfg, rec)
        source = O.obs_items(U, g.outcomes)
        for op in trace["ops"]:
            rec.ops += 1
            if op["op"] == "extend":          # another client goes on with the builder the graph came from
                s, o = made[op["i"] % len(made)]
                gb.add_outcome(s, 5)
                rec.log("extend")
                continue
            name = op.get("name")

            expected = self.expected(cfg, op, source)
            if expected is None:
                rec.log("skip")
                continue

            def do():
                if self.id == "C05":
                    return g.make_joined(name)
                vs = op.get("vars")
                return g.joined_on_variables(None if vs is None else {U.label(v) for v in vs}, name)
            if op.get("cancel"):
                tracer = LineCanceller(op["cancel"])
                sys.settrace(tracer)
                try:
                    do()
                except Cancelled:
                    pass
                finally:
                    sys.settrace(None)
                if tracer.fired:
                    rec.fault("cancelled_at_line")
            if (op.get("fault") or {}).get("provider"):
                provider.fail_at, provider.fired = op["fault"]["provider"], False
                try:
                    do()
                except Exception:
                    if not provider.fired:
                        raise
                provider.fail_at = None
                if provider.fired:
                    rec.fault("provider_failed")
            try:
                joined = do()
                got = O.obs_items(U, joined.outcomes)
            except Exception as e:
                raise Violation("refused", f"joining {O.canon(source)}: {type(e).__name__}: {str(e)[:300]}")
            want, merged = expected
            if got != want:
                extra = {k: c for k, c in got.items() if want.get(k) != c}
                missing = {k: c for k, c in want.items() if got.get(k) != c}
                raise Violation("wrong-join", f"joining {O.canon(source)} on {op.get('vars')}: library has "
                                              f"{O.canon(extra)} instead of {O.canon(missing)}")
            if joined.name != (name or g.name):
                raise Violation("name", f"joined graph is called {joined.name!r}, asked for {name!r} of {g.name!r}")
            if O.obs_items(U, g.outcomes) != source:
                raise Violation("source-changed", f"{O.canon(source)}")
            if merged > 1 and len(want) > 0:
                rec.nontrivial = True
            rec.probe(f"merged_{min(merged, 6)}_factors")
            rec.log("join", op.get("vars"), O.canon(got))
            if op.get("chain"):
                g, source = joined, got
        # the order in which the library met the variables is the schedule of this run
        rec.log("order", [O.canon(sorted(U.name(x) for x in p)) if isinstance(p, frozenset) else U.name(p)
                          for p, _ in g.included_variables()])

    def simplify_op(self, op):
        yield from super().simplify_op(op)
        if op.get("chain"):
            return
        for i in range(len(op.get("vars") or [])):
            yield {**op, "vars": op["vars"][:i] + op["vars"][i + 1:]}

    def simplify_config(self, trace):
        cfg = trace["config"]
        if cfg["via"] != "build":
            yield {**trace, "config": {**cfg, "via": "build"}}
        if cfg.get("loose"):
            for k in range(len(cfg["factors"][0])):
                yield {**trace, "config": {**cfg, "order": [[0, i - (i > k)] for _, i in cfg["order"] if i != k],
                                           "factors": [cfg["factors"][0][:k] + cfg["factors"][0][k + 1:]]}}
        if self.id == "C06" and not cfg.get("loose"):
            for i in range(len(cfg["factors"])):
                if len(cfg["factors"]) > 1:
                    order = [(a - (a > i), k) for a, k in cfg["order"] if a != i]
                    yield {**trace, "config": {**cfg, "factors": cfg["factors"][:i] + cfg["factors"][i + 1:],
                                               "order": order}}
        for i, f in enumerate(cfg["factors"]):
            for k, o in enumerate(f):
                if o["n"] != 1:
                    f2 = f[:k] + [{**o, "n": 1}] + f[k + 1:]
                    yield {**trace, "config": {**cfg, "factors": cfg["factors"][:i] + [f2] + cfg["factors"][i + 1:]}}


class C05(Join):
    id = "C05"
    rule = "one evaluation = one generated factorised network joined 1-3 times under one label-hash assignment; non-trivial when at least two factors are merged"


class C06(Join):
    id = "C06"
    rule = "one evaluation = one generated network joined on 1-3 variable subsets under one label-hash assignment; non-trivial when some group of at least two factors is merged"


SCENARIOS = {"C05": C05, "C06": C06}
