"""Generation of all possible outcomes, interleaved with other builders and interruptions: C10."""
import sys

from . import relmodel as M
from . import relobs as O
from .core import Scenario, Violation
from .labels import Universe, random_spec
from .rel_history import random_edges
from .relworld import Cancelled, LineCanceller, edge_in, load, rel_in


def size_of(vs, rels):
    """Number of label choices the library walks through, and a bound on the number of samples."""
    n = len(vs)
    pairs = n * (n - 1) // 2
    walk = (len(rels) + 1) ** pairs
    vals = 1
    for v in vs.values():
        vals *= len(v) + 1
    return walk, walk * vals


class C10(Scenario):
    id = "C10"
    quick_runs = 8000
    thorough_runs = 60000
    rule = "one evaluation = one network generated at least once under one label-hash assignment; non-trivial when the network allows at least one edge"
    real_components = ["scripts/relnet: relation_graph (builder), sample_graph, sample_set, graph_components"]
    stub_components = ["components provider wrapped by a failing pass-through", "labels with simulator-chosen hashes"]
    assumptions = ["networks of up to 4 variables and about 4000 samples", "reference: enumeration in sim/relmodel.py",
                   "a builder whose generation was interrupted is not used again"]

    def setup(self):
        load()
        self.cache = {}

    def generate(self, rng, index, tier):
        cap = 2500 if tier == "quick" else 9000
        while True:
            wide = rng.random()
            spec = random_spec(rng, nvars=(1, 4), nvals=(1, 3), nrels=(1, 3)) if wide < 0.75 else \
                random_spec(rng, nvars=(1, 3), nvals=(1, 7), nrels=(1, 3)) if wide < 0.9 else \
                random_spec(rng, nvars=(1, 3), nvals=(1, 3), nrels=(2, 6))
            walk, bound = size_of(spec["vars"], spec["rels"])
            if bound <= cap and (bound >= 30 or rng.random() < 0.1):
                break
        ops = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < 0.45:
                op = dict(op="gen", b=rng.randrange(3))
                if rng.random() < 0.25:
                    op["cancel"] = rng.choice([rng.randint(1, 50), rng.randint(1, 1000), rng.randint(1, 20000)])
                elif rng.random() < 0.15:
                    op["fault"] = dict(provider=rng.choice([1, 2, 3, rng.randint(1, 100)]))
                ops.append(op)
            elif x < 0.6:
                ops.append(dict(op="new", b=rng.randrange(3)))
            else:
                nodes, edges = random_edges(rng, spec, directed=0.2)
                ops.append(dict(op="add", b=rng.randrange(3), node=list(nodes[0]), edges=edges, n=rng.randint(1, 3)))
        if not any(o["op"] == "gen" for o in ops):
            ops.append(dict(op="gen", b=rng.randrange(3)))
        return dict(config=dict(labels=spec), ops=ops)

    def run(self, trace, rec):
        lib = load()
        spec = trace["config"]["labels"]
        U = Universe(spec).prime()
        L = U.label
        provider = lib.FlakyProvider(lib.gc.BuilderComponentsProvider(
            {L(v): {L(x) for x in xs} for v, xs in spec["vars"].items()}, {L(r) for r in spec["rels"]}))
        new = lambda: [lib.rg.RelationGraphBuilder(components_provider=provider), {}]
        builders = {}
        full = {s: 1 for s in M.all_samples(spec["vars"], spec["rels"])}

        def content(b):
            try:
                return O.obs_items(U, b[0].build().outcomes)
            except AssertionError:
                return {}

        def rel(r):
            r = rel_in(r)
            return lib.gc.DirectedRelation(L(r[1]), L(r[2]), L(r[3])) if isinstance(r, tuple) else L(r)
        for op in trace["ops"]:
            rec.ops += 1
            b = builders.setdefault(op["b"], None) or new()
            builders[op["b"]] = b
            if op["op"] == "new":
                builders[op["b"]] = new()
                continue
            if op["op"] == "add":
                edges = frozenset(edge_in(e) for e in op["edges"])
                sb = b[0].sample_builder()
                if edges:
                    s = sb.build_from_edges(frozenset((frozenset((L(n[0]), L(n[1])) for n in ep), rel(r)) for ep, r in edges))
                    core = (frozenset(n for ep, _ in edges for n in ep), edges)
                else:
                    s = sb.build_single_node(L(op["node"][0]), L(op["node"][1]))
                    core = (frozenset({tuple(op["node"])}), frozenset())
                b[0].add_outcome(s, op["n"])
                b[1] = {**b[1], core: b[1].get(core, 0) + op["n"]}
                rec.log("add", O.canon(core))
            else:
                if b[1]:
                    try:
                        b[0].generate_all_possible_outcomes()
                    except Exception:
                        rec.fault("rejected_operation")
                        rec.log("refused")
                    else:
                        raise Violation("accepted", "generation on a builder that already has outcomes")
                else:
                    if op.get("cancel"):
                        tracer = LineCanceller(op["cancel"])
                        sys.settrace(tracer)
                        try:
                            b[0].generate_all_possible_outcomes()
                        except Cancelled:
                            pass
                        finally:
                            sys.settrace(None)
                        if tracer.fired:
                            rec.fault("cancelled_at_line")
                            b = builders[op["b"]] = new()
                        else:
                            b[1] = dict(full)
                    elif op.get("fault"):
                        provider.fail_at, provider.fired = op["fault"]["provider"], False
                        try:
                            b[0].generate_all_possible_outcomes()
                            b[1] = dict(full)
                        except Exception:
                            if not provider.fired:
                                raise
                        provider.fail_at = None
                        if provider.fired:
                            rec.fault("provider_failed")
                            b = builders[op["b"]] = new()
                    if not b[1]:
                        b[0].generate_all_possible_outcomes()
                        b[1] = dict(full)
                    rec.probe("generated")
                    if len(spec["vars"]) > 1:
                        rec.nontrivial = True
                    rec.log("gen", len(full))
            for i, x in builders.items():
                if x is None:
                    continue
                got = content(x)
                if got != x[1]:
                    extra = {k: c for k, c in got.items() if x[1].get(k) != c}
                    missing = {k: c for k, c in x[1].items() if got.get(k) != c}
                    raise Violation("wrong-outcomes", f"after {op['op']}: wrong {O.canon(extra)[:500]} missing "
                                                      f"{O.canon(missing)[:500]} for {spec['vars']} {spec['rels']}")
        rec.log("order", [U.name(v) for v, _ in provider.inner.variables()], [U.name(r) for r in provider.inner.relations()])

    def simplify_config(self, trace):
        lab = trace["config"]["labels"]
        for v in lab["vars"]:
            if len(lab["vars"]) > 1:
                yield {**trace, "config": dict(labels={**lab, "vars": {k: x for k, x in lab["vars"].items() if k != v}})}
            for i in range(len(lab["vars"][v])):
                if len(lab["vars"][v]) > 1:
                    yield {**trace, "config": dict(labels={**lab, "vars": {
                        **lab["vars"], v: lab["vars"][v][:i] + lab["vars"][v][i + 1:]}})}
        for i in range(len(lab["rels"])):
            if len(lab["rels"]) > 1:
                yield {**trace, "config": dict(labels={**lab, "rels": lab["rels"][:i] + lab["rels"][i + 1:]})}


SCENARIOS = {"C10": C10}
