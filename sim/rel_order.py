"""The same history under several hash assignments and insertion orders gives the same results: C02."""
import random

from . import relobs as O
from .core import Abandon, Scenario, Violation
from .labels import Universe, random_spec
from .rel_generate import size_of
from .rel_history import Gen, net_subset, random_edges
from .rel_join import Join, random_factors
from .relworld import World, load

WEIGHTS = dict(mk=7, sb_new=2, sb_copy=1, sb_from=2, sb_add=8, sb_join=6, sb_canjoin=2, sb_build=4, sb_single=1,
               sb_edges=3, transform=2, pick=2, tb_new=3, tb_copy=1, tb_from=2, tb_add=6, tb_addall=3, tb_remove=3,
               tb_removeall=1, tb_build=5, t_union=3, t_joinsets=2, t_filter=3, t_eq=1, gb_new=2, gb_from=2, gb_add=9,
               gb_addmany=4, gb_build=5, cond=5, relgraph=2, fold=4, act=6, query=4, derive=9)
PROFILE = dict(weights=WEIGHTS, multi=False, cancel=0.0, provider=0.0, callback=0.0, foreign=0.05, preload=0.5)


class OrderWorld(World):
    """Runs a history on the library alone and records what comes out of every step."""

    def __init__(self, config, perm, rec):
        self.out = []
        self.perm = perm
        super().__init__(config, active=(), real=True, rec=rec)

    def bad(self, tags, kind, message):
        pass

    def same(self, tags, kind, got, want, what=""):
        pass

    def check_builders(self, tags, why, only=None):
        pass

    def check_set(self, tags, what, t, m):
        pass

    def put(self, h, kind, net, m, real=None, owner=0, extra=None):
        r = super().put(h, kind, net, m, real, owner, extra)
        if kind in ("S", "T", "G", "K", "F", "A"):
            self.out.append(("new " + kind, self.observe(r)))
            if kind in ("F", "A") and self.config["labels"]["kind"] == "str" \
                    and not any(v.startswith("~") for v in self.config["labels"]["vars"]):
                self.out.append(("reprs", tuple(sorted(map(repr, real.edges))), tuple(sorted(map(
                    repr, real.nodes if kind == "F" else [n.variable for n in real.nodes])))))
        return r

    def call(self, op, do, tags, valid, net=None, query=False, why=None):
        try:
            value = do()
        except Exception:
            self.out.append(("refused", op["op"]))
            return False, None
        self.out.append(("accepted", op["op"]))
        if isinstance(value, (bool, int, str)):
            self.out.append(("value", value))
        return True, value

    def apply(self, op):
        op = dict(op)
        if op["op"] in ("gb_addmany", "tb_new"):
            key = "ss" if op["op"] == "gb_addmany" else "init"
            items = list(op.get(key, []))
            cores = [self.ref(h if key == "ss" else h[0], "S") for h in items]
            if all(cores) and len({(c.net, c.m) for c in cores}) == len(cores) and len({c.net for c in cores}) == 1:
                self.perm.shuffle(items)
                op[key] = items
        if op["op"] == "mk" and op.get("style") == "edges":
            op["edges"] = list(op["edges"])
            self.perm.shuffle(op["edges"])
        before = len(self.out)
        try:
            r = super().apply(op)
        except (Violation, Abandon):
            raise
        except Exception as e:
            self.out.append(("failed", type(e).__name__))
            return
        if op["op"] in ("sb_add", "sb_dir", "sb_join", "sb_edges", "sb_from", "sb_copy"):
            b = self.ref(op.get("b") if op["op"] not in ("sb_from", "sb_copy") else op["out"], "B")
            if b:
                try:
                    self.out.append(("builder", O.obs_sample(self.U, b.real.build())))
                except Exception:
                    self.out.append(("builder", "cannot build"))
        for key, kind in (("tb", "TB"), ("gb", "GB")):
            b = self.ref(op.get(key), kind)
            if b:
                self.out.append((kind, O.obs_items(self.U, b.real) if kind == "TB" else self.obs_gb(b)))
        return r

    def obs_gb(self, b):
        try:
            return O.obs_items(self.U, b.real.build().outcomes)
        except Exception:
            return "cannot build"

    def op_derive(self, op):
        r = self.ref(op["h"])
        if not r or op["m"] in ("joined", "on_vars"):
            return "skip"
        self.out.append(("derive", op["m"], derived(self.U, r.real, op["m"], r.kind)))
        return op["m"]

    def op_query(self, op):
        g = self.ref(op["g"], "G", "K")
        if not g:
            return "skip"
        L = self.U.label
        if op["what"] == "marg":
            vs = op.get("vars")
            self.out.append(("marg", O.obs_marginals(self.U, g.real.marginal_variables_probability(
                None if vs is None else {L(v) for v in vs}, bool(op.get("unobserved"))))))
        elif op["what"] == "find":
            self.out.append(("find", O.obs_items(self.U, g.real.find_for_values(
                {self.labels_pair(tuple(n)) for n in op["values"]}))))
        else:
            self.out.append(("observe", self.observe(g)))
        return op["what"]


def derived(U, x, m, kind):
    try:
        if m == "group" and kind == "T":
            return {frozenset(U.name(v) for v in k): O.obs_items(U, t) for k, t in x.group_intersecting().items()}
        if m == "joined_sample" and kind == "T":
            s, counts = x.make_joined_sample()
            return (O.obs_sample_full(U, s), sorted(counts))
        if m == "factorized" and kind in ("G", "K"):
            return frozenset(O.canon(O.obs_items(U, t)) for t in x.factorized())
        if m == "flags" and kind == "G":
            return (bool(x.is_joined()), bool(x.is_factorized()))
        if m == "flags" and kind == "T":
            return (bool(x.is_all_values_match()), bool(x.can_join_samples()) if x else None)
        if m == "external" and kind == "S" and x.nodes:
            n = sorted(x.nodes, key=lambda n: O.canon(O.obs_node(U, n)))[0]
            ex = x.external_nodes({n})
            return {O.obs_node(U, k): frozenset(O.obs_edge(U, e) for e in es) for k, es in ex.items()}
    except Exception as e:
        return ("raised", type(e).__name__)
    return None


class C02(Scenario):
    id = "C02"
    quick_runs = 15000
    thorough_runs = 150000
    rule = "one evaluation = one history (or join, or generation) executed under 3-4 assignments of label hashes and insertion orders, all recorded results compared pairwise; non-trivial when at least 5 recorded results were compared"
    real_components = ["scripts/relnet (all modules except visualisation)"]
    stub_components = ["labels with simulator-chosen hashes"]
    assumptions = ["at most one value per variable in a sample", "generated outcome names (O_n) and HTML are exempt",
                   "make_joined and joined_on_variables on networks whose factors fit together (known finding otherwise)"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        variants = [dict(hash=h, hseed=rng.randrange(1 << 30), perm=rng.randrange(1 << 30))
                    for h in ["rand", "rand", rng.choice(["low", "few"]), "collide"][:3 if rng.random() < 0.5 else 4]]
        x = rng.random()
        kind = rng.choice(["str", "str", "obj", "tuple", "mixed"])
        if x < 0.65:
            spec = random_spec(rng, nvars=(2, 4), kinds=(kind,))
            nets = [net_subset(rng, spec, True)]
            if rng.random() < 0.2:
                nets.append(net_subset(rng, spec, rng.random() < 0.5))
            config = dict(labels=spec, nets=nets)
            ops = Gen(rng, config, PROFILE).run(rng.randint(8, 30))
            for op in ops:
                if op.get("op") == "mk" and op.get("name"):
                    op["name"] = "N" + O.canon([op["edges"], op.get("node")])[:40] if rng.random() < 0.5 else None
            return dict(config=dict(config, type="history", variants=variants), ops=ops)
        if x < 0.92:
            avoid = rng.random() < 0.5
            spec = random_factors(rng, tier, not avoid, avoid)
            labels = dict(vars=spec["vars"], rels=spec["rels"], kind=kind)
            order = [(i, k) for i, f in enumerate(spec["factors"]) for k in range(len(f))]
            ops = [dict(op="factorized")]
            vs = sorted(spec["vars"])
            for _ in range(rng.randint(1, 2)):
                if avoid:
                    ops.append(dict(op="on", vars=rng.sample(vs, rng.randint(0, len(vs))) if rng.random() < 0.8 else None))
                else:
                    ops.append(dict(op="joined"))
            return dict(config=dict(type="join", labels=labels, factors=spec["factors"], order=order, via="build",
                                    variants=variants), ops=ops)
        if x < 0.96:
            # the pieces of one sample (and sometimes an odd one out), gathered in a set in any order
            spec = random_spec(rng, nvars=(3, 6), kinds=(kind,))
            nodes, edges = random_edges(rng, spec, maxvars=6)
            pieces = [[e] for e in edges]
            while len(pieces) > 1 and rng.random() < 0.3:
                a = pieces.pop(rng.randrange(len(pieces)))
                b = next((q for q in pieces if {tuple(n) for e in a for n in e[:2]} & {tuple(n) for e in q for n in e[:2]}), None)
                if b is None:
                    pieces.append(a)
                    break
                b += a
            pieces = [dict(edges=q) for q in pieces]
            if rng.random() < 0.4:
                pieces.append(dict(edges=[], node=list(rng.choice(nodes))))
            if rng.random() < 0.25:
                pieces.append(dict(edges=random_edges(rng, spec, maxvars=2)[1], node=list(rng.choice(nodes))))
            if pieces:
                return dict(config=dict(type="pieces", labels=spec, variants=variants, nets=[net_subset(rng, spec, True)]),
                            ops=[dict(op="piece", **q) for q in pieces])
        while True:
            spec = random_spec(rng, nvars=(1, 3), nvals=(1, 3), nrels=(1, 2), kinds=(kind,))
            if size_of(spec["vars"], spec["rels"])[1] <= 600:
                break
        return dict(config=dict(type="generate", labels=spec, variants=variants), ops=[dict(op="generate")])

    def one(self, trace, variant, rec):
        cfg = trace["config"]
        perm = random.Random(variant["perm"])
        labels = {**cfg["labels"], "hash": variant["hash"], "hseed": variant["hseed"]}
        if cfg["type"] == "history":
            nets = []
            for n in cfg["nets"]:
                vs = list(n["vars"].items())
                perm.shuffle(vs)
                nets.append(dict(n, vars=dict(vs)))
            w = OrderWorld(dict(labels=labels, nets=nets), perm, rec)
            per_op = []
            for op in trace["ops"]:
                before = len(w.out)
                w.apply(op)
                per_op.append(w.out[before:])
            return per_op
        if cfg["type"] == "pieces":
            w = OrderWorld(dict(labels=labels, nets=cfg["nets"]), perm, rec)
            hs, seen = [], set()
            for i, q in enumerate(trace["ops"]):
                w.apply(dict(op="mk", net=0, edges=q["edges"], node=q.get("node"), out=f"S{i}", style="edges"))
                core = w.h[f"S{i}"].m
                if core not in seen:
                    seen.add(core)
                    hs.append(f"S{i}")
            w.out.clear()
            perm.shuffle(hs)
            w.apply(dict(op="tb_new", net=0, out="TB", init=[]))
            for h in hs:
                w.apply(dict(op="tb_add", tb="TB", s=h, n=2))
            w.out.clear()
            w.apply(dict(op="tb_build", tb="TB", out="T"))
            for m in ("joined_sample", "group", "flags"):
                w.apply(dict(op="derive", h="T", m=m))
            return [w.out] + [[] for _ in trace["ops"][1:]]
        if cfg["type"] == "join":
            order = [tuple(x) for x in cfg["order"]]
            perm.shuffle(order)
            lib, U, provider, gb, g, made = Join.build(self, dict(cfg, labels=labels, order=order), rec)
            per_op = []
            for op in trace["ops"]:
                rec.ops += 1
                if op["op"] == "factorized":
                    per_op.append([("factorized", derived(U, g, "factorized", "G")), ("flags", derived(U, g, "flags", "G"))])
                    continue
                try:
                    if op["op"] == "joined":
                        j = g.make_joined()
                    else:
                        j = g.joined_on_variables(None if op["vars"] is None else {U.label(v) for v in op["vars"]})
                    per_op.append([("joined", O.obs_space_full(U, j))])
                except Exception as e:
                    per_op.append([("refused", op["op"])])
            rec.log("order", [U.name(v) for v, _ in g.included_variables()])
            return per_op
        lib = load()
        U = Universe(labels).prime()
        L = U.label
        vs = list(labels["vars"].items())
        perm.shuffle(vs)
        gb = lib.rg.RelationGraphBuilder({L(v): {L(x) for x in xs} for v, xs in vs}, {L(r) for r in labels["rels"]})
        gb.generate_all_possible_outcomes()
        rec.ops += 1
        g = gb.build()
        return [[("generated", O.obs_items(U, g.outcomes)), ("marg", O.obs_marginals(U, g.marginal_variables_probability()))]]

    def run(self, trace, rec):
        results = [self.one(trace, v, rec) for v in trace["config"]["variants"]]
        rec.fault("hash_and_insertion_order_changed", len(results) - 1)
        rec.probe("type_" + trace["config"]["type"])
        compared = 0
        for i, op in enumerate(trace["ops"]):
            a = results[0][i]
            for k, other in enumerate(results[1:], 1):
                b = other[i]
                compared += len(a)
                if len(a) != len(b) or not all(x[0] == y[0] and O.nearly(x[1:], y[1:]) for x, y in zip(a, b)):
                    x = next((x for x, y in zip(a, b) if not (x[0] == y[0] and O.nearly(x[1:], y[1:]))), ("length", len(a)))
                    y = next((y for x, y in zip(a, b) if not (x[0] == y[0] and O.nearly(x[1:], y[1:]))), ("length", len(b)))
                    from .relworld import diff
                    raise Violation("order-dependent:" + op["op"], f"{op}: with hashes 0: {diff(O.canon(x), O.canon(y))[0]} "
                                                                   f"with hashes {k}: {diff(O.canon(x), O.canon(y))[1]}")
            rec.log(op["op"], O.canon([x[0] for x in a]))
        rec.nontrivial = compared >= 5

    def simplify_config(self, trace):
        vs = trace["config"]["variants"]
        for i in range(len(vs)):
            if len(vs) > 2:
                yield {**trace, "config": {**trace["config"], "variants": vs[:i] + vs[i + 1:]}}


SCENARIOS = {"C02": C02}
