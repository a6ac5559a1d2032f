"""Histories of several clients working on shared networks, with faults: C01, C03, C04, C07, C08, C11, C24, C26."""
from . import relmodel as M
from .core import Scenario
from .labels import REL_POOL, VAL_POOL, VAR_POOL, random_spec
from .relworld import World, load


# ---------------------------------------------------------------------------------------------- generation helpers

def net_subset(rng, spec, whole):
    if whole:
        return dict(vars=spec["vars"], rels=spec["rels"])
    vs = rng.sample(sorted(spec["vars"]), rng.randint(1, len(spec["vars"])))
    return dict(vars={v: spec["vars"][v] for v in vs}, rels=rng.sample(spec["rels"], rng.randint(1, len(spec["rels"]))))


def random_rel(rng, rels, x, y, directed=0.25):
    r = rng.choice(sorted(rels))
    if rng.random() < directed:
        s, t = (x, y) if rng.random() < 0.5 else (y, x)
        return ["D", s[0], t[0], r]
    return r


def random_edges(rng, net, maxvars=4, directed=0.25, density=0.3):
    """Edges of a random connected sample with one value per variable, in an order that keeps it connected."""
    vs = sorted(net["vars"])
    rng.shuffle(vs)
    vs = vs[:rng.randint(1, min(maxvars, len(vs)))]
    nodes = [(v, rng.choice(sorted(net["vars"][v]))) for v in vs]
    edges, used = [], set()
    for i in range(1, len(nodes)):
        j = rng.randrange(i)
        edges.append([list(nodes[j]), list(nodes[i]), random_rel(rng, net["rels"], nodes[j], nodes[i], directed)])
        used.add(frozenset((i, j)))
    for i in range(len(nodes)):
        for j in range(i):
            if frozenset((i, j)) not in used and rng.random() < density:
                edges.append([list(nodes[j]), list(nodes[i]), random_rel(rng, net["rels"], nodes[j], nodes[i], directed)])
    return nodes, edges


def rel_json(r):
    return list(r) if isinstance(r, tuple) else r


def sub_edges(rng, core):
    """A random connected part of an existing sample, as (nodes, edges JSON)."""
    nodes = sorted(core[0])
    if not nodes:
        return [], []
    have = {rng.choice(nodes)}
    edges = []
    all_edges = sorted(core[1], key=repr)
    rng.shuffle(all_edges)
    for _ in range(rng.randint(0, len(all_edges))):
        for e in all_edges:
            if e not in edges and e[0] & have:
                edges.append(e)
                have |= e[0]
                break
    out = []
    for ep, r in edges:
        a, b = sorted(ep)
        out.append([list(a), list(b), rel_json(r)])
    return sorted(have), out


class Gen:
    def __init__(self, rng, config, profile):
        self.rng = rng
        self.p = profile
        self.config = config
        self.w = World(config, real=False)
        self.n = 0
        self.ops = []

    def new(self, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def some(self, *kinds, net=None, client=None, pred=None):
        hs = [h for h, r in self.w.h.items() if r.kind in kinds and (net is None or r.net == net)
              and (pred is None or pred(r))]
        if not hs:
            return None
        if client is not None and self.rng.random() < 0.6:
            own = [h for h in hs if self.w.h[h].owner == client]
            hs = own or hs
        if self.rng.random() < 0.5:
            hs = hs[-4:]
        return self.rng.choice(hs)

    def edges(self, nd):
        if self.config.get("wide"):
            return random_edges(self.rng, nd, self.rng.choice([4, 8, 13]), density=self.rng.choice([0.0, 0.1, 0.3]))
        return random_edges(self.rng, nd)

    def anynet(self):
        return self.rng.randrange(len(self.config["nets"]))

    def emit(self, op):
        r = self.w.apply(op)
        if r != "skip":
            self.ops.append(op)
        return r

    def count(self):
        r = self.rng
        return r.choice([1, 1, 1, 2, 3, 5, 9, 40, 10 ** 6] if r.random() < 0.94 else [2 ** 31 - 1, 10 ** 9 + 7, 10 ** 15 + 37, 2 ** 53 + 1, 10 ** 18 + 9, 10 ** 330 + 1, 10 ** 400 + 7])

    def faults(self, op, query=False, cancel=True):
        """Attach a fault to an operation with the profile's probability."""
        r = self.rng
        if r.random() < self.p.get("cancel", 0) and cancel:
            op["cancel"] = r.choice([1, 2, 3, r.randint(1, 10), r.randint(1, 40), r.randint(1, 200)])
        elif r.random() < self.p.get("provider", 0):
            op["fault"] = dict(op.get("fault") or {}, provider=r.choice([1, 1, 2, 2, 3, 4, r.randint(1, 12)]))
        return op

    # -------------------------------------------------------------------------------------- one operation each
    def g_mk(self, c, net=None):
        r = self.rng
        net = self.anynet() if net is None else net
        nd = self.w.nets[net]
        op = dict(op="mk", c=c, net=net, edges=[], out=self.new("S"), style=r.choice(["edges", "steps"]),
                  how=r.choice(["provider", "builder", "copy"]))
        src = self.some("G", "TB", "GB", "T", net=net, pred=lambda x: bool(x.m))
        x = r.random()
        if src and x < self.p.get("sub", 0.25):
            core = r.choice(sorted(self.w.h[src].m, key=repr))
            nodes, op["edges"] = sub_edges(r, core)
            if not op["edges"] and nodes:
                op["node"] = list(nodes[0])
        elif x < 0.93:
            nodes, op["edges"] = self.edges(nd)
            if not op["edges"]:
                op["node"] = list(nodes[0])
        elif not self.p.get("no_k0") and x > 0.98:
            pass
        else:
            v = r.choice(sorted(nd["vars"]))
            op["node"] = [v, r.choice(sorted(nd["vars"][v]))]
        if r.random() < 0.15:
            op["name"] = r.choice(["n", "same", "x y", "O_1"])
        self.emit(op)
        return op["out"]

    def g_sb_new(self, c):
        self.emit(dict(op="sb_new", c=c, net=self.anynet(), out=self.new("B"),
                       how=self.rng.choice(["provider", "builder", "copy"])))

    def g_sb_copy(self, c):
        b = self.some("B", client=c)
        if b:
            self.emit(dict(op="sb_copy", c=c, b=b, out=self.new("B")))

    def g_sb_from(self, c):
        s = self.some("S", client=c)
        if s:
            self.emit(dict(op="sb_from", c=c, s=s, out=self.new("B")))

    def g_sb_name(self, c):
        b = self.some("B")
        if b:
            self.emit(dict(op="sb_name", c=c, b=b, name=self.rng.choice(["n", "m", None])))

    def node(self, nd, wild=0.0):
        r = self.rng
        if r.random() < wild:
            return r.choice([[r.choice(VAR_POOL), r.choice(VAL_POOL)],
                             [r.choice(sorted(nd["vars"])), r.choice(VAL_POOL)]])
        v = r.choice(sorted(nd["vars"]))
        return [v, r.choice(sorted(nd["vars"][v]))]

    def g_sb_add(self, c):
        r = self.rng
        b = self.some("B", client=c)
        if not b:
            return self.g_sb_new(c)
        ref = self.w.h[b]
        nd = self.w.nets[ref.net]
        x = self.node(nd, 0.08)
        if ref.m[0] and r.random() < 0.8:
            x = list(r.choice(sorted(ref.m[0])))
        y = self.node(nd, 0.08)
        if not self.p.get("multi") or r.random() < 0.7:
            # keep to one value per variable where possible
            have = {v: val for v, val in ref.m[0]}
            free = [v for v in nd["vars"] if v != x[0]]
            if free and r.random() < 0.9:
                v = r.choice(sorted(free))
                y = [v, have.get(v) or r.choice(sorted(nd["vars"][v]))]
            if not self.p.get("multi") and any(v == n[0] and val != n[1] for v, val in ref.m[0] for n in (x, y)):
                return None
        if r.random() < 0.5:
            x, y = y, x
        rel = r.choice(sorted(nd["rels"])) if r.random() < 0.94 else r.choice(REL_POOL)
        if r.random() < 0.3:
            op = dict(op="sb_dir", c=c, b=b, x=x, y=y, rel=rel)
        else:
            op = dict(op="sb_add", c=c, b=b, x=x, y=y, rel=rel, frozen=r.random() < 0.3)
            if r.random() < 0.1 and x[0] != y[0]:
                # a directed relation handed over explicitly, sometimes with foreign endpoints
                op["rel"] = ["D", x[0], y[0], rel]
        self.emit(self.faults(op))

    def g_sb_join(self, c):
        r = self.rng
        b = self.some("B", client=c)
        if not b:
            return self.g_sb_new(c)
        ref = self.w.h[b]
        same = r.random() >= self.p.get("foreign", 0.05)
        s = None
        if same:
            ok = [h for h, x in self.w.h.items() if x.kind == "S" and x.net == ref.net]
            good = [h for h in ok if self.w.join_valid(ref, self.w.h[h])]
            near = [h for h in ok if self.w.h[h].m[0] & ref.m[0]]
            pool = good if good and r.random() < 0.55 else near if near and r.random() < 0.7 else ok
            s = r.choice(pool) if pool else None
            if not self.p.get("multi") and s and not M.one_value_per_variable(self.w.h[s].m):
                return None
        else:
            s = self.some("S", pred=lambda x: x.net != ref.net)
        if s:
            self.emit(self.faults(dict(op="sb_join", c=c, b=b, s=s)))

    def g_sb_canjoin(self, c):
        b, s = self.some("B", client=c), self.some("S")
        if b and s and (self.w.h[b].net == self.w.h[s].net or self.rng.random() < self.p.get("foreign", 0.05) * 3):
            self.emit(dict(op="sb_canjoin", c=c, b=b, s=s))

    def g_sb_build(self, c):
        b = self.some("B", client=c, pred=(lambda x: bool(x.m[0])) if self.rng.random() < 0.8 else None)
        if b:
            self.emit(self.faults(dict(op="sb_build", c=c, b=b, out=self.new("S"))))

    def g_sb_single(self, c):
        b = self.some("B", client=c)
        if b:
            self.emit(self.faults(dict(op="sb_single", c=c, b=b, x=self.node(self.w.nets[self.w.h[b].net], 0.2),
                                       out=self.new("S"))))

    def g_sb_edges(self, c):
        r = self.rng
        b = self.some("B", client=c, pred=lambda x: not x.m[0])
        if not b:
            return self.g_sb_new(c)
        nd = self.w.nets[self.w.h[b].net]
        _, edges = self.edges(nd)
        es = [[[e[0], e[1]], e[2]] for e in edges]
        if r.random() < 0.4 and es:
            how = r.choice(["drop", "unknown", "rel", "one", "three", "same", "empty", "apart"])
            i = r.randrange(len(es))
            if how == "drop":
                del es[i]
            elif how == "unknown":
                es[i][0][0] = [es[i][0][0][0], "nope"]
            elif how == "rel":
                es[i][1] = "nope"
            elif how == "one":
                es[i][0] = es[i][0][:1]
            elif how == "three":
                es[i][0] = es[i][0] + [self.node(nd)]
            elif how == "same":
                v = r.choice(sorted(nd["vars"]))
                xs = sorted(nd["vars"][v])
                if len(xs) > 1:
                    es.append([[[v, xs[0]], [v, xs[1]]], r.choice(sorted(nd["rels"]))])
            elif how == "apart":
                v, w = r.choice(sorted(nd["vars"])), r.choice(sorted(nd["vars"]))
                es.append([[[v, r.choice(sorted(nd["vars"][v]))], [w, r.choice(sorted(nd["vars"][w]))]],
                           r.choice(sorted(nd["rels"]))])
            else:
                es = []
        if not self.p.get("multi"):
            seen = {}
            for ep, _ in es:
                for v, x in ep:
                    if seen.setdefault(v, x) != x:
                        return None
        self.emit(self.faults(dict(op="sb_edges", c=c, b=b, edges=es, out=self.new("S"))))

    def g_transform(self, c):
        s = self.some("S")
        if s:
            nd = self.w.nets[self.w.h[s].net]
            rep = {}
            for v, _ in self.w.h[s].m[0]:
                if self.rng.random() < 0.5:
                    rep[v] = self.rng.choice(sorted(nd["vars"][v]) + (["nope"] if self.rng.random() < 0.1 else []))
            self.emit(self.faults(dict(op="s_transform", c=c, s=s, rep=rep, out=self.new("S"))))

    def g_s_query(self, c):
        r = self.rng
        s = self.some("S")
        if not s:
            return self.g_mk(c)
        ref = self.w.h[s]
        q = r.choice(["near", "belt", "belt", "external", "external", "external", "similarity", "subgraph", "equal", "restrict",
                      "node", "has", "all"])
        op = dict(op="s_query", c=c, s=s, q=q)
        nd = self.w.nets[ref.net]
        if q in ("near", "belt", "external"):
            own = sorted(ref.m[0])
            other = self.some("S", net=ref.net)
            pool = own * 3 + sorted(self.w.h[other].m[0])
            if not pool:
                return None
            op["at"] = [list(r.choice(pool))] if q == "near" else \
                [list(n) for n in sorted(set(r.choice(pool) for _ in range(r.randint(0 if r.random() < 0.1 else 1, 3))))]
            if r.random() < 0.5:
                rels = {x for _, x in ref.m[1]} | set(nd["rels"])
                op["filter"] = [rel_json(x) for x in sorted(rels, key=repr) if r.random() < 0.6]
        elif q in ("similarity", "subgraph", "equal"):
            o = self.some("S", net=ref.net, pred=lambda x: x.m == ref.m) if r.random() < 0.25 else \
                self.some("S", "S", "B", net=ref.net)
            if not o:
                return None
            op["o"] = o
        elif q == "restrict":
            op["vars"] = [v for v in sorted(nd["vars"]) if r.random() < 0.6]
        self.emit(self.faults(op))

    def g_pick(self, c):
        t = self.some("T", "TB", "G", "K", pred=lambda x: bool(x.m))
        if t:
            self.emit(dict(op="pick", c=c, t=t, i=self.rng.randrange(8), out=self.new("S")))

    # sets
    def g_tb_new(self, c):
        net = self.anynet()
        init = []
        if self.rng.random() < 0.3:
            for _ in range(self.rng.randint(0, 3)):
                s = self.some("S", net=net)
                if s:
                    init.append([s, self.count()])
        self.emit(dict(op="tb_new", c=c, net=net, init=init, scribble=self.rng.random() < 0.5, out=self.new("TB")))

    def g_tb_copy(self, c):
        b = self.some("TB", client=c)
        if b:
            self.emit(dict(op="tb_copy", c=c, tb=b, out=self.new("TB")))

    def g_tb_from(self, c):
        t = self.some("T", client=c)
        if t:
            self.emit(dict(op="tb_from", c=c, t=t, out=self.new("TB")))

    def sample_for(self, net, foreign):
        if foreign:
            return self.some("S", pred=lambda x: x.net != net)
        return self.some("S", net=net) or self.g_mk(0, net)

    def isforeign(self):
        return self.rng.random() < self.p.get("foreign", 0.05)

    def g_tb_add(self, c):
        b = self.some("TB", client=c)
        if not b:
            return self.g_tb_new(c)
        s = self.sample_for(self.w.h[b].net, self.isforeign())
        if s:
            self.emit(self.faults(dict(op="tb_add", c=c, tb=b, s=s, n=self.count())))

    def g_tb_addall(self, c):
        b = self.some("TB", client=c)
        if not b:
            return self.g_tb_new(c)
        net = self.w.h[b].net
        foreign = self.isforeign()
        t = self.some("T", "TB", pred=lambda x: (x.net != net) == foreign)
        if t:
            self.emit(self.faults(dict(op="tb_addall", c=c, tb=b, t=t)))

    def g_tb_remove(self, c):
        b = self.some("TB", client=c)
        if b:
            ref = self.w.h[b]
            s = self.some("S", net=ref.net, pred=lambda x: (x.m in ref.m) or self.rng.random() < 0.15)
            if s:
                self.emit(self.faults(dict(op="tb_remove", c=c, tb=b, s=s)))

    def g_tb_removeall(self, c):
        b = self.some("TB", client=c)
        if b:
            ref = self.w.h[b]
            t = self.some("T", "TB", net=ref.net, pred=lambda x: set(x.m) <= set(ref.m) or self.rng.random() < 0.3)
            if t:
                self.emit(self.faults(dict(op="tb_removeall", c=c, tb=b, t=t)))

    def g_tb_build(self, c):
        b = self.some("TB", client=c)
        if b:
            op = dict(op="tb_build", c=c, tb=b, out=self.new("T"))
            if self.rng.random() < 0.05:
                op["empty"] = True
            self.emit(self.faults(op))

    def g_t_union(self, c):
        t = self.some("T", client=c)
        if t:
            net, foreign = self.w.h[t].net, self.isforeign()
            u = self.some("T", pred=lambda x: (x.net != net) == foreign)
            if u:
                self.emit(self.faults(dict(op="t_union", c=c, t=t, u=u, out=self.new("T"))))

    def g_t_joinsets(self, c):
        t = self.some("T", client=c)
        if t:
            net = self.w.h[t].net
            ts = [t] + [self.some("T", net=net) for _ in range(self.rng.randint(0, 3))]
            if self.isforeign():
                u = self.some("T", pred=lambda x: x.net != net)
                if u:
                    ts.insert(self.rng.randint(0, len(ts)), u)
            if self.rng.random() < 0.03:
                ts = []
            self.emit(self.faults(dict(op="t_joinsets", c=c, ts=ts, out=self.new("T"))))

    def pred(self, net):
        r = self.rng
        nd = self.w.nets[net]
        v = r.choice(sorted(nd["vars"]))
        return r.choice([dict(p="var", v=v), dict(p="value", v=v, x=r.choice(sorted(nd["vars"][v]))),
                         dict(p="size", n=r.randint(1, 5)), dict(p="odd"), dict(p="all"), dict(p="none")])

    def inner_op(self, c, avoid=()):
        """Something a call-back may do to a builder in the middle of an operation."""
        b = self.some("TB", "GB", pred=lambda x: True)
        if not b or b in avoid:
            return None
        ref = self.w.h[b]
        s = self.some("S", net=ref.net)
        if not s:
            return None
        return dict(op="tb_add", c=c, tb=b, s=s, n=2) if ref.kind == "TB" else dict(op="gb_add", c=c, gb=b, s=s, n=2)

    def g_t_filter(self, c):
        t = self.some("T", client=c)
        if not t:
            return None
        op = dict(op="t_filter", c=c, t=t, pred=self.pred(self.w.h[t].net), out=self.new("T"))
        x = self.rng.random()
        if x < self.p.get("callback", 0):
            op["fault"] = {"raise": self.rng.randint(1, max(1, len(self.w.h[t].m)))}
        elif x < 2 * self.p.get("callback", 0):
            inner = self.inner_op(c)
            if inner:
                op["inner"] = inner
        else:
            self.faults(op)
        self.emit(op)

    def g_t_eq(self, c):
        t = self.some("T")
        if t:
            u = self.some("T", net=self.w.h[t].net, pred=lambda x: x.m == self.w.h[t].m or self.rng.random() < 0.3)
            op = dict(op="t_eq", c=c, t=t, u=u or t)
            if self.rng.random() < 0.6:
                op["perm"] = self.rng.randrange(1 << 16)
                op["swap"] = self.rng.random() < 0.5
            self.emit(op)

    def g_t_group(self, c):
        t = self.some("T", pred=lambda x: bool(x.m))
        if t:
            self.ops.append(self.faults(dict(op="t_group", c=c, t=t), query=True))

    def g_t_count(self, c):
        t = self.some("T", "TB")
        if t:
            s = self.some("S", net=self.w.h[t].net)
            if s:
                self.emit(dict(op="t_count", c=c, t=t, s=s))

    def g_t_prob(self, c):
        t = self.some("T", pred=lambda x: bool(x.m))
        if t:
            self.ops.append(self.faults(dict(op="t_prob", c=c, t=t)))

    def g_t_ask(self, c):
        t = self.some("T")
        if t:
            op = dict(op="t_ask", c=c, t=t, q=self.rng.choice(["match", "joined", "have"]))
            if op["q"] == "joined":
                op["out"] = self.new("S")
            elif op["q"] == "have":
                spec = self.config["nets"][self.w.h[t].net]
                op["v"] = self.rng.choice(sorted(spec["vars"]))
                op["x"] = self.rng.choice(sorted(spec["vars"][op["v"]]))
            self.emit(self.faults(op))

    # graph builders and graphs
    def g_gb_new(self, c):
        self.emit(dict(op="gb_new", c=c, net=self.anynet(), out=self.new("GB"), name=self.rng.choice([None, "g"])))

    def g_gb_from(self, c):
        g = self.some("G", "K", client=c)
        if g:
            self.emit(dict(op="gb_from", c=c, g=g, out=self.new("GB")))

    def g_gb_name(self, c):
        b = self.some("GB")
        if b:
            self.emit(dict(op="gb_name", c=c, gb=b, name=self.rng.choice(["x", None, "y"])))

    def g_gb_add(self, c):
        r = self.rng
        b = self.some("GB", client=c)
        if not b:
            return self.g_gb_new(c)
        net = self.w.h[b].net
        foreign = self.isforeign()
        s = self.some("S", pred=lambda x: x.net != net) if foreign else \
            (self.some("S", net=net) if r.random() < 0.4 else self.g_mk(c, net))
        if s:
            op = dict(op="gb_add", c=c, gb=b, s=s)
            if r.random() < 0.7:
                op["n"] = self.count() if r.random() > self.p.get("badcount", 0.05) else r.choice([0, -1, -7])
            self.emit(self.faults(op))

    def g_gb_addmany(self, c):
        r = self.rng
        b = self.some("GB", client=c)
        if not b:
            return self.g_gb_new(c)
        net = self.w.h[b].net
        ss = [self.some("S", net=net) or self.g_mk(c, net) for _ in range(r.randint(0, 5))]
        if self.isforeign():
            f = self.some("S", pred=lambda x: x.net != net)
            if f:
                ss.insert(r.randint(0, len(ss)), f)
        op = dict(op="gb_addmany", c=c, gb=b, ss=ss)
        if r.random() < 0.5:
            op["n"] = self.count() if r.random() > self.p.get("badcount", 0.05) else 0
        if r.random() < self.p.get("callback", 0):
            op["fault"] = dict(iter_raise=r.randint(0, len(ss)))
        elif r.random() < 0.2:
            op["inner"] = True                       # hand over a generator instead of a list
        else:
            if r.random() < self.p.get("cancel", 0):
                op["cancel"] = r.randint(1, 60)
        self.emit(op)

    def g_gb_buildsample(self, c):
        r = self.rng
        b = self.some("GB", client=c)
        if not b:
            return None
        nd = self.w.nets[self.w.h[b].net]
        _, edges = self.edges(nd)
        if not edges:
            return None
        op = dict(op="gb_buildsample", c=c, gb=b, edges=edges)
        x = r.random()
        if x < self.p.get("callback", 0):
            op["fault"] = {"raise": True}
        elif x < 2 * self.p.get("callback", 0):
            inner = self.inner_op(c)
            if inner:
                op["inner"] = inner
                if r.random() < 0.3:
                    op["fault"] = {"raise": True}
        elif self.isforeign():
            f = self.some("S", pred=lambda x: x.net != self.w.h[b].net)
            if f:
                op["fault"] = {"foreign": f}
        self.emit(op)

    def g_gb_build(self, c):
        b = self.some("GB", client=c, pred=(lambda x: bool(x.m)) if self.rng.random() < 0.9 else None)
        if b:
            self.emit(self.faults(dict(op="gb_build", c=c, gb=b, out=self.new("G"))))

    def g_cond(self, c):
        r = self.rng
        g = self.some("G", client=c)
        asked = [o["g"] for o in self.ops if o["op"] == "cond"]
        if asked and r.random() < 0.5:             # the graph that was asked before, again
            g = asked[-1] if r.random() < 0.7 else r.choice(asked)
        if not g:
            return self.g_gb_build(c)
        net = self.w.h[g].net
        foreign = self.isforeign()
        if foreign:
            s = self.some("S", pred=lambda x: x.net != net)
        elif r.random() < 0.6 and self.w.h[g].m:
            core = r.choice(sorted(self.w.h[g].m, key=repr))
            nodes, edges = sub_edges(r, core)
            s = self.new("S")
            op = dict(op="mk", c=c, net=net, edges=edges, out=s, style=r.choice(["edges", "steps"]))
            if not edges and nodes:
                op["node"] = list(nodes[0])
            if r.random() < 0.3:
                op["name"] = r.choice(["n", "same"])
            self.emit(op)
        else:
            s = self.some("S", net=net)
        if s and s in self.w.h:
            op = dict(op="cond", c=c, g=g, s=s, out=self.new("K"))
            if r.random() < 0.2:
                op["name"] = "k"
            self.emit(self.faults(op))

    def g_relgraph(self, c):
        k = self.some("K", client=c)
        if k:
            self.emit(dict(op="relgraph", c=c, k=k, out=self.new("G")))

    def g_query(self, c):
        r = self.rng
        g = self.some("G", "K")
        if not g:
            return None
        nd = self.w.nets[self.w.h[g].net]
        what = r.choice(["marg", "marg", "marg", "incl", "find", "find", "prob", "views", "shape", "shape"])
        op = dict(op="query", c=c, g=g, what=what)
        if what == "marg":
            if r.random() < 0.5:
                op["vars"] = r.sample(sorted(nd["vars"]), r.randint(0, len(nd["vars"])))
            op["unobserved"] = r.random() < 0.5
        if what == "find":
            op["values"] = [self.node(nd, 0.1) for _ in range(r.randint(0, 2))]
            if self.w.h[g].m and r.random() < 0.6:
                core = r.choice(sorted(self.w.h[g].m, key=repr))
                op["values"] = [list(n) for n in sorted(core[0]) if r.random() < 0.6]
        self.ops.append(self.faults(op))

    def g_fold(self, c):
        g = self.some("G", "K", pred=lambda x: bool(x.m))
        if g:
            self.emit(self.faults(dict(op="fold", c=c, g=g, out=self.new("F"), name=self.rng.choice([None, "f"]))))

    def g_act(self, c):
        r = self.rng
        k = self.some("K", pred=lambda x: bool(x.extra[0]) and (bool(x.m) or r.random() < 0.2))
        if not k:
            return self.g_cond(c)
        nd = self.w.nets[self.w.h[k].net]
        op = dict(op="act", c=c, k=k, out=self.new("A"))
        if r.random() < 0.6:
            rels = set(M.included_relations(self.w.h[k].m)) | set(nd["rels"])
            op["filter"] = [rel_json(x) for x in sorted(rels, key=repr) if r.random() < 0.55]
        self.emit(self.faults(op))

    # hostile clients
    def g_net_mutate(self, c):
        self.emit(dict(op="net_mutate", c=c, net=self.anynet(), how=self.rng.choice(["clear", "values", "add"]),
                       x=self.rng.choice(VAL_POOL + REL_POOL)))

    def g_scribble(self, c):
        h = self.some("S", "T", "TB", "G", "K", "F", "A")
        if h:
            self.emit(dict(op="scribble", c=c, h=h))

    def g_derive(self, c):
        h = self.some("S", "T", "G", "K")
        if not h:
            return None
        ref = self.w.h[h]
        if ref.kind in ("G", "K", "T") and len(ref.m) > 9:
            m = self.rng.choice(["factorized", "flags"])
        else:
            m = self.rng.choice(["joined", "on_vars", "group", "joined_sample", "factorized", "external", "flags"])
        op = dict(op="derive", c=c, h=h, m=m)
        if m == "on_vars" and self.rng.random() < 0.7:
            nd = self.w.nets[ref.net]
            op["vars"] = self.rng.sample(sorted(nd["vars"]), self.rng.randint(0, len(nd["vars"])))
        if self.rng.random() < self.p.get("cancel", 0) * 2:
            op["cancel"] = self.rng.randint(1, 150)
        self.emit(op)

    def bulk(self):
        """Objects of some size, through every way in which they come about."""
        r = self.rng
        made = [self.g_mk(0, 0) for _ in range(r.randint(6, 22))]
        made = [[s, self.count()] for s in dict.fromkeys(made) if s in self.w.h]
        ways = r.sample(["tb_new", "gb_new", "sb_from"], r.randint(1, 3))
        if "tb_new" in ways:
            init, seen = [], []
            for s, k in made:
                if self.w.h[s].m not in seen:
                    seen.append(self.w.h[s].m)
                    init.append([s, k])
            tb = self.new("TB")
            self.emit(dict(op="tb_new", c=0, net=0, init=init, scribble=r.random() < 0.5, out=tb))
            if "t_union" in self.p["weights"]:
                self.emit(dict(op="tb_build", c=0, tb=tb, out=self.new("T")))
        if "gb_new" in ways or not {"tb_new", "sb_from"} & set(self.p["weights"]):
            gb = self.new("GB")
            self.emit(dict(op="gb_new", c=0, net=0, out=gb))
            for s, k in made:
                self.emit(dict(op="gb_add", c=0, gb=gb, s=s, n=k))
            self.emit(dict(op="gb_build", c=0, gb=gb, out=self.new("G")))
        if "sb_from" in ways:
            s = max(made, key=lambda x: len(self.w.h[x[0]].m[1]))[0]
            self.emit(dict(op="sb_from", c=0, s=s, out=self.new("B")))

    def run(self, n):
        weights = self.p["weights"]
        names, ws = list(weights), list(weights.values())
        clients = self.rng.randint(1, 4)
        tries = 0
        if self.config.get("wide"):
            self.bulk()
            n += len(self.ops)
        elif self.rng.random() < self.p.get("preload", 0):
            # a network that already has some outcomes when the clients start
            gb = self.new("GB")
            self.emit(dict(op="gb_new", c=0, net=0, out=gb))
            for _ in range(self.rng.randint(2, 9)):
                s = self.g_mk(0, 0)
                self.emit(dict(op="gb_add", c=0, gb=gb, s=s, n=self.count()))
            self.emit(dict(op="gb_build", c=0, gb=gb, out=self.new("G")))
            n += len(self.ops)
        while len(self.ops) < n and tries < 6 * n:
            tries += 1
            c = self.rng.randrange(clients)
            getattr(self, "g_" + self.rng.choices(names, ws)[0])(c)
        return self.ops


SETUP = {"mk": 6}

PROFILES = {
    "C01": dict(weights=dict(mk=8, sb_new=2, sb_copy=2, sb_from=4, sb_name=1, sb_add=8, sb_join=5, sb_build=4, sb_single=1,
                             sb_edges=2, transform=3, pick=2, tb_new=3, tb_copy=1, tb_from=4, tb_add=8, tb_addall=4,
                             tb_remove=4, tb_removeall=2, tb_build=5, t_union=3, t_joinsets=2, t_filter=3, gb_new=2,
                             gb_from=4, gb_name=1, gb_add=8, gb_addmany=3, gb_buildsample=3, gb_build=6, cond=5,
                             relgraph=2, fold=3, act=3, query=2, net_mutate=2, scribble=6, derive=6),
                multi=False, cancel=0.08, provider=0.05, callback=0.1, foreign=0.04, nets=(1, 2), length=(10, 45)),
    "C03": dict(weights=dict(mk=5, sb_new=4, sb_copy=3, sb_from=4, sb_add=30, sb_join=14, sb_canjoin=5, sb_build=5,
                             sb_single=3, sb_edges=9, sb_name=1, net_mutate=0.7, transform=1),
                multi=True, cancel=0.03, provider=0.1, foreign=0.04, nets=(1, 2), length=(8, 40), sub=0.1),
    "C04": dict(weights=dict(mk=5, tb_new=3, tb_copy=3, tb_from=4, tb_add=12, tb_addall=7, tb_remove=7, tb_removeall=4,
                             tb_build=8, t_union=5, t_joinsets=4, t_filter=7, t_eq=4, t_group=4, t_count=3, t_ask=6, gb_new=2, gb_from=3,
                             gb_add=9, gb_addmany=6, gb_buildsample=5, gb_build=4, pick=3, relgraph=1, cond=1,
                             scribble=3, sb_from=1),
                multi=True, cancel=0.02, provider=0.03, callback=0.25, foreign=0.06, badcount=0.12, nets=(1, 2),
                length=(10, 50)),
    "C07": dict(preload=0.85, weights=dict(mk=4, gb_new=2, gb_from=3, gb_add=14, gb_addmany=4, gb_build=6, cond=16, relgraph=5,
                             pick=2, sb_from=0.5, transform=1, net_mutate=0.3, scribble=1),
                multi=False, cancel=0.12, provider=0.03, callback=0.05, foreign=0.02, nets=(1, 1), length=(10, 40),
                sub=0.35),
    "C08": dict(preload=0.85, weights=dict(mk=3, gb_new=2, gb_from=3, gb_add=14, gb_addmany=5, gb_build=6, cond=4, relgraph=2,
                             query=16, fold=6, tb_new=1, tb_add=3, tb_build=2, t_prob=3, net_mutate=0.3, scribble=1.5,
                             gb_buildsample=1),
                multi=False, cancel=0.1, provider=0.05, callback=0.05, foreign=0.0, nets=(1, 2), length=(10, 40),
                no_k0=False),
    "C11": dict(weights=dict(mk=10, sb_new=3, sb_from=3, sb_add=5, sb_join=8, sb_canjoin=5, sb_build=3, transform=3,
                             pick=5, tb_new=4, tb_from=3, tb_add=8, tb_addall=5, tb_build=4, t_union=6, t_joinsets=4,
                             gb_new=4, gb_from=3, gb_add=8, gb_addmany=5, gb_buildsample=4, gb_build=4, cond=7,
                             relgraph=2, t_filter=2, sb_copy=1),
                multi=False, cancel=0.0, provider=0.0, callback=0.05, foreign=0.45, nets=(2, 3), length=(12, 45),
                same_labels=True),
    "C24": dict(preload=0.85, weights=dict(mk=3, gb_new=1, gb_from=2, gb_add=14, gb_addmany=3, gb_build=5, cond=9, act=14, relgraph=2,
                             net_mutate=0.3),
                multi=False, cancel=0.08, provider=0.03, callback=0.0, foreign=0.0, nets=(1, 1), length=(10, 36),
                sub=0.3, nvars=(2, 5)),
    "C26": dict(preload=0.15, weights=dict(mk=9, sb_new=1, sb_copy=1, sb_from=4, sb_add=8, sb_join=3, sb_build=5, sb_single=1, sb_edges=2,
                             transform=6, pick=3, gb_add=2, gb_build=1, s_query=30, net_mutate=0.5, scribble=3),
                multi=False, cancel=0.08, provider=0.06, callback=0.0, foreign=0.0, nets=(1, 2), length=(10, 40),
                sub=0.2, nvars=(2, 6)),
}


class History(Scenario):
    level = "exploration"
    quick_runs = 16000
    thorough_runs = 600000
    real_components = ["scripts/relnet: graph_components, sample_graph, sample_set, sample_space, relation_graph, "
                       "conditional_graph, folded_graph, activation_graph, variables_graph (unmodified)"]
    stub_components = ["components provider wrapped by a failing pass-through", "clients and their call-backs",
                       "labels with simulator-chosen hashes"]
    assumptions = ["one thread at a time (thread interleaving is C09)", "every sample has at most one value per variable "
                   "except in C03/C04", "counts are at least one", "reference model in sim/relmodel.py"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        p = PROFILES[self.id]
        wide = rng.random() < 0.1
        spec = random_spec(rng, nvars=(6, 13) if wide else p.get("nvars", (2, 4)), nvals=(1, 3), nrels=(1, 3))
        n = rng.randint(*p["nets"])
        nets = []
        for i in range(n):
            whole = i == 0 or p.get("same_labels") and rng.random() < 0.7 or rng.random() < 0.4
            nets.append(net_subset(rng, spec, whole))
            if rng.random() < 0.12:
                nets[-1]["direct"] = True
        config = dict(labels=spec, nets=nets)
        if wide:
            config["wide"] = True
        length = rng.randint(*p["length"])
        if tier == "thorough" and rng.random() < 0.3:
            length *= 2
        ops = Gen(rng, config, p).run(length)
        return dict(config=config, ops=ops)

    def run(self, trace, rec):
        w = World(trace["config"], active={self.id}, real=True, rec=rec)
        for op in trace["ops"]:
            w.apply(op)
        w.finish()
        if self.id not in ("C07", "C08", "C24", "C26"):
            rec.nontrivial = rec.ops >= 5

    def simplify_op(self, op):
        yield from super().simplify_op(op)
        if "inner" in op:
            yield {k: v for k, v in op.items() if k != "inner"}
        for key in ("n",):
            if op.get(key) not in (None, 1):
                yield {**op, key: 1}
        for key in ("ss", "ts", "init"):
            for i in range(len(op.get(key, []))):
                yield {**op, key: op[key][:i] + op[key][i + 1:]}
        if op.get("op") in ("mk", "gb_buildsample") and len(op["edges"]) > 1:
            yield {**op, "edges": op["edges"][:-1]}
        if op.get("name"):
            yield {k: v for k, v in op.items() if k != "name"}

    def simplify_config(self, trace):
        lab = trace["config"]["labels"]
        for kind in ("str",):
            if lab["kind"] != kind:
                yield {**trace, "config": {**trace["config"], "labels": {**lab, "kind": kind}}}


RULES = {
    "C01": "one evaluation = one simulated history in which at least 5 operations ran; everything readable from every built object is fingerprinted when built and compared again after operations, faults and at the end",
    "C03": "one evaluation = one history of at least 5 builder steps; accept/reject and the content of all live builders are compared with the model after every step",
    "C04": "one evaluation = one history of at least 5 set/builder operations; contents of all live builders and of every built set are compared with the multiset model after every operation",
    "C07": "counted non-trivial when some conditioning kept part and dropped part of the outcomes",
    "C08": "counted non-trivial when some marginal had more than one value or a folded graph was compared",
    "C11": "one evaluation = one history of at least 5 operations on 2-3 networks with cross-network calls at every entry point",
    "C24": "counted non-trivial when some activation weight lay strictly between 0 and 1",
    "C26": "counted non-trivial when some query for neighbours had a non-empty answer; every query is put twice and the first answer emptied in between",
}

SCENARIOS = {}
for _id in PROFILES:
    SCENARIOS[_id] = type("History" + _id, (History,), dict(id=_id, rule=RULES[_id]))
