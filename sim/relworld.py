"""The simulated world of the relational network library: clients, networks, builders, built objects, faults.

One operation = one call into the library (plus what its call-backs do).  Every operation is described by a JSON
object and is interpreted by the same code in two modes: model only (used by the generator, never touching the
library) and real (calls the library, compares every answer with the model).  Comparisons carry the ids of the
properties they belong to; a mismatch that only concerns other properties abandons the run.
"""
import copy
import random
import sys

from . import relmodel as M
from .core import Abandon, RELNET, RESEARCH, Violation
from .labels import Universe
from . import relobs as O

LIB = None


FLUENT = {"sb_add": "b", "sb_dir": "b", "sb_join": "b", "tb_add": "tb", "tb_addall": "tb", "tb_removeall": "tb", "gb_add": "gb",
          "gb_addmany": "gb", "gb_buildsample": "gb"}      # steps that hand on their builder, so that steps can be chained


class Lib:
    def __init__(self):
        if RESEARCH not in sys.path:
            sys.path.insert(0, RESEARCH)
        from scripts.relnet import graph_components as gc, sample_graph as sg, sample_set as ss, relation_graph as rg
        self.gc, self.sg, self.ss, self.rg = gc, sg, ss, rg

        class FlakyProvider(gc.SampleGraphComponentsProvider):
            """Components provider of the simulator: the real one behind a fault injection seam."""

            def __init__(self, inner):
                self.inner = inner
                self.fail_at = None
                self.fired = False

            def _call(self):
                if self.fail_at is not None:
                    self.fail_at -= 1
                    if self.fail_at <= 0:
                        self.fail_at = None
                        self.fired = True
                        raise ProviderFault()

            def variables(self):
                self._call()
                return self.inner.variables()

            def relations(self):
                self._call()
                return self.inner.relations()

            def get_node(self, variable, value):
                self._call()
                return self.inner.get_node(variable, value)

            def get_edge(self, endpoints, relation):
                self._call()
                return self.inner.get_edge(endpoints, relation)

        self.FlakyProvider = FlakyProvider


def load():
    global LIB
    if LIB is None:
        LIB = Lib()
    return LIB


class ProviderFault(Exception):
    pass


class CallbackFault(Exception):
    pass


class Cancelled(BaseException):
    """Delivered between two lines of library code, as KeyboardInterrupt or a deadline would be."""


class LineCanceller:
    def __init__(self, at):
        self.left = at
        self.fired = False

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                raise Cancelled()
        return self._local

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(RELNET):
            return self._local
        return None


class Ref:
    """Model side of one handle, with the real object next to it."""
    __slots__ = ("kind", "net", "m", "real", "owner", "digest", "extra")

    def __init__(self, kind, net, m, real=None, owner=0, extra=None):
        self.kind, self.net, self.m, self.real, self.owner, self.extra = kind, net, m, real, owner, extra
        self.digest = None


BUILT = ("S", "T", "G", "K", "F", "A")


def rel_in(r):
    return tuple(r) if isinstance(r, list) else r


def edge_in(e):
    return (frozenset({tuple(e[0]), tuple(e[1])}), rel_in(e[2]))


class World:
    def __init__(self, config, active=(), real=True, rec=None):
        self.config = config
        self.active = set(active)
        self.real = real
        self.rec = rec
        self.h = {}
        self.U = Universe(config["labels"]).prime()
        self.nets = []
        self._next_digest = 0
        if real:
            self.lib = load()
        for i, n in enumerate(config["nets"]):
            net = dict(vars={v: frozenset(xs) for v, xs in n["vars"].items()}, rels=frozenset(n["rels"]), i=i)
            if real:
                L = self.U.label
                net["args"] = ({L(v): {L(x) for x in xs} for v, xs in n["vars"].items()}, {L(r) for r in n["rels"]})
                if n.get("direct"):
                    gb = self.lib.rg.RelationGraphBuilder(net["args"][0], net["args"][1])
                    net["first_builder"] = gb
                    net["provider"] = None
                else:
                    net["provider"] = self.lib.FlakyProvider(self.lib.gc.BuilderComponentsProvider(*net["args"]))
                    net["first_builder"] = self.lib.rg.RelationGraphBuilder(components_provider=net["provider"])
            self.nets.append(net)

    # ------------------------------------------------------------------------------------------ verdicts
    def bad(self, tags, kind, message):
        if self.active & set(tags):
            raise Violation(kind, message)
        raise Abandon()

    def same(self, tags, kind, got, want, what=""):
        if not O.nearly(got, want):
            self.bad(tags, kind, f"{what}: library gives {O.canon(got)}, should be {O.canon(want)}")

    # ------------------------------------------------------------------------------------------ handles
    def ref(self, h, *kinds):
        r = self.h.get(h)
        if r is None or (kinds and r.kind not in kinds):
            return None
        return r

    def put(self, h, kind, net, m, real=None, owner=0, extra=None):
        r = Ref(kind, net, m, real, owner, extra)
        self.h[h] = r
        if self.real and kind in BUILT and "C01" in self.active:
            r.digest = O.canon(self.observe(r))
        return r

    def drop(self, h):
        self.h.pop(h, None)

    def labels_pair(self, node):
        return (self.U.label(node[0]), self.U.label(node[1]))

    def label_rel(self, r):
        if isinstance(r, tuple):
            return self.lib.gc.DirectedRelation(self.U.label(r[1]), self.U.label(r[2]), self.U.label(r[3]))
        return self.U.label(r)

    def label_edges(self, edges):
        return frozenset((frozenset(self.labels_pair(n) for n in ep), self.label_rel(r)) for ep, r in edges)

    # ------------------------------------------------------------------------------------------ observing
    def observe(self, r):
        if r.kind == "S":
            return O.obs_sample_full(self.U, r.real)
        if r.kind == "T":
            return dict(O.obs_set_full(self.U, r.real), repr=repr(r.real))
        if r.kind in ("G", "K"):
            return O.obs_space_full(self.U, r.real)
        if r.kind == "F":
            return O.obs_folded(self.U, r.real)
        return O.obs_activation(self.U, r.real)

    def check_digest(self, h, why):
        r = self.h[h]
        if r.digest is None:
            return
        now = O.canon(self.observe(r))
        if now != r.digest:
            self.bad(("C01",), f"built-object-changed:{r.kind}",
                     f"{h} after {why}: was {diff(r.digest, now)[0]} now {diff(r.digest, now)[1]}")

    def check_some_digests(self, why, all_of_them=False):
        if "C01" not in self.active:
            return
        hs = [h for h, r in self.h.items() if r.digest is not None]
        if not hs:
            return
        if all_of_them:
            for h in hs:
                self.check_digest(h, why)
        else:
            for _ in range(2):
                self._next_digest = (self._next_digest + 1) % len(hs)
                self.check_digest(hs[self._next_digest], why)

    def obs_sample_builder(self, r):
        """Content of a sample builder through its public build(), None-like when it has no nodes."""
        if not r.m[0]:
            try:
                s = r.real.build()
            except Exception:
                return (frozenset(), frozenset())
            return O.obs_sample(self.U, s)
        return O.obs_sample(self.U, r.real.build())

    def obs_graph_builder(self, r):
        if not r.m:
            try:
                g = r.real.build()
            except Exception:
                return {}
            return O.obs_items(self.U, g.outcomes)
        return O.obs_items(self.U, r.real.build().outcomes)

    def check_builders(self, tags, why, only=None):
        """All live builders hold what the model says (so no operation touched another builder)."""
        if not self.real:
            return
        for h, r in list(self.h.items()):
            if only is not None and h not in only:
                continue
            try:
                if r.kind == "B":
                    if "C03" not in self.active and only is None:
                        continue
                    got = self.obs_sample_builder(r)
                elif r.kind == "TB":
                    if not self.active & {"C04", "C11"} and only is None:
                        continue
                    got = O.obs_items(self.U, r.real)
                    if r.real.length() != sum(r.m.values()) or bool(r.real) != bool(r.m):
                        self.bad(tags, "builder-length", f"{h} after {why}: length {r.real.length()} for {O.canon(r.m)}")
                elif r.kind == "GB":
                    if not self.active & {"C04", "C11"} and only is None:
                        continue
                    got = self.obs_graph_builder(r)
                else:
                    continue
            except (Violation, Abandon):
                raise
            except Exception as e:
                self.bad(tags, f"builder-unreadable:{r.kind}", f"{h} after {why}: {e!r}")
            if got != r.m:
                self.bad(tags, f"builder-content:{r.kind}",
                         f"{h} after {why}: library has {O.canon(got)}, should be {O.canon(r.m)}")

    # ------------------------------------------------------------------------------------------ calling
    def call(self, op, do, tags, valid, net=None, query=False, why=None):
        """Run one library call under the operation's faults.  Returns (done, value): done says whether the call
        took effect (model and library alike)."""
        if op.get("cancel") and not self.real:
            return ("retry" if query else "cancelled"), None
        if not self.real:
            return valid, None
        rec = self.rec
        if op.get("cancel"):
            tracer = LineCanceller(op["cancel"])
            sys.settrace(tracer)
            try:
                do()
            except Cancelled:
                pass
            except Exception:
                pass
            finally:
                sys.settrace(None)
            if tracer.fired:
                rec.fault("cancelled_at_line")
            if not query:
                return "cancelled", None
        provider = self.nets[net]["provider"] if net is not None else None
        fault = op.get("fault") or {}
        if fault.get("provider") and provider is not None:
            provider.fail_at, provider.fired = fault["provider"], False
            try:
                value = do()
                raised = False
            except Exception:
                raised = True
            provider.fail_at = None
            if provider.fired:
                rec.fault("provider_failed")
                if raised:
                    if not query:
                        self.check_builders(tags, f"{op['op']} with failing components provider")
                # a retry follows (a swallowed fault must not matter either)
            if not raised:
                if not valid:
                    self.bad(tags, f"accepted:{op['op']}", f"{why or op}: accepted, should be refused")
                return True, value
            if not provider.fired and valid:
                self.bad(tags, f"refused:{op['op']}", f"{why or op}: refused, should be accepted")
        try:
            value = do()
        except Exception as e:
            if valid:
                self.bad(tags, f"refused:{op['op']}", f"{why or op}: {type(e).__name__}: {str(e)[:300]}")
            rec.fault("rejected_operation")
            return False, None
        if not valid:
            self.bad(tags, f"accepted:{op['op']}", f"{why or op}: accepted, should be refused")
        if op["op"] in FLUENT and value is not self.h[op[FLUENT[op["op"]]]].real:
            self.bad(tags, f"not-the-builder:{op['op']}", f"{op['op']} returns {type(value).__name__} instead of its builder")
        return True, value

    def apply(self, op):
        if self.real:
            self.rec.ops += 1
        f = getattr(self, "op_" + op["op"])
        r = f(op)
        if self.real:
            self.rec.log(op["op"], op.get("c"), r if isinstance(r, (str, bool, type(None), int)) else O.canon(r))
            self.check_some_digests(op["op"], all_of_them=bool(op.get("cancel")))
        return r

    def finish(self):
        if self.real:
            if self.active & {"C03", "C04", "C11"}:
                self.check_builders(tuple(self.active), "the end of the run")
            self.check_some_digests("the end of the run", all_of_them=True)

    # ------------------------------------------------------------------------------------------ sample builders
    def node_ok(self, net, node):
        return node[0] in net["vars"] and node[1] in net["vars"][node[0]]

    def rel_ok(self, net, r):
        return (r[3] if isinstance(r, tuple) else r) in net["rels"]

    def new_sb_real(self, net, how):
        if how == "copy":
            return copy.copy(net["first_builder"].sample_builder())
        if how == "provider" and net["provider"] is not None:
            return self.lib.sg.SampleGraphBuilder(net["provider"])
        return net["first_builder"].sample_builder()

    def op_sb_new(self, op):
        net = self.nets[op["net"]]
        real = self.new_sb_real(net, op.get("how")) if self.real else None
        self.put(op["out"], "B", op["net"], (frozenset(), frozenset()), real, op.get("c"))

    def op_sb_copy(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        self.put(op["out"], "B", b.net, b.m, copy.copy(b.real) if self.real else None, op.get("c"))

    def op_sb_from(self, op):
        s = self.ref(op["s"], "S")
        if not s:
            return "skip"
        self.put(op["out"], "B", s.net, s.m, s.real.builder() if self.real else None, op.get("c"))
        self.check_builders(("C03",), "builder() of a sample", only=[op["out"]])

    def op_sb_name(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        if self.real:
            b.real.set_name(op["name"])

    def _add(self, op, b, a, c, rel, do):
        net = self.nets[b.net]
        nodes, edges = b.m
        new = frozenset({a, c})
        valid = (len(new) == 2 and a[0] != c[0] and self.node_ok(net, a) and self.node_ok(net, c)
                 and self.rel_ok(net, rel) and (not nodes or bool(new & nodes))
                 and all(ep != new for ep, _ in edges))
        done, _ = self.call(op, do, ("C03",), valid, b.net, why=f"{op['op']} {a} {c} {rel} on {O.canon(b.m)}")
        if done == "cancelled":
            self.drop(op["b"])
            return "cancelled"
        if done:
            b.m = (nodes | new, edges | {(new, rel)})
        self.check_builders(("C03",), op["op"])
        return done

    def op_sb_add(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        a, c, rel = tuple(op["x"]), tuple(op["y"]), rel_in(op["rel"])

        def do():
            arg = {self.labels_pair(a), self.labels_pair(c)}
            if op.get("frozen"):
                arg = frozenset(arg)
            try:
                return b.real.add_relation(arg, self.label_rel(rel))
            finally:
                if isinstance(arg, set):
                    arg.clear()
        return self._add(op, b, a, c, rel, do)

    def op_sb_dir(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        a, c = tuple(op["x"]), tuple(op["y"])
        rel = ("D", a[0], c[0], op["rel"])
        return self._add(op, b, a, c, rel, lambda: b.real.add_directed_relation(
            self.labels_pair(a), self.labels_pair(c), self.U.label(op["rel"])))

    def join_valid(self, b, s):
        if b.net != s.net:
            return False
        (bn, be), (sn, se) = b.m, s.m
        if not sn:
            return False
        if not se:
            return sn <= bn or not bn
        if bn and not (bn & sn):
            return False
        bv = {v for v, _ in bn}
        seen = set()
        for n in sn:
            if n in bn:
                continue
            if n[0] in bv or n[0] in seen:
                return False
            seen.add(n[0])
        # a sample holding two values of one variable only fits where both nodes are already there
        rels = {ep: r for ep, r in be}
        return all(rels.get(ep, r) == r for ep, r in se)

    def op_sb_join(self, op):
        b, s = self.ref(op["b"], "B"), self.ref(op["s"], "S")
        if not b or not s:
            return "skip"
        foreign = b.net != s.net
        valid = self.join_valid(b, s)
        tags = ("C11", "C03") if foreign else ("C03",)
        done, _ = self.call(op, lambda: b.real.join_sample(s.real), tags, valid, b.net,
                            why=f"join_sample of {O.canon(s.m)}{' of another network' if foreign else ''} "
                                f"into {O.canon(b.m)}")
        if done == "cancelled":
            self.drop(op["b"])
            return "cancelled"
        if self.real:
            self.rec.probe("join_foreign" if foreign else "join_done" if done else "join_refused")
        if done:
            b.m = (b.m[0] | s.m[0], b.m[1] | s.m[1])
        self.check_builders(tags, "join_sample", only=[op["b"]] if foreign else None)
        return done

    def op_sb_canjoin(self, op):
        b, s = self.ref(op["b"], "B"), self.ref(op["s"], "S")
        if not b or not s:
            return "skip"
        foreign = b.net != s.net
        rels = {ep: r for ep, r in b.m[1]}
        want = all(rels.get(ep, r) == r for ep, r in s.m[1])
        tags = ("C11", "C03") if foreign else ("C03",)
        done, got = self.call(op, lambda: b.real.can_sample_be_joined(s.real), tags, not foreign, b.net, query=True)
        if self.real and done is True:
            self.same(tags, "can-join", bool(got), want, f"can_sample_be_joined of {O.canon(s.m)} into {O.canon(b.m)}")
        self.check_builders(tags, "can_sample_be_joined", only=[op["b"]])
        return want

    def op_sb_build(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        valid = bool(b.m[0])
        done, s = self.call(op, lambda: b.real.build(), ("C03",), valid, b.net, query=True)
        if done == "retry":
            done = valid
        if done:
            if self.real:
                self.same(("C03",), "built-sample", O.obs_sample(self.U, s), b.m, "build()")
            self.put(op["out"], "S", b.net, b.m, s, op.get("c"))
        return done

    def op_sb_single(self, op):
        b = self.ref(op["b"], "B")
        if not b:
            return "skip"
        n = tuple(op["x"])
        valid = self.node_ok(self.nets[b.net], n)
        m = (frozenset({n}), frozenset())
        done, s = self.call(op, lambda: b.real.build_single_node(*self.labels_pair(n)), ("C03",), valid, b.net,
                            query=True)
        if done == "retry":
            done = valid
        if done:
            if self.real:
                self.same(("C03",), "built-sample", O.obs_sample(self.U, s), m, "build_single_node")
            self.put(op["out"], "S", b.net, m, s, op.get("c"))
        self.check_builders(("C03",), "build_single_node", only=[op["b"]])
        return done

    def op_sb_edges(self, op):
        """build_from_edges on a builder that has nothing yet."""
        b = self.ref(op["b"], "B")
        if not b or b.m[0]:
            return "skip"
        net = self.nets[b.net]
        raw = [(frozenset(tuple(n) for n in e[0]), rel_in(e[1])) for e in op["edges"]]
        edges = frozenset(raw)
        if len({ep for ep, _ in edges}) != len(edges):
            return "skip"
        nodes = frozenset(n for ep, _ in edges for n in ep)
        valid = (bool(edges) and all(len(ep) == 2 and len({v for v, _ in ep}) == 2 for ep, _ in edges)
                 and all(self.node_ok(net, n) for n in nodes) and all(self.rel_ok(net, r) for _, r in edges)
                 and M.connected(nodes, edges))
        m = (nodes, edges)
        done, s = self.call(op, lambda: b.real.build_from_edges(self.label_edges(edges)), ("C03",), valid, b.net,
                            why=f"build_from_edges {O.canon(edges)}")
        if done == "cancelled":
            self.drop(op["b"])
            return "cancelled"
        if done:
            b.m = m
            if self.real:
                self.same(("C03",), "built-sample", O.obs_sample(self.U, s), m, "build_from_edges")
            self.put(op["out"], "S", b.net, m, s, op.get("c"))
        self.check_builders(("C03",), "build_from_edges")
        return done

    # ------------------------------------------------------------------------------------------ whole samples
    def op_mk(self, op):
        """A client builds one sample in one go."""
        net = self.nets[op["net"]]
        edges = frozenset(edge_in(e) for e in op["edges"])
        if edges:
            m = (frozenset(n for ep, _ in edges for n in ep), edges)
        elif op.get("node"):
            m = (frozenset({tuple(op["node"])}), frozenset())
        else:
            m = (frozenset(), frozenset())
        s = None
        if self.real:
            try:
                b = self.new_sb_real(net, op.get("how"))
                if op.get("name"):
                    b.set_name(op["name"])
                if not edges:
                    s = b.build_single_node(*self.labels_pair(tuple(op["node"]))) if op.get("node") else b.build_empty()
                elif op.get("style") == "edges":
                    s = b.build_from_edges(self.label_edges(edges))
                else:
                    for e in op["edges"]:
                        x, y, r = tuple(e[0]), tuple(e[1]), rel_in(e[2])
                        if isinstance(r, tuple):
                            src, dst = (x, y) if x[0] == r[1] else (y, x)
                            b.add_directed_relation(self.labels_pair(src), self.labels_pair(dst), self.U.label(r[3]))
                        else:
                            b.add_relation({self.labels_pair(x), self.labels_pair(y)}, self.label_rel(r))
                    s = b.build()
                got = O.obs_sample(self.U, s)
            except (Violation, Abandon):
                raise
            except Exception as e:
                self.bad(("C03", "C11"), "sample-refused", f"building {O.canon(m)}: {type(e).__name__}: {str(e)[:200]}")
            self.same(("C03", "C11"), "built-sample", got, m, "building a sample")
        self.put(op["out"], "S", op["net"], m, s, op.get("c"))

    def op_s_transform(self, op):
        s = self.ref(op["s"], "S")
        if not s:
            return "skip"
        net = self.nets[s.net]
        rep = op["rep"]
        touched = [v for v, _ in s.m[0] if v in rep]
        valid = all(self.node_ok(net, (v, rep[v])) for v in touched)
        f = lambda n: (n[0], rep[n[0]]) if n[0] in rep else n
        m = (frozenset(map(f, s.m[0])), frozenset((frozenset(map(f, ep)), r) for ep, r in s.m[1]))
        arg = {}

        def do():
            arg.update({self.U.label(v): self.U.label(x) for v, x in rep.items()})
            return s.real.transform_with_replaced_values(arg, op.get("name"))
        if len(m[0]) != len(s.m[0]) or not M.one_value_per_variable(s.m):
            return "skip"
        done, t = self.call(op, do, ("C26",), valid, s.net, query=True)
        if done == "retry":
            done = valid
        if done:
            if self.real:
                arg.clear()
                self.same(("C26",), "transformed", O.obs_sample(self.U, t), m, f"{O.canon(rep)} on {O.canon(s.m)}")
            self.put(op["out"], "S", s.net, m, t, op.get("c"))
        return done

    def op_s_query(self, op):
        """A structural query on one sample, put twice; the caller overwrites the first answer before the second."""
        s = self.ref(op["s"], "S")
        if not s:
            return "skip"
        t, q, m = ("C26",), op["q"], s.m
        o = self.ref(op["o"], "S", "B") if op.get("o") else None
        if op.get("o") and (not o or o.net != s.net):
            return "skip"
        if not M.one_value_per_variable(m):
            return "skip"
        if not self.real:
            return
        net, U, L = self.nets[s.net], self.U, self.U.label
        provider = net["provider"]
        flt = None if op.get("filter") is None else frozenset(rel_in(r) for r in op["filter"])
        at = [tuple(n) for n in op.get("at", [])]
        rflt = None if flt is None else {self.label_rel(r) for r in flt}
        nodes = {}
        for h in self.h.values():           # node objects as a client finds them
            if h.kind == "S" and h.net == s.net:
                for n in h.real.nodes:
                    nodes.setdefault(O.obs_node(U, n), n)
        if q in ("near", "belt", "external") and any(n not in nodes for n in at):
            return "skip"
        allowed = {e for e in m[1] if not flt or e[1] in flt}
        x = s.real
        if o and o.kind == "B":             # a sample somebody builds just for the question
            try:
                other = o.real.build() if o.m[0] else None
            except Exception:
                other = None
            if other is None:
                return "skip"
        else:
            other = o.real if o else None
        if q == "near":
            do = lambda: x.neighboring_values(nodes[at[0]], *([] if flt is None else [rflt]))
            want = {next(iter(e[0] - {at[0]})): e for e in allowed if at[0] in e[0]}
            read = lambda d: {O.obs_node(U, n): O.obs_edge(U, e) for n, e in d.items()}
        elif q in ("belt", "external"):
            centre = {nodes[n] for n in at}
            do = lambda: (x.belt_nodes if q == "belt" else x.external_nodes)(centre, *([] if flt is None else [rflt]))
            dist = M.distances(m, at, flt)
            want = {n: {e for e in allowed if n in e[0] and next(iter(e[0] - {n})) in dist
                        and dist[next(iter(e[0] - {n}))] < d}
                    for n, d in dist.items() if d and (d == 1 or q == "external")}
            if q == "belt":
                want = {n: {e for e in es if (e[0] - {n}) <= set(at)} for n, es in want.items()}
            read = lambda d: {O.obs_node(U, n): {O.obs_edge(U, e) for e in es} for n, es in d.items()}
        elif q == "similarity":
            do = lambda: x.similarity(other)
            want = float(M.similarity(m, o.m)) if m[0] or o.m[0] else 1.0
            read = lambda v: v
        elif q == "subgraph":
            do = lambda: x.is_subgraph(other)
            want = m[0] <= o.m[0] and m[1] <= o.m[1]
            read = bool
        elif q == "equal":
            do = lambda: (x == other, other == x, x != other, x in {other}, x in {other: 1}, hash(x) == hash(other), x == None, x == "x")
            want = (True, True, False, True, True, True) if m == o.m else (False, False, True, False, False, None)
            read = lambda v: tuple(map(bool, v[:5])) + ((bool(v[5]) or None,) if m == o.m else (None,)) if not (v[6] or v[7]) else v
            for xs, ys, kf in ((x.nodes, other.nodes, O.obs_node), (x.edges, other.edges, O.obs_edge)):
                for a in xs:
                    for b in ys:
                        eq = kf(U, a) == kf(U, b)
                        if bool(a == b) != eq or bool(a != b) == eq or eq and hash(a) != hash(b):
                            self.bad(t, "part-equality", f"{O.canon(kf(U, a))} == {O.canon(kf(U, b))} gives {a == b!r}")
                        if hasattr(a, "relation"):
                            eq = kf(U, a)[1] == kf(U, b)[1]
                            if bool(a.relation == b.relation) != eq:
                                self.bad(t, "relation-equality", f"{O.canon(kf(U, a)[1])} == {O.canon(kf(U, b)[1])} gives {not eq}")
        elif q == "restrict":
            do = lambda: x.variables_subgraph_hash({L(v) for v in op["vars"]})
            vs = set(op["vars"])
            want = frozenset({n for n in m[0] if n[0] in vs} | {e for e in m[1] if {v for v, _ in e[0]} <= vs})
            read = lambda f: frozenset(O.obs_edge(U, y) if hasattr(y, "endpoints") else O.obs_node(U, y) for y in f)
        elif q == "node":
            do = lambda: x.single_node_variable()
            want = None if m[1] or not m[0] else next(iter(m[0]))[0]
            read = U.name
        elif q == "has":
            pool = [(v, y) for v, ys in sorted(net["vars"].items()) for y in sorted(ys)]
            do = lambda: {(v, y): x.have_value(L(v), L(y)) for v, y in pool}
            want = {n: n in m[0] for n in pool}
            read = lambda d: {k: bool(v) for k, v in d.items()}
        else:                               # everything that can be read from it
            do = lambda: dict(O.obs_sample_full(U, x, texts=False), text=x.text_view())
            one = next(iter(m[0]), None)
            value = dict(m[0])
            want = dict(core=m, view=frozenset(m[1]) if m[1] else one, values=m[0], included=frozenset(value), single=not m[1],
                        k0=not m[0], pairs=frozenset(frozenset(v for v, _ in e[0]) for e in m[1]),
                        value_of={v: value.get(v) for v in U.spec["vars"]}, has={v: v in value for v in U.spec["vars"]},
                        text="{" + "; ".join(sorted(map(str, x.edges or x.nodes))) + "}")
            read = lambda d: d
        valid = not (q == "node" and want is None) and not (q in ("belt", "external") and not at)
        for again in (0, 1):
            done, got = self.call(op, do, t, valid, s.net, query=True, why=f"{q} on {O.canon(m)}")
            if not done:
                return "refused"
            try:
                answer = read(got)
            except (Violation, Abandon):
                raise
            except Exception as e:
                self.bad(t, f"unreadable-answer:{q}", f"{q} {op} on {O.canon(m)}: {e!r}")
            self.same(t, f"answer:{q}", answer, want, f"{q} {O.canon([at, flt, op.get('vars')])} on {O.canon(m)}"
                      + (f" and {O.canon(o.m)}" if o else "") + (" asked again" if again else ""))
            if q == "near" or q in ("belt", "external"):
                if q != "near":
                    if {O.obs_node(U, n) for n in centre} != set(at) or rflt is not None and len(rflt) != len(flt):
                        self.bad(t, f"argument-changed:{q}", f"{q} {op} on {O.canon(m)}")
                    for es in got.values():
                        es.clear()
                if want:
                    self.rec.nontrivial = True
                got.clear()
                self.rec.fault("returned_collection_mutated")
        self.same(t, "query-changed-sample", O.obs_sample(U, x), m, f"{q} on {O.canon(m)}")
        return q

    def pick_sample(self, mset, i):
        ks = sorted(mset, key=O.canon)
        return ks[i % len(ks)] if ks else None

    def real_sample_in(self, samples, core):
        for s in samples.samples():
            if O.obs_sample(self.U, s) == core:
                return s
        return None

    def op_pick(self, op):
        """Take a sample object out of a set or graph and use it as one's own."""
        t = self.ref(op["t"], "T", "TB", "G", "K")
        if not t:
            return "skip"
        core = self.pick_sample(t.m, op["i"])
        if core is None:
            return "skip"
        s = None
        if self.real:
            src = t.real.outcomes if t.kind in ("G", "K") else t.real
            s = self.real_sample_in(src, core)
            if s is None:
                self.bad(("C04", "C08"), "sample-missing", f"{O.canon(core)} not in {op['t']}")
        self.put(op["out"], "S", t.net, core, s, op.get("c"))

    # ------------------------------------------------------------------------------------------ sample sets
    def op_tb_new(self, op):
        net = self.nets[op["net"]]
        init = {}
        real_init = {}
        for h, c in op.get("init", []):
            s = self.ref(h, "S")
            if s and s.net == op["net"] and s.m not in init:
                init[s.m] = c
                real_init[s.real] = c
        real = None
        if self.real:
            p = net["provider"]
            if p is None:
                return "skip"
            real = self.lib.ss.SampleSetBuilder(p, real_init) if init else self.lib.ss.SampleSetBuilder(p)
        elif self.config["nets"][op["net"]].get("direct"):
            return "skip"
        self.put(op["out"], "TB", op["net"], dict(init), real, op.get("c"))
        if self.real and op.get("scribble"):
            real_init.clear()
            self.rec.fault("caller_argument_mutated")
        self.check_builders(("C04",), "SampleSetBuilder()", only=[op["out"]])

    def op_tb_copy(self, op):
        b = self.ref(op["tb"], "TB")
        if not b:
            return "skip"
        self.put(op["out"], "TB", b.net, dict(b.m), b.real.copy() if self.real else None, op.get("c"))
        self.check_builders(("C04",), "copy", only=[op["out"]])

    def op_tb_from(self, op):
        t = self.ref(op["t"], "T")
        if not t:
            return "skip"
        self.put(op["out"], "TB", t.net, dict(t.m), t.real.builder() if self.real else None, op.get("c"))
        self.check_builders(("C04",), "builder() of a set", only=[op["out"]])

    def op_tb_add(self, op):
        b, s = self.ref(op["tb"], "TB"), self.ref(op["s"], "S")
        if not b or not s:
            return "skip"
        foreign = b.net != s.net
        tags = ("C11", "C04") if foreign else ("C04", "C11")
        done, _ = self.call(op, lambda: b.real.add(s.real, op["n"]), tags, not foreign, b.net,
                            why=f"add {O.canon(s.m)}{' of another network' if foreign else ''}")
        if done == "cancelled":
            self.drop(op["tb"])
            return done
        if done:
            b.m = dict(b.m)
            b.m[s.m] = b.m.get(s.m, 0) + op["n"]
        self.check_builders(tags, "add")
        return done

    def op_tb_addall(self, op):
        b, t = self.ref(op["tb"], "TB"), self.ref(op["t"], "T", "TB")
        if not b or not t:
            return "skip"
        foreign = b.net != t.net
        if foreign and not t.m:
            return "skip"
        tags = ("C11", "C04") if foreign else ("C04", "C11")
        done, _ = self.call(op, lambda: b.real.add_all(t.real), tags, not foreign, b.net)
        if done == "cancelled":
            self.drop(op["tb"])
            if t.kind == "TB" and op["t"] != op["tb"]:
                pass
            return done
        if done:
            add = dict(t.m)
            b.m = dict(b.m)
            for k, c in add.items():
                b.m[k] = b.m.get(k, 0) + c
        self.check_builders(tags, "add_all")
        return done

    def op_tb_remove(self, op):
        b, s = self.ref(op["tb"], "TB"), self.ref(op["s"], "S")
        if not b or not s or b.net != s.net:
            return "skip"
        valid = s.m in b.m
        done, got = self.call(op, lambda: b.real.remove(s.real), ("C04",), valid, b.net)
        if done == "cancelled":
            self.drop(op["tb"])
            return done
        if done:
            if self.real:
                self.same(("C04",), "remove-result", (O.obs_sample(self.U, got[0]), got[1]), (s.m, b.m[s.m]), "remove")
            b.m = {k: c for k, c in b.m.items() if k != s.m}
        self.check_builders(("C04",), "remove")
        return done

    def op_tb_removeall(self, op):
        b, t = self.ref(op["tb"], "TB"), self.ref(op["t"], "T", "TB")
        if not b or not t or b.net != t.net:
            return "skip"
        valid = set(t.m) <= set(b.m)
        done, _ = self.call(op, lambda: b.real.remove_all(t.real), ("C04",), valid, b.net)
        if done == "cancelled":
            self.drop(op["tb"])
            return done
        if done:
            b.m = {k: c for k, c in b.m.items() if k not in t.m}
        self.check_builders(("C04",), "remove_all")
        return done

    def op_tb_build(self, op):
        b = self.ref(op["tb"], "TB")
        if not b:
            return "skip"
        m = {} if op.get("empty") else dict(b.m)
        done, t = self.call(op, (lambda: b.real.empty()) if op.get("empty") else (lambda: b.real.build()), ("C04",),
                            True, b.net, query=True)
        self.new_set(op, b.net, m, t, ("C04",))
        return len(m)

    def new_set(self, op, net, m, t, tags):
        if self.real:
            self.check_set(tags, op["op"], t, m)
        self.put(op["out"], "T", net, m, t, op.get("c"))

    def check_set(self, tags, what, t, m):
        self.same(tags, "set-content:" + what, O.obs_items(self.U, t), m, what)
        n = sum(m.values())
        self.same(tags, "set-length:" + what, (t.length, O.set_len(t), bool(t)), (n, n, bool(m)), what + " length")
        if self.active & set(tags):
            got = {O.obs_sample(self.U, s): t.count_of(s) for s in t.samples()}
            self.same(tags, "set-counts:" + what, got, m, what + " count_of")

    def op_t_union(self, op):
        a, b = self.ref(op["t"], "T"), self.ref(op["u"], "T")
        if not a or not b:
            return "skip"
        foreign = a.net != b.net
        tags = ("C11", "C04") if foreign else ("C04", "C11")
        done, t = self.call(op, lambda: a.real.union(b.real), tags, not foreign, a.net, query=True)
        if done == "retry":
            done = not foreign
        if done:
            m = dict(a.m)
            for k, c in b.m.items():
                m[k] = m.get(k, 0) + c
            self.new_set(op, a.net, m, t, ("C04",))
        self.sets_unchanged(op, (a, b), tags)
        return done

    def sets_unchanged(self, op, refs, tags):
        if self.real and self.active & set(tags):
            for r in refs:
                self.same(tags, "operand-changed", O.obs_items(self.U, r.real), r.m, f"operand of {op['op']}")

    def op_t_joinsets(self, op):
        rs = [self.ref(h, "T") for h in op["ts"]]
        if not all(rs):
            return "skip"
        nets = {r.net for r in rs}
        foreign = len(nets) > 1
        tags = ("C11", "C04") if foreign else ("C04", "C11")
        valid = bool(rs) and not foreign
        arg = []

        def do():
            arg.extend(r.real for r in rs)
            try:
                return self.lib.ss.SampleSetBuilder.join_sample_set(arg)
            finally:
                arg.clear()
        done, t = self.call(op, do, tags, valid, rs[0].net if rs else None, query=True)
        if done == "retry":
            done = valid
        if done:
            m = {}
            for r in rs:
                for k, c in r.m.items():
                    m[k] = m.get(k, 0) + c
            self.new_set(op, rs[0].net, m, t, ("C04",))
        self.sets_unchanged(op, rs, tags)
        return done

    def predicate(self, p, core):
        if p["p"] == "var":
            return any(v == p["v"] for v, _ in core[0])
        if p["p"] == "size":
            return len(core[0]) + len(core[1]) >= p["n"]
        if p["p"] == "value":
            return (p["v"], p["x"]) in core[0]
        if p["p"] == "odd":
            return len(core[1]) % 2 == 1
        return p["p"] == "all"

    def op_t_filter(self, op):
        t = self.ref(op["t"], "T")
        if not t:
            return "skip"
        p, fault = op["pred"], op.get("fault") or {}
        m = {k: c for k, c in t.m.items() if self.predicate(p, k)}
        raise_at = fault.get("raise")
        hits = [0]
        inner = op.get("inner")

        def pred(s):
            hits[0] += 1
            if raise_at and hits[0] == raise_at:
                self.rec.fault("callback_raised")
                raise CallbackFault()
            if inner and hits[0] == 1:
                self.inner(inner)
            return self.predicate(p, O.obs_sample(self.U, s))
        valid = not (raise_at and raise_at <= len(t.m))
        if not self.real and inner and t.m and not (raise_at == 1):
            self.inner(inner)
        done, f = self.call(op, lambda: t.real.filter_samples(pred), ("C04",), valid, None, query=True)
        if done == "retry":
            done = valid
        if done:
            self.new_set(op, t.net, m, f, ("C04",))
        self.sets_unchanged(op, (t,), ("C04",))
        self.check_builders(("C04",), "filter_samples")
        return done

    def inner(self, op):
        """An operation done by a call-back in the middle of another operation."""
        if self.real:
            self.rec.fault("reentrant_call")
        self.apply(op)

    def op_t_eq(self, op):
        a, b = self.ref(op["t"], "T"), self.ref(op["u"], "T")
        if not a or not b or a.net != b.net:
            return "skip"
        other_m, other = b.m, b.real
        if op.get("perm") is not None:
            # the same samples put together anew in another order, perhaps with two counts exchanged
            items = sorted(a.m.items(), key=lambda x: O.canon(x[0]))
            random.Random(op["perm"]).shuffle(items)
            if op.get("swap") and len(items) > 1:
                items[:2] = [(items[0][0], items[1][1]), (items[1][0], items[0][1])]
            other_m = dict(items)
            if self.real and self.nets[a.net]["provider"] is None:
                return "skip"
            if self.real:
                cores = {O.obs_sample(self.U, x): x for x in a.real.samples()}
                tb = self.lib.ss.SampleSetBuilder(self.nets[a.net]["provider"])
                for m, c in items:
                    tb.add(cores[m], c)
                other = tb.build()
        if self.real:
            self.same(("C04",), "set-equality", (bool(a.real == other), bool(other == a.real)),
                      (a.m == other_m,) * 2, "equality of sets")
            if a.m == other_m:
                self.same(("C04",), "set-hash", hash(a.real) == hash(other), True, "hash of equal sets")
        return a.m == other_m

    def op_t_group(self, op):
        """Groups of samples linked by common variable pairs: a partition of the set."""
        t = self.ref(op["t"], "T")
        if not t or not self.real:
            return "skip"
        want = M.groups(t.m)
        if want is None:  # two groups span the same variables: recorded finding of C06
            return "skip"
        done, got = self.call(op, lambda: t.real.group_intersecting(), ("C04",), True, t.net, query=True)
        got = {frozenset(self.U.name(v) for v in k): O.obs_items(self.U, x) for k, x in got.items()}
        self.same(("C04",), "groups", got, want, "group_intersecting")
        return len(want)

    def op_t_count(self, op):
        t, s = self.ref(op["t"], "T", "TB"), self.ref(op["s"], "S")
        if not t or not s or t.net != s.net:
            return "skip"
        valid = s.m in t.m
        done, n = self.call(op, lambda: t.real.count_of(s.real), ("C04",), valid, t.net, query=True)
        if self.real and done is True:
            self.same(("C04",), "count_of", n, t.m[s.m], "count_of")
        return t.m.get(s.m)

    def op_t_prob(self, op):
        t = self.ref(op["t"], "T")
        if not t or not t.m or not self.real:
            return "skip"
        n = sum(t.m.values())
        done, ps = self.call(op, lambda: t.real.probabilities(), ("C08",), True, t.net, query=True)
        self.check_probabilities(ps, t.m)
        for s in t.real.samples():
            self.same(("C08",), "probability_of", O.fl(t.real.probability_of(s)),
                      O.fl(t.m[O.obs_sample(self.U, s)] / n), "probability_of")
        return len(ps)

    def op_t_ask(self, op):
        """Questions put to a set as a whole, and the sample made of all its samples."""
        t = self.ref(op["t"], "T")
        if not t:
            return "skip"
        tags, q = ("C04",), op["q"]
        nodes = frozenset().union(*[s[0] for s in t.m])
        edges = frozenset().union(*[s[1] for s in t.m])
        fits = M.one_value_per_variable((nodes, edges))
        if q == "joined":
            valid = bool(t.m) and fits and all(s[0] for s in t.m) and M.connected(nodes, edges) and len({e[0] for e in edges}) == len(edges)
            done, r = self.call(op, lambda: t.real.make_joined_sample(), tags, valid, t.net, query=True)
            if done == "retry":
                done = valid
            if done:
                if self.real:
                    x, counts = r
                    self.same(tags, "joined-sample", O.obs_sample(self.U, x), (nodes, edges), f"of {O.canon(set(t.m))}")
                    self.same(tags, "joined-counts", sorted(counts), sorted(t.m.values()), "counts of the joined samples")
                    r = x
                self.put(op["out"], "S", t.net, (nodes, edges), r, op.get("c"))
            return done
        if not self.real:
            return
        if q == "match":
            done, r = self.call(op, lambda: t.real.is_all_values_match(), tags, True, t.net, query=True)
            want = fits
            if done is True and t.m:
                shared = frozenset.intersection(*[frozenset(n[0] for n in s[0]) for s in t.m])
                could = all(len({n for n in nodes if n[0] == v}) == 1 for v in shared)
                ok, can = self.call(op, lambda: t.real.can_join_samples(), tags, True, t.net, query=True)
                if ok is True:
                    self.same(tags, "set-can-join", bool(can), could, f"asked of {O.canon(set(t.m))}")
        else:
            v, x = op["v"], op["x"]
            var, val = self.U.label(v), self.U.label(x)
            done, r = self.call(op, lambda: (t.real.have_variable(var), t.real.have_value(var, val)), tags, True, t.net, query=True)
            want = (any(n[0] == v for n in nodes), (v, x) in nodes)
        if done is True:
            self.same(tags, "set-" + q, r, want, f"asked of {O.canon(set(t.m))}")
        return O.canon(want)

    def check_probabilities(self, ps, m):
        n = sum(m.values())
        got = {O.obs_sample(self.U, s): float(p) for s, p in ps}
        if len(got) != len(ps):
            self.bad(("C08",), "probabilities", "a sample is listed twice")
        self.same(("C08",), "probabilities", got, {k: c / n for k, c in m.items()}, "probabilities")
        if not O.close(sum(got.values()), 1.0):
            self.bad(("C08",), "probabilities", "do not sum to one")

    # ------------------------------------------------------------------------------------------ graph builders
    def op_gb_new(self, op):
        net = self.nets[op["net"]]
        if self.config["nets"][op["net"]].get("direct"):
            if any(r.kind == "GB" and r.net == op["net"] and r.extra == "first" for r in self.h.values()) \
                    or net.get("first_used"):
                return "skip"
            net["first_used"] = True
            self.put(op["out"], "GB", op["net"], {}, net["first_builder"] if self.real else None, op.get("c"), "first")
            return
        real = self.lib.rg.RelationGraphBuilder(components_provider=net["provider"], name=op.get("name")) \
            if self.real else None
        self.put(op["out"], "GB", op["net"], {}, real, op.get("c"))

    def op_gb_from(self, op):
        g = self.ref(op["g"], "G", "K")
        if not g:
            return "skip"
        self.put(op["out"], "GB", g.net, dict(g.m), g.real.builder() if self.real else None, op.get("c"))
        self.check_builders(("C04",), "builder() of a graph", only=[op["out"]])

    def op_gb_name(self, op):
        b = self.ref(op["gb"], "GB")
        if b and self.real:
            b.real.set_name(op["name"])

    def op_gb_add(self, op):
        b, s = self.ref(op["gb"], "GB"), self.ref(op["s"], "S")
        if not b or not s:
            return "skip"
        foreign = b.net != s.net
        n = op.get("n", 1)
        valid = not foreign and n >= 1
        tags = ("C11", "C04") if foreign else ("C04", "C11") if valid else ("C04",)
        do = (lambda: b.real.add_outcome(s.real)) if "n" not in op else (lambda: b.real.add_outcome(s.real, n))
        done, _ = self.call(op, do, tags, valid, b.net,
                            why=f"add_outcome {O.canon(s.m)} x{n}{' of another network' if foreign else ''}")
        if done == "cancelled":
            self.drop(op["gb"])
            return done
        if done:
            b.m = dict(b.m)
            b.m[s.m] = b.m.get(s.m, 0) + n
        self.check_builders(tags, "add_outcome")
        return done

    def op_gb_addmany(self, op):
        b = self.ref(op["gb"], "GB")
        ss = [self.ref(h, "S") for h in op["ss"]]
        if not b or not all(ss):
            return "skip"
        n = op.get("n", 1)
        fault = op.get("fault") or {}
        stop = fault.get("iter_raise")          # the caller's iterator fails before item number stop
        bad_at = next((i for i, s in enumerate(ss) if s.net != b.net or n < 1), None)
        limits = [x for x in (stop, bad_at) if x is not None and x <= len(ss)]
        foreign = bad_at is not None and n >= 1 and (stop is None or bad_at < stop)
        valid = not limits
        tags = ("C11", "C04") if foreign else ("C04",)
        arg = [s.real for s in ss]

        def do():
            given = arg
            if stop is not None or op.get("inner"):
                def it():
                    for i, s in enumerate(arg):
                        if i == stop:
                            self.rec.fault("iterator_raised")
                            raise CallbackFault()
                        yield s
                    if stop is not None and stop >= len(arg):
                        self.rec.fault("iterator_raised")
                        raise CallbackFault()
                given = it()
            if "n" in op:
                return b.real.add_outcomes(given, n)
            return b.real.add_outcomes(given)
        before = dict(b.m)
        done, _ = self.call(op, do, tags, valid, b.net)
        if done == "cancelled":
            self.drop(op["gb"])
            return done
        upto = min(limits) if limits else len(ss)
        prefixes = []
        acc = dict(before)
        prefixes.append(acc)
        for s in ss[:upto]:
            acc = dict(acc)
            acc[s.m] = acc.get(s.m, 0) + n
            prefixes.append(acc)
        if done or not self.real:
            b.m = prefixes[-1]
        else:
            got = None
            for p in reversed(prefixes):
                b.m = p
                if self.obs_graph_builder(b) == p:
                    got = p
                    break
            if got is None:
                b.m = before
                self.bad(tags, "partial-batch", f"add_outcomes refused: {O.canon(self.obs_graph_builder(b))} "
                                                f"from {O.canon(before)}")
            b.m = got
        self.check_builders(tags, "add_outcomes")
        return done

    def op_gb_buildsample(self, op):
        """build_sample with a call-back that builds, raises, re-enters or returns a foreign sample."""
        b = self.ref(op["gb"], "GB")
        if not b:
            return "skip"
        edges = [edge_in(e) for e in op["edges"]]
        fault = op.get("fault") or {}
        foreign = self.ref(fault["foreign"], "S") if fault.get("foreign") else None
        if fault.get("foreign") and (not foreign or foreign.net == b.net):
            return "skip"
        m = (frozenset(n for ep, _ in edges for n in ep), frozenset(edges))
        valid = not fault.get("raise") and not foreign
        inner = op.get("inner")

        def build(sb):
            for e in op["edges"]:
                sb.add_relation({self.labels_pair(tuple(e[0])), self.labels_pair(tuple(e[1]))},
                                self.label_rel(rel_in(e[2])))
            if inner:
                self.inner(inner)
            if fault.get("raise"):
                self.rec.fault("callback_raised")
                raise CallbackFault()
            return foreign.real if foreign else sb.build()
        if not self.real and inner:
            self.inner(inner)
        tags = ("C11", "C04") if foreign else ("C04",)
        done, _ = self.call(op, lambda: b.real.build_sample(build), tags, valid, None)
        if done == "cancelled":
            self.drop(op["gb"])
            return done
        if done and op["gb"] in self.h:
            b.m = dict(b.m)
            b.m[m] = b.m.get(m, 0) + 1
        self.check_builders(tags, "build_sample")
        return done

    def op_gb_build(self, op):
        b = self.ref(op["gb"], "GB")
        if not b:
            return "skip"
        valid = bool(b.m)
        done, g = self.call(op, lambda: b.real.build(), ("C04", "C07", "C08"), valid, b.net, query=True)
        if done == "retry":
            done = valid
        if done:
            self.new_graph(op, "G", b.net, dict(b.m), g, ("C04", "C07", "C08"))
        return done

    def new_graph(self, op, kind, net, m, g, tags, extra=None):
        if self.real:
            self.check_set(tags, op["op"], g.outcomes, m)
            self.check_name(tags, op, g)
        self.put(op["out"], kind, net, m, g, op.get("c"), extra)

    def check_name(self, tags, op, x):
        if op["op"] != "gb_build" and op.get("name") and (x.name != op["name"] or repr(x) != op["name"]):
            self.bad(tags, "name", f"{op['op']} named {op['name']!r} gives {x.name!r}, {x!r}")

    # ------------------------------------------------------------------------------------------ graphs
    def op_cond(self, op):
        g, s = self.ref(op["g"], "G"), self.ref(op["s"], "S")
        if not g or not s:
            return "skip"
        foreign = g.net != s.net
        tags = ("C11", "C07") if foreign else ("C07", "C11")
        done, k = self.call(op, lambda: g.real.conditional_graph(s.real, op.get("name")), tags, not foreign, g.net,
                            query=True)
        if done == "retry":
            done = not foreign
        if done:
            m = M.condition(g.m, s.m)
            if self.real:
                self.same(("C07",), "condition", O.obs_items(self.U, k.outcomes), m,
                          f"conditioning {O.canon(g.m)} on {O.canon(s.m)}")
                self.same(("C07",), "evidence", O.obs_sample(self.U, k.evidence), s.m, "evidence")
                self.same(("C07",), "source-changed", O.obs_items(self.U, g.real.outcomes), g.m, "source graph")
                again = k.relation_graph().conditional_graph(s.real)
                self.same(("C07",), "condition-again", O.obs_items(self.U, again.outcomes), m, "conditioning again")
            self.new_graph(op, "K", g.net, m, k, ("C07",), extra=s.m)
            if self.real and self.active & {"C07"}:
                self.rec.nontrivial = self.rec.nontrivial or (0 < len(m) < len(g.m))
                self.rec.probe("conditioned_to_part" if 0 < len(m) < len(g.m) else
                               "conditioned_to_nothing" if not m else "conditioned_to_all")
                if any(not (M.variables_of(o) & M.variables_of(s.m)) for o in m) and s.m[0]:
                    self.rec.probe("kept_outcome_sharing_no_variable")
                if any(s.m[0] <= o[0] and not s.m[1] <= o[1] for o in g.m):
                    self.rec.probe("outcome_with_evidence_nodes_but_other_edges")
        return done

    def op_relgraph(self, op):
        k = self.ref(op["k"], "K", "G")
        if not k:
            return "skip"
        g = k.real.relation_graph(op.get("name")) if self.real else None
        self.new_graph(op, "G", k.net, dict(k.m), g, ("C07", "C04"))

    def op_query(self, op):
        """Everything C08 says about one graph."""
        g = self.ref(op["g"], "G", "K")
        if not g:
            return "skip"
        if not self.real:
            return
        t = ("C08",)
        net = self.nets[g.net]
        what = op["what"]
        L = self.U.label
        if what == "marg":
            vs = op.get("vars")
            arg = None if vs is None else {L(v) for v in vs}
            unob = bool(op.get("unobserved"))
            want = {v: {x: O.fl(p) for x, p in d.items()} for v, d in
                    M.marginals(g.m, set(vs) if vs else set(net["vars"]), unob).items()}
            done, got = self.call(op, lambda: g.real.marginal_variables_probability(arg, unob), t, True, g.net, True)
            self.same(t, "marginals", O.obs_marginals(self.U, got), want, "marginals")
            for d in got.values():
                if not O.close(sum(d.values()), 1.0):
                    self.bad(t, "marginals-sum", f"{O.canon(O.obs_marginals(self.U, got))}")
            self.rec.nontrivial = self.rec.nontrivial or any(len(d) > 1 for d in want.values())
        elif what == "incl":
            done, got = self.call(op, lambda: (g.real.included_variables(), g.real.included_relations()), t, True,
                                  g.net, True)
            self.same(t, "included-variables", O.obs_variables(self.U, got[0]), M.included_variables(g.m),
                      "included_variables")
            self.same(t, "included-relations", frozenset(O.obs_relation(self.U, r) for r in got[1]),
                      M.included_relations(g.m), "included_relations")
            if g.kind == "G":
                self.same(t, "network-variables", O.obs_variables(self.U, g.real.variables), net["vars"], "variables")
                self.same(t, "network-relations", frozenset(O.obs_relation(self.U, r) for r in g.real.relations),
                          net["rels"], "relations")
        elif what == "find":
            vals = {tuple(x) for x in op["values"]}
            arg = {self.labels_pair(n) for n in vals}
            done, got = self.call(op, lambda: g.real.find_for_values(arg), t, True, g.net, True)
            want = {k: c for k, c in g.m.items() if vals <= k[0]}
            self.check_set(t, "find_for_values", got, want)
        elif what == "prob":
            n = sum(g.m.values())
            if n:
                done, ps = self.call(op, lambda: g.real.outcomes.probabilities(), t, True, g.net, True)
                self.check_probabilities(ps, g.m)
                for s in g.real.outcomes.samples():
                    self.same(t, "probability_of", O.fl(g.real.outcomes.probability_of(s)),
                              O.fl(g.m[O.obs_sample(self.U, s)] / n), "probability_of")
        elif what == "views":
            done, got = self.call(op, lambda: g.real.outcomes_as_edges_sets(), t, True, g.net, True)
            seen = {}
            for view, c in got:
                k = O.obs_edges_set(self.U, view)
                seen[k] = seen.get(k, 0) + c
            self.same(t, "edges-sets", seen, g.m, "outcomes_as_edges_sets")
            done, got = self.call(op, lambda: g.real.describe(), t, True, g.net, True)
            n = [x for k, x in got.items() if k.startswith("number") and k.endswith("outcomes")]
            self.same(t, "described-number", n, [sum(g.m.values())], "describe")
        elif what == "shape":
            if g.kind == "G":
                done, got = self.call(op, lambda: (g.real.is_joined(), g.real.is_factorized()), t, True, g.net, True)
                self.same(t, "shape", (bool(got[0]), bool(got[1])), (M.is_joined(g.m), M.is_factorized(g.m)),
                          "is_joined, is_factorized")
            fits = M.is_factorized(g.m)
            done, got = self.call(op, lambda: g.real.factorized(), t, fits, g.net, True)
            if done is True:
                self.same(t, "factors", sorted(O.canon(O.obs_items(self.U, x)) for x in got),
                          sorted(map(O.canon, M.factors(g.m))), "factorized")
        return what

    def op_fold(self, op):
        g = self.ref(op["g"], "G", "K")
        if not g:
            return "skip"
        done, f = self.call(op, lambda: g.real.folded_graph(op.get("name")), ("C08",), True, g.net, query=True)
        if self.real:
            t = ("C08",)
            net = self.nets[g.net]
            n = sum(g.m.values())
            nodes, edges = M.folded(g.m)
            self.check_name(t, op, f)
            got = O.obs_folded(self.U, f)
            self.same(t, "folded-n", got["n"], n, "number_of_outcomes")
            self.same(t, "folded-variables", got["variables"], frozenset(nodes), "folded variables")
            self.same(t, "folded-edges", got["edges"], edges, "folded edges")
            want = {}
            for v, d in nodes.items():
                total = sum(d.values())
                marg = {x: O.fl(d.get(x, 0) / n) for x in net["vars"][v]}
                marg["plain:unobserved"] = O.fl((n - total) / n)
                want[v] = dict(values=net["vars"][v], counts={(v, x): c for x, c in d.items()}, unobserved=n - total,
                               marginal=marg, found=True)
            self.same(t, "folded-nodes", got["nodes"], want, "folded nodes")
            self.rec.nontrivial = True
            absent = [v for v in net["vars"] if v not in nodes and f.folded_node(self.U.label(v)) is not None]
            self.same(t, "folded-node-found", absent, [], "variables that do not occur")
            key = (n,)
            self.check_equal_graphs(t, g, f, key, "F", lambda: g.real.folded_graph(),
                                    lambda y: (self.U.name(y.variable), frozenset((O.obs_node(self.U, vn), c) for vn, c in y.value_nodes)),
                                    lambda y: (frozenset(map(self.U.name, y.endpoints)), frozenset((O.obs_edge(self.U, e), c) for e, c in y.relation_edges)))
            self.put(op["out"], "F", g.net, None, f, op.get("c"), extra=key)
            return
        self.put(op["out"], "F", g.net, None, f, op.get("c"))

    def check_equal_graphs(self, tags, g, f, key, kind, again, node_key, edge_key):
        """Folded and activation graphs, their nodes and edges are equal exactly when they hold the same."""
        if not self.active & set(tags):
            return
        others = [again()] + [r.real for r in self.h.values() if r.kind == kind and r.net == g.net and r.extra == key][-3:]
        for h in others:
            same = True
            for xs, ys, kf in ((f.nodes, h.nodes, node_key), (f.edges, h.edges, edge_key)):
                ks = {id(y): kf(y) for y in ys}
                same = same and {kf(x) for x in xs} == set(ks.values())
                for x in xs:
                    kx = kf(x)
                    for y in ys:
                        ky = ks[id(y)]
                        if bool(x == y) != (kx == ky) or bool(x != y) != (kx != ky):
                            self.bad(tags, "part-equality:" + kind, f"{O.canon(kx)} == {O.canon(ky)} gives {x == y!r}")
                        if kx == ky and hash(x) != hash(y):
                            self.bad(tags, "part-hash:" + kind, f"{O.canon(kx)}: equal but with different hashes")
                    if x == None or x == kx:
                        self.bad(tags, "part-equality:" + kind, f"{O.canon(kx)} equals something of another kind")
            self.same(tags, "graph-equality:" + kind, (bool(f == h), bool(h == f), bool(f != h)), (same, same, not same), "equality of graphs")
        if f == None:
            self.bad(tags, "graph-equality:" + kind, "a graph equals None")

    def op_act(self, op):
        k = self.ref(op["k"], "K")
        if not k or not k.extra[0]:
            return "skip"
        flt = None if op.get("filter") is None else frozenset(rel_in(r) for r in op["filter"])
        arg = []

        def do():
            arg.clear()
            arg.append(None if flt is None else {self.label_rel(r) for r in flt})
            return k.real.activation_graph(arg[0], op.get("name"))
        done, a = self.call(op, do, ("C24",), True, k.net, query=True)
        if self.real:
            t = ("C24",)
            net = self.nets[k.net]
            nodes, edges = M.activation(k.m, k.extra, net["vars"], flt)
            if arg and arg[0]:
                arg[0].clear()
            got = O.obs_activation(self.U, a)
            self.check_name(t, op, a)
            self.same(t, "activation-n", got["n"], sum(k.m.values()), "number_of_outcomes")
            self.same(t, "activation-nodes", got["nodes"], nodes,
                      f"nodes for evidence {O.canon(k.extra)} filter {O.canon(flt) if flt is not None else None} "
                      f"in {O.canon(k.m)}")
            self.same(t, "activation-edges", got["edges"], edges,
                      f"edges for evidence {O.canon(k.extra)} filter {O.canon(flt) if flt is not None else None} "
                      f"in {O.canon(k.m)}")
            if self.active & {"C24"} and any(0 < w < 1 for d, _ in nodes.values() for w in d.values()):
                self.rec.nontrivial = True
            key = (sum(k.m.values()),)
            self.check_equal_graphs(t, k, a, key, "A", lambda: k.real.activation_graph(None if flt is None else {self.label_rel(r) for r in flt}),
                                    lambda y: (self.U.name(y.variable), frozenset((self.U.name(x), w) for x, w in y.values), y.in_query),
                                    lambda y: (frozenset(map(self.U.name, y.endpoints)), frozenset((O.obs_relation(self.U, r), c) for r, c in y.relations), y.in_query))
            self.put(op["out"], "A", k.net, None, a, op.get("c"), extra=key)
            return
        self.put(op["out"], "A", k.net, None, a, op.get("c"))

    # ------------------------------------------------------------------------------------------ hostile clients
    def op_net_mutate(self, op):
        """The caller changes the dictionary and sets it once gave to the network."""
        net = self.nets[op["net"]]
        if self.real:
            self.rec.fault("caller_argument_mutated")
            vs, rs = net["args"]
            how = op["how"]
            if how == "clear":
                vs.clear()
                rs.clear()
            elif how == "values":
                for x in vs.values():
                    x.clear()
            else:
                for x in vs.values():
                    x.add(self.U.label(op.get("x", "zz")))
                rs.add(self.U.label(op.get("x", "zz")))

    def op_scribble(self, op):
        """A client empties every mutable collection it can get from an object."""
        r = self.ref(op["h"])
        if not r:
            return "skip"
        if not self.real:
            return
        x = r.real
        got = []
        try:
            if r.kind == "S":
                got += [x.values(), x.nodes, x.edges, x.edges_set_view(), x.edges_endpoint_variables(),
                        x.included_variables, x.variables_subgraph_hash(set(x.included_variables)), x.hash]
                for n in x.nodes:
                    got.append(x.neighboring_values(n))
                    bn = x.belt_nodes({n})
                    ex = x.external_nodes({n})
                    got += [*bn.values(), bn, *ex.values(), ex]
            elif r.kind in ("T", "TB"):
                got += [x.items(), x.samples()]
                if r.kind == "T" and x:
                    got.append(x.probabilities())
            elif r.kind in ("G", "K"):
                got += [x.outcomes.items(), x.outcomes.samples(), x.included_variables(), x.included_relations(),
                        x.outcomes_as_edges_sets(), x.find_for_values(set()).items(), x.describe()]
                if r.kind == "G":
                    got += [x.variables, x.relations]
                m = x.marginal_variables_probability()
                got += [*m.values(), m]
            elif r.kind == "F":
                got += [x.nodes, x.edges, x.variables]
                for n in x.nodes:
                    got += [n.marginal_distribution(), n.values, n.value_nodes]
                for e in x.edges:
                    got += [e.endpoints, e.relation_edges]
            elif r.kind == "A":
                got += [x.nodes, x.edges, x.variables]
                for n in x.nodes:
                    got.append(n.values)
                for e in x.edges:
                    got += [e.endpoints, e.relations]
        except Exception:
            self.bad((), "scribble", "")
        n = 0
        for c in got:
            if isinstance(c, (set, dict, list)):
                c.clear()
                n += 1
        if n:
            self.rec.fault("returned_collection_mutated")
        if r.kind in ("T", "TB"):
            self.check_builders(("C04",), "a client changed a returned collection")
        if r.kind == "T":
            self.sets_unchanged(op, (r,), ("C04",))
        return n

    def op_derive(self, op):
        """Run a method for its side effects only (it must have none on built objects)."""
        r = self.ref(op["h"])
        if not r:
            return "skip"
        if not self.real:
            return
        x = r.real

        def do():
            m = op["m"]
            if m == "joined" and hasattr(x, "make_joined"):
                return x.make_joined()
            if m == "on_vars" and hasattr(x, "joined_on_variables"):
                vs = op.get("vars")
                return x.joined_on_variables(None if vs is None else {self.U.label(v) for v in vs})
            if m == "group" and hasattr(x, "group_intersecting"):
                return x.group_intersecting()
            if m == "joined_sample" and hasattr(x, "make_joined_sample"):
                return x.make_joined_sample()
            if m == "factorized" and hasattr(x, "factorized"):
                return x.factorized()
            if m == "external" and r.kind == "S" and x.nodes:
                c = {sorted(x.nodes, key=lambda n: O.canon(O.obs_node(self.U, n)))[0]}
                return x.external_nodes(c), x.belt_nodes(c)
            if m == "flags" and hasattr(x, "is_joined"):
                return x.is_joined(), x.is_factorized()
        if op.get("cancel"):
            self.call(op, do, (), True, None)
            return "cancelled"
        try:
            y = do()
        except Exception:
            return "raised"
        if isinstance(y, dict):
            y.clear()
        return op["m"]


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 60)
    return a[lo:i + 160], b[lo:i + 160]
