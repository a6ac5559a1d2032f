"""Pages written by the visualisations on a failing disk: C12."""
import errno
import json
import os
import sys
import webbrowser

from . import relobs as O
from .core import Scenario, Violation
from .labels import random_spec
from .rel_history import Gen, net_subset
from .relworld import Cancelled, LineCanceller, World, load
from .simdisk import Disk, SimCrash, clear, fill, scratch_dir, snapshot

WEIGHTS = dict(mk=6, sb_from=1, sb_add=2, tb_new=1, tb_add=3, tb_build=1, gb_new=2, gb_from=2, gb_add=9, gb_addmany=3,
               gb_build=6, cond=7, relgraph=1, fold=5, act=6, pick=1)
PROFILE = dict(weights=WEIGHTS, multi=False, cancel=0.0, provider=0.0, callback=0.0, foreign=0.0, preload=0.9, sub=0.35)

HOSTILE = ["<b>", "</script>", "<script>alert(1)</script>", "\"q\"", "'s'", "back\\slash", "{{x}}", "{%", "%s", "%",
           "a b", " ", "tab\t", "nl\n", "é", "日本", "😀", "a&b", "&lt;", "]);", "//", "/*", "A:B", "(1)", "null", "0",
           "..", "a/b", "$x", "#", "\x01"]
NAMES = [None, None, "", "page", "Page", "a_b", "keep", "../up", "../../etc/x", "/tmp/verif-abs", "/abs/dir/x", "a/b",
         "sub/x", "..", ".", "x.html", "x\0y", "nul\0", "CON", "-rf", "~", "$(ls)", "a b", "日本", "é", "<>", "|", "*",
         "a\nb", "%2e%2e%2f", "..\\..\\x", "x" * 80, "²", "①", "old", "old.html", "http://x/y", "file:///etc/passwd"]
ERRNOS = ["ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EMFILE"]


def family(rng):
    """Names that are hard to tell apart by a part of them."""
    base = "".join(rng.choice("abxy_") for _ in range(rng.choice([3, 9, 20, 40, 70, 130, 200])))
    return [base + "1", base + "2", "1" + base, base, base + base[:3], base[:-1], base.swapcase() + "1"]


def hostile(rng, n, used):
    out = []
    while len(out) < n:
        x = rng.choice(HOSTILE)
        if rng.random() < 0.5:
            x = rng.choice(["", "k", "v"]) + x + rng.choice(["", "1", "z"])
        if x not in used:
            used.add(x)
            out.append(x)
    return out


def colours(html, x):
    """Nothing of the query may be shown in a colour that something outside the query has, and the other way round."""
    names = {str(n.variable): n.in_query for n in x.nodes}
    pairs = {frozenset(map(str, e.endpoints)): e.in_query for e in x.edges}
    data = []
    for what in ("nodes", "edges"):
        mark = f"{what} = new vis.DataSet("
        data.append(json.JSONDecoder().raw_decode(html, html.find(mark) + len(mark))[0])
    for items, of in ((data[0], lambda i: names.get(str(i["id"]), False)),
                      (data[1], lambda i: pairs[frozenset((str(i["from"]), str(i["to"])))])):
        seen = {True: set(), False: set()}
        for i in items:
            seen[bool(of(i))].add(i.get("color"))
        if seen[True] & seen[False]:
            return f"colours of the query {seen[True]}, others {seen[False]}"
    return None


def items_of(text):
    return frozenset(t.strip() for t in text.split(","))


def parse(html):
    """The node and edge data a browser would show: {id: label}, [(from, to, label)]."""
    out = []
    for what in ("nodes", "edges"):
        mark = f"{what} = new vis.DataSet("
        i = html.find(mark)
        if i < 0:
            raise ValueError(f"no {what} in the page")
        value, end = json.JSONDecoder().raw_decode(html, i + len(mark))
        if html[end:end + 1] != ")":
            raise ValueError(f"{what} data not closed")
        out.append(value)
    if not html.rstrip().endswith("</html>"):
        raise ValueError("page is cut short")
    nodes = {}
    for n in out[0]:
        if n["id"] in nodes:
            raise ValueError(f"two nodes with id {n['id']!r}")
        nodes[n["id"]] = n["label"]
    edges = [(e["from"], e["to"], e.get("label")) for e in out[1]]
    for a, b, _ in edges:
        if a not in nodes or b not in nodes:
            raise ValueError(f"edge to a missing node: {a!r} {b!r}")
    return nodes, edges


def components(nodes, edges):
    root = {n: n for n in nodes}

    def find(n):
        while root[n] != n:
            n = root[n]
        return n
    for a, b, _ in edges:
        root[find(a)] = find(b)
    groups = {}
    for n in nodes:
        groups.setdefault(find(n), []).append(n)
    return list(groups.values())


def multiset(xs):
    acc = {}
    for x in xs:
        acc[x] = acc.get(x, 0) + 1
    return acc


def sample_piece(s, head=None):
    return (head, frozenset(multiset(n.string_id for n in s.nodes).items()),
            frozenset(multiset((frozenset(x.string_id for x in e.endpoints), str(e.relation)) for e in s.edges).items()))


def expected(kind, x):
    """What the page has to show, from the public content of the object."""
    if kind == "S":
        return multiset([sample_piece(x)]) if x.nodes else {}
    if kind in ("G", "K"):
        pieces = [sample_piece(o, f"{o.name}({c})") for o, c in x.outcomes.items()]
        if kind == "K" and x.evidence.nodes:
            pieces.append(sample_piece(x.evidence))
        return multiset(pieces)
    nodes, edges = {}, []
    if kind == "F":
        for n in x.nodes:
            nodes[str(n.variable)] = items_of(",".join([f"{v.value}({c})" for v, c in n.value_nodes] + [f"u({n.unobserved_count()})"]))
        for e in x.edges:
            edges.append((frozenset(map(str, e.endpoints)), items_of(",".join(f"{r.relation}({c})" for r, c in e.relation_edges))))
    else:
        for n in x.nodes:
            nodes[str(n.variable)] = items_of(",".join(f"{v}={w}" for v, w in n.values))
        for e in x.edges:
            edges.append((frozenset(map(str, e.endpoints)), items_of(",".join(f"{r}({c})" for r, c in e.relations))))
    return dict(nodes=nodes, edges=multiset(edges))


def shown(kind, nodes, edges, want, all_vars, n_outcomes):
    """The same form from the page."""
    if kind in ("S", "G", "K"):
        pieces = []
        for comp in components(nodes, edges):
            heads, sids = [], {}
            for n in comp:
                label = nodes[n]
                sid = label
                if kind != "S" and "@" in label:
                    sid, h = label.split("@", 1)
                    heads.append(h)
                sids[n] = sid
            head = heads[0] if len(heads) == 1 else (tuple(sorted(heads)) or None)
            ns = multiset(s for s in sids.values() if s or head is None)
            es = multiset((frozenset((sids[a], sids[b])), l) for a, b, l in edges if a in sids)
            pieces.append((head, frozenset(ns.items()), frozenset(es.items())))
        return multiset(pieces)
    got_nodes, got_edges, names = {}, [], {}
    for n, label in nodes.items():
        var, i = None, label.find(":{")
        for v in sorted(all_vars, key=len, reverse=True):
            if label.startswith(v + ":{") and label.endswith("}"):
                var, i = v, len(v)
                break
        if var is None:
            raise ValueError(f"label {label!r} names no variable")
        if var in got_nodes:
            raise ValueError(f"variable {var!r} shown twice")
        names[n] = var
        got_nodes[var] = items_of(label[i + 2:-1])
    for a, b, label in edges:
        got_edges.append((frozenset((names[a], names[b])), items_of(label[1:-1])))
    for v in list(all_vars):
        if kind == "F" and v not in want["nodes"]:      # variables that do not occur are shown with zero counts
            if got_nodes.pop(v, None) != items_of(",".join([f"{x}(0)" for x in all_vars[v]] + [f"u({n_outcomes})"])):
                raise ValueError(f"variable {v!r}, which does not occur, is not shown with zero counts")
    return dict(nodes=got_nodes, edges=multiset(got_edges))


class VisWorld(World):
    def __init__(self, config, rec, disk, cwd):
        self.disk, self.cwd = disk, cwd
        self.named = {}
        super().__init__(config, active={"C12"}, real=True, rec=rec)

    def op_vis(self, op):
        r = self.ref(op["h"], "S", "G", "K", "F", "A")
        if not r:
            return "skip"
        x, disk, rec = r.real, self.disk, self.rec
        before = snapshot(disk.root)
        digest = O.canon(self.observe(r))
        calls = []

        def browser(url, *a, **kw):
            calls.append(url)
            return not op.get("no_browser")

        def do():
            if r.kind == "S":
                x.visualize()
            elif r.kind in ("G", "K"):
                x.visualize_outcomes(op.get("name"))
            else:
                x.visualize(op.get("name"))
        disk.arm([op["fault"]] if op.get("fault") else [])
        saved = webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab
        webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = browser
        error = None
        tracer = LineCanceller(op["cancel"]) if op.get("cancel") else None
        try:
            sys.settrace(tracer)
            try:
                do()
            finally:
                sys.settrace(None)
        except (Cancelled, SimCrash) as e:
            error = e
        except Exception as e:
            error = e
        finally:
            webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab = saved
        fired = list(disk.fired)
        disk.arm([])
        interrupted = isinstance(error, (Cancelled, SimCrash))
        for k, _ in fired:
            rec.fault("disk_" + k + ("_crash" if isinstance(error, SimCrash) else ""))
        if isinstance(error, Cancelled):
            rec.fault("cancelled_at_line")
        if op.get("no_browser"):
            rec.fault("no_browser")
        what = f"visualising {r.kind} {op['h']} as {op.get('name')!r}"
        if disk.escapes:
            self.bad(("C12",), "outside-working-directory", f"{what}: wrote to {disk.escapes}")
        if os.getcwd() != self.cwd:
            self.bad(("C12",), "working-directory-changed", what)
        after = snapshot(disk.root)
        changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        prefix = os.path.relpath(self.cwd, disk.root)
        pages = [k for k in changed if k.endswith(".html") and os.path.dirname(k) == (prefix if prefix != "." else "")
                 and k in after]
        opened = {os.path.normpath(os.path.join(prefix, p)) for p, m in disk.opens if "\0" not in p}
        others = [k for k in changed if k not in pages]
        if O.canon(self.observe(r)) != digest:
            self.bad(("C12",), "graph-changed", what)
        if others or len(pages) > 1:
            self.bad(("C12",), "other-file-touched", f"{what}: changed {changed}")
        if error is None or not pages:
            pass
        if error is not None and not fired and not interrupted:
            if isinstance(error, OSError) and error.errno == errno.ENAMETOOLONG:
                rec.probe("name_too_long")
                return "too long"
            self.bad(("C12",), "refused:" + r.kind, f"{what}: {error!r}")
        if error is not None:
            rec.probe("failed_" + r.kind)
            return "failed"
        if not pages:       # the page was there already with the same content, or nothing was written
            pages = [k for k in before if os.path.dirname(k) == (prefix if prefix != "." else "") and k.endswith(".html")
                     and calls and os.path.basename(calls[0]) == os.path.basename(k)]
            if not pages:
                self.bad(("C12",), "no-page", f"{what}: no page was written")
        key = "".join(ch for ch in str(r.kind != "S" and op.get("name") or repr(x)) if ch.isalnum())
        if self.named.setdefault(pages[0], key) != key:
            self.bad(("C12",), "page-of-another-name", f"{what} wrote {pages[0]}, which shows a name reading {self.named[pages[0]]!r} in letters and digits")
        vars_ = {str(self.U.label(v)): [str(self.U.label(t)) for t in ts] for v, ts in self.nets[r.net]["vars_live"].items()}
        try:
            html = after[pages[0]].decode("utf-8")
            nodes, edges = parse(html)
            want = expected(r.kind, x)
            got = shown(r.kind, nodes, edges, want, vars_, getattr(x, "number_of_outcomes", 0))
        except (ValueError, KeyError, UnicodeDecodeError) as e:
            self.bad(("C12",), "incomplete-page", f"{what}: {e} (fault {op.get('fault')} fired {fired})")
        if got != want:
            self.bad(("C12",), "wrong-page:" + r.kind, f"{what}: page shows {O.canon(got)[:800]}, should show {O.canon(want)[:800]}")
        if r.kind == "A":
            clash = colours(html, x)
            if clash:
                self.bad(("C12",), "query-not-marked", f"{what}: {clash}")
        rec.nontrivial = True
        rec.probe("shown_" + r.kind)
        return pages[0]


class C12(Scenario):
    id = "C12"
    quick_runs = 2400
    thorough_runs = 60000
    rule = "one evaluation = one history of builder and query operations with 2-8 visualisations in between, on a simulated disk; non-trivial when at least one page was written and compared with the object it shows"
    real_components = ["scripts/relnet (all modules)", "pyvis and jinja2 as installed", "files in a scratch directory"]
    stub_components = ["web browser (records the page it is asked to show)", "open/write/close (fault injecting pass-through)"]
    assumptions = ["labels contain no underscore, comma or at sign (node captions could not be told apart)", "labels are strings or integers (required by pyvis)", "one value per variable in a sample"]

    def setup(self):
        load()

    def generate(self, rng, index, tier):
        spec = random_spec(rng, nvars=(1, 4), nvals=(1, 3), nrels=(1, 2), kinds=("str", "str", "str", "int"), odd=False)
        if rng.random() < 0.5:
            used = set()
            vs = hostile(rng, len(spec["vars"]), used)
            spec["vars"] = {v: hostile(rng, len(xs), used) for v, xs in zip(vs, spec["vars"].values())}
            spec["rels"] = hostile(rng, len(spec["rels"]), used)
        many = rng.random() < 0.12          # more than ten outcomes, values that are numbers
        if many:
            digits = ["1", "2", "11", "12", "21", "111", "0", "10"]
            spec = dict(spec, vars={v: rng.sample(digits, rng.randint(4, 8)) for v in list(spec["vars"])[:3]}, kind="str")
        config = dict(labels=spec, nets=[net_subset(rng, spec, True)])
        g = Gen(rng, config, PROFILE)
        if many:
            g.emit(dict(op="gb_new", c=0, net=0, out="GBm"))
            for _ in range(rng.randint(12, 26)):
                g.emit(dict(op="gb_add", c=0, gb="GBm", s=g.g_mk(0, 0), n=g.count()))
            g.emit(dict(op="gb_build", c=0, gb="GBm", out="Gm"))
            base = g.ops
        else:
            base = g.run(rng.randint(4, 18))
        self.pool = NAMES if rng.random() < 0.7 else family(rng)
        for op in base:
            if op.get("op") in ("mk", "gb_build", "gb_new", "fold", "gb_name") and rng.random() < 0.3:
                op["name"] = rng.choice([n for n in self.pool if n])
        ops, made = [], []
        if many:
            base.append(dict(op="vis", c=0, h="Gm", name="many"))
        for op in base:
            ops.append(op)
            h = op.get("out")
            if h and h in g.w.h and g.w.h[h].kind in ("S", "G", "K", "F", "A"):
                made.append(h)
            if made and rng.random() < 0.25:
                ops.append(self.vis(rng, made, g))
        for _ in range(rng.randint(1, 3)):
            if made:
                ops.append(self.vis(rng, made, g))
        files = {"w/keep.txt": "keep", "w/old.html": "<html>old</html>", "up.html": "above", "w/sub/x.html": "sub",
                 "w/page.html": "previous"}
        if rng.random() < 0.3:
            files["w/recorded-game"] = "x"
        return dict(config=dict(config, files=files), ops=ops)

    def vis(self, rng, made, g):
        weights = [dict(S=1, G=4, K=6, F=12, A=12)[g.w.h[h].kind] for h in made]
        op = dict(op="vis", c=0, h=rng.choices(made, weights)[0], name=rng.choice(self.pool))
        x = rng.random()
        if x < 0.4:
            kind = rng.choice(["open", "write", "write", "close", "close", "read", "flush"])
            f = dict(kind=kind, nth=1, errno=rng.choice(ERRNOS))
            if kind == "write":
                f["at"] = rng.choice([0, 1, rng.randint(1, 3000), rng.randint(1, 12000)])
            if kind in ("close", "flush"):
                f["at"] = rng.choice([0, 0.5, rng.random(), 0.999])
            if kind in ("write", "close", "open") and rng.random() < 0.2:
                f["crash"] = True
            op["fault"] = f
        elif x < 0.5:
            op["cancel"] = rng.randint(1, 60)
        if rng.random() < 0.15:
            op["no_browser"] = True
        return op

    def run(self, trace, rec):
        base = scratch_dir()
        fill(base, trace["config"]["files"])
        old = os.getcwd()
        cwd = os.path.realpath(os.path.join(base, "w"))
        os.chdir(cwd)
        try:
            disk = Disk(base, rec)
            disk.extra_read = tuple(p for p in sys.path if "site-packages" in p)
            w = VisWorld(trace["config"], rec, disk, cwd)
            for net, n in zip(w.nets, trace["config"]["nets"]):
                net["vars_live"] = n["vars"]
            with disk:
                for op in trace["ops"]:
                    w.apply(op)
                w.finish()
        finally:
            os.chdir(old)
            clear(base)
            os.rmdir(base)

    def simplify_op(self, op):
        yield from super().simplify_op(op)
        if op.get("name"):
            yield {k: v for k, v in op.items() if k != "name"}
        if op.get("op") == "mk" and len(op["edges"]) > 1:
            yield {**op, "edges": op["edges"][:-1]}

    def simplify_config(self, trace):
        lab = trace["config"]["labels"]
        if lab["kind"] != "str":
            yield {**trace, "config": {**trace["config"], "labels": {**lab, "kind": "str"}}}


SCENARIOS = {"C12": C12}
