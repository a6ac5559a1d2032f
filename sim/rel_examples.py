"""The example and experiment programs, with other protocols, failing output and disk, and other hash seeds: C36."""
import ast
import contextlib
import errno
import io
import math
import os
import random
import re
import subprocess
import sys
import types
import webbrowser
from collections import Counter
from fractions import Fraction

from . import relmodel as M
from . import relobs as O
from .core import REPO, Scenario, Violation
from .rel_visual import expected, parse, shown
from .relworld import RELNET, Cancelled, load
from .simdisk import Disk, SimCrash, clear, fill, scratch_dir, snapshot

RESEARCH = os.path.join(REPO, "Python/research")
SCRIPTS = os.path.join(RESEARCH, "scripts")
COINS = {"1¢": ("V1", "1"), "5¢": ("V2", "2"), "25¢": ("V3", "3")}
VARS = {"V1": ["h1", "t1"], "V2": ["h2", "t2"], "V3": ["h3", "t3"]}
EXAMPLES = {"coin": "building_net_from_coin_toss", "conditional": "building_net_with_conditional_probability",
            "joint": "building_net_with_joint_probability"}
EXPERIMENTS = {"bayes": "comparing_with_bayes_network", "markov": "comparing_with_markov_network",
               "distribution": "random_variables_distribution_for_all_outcomes", "power": "outcomes_space_power"}
EVIDENCE = (frozenset({("V1", "h1"), ("V2", "h2")}), frozenset({(frozenset({("V1", "h1"), ("V2", "h2")}), "r1")}))
PRINTED = re.compile(r"^\s*ω = (.*), c = (\S+), P\(ω\) = (\S+)\s*$", re.M)
FIRST = ["5¢ H", "1¢ H", "5¢ H", "25¢ T", "1¢ H", "5¢ H", "5¢ H then 25¢ H", "1¢ H then 5¢ H", "25¢ T then 5¢ T", "1¢ T then 5¢ T"]
BAD = ["2¢ H", "5¢ X", "5¢ H then 5¢ T", "1¢ H then 1¢ H", "5¢", "5¢ H then", "", "25¢ T then 2¢ H", "1¢ X then 5¢ H", "heads",
       "5¢ H then 25¢ H then 1¢ H"]
ERRNOS = ["ENOSPC", "EIO", "EPIPE"]


def meaning(line):
    """The sample a line of the protocol stands for."""
    t = line.split(" ")

    def node(coin, side):
        v, i = COINS[coin]
        return v, side.lower() + i
    if len(t) == 2:
        return frozenset({node(*t)}), frozenset()
    a, b = node(*t[:2]), node(*t[3:])
    return frozenset({a, b}), frozenset({(frozenset({a, b}), "r1" if int(t[0][:-1]) < int(t[3][:-1]) else "r2")})


def obs_outcomes(samples):
    acc = {}
    for s, c in samples.items():
        k = (frozenset((n.variable, n.value) for n in s.nodes),
             frozenset((frozenset((n.variable, n.value) for n in e.endpoints), e.relation) for e in s.edges))
        if k in acc:
            raise Violation("outcome-twice", f"{O.canon(k)} is listed twice")
        acc[k] = c
    return acc


def connected_graphs(k, rels):
    """Labelled connected graphs on k nodes, every pair unconnected or in one of the relations."""
    c = [0, 1]
    for n in range(2, k + 1):
        c.append((rels + 1) ** math.comb(n, 2) - sum(math.comb(n - 1, i - 1) * c[i] * (rels + 1) ** math.comb(n - i, 2) for i in range(1, n)))
    return c[k]


def space(counts, rels):
    """Number of samples over variables with so many values, and of those with a certain value of each variable."""
    n, total, with_value = len(counts), 0, [0] * len(counts)
    for mask in range(1, 1 << n):
        sub = [i for i in range(n) if mask >> i & 1]
        shapes = connected_graphs(len(sub), rels)
        total += shapes * math.prod(counts[i] for i in sub)
        for i in sub:
            with_value[i] += shapes * math.prod(counts[j] for j in sub if j != i)
    return total, with_value


def joint_of(m):
    """The joint distribution, when the outcomes hang together and fit together, otherwise None."""
    if m == dict(Counter(map(meaning, FIRST))):
        return {join_all(m, "h"): 6, join_all(m, "t"): 1}
    factors = M.factors(m)
    res = M.natural_join(factors)
    pairs = frozenset((p, "") for o in m for p in M.var_pairs(o))
    if all(any(M.contains(j, o) for j in res) for o in m) and M.connected(frozenset().union(*[M.variables_of(o) for o in m]), pairs):
        return res
    return None


def join_all(m, side):
    """All pairs of the first protocol that show this side."""
    return M.join_samples([o for o in m if o[1] and all(x[0] == side for _, x in o[0])])


class Out(io.StringIO):
    """Standard output that fails after so many characters."""

    def __init__(self, fault=None):
        super().__init__()
        self.fault, self.fired = fault, False

    def write(self, text):
        f = self.fault
        if f and self.tell() + len(text) > f["at"]:
            self.fired, self.fault = True, None
            super().write(text[:max(0, f["at"] - self.tell())])
            raise OSError(getattr(errno, f["errno"]), f["errno"])
        return super().write(text)


class Cut:
    """Cancels the running call at a line of the examples, the experiments or the library."""

    def __init__(self, at):
        self.left, self.fired = at, False

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                raise Cancelled()
        return self.local

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith((RELNET, SCRIPTS + "/ex")) else None


class Examples(Scenario):
    id = "C36"
    quick_runs = 2000
    thorough_runs = 30000
    rule = ("one evaluation = 4-14 steps of clients that turn protocols of coin tosses into networks, condition, join and describe them, and "
            "run the example and experiment programs, on an output and a disk that fail; non-trivial when a description or a figure was checked")
    distinct_measure = "distinct digests of (steps, networks, descriptions)"
    real_components = ["scripts/examples (all)", "scripts/experiments (all)", "scripts/relnet", "pyvis, jinja2 and pgmpy as installed",
                       "whole interpreters with other hash seeds for a share of the programs"]
    stub_components = ["web browser", "standard output and open/write/close (fault injecting pass-through)"]
    assumptions = ["the parameters of outcomes_space_power are lowered (it counts for minutes with its own)"]

    def setup(self):
        load()
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            import pgmpy.inference   # noqa: F401 (seconds of importing, not part of any run)
            import pgmpy.models      # noqa: F401
            import scripts.examples.building_net_from_coin_toss as coin
        self.coin = coin
        self.codes = {}

    # ------------------------------------------------------------------------------------------ schedules
    def protocol(self, rng):
        coins, sides = list(COINS), ["H", "T"]
        pool = []
        for _ in range(rng.randint(1, 10)):
            a, b = rng.sample(coins, 2)
            pool.append(f"{a} {rng.choice(sides)}" if rng.random() < 0.5 else
                        f"{a} {rng.choice(sides)} {rng.choice(['then', 'then', 'and', '->'])} {b} {rng.choice(sides)}")
        return [rng.choice(pool) for _ in range(rng.choice([1, 2, 5, 10, 20, 20, 40, 150]))]

    def generate(self, rng, index, tier):
        ops, made = [], []

        def stdout():
            return dict(at=rng.choice([0, 1, rng.randint(0, 60), rng.randint(0, 400)]), errno=rng.choice(ERRNOS))
        for i in range(rng.randint(4, 14)):
            x = rng.random()
            if x < 0.3 or not made:
                op = dict(op="protocol", lines=list(FIRST) if rng.random() < 0.1 else self.protocol(rng), out=f"N{i}")
                if rng.random() < 0.2:
                    op["lines"].insert(rng.randint(0, len(op["lines"])), rng.choice(BAD))
                    op["bad"] = True
                else:
                    made.append(op["out"])
            elif x < 0.45:
                op = dict(op="describe", net=rng.choice(made))
                if rng.random() < 0.35:
                    op["stdout"] = stdout()
            elif x < 0.65:
                op = dict(op=rng.choice(["conditional", "joint"]), net=rng.choice(made))
                if op["op"] == "conditional":
                    a, b = rng.sample(sorted(VARS), 2)
                    op["evidence"] = [[v, rng.choice(VARS[v])] for v in ([a] if rng.random() < 0.6 else [a, b])]
                    op["relation"] = rng.choice(["r1", "r2"])
            elif x < 0.93:
                op = dict(op="program", name=rng.choice(sorted(EXAMPLES)), lines=self.protocol(rng))
                y = rng.random()
                if y < 0.3:
                    kind = rng.choice(["open", "write", "close", "flush", "read"])
                    op["fault"] = dict(kind=kind, nth=1, errno=rng.choice(["ENOSPC", "EIO", "EACCES"]))
                    if kind == "write":
                        op["fault"]["at"] = rng.choice([0, 1, rng.randint(1, 9000)])
                    if kind in ("close", "flush"):
                        op["fault"]["at"] = rng.choice([0, 0.5, rng.random()])
                    if kind in ("write", "close", "open") and rng.random() < 0.2:
                        op["fault"]["crash"] = True
                elif y < 0.45:
                    op["stdout"] = stdout()
                elif y < 0.55:
                    op["no_browser"] = True
            else:
                op = dict(op="experiment", name=rng.choice(sorted(EXPERIMENTS)))
                if op["name"] == "power":
                    op["up_to"] = rng.choice([[2, 2, 2], [3, 2, 2], [2, 3, 3], [3, 3, 1], [1, 4, 4], [2, 4, 2]])
                elif rng.random() < 0.3:
                    op["stdout"] = stdout()
            if "stdout" not in op and "fault" not in op and rng.random() < 0.12:
                op["cancel"] = rng.choice([1, rng.randint(1, 60), rng.randint(1, 900)])
            ops.append(op)
        if index % 17 == 3:
            name = rng.choice(sorted(EXAMPLES) + sorted(set(EXPERIMENTS) - {"power"}) * 2)
            ops.insert(rng.randint(0, len(ops)), dict(op="process", name=name, hashseed=rng.randint(1, 4000000000)))
        return dict(config=dict(files={"w/keep.txt": "keep", "w/old.html": "<html>old</html>", "up.html": "above"}), ops=ops)

    # ------------------------------------------------------------------------------------------ one run
    def run(self, trace, rec):
        base = scratch_dir()
        fill(base, trace["config"]["files"])
        old = os.getcwd()
        self.cwd = os.path.realpath(os.path.join(base, "w"))
        os.chdir(self.cwd)
        results = self.coin.experiment_results
        random.seed(0)
        try:
            self.rec, self.nets, self.disk = rec, {}, Disk(base, rec)
            self.disk.extra_read = tuple(p for p in sys.path if "site-packages" in p)
            with self.disk:
                for op in trace["ops"]:
                    rec.ops += 1
                    getattr(self, "op_" + op["op"])(op)
                    self.nothing_else_changed(op)
        finally:
            self.coin.experiment_results = results
            os.chdir(old)
            clear(base)
            os.rmdir(base)

    def bad(self, kind, message):
        raise Violation(kind, message)

    def nothing_else_changed(self, op):
        for h, (net, m) in self.nets.items():
            if obs_outcomes(net.outcomes) != m:
                self.bad("network-changed", f"{h} was changed by {op}")

    def attempt(self, op, do):
        """-> (error or None, result, printed text); only faults injected here may make it fail."""
        out = Out(op.get("stdout"))
        cut = Cut(op["cancel"]) if "cancel" in op else None
        error = r = None
        saved = webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab, sys.stdout, sys.stderr

        def browser(url, *a, **k):
            if op.get("no_browser"):
                self.rec.fault("no_browser")
                return False
            return True
        webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = browser
        self.disk.arm([op["fault"]] if op.get("fault") else [])
        sys.stdout, sys.stderr = out, io.StringIO()
        try:
            sys.settrace(cut)
            try:
                r = do()
            finally:
                sys.settrace(None)
        except (Exception, SystemExit, Cancelled, SimCrash) as e:
            error = e
        finally:
            webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab, sys.stdout, sys.stderr = saved
        fired = list(self.disk.fired)
        self.disk.arm([])
        for k, _ in fired:
            self.rec.fault("disk_" + k + ("_crash" if isinstance(error, SimCrash) else ""))
        if out.fired:
            self.rec.fault("stdout_failed")
        if isinstance(error, Cancelled):
            self.rec.fault("cancelled_at_line")
        if isinstance(error, SystemExit) and error.code in (None, 0):
            error = None
        injected = fired or out.fired or isinstance(error, Cancelled)
        if error is not None and not injected and not op.get("bad"):
            self.bad("failed:" + op["op"] + ":" + str(op.get("name", "")), f"{op}: {error!r}")
        if self.disk.escapes:
            self.bad("outside-working-directory", f"{op}: wrote to {self.disk.escapes}")
        if os.getcwd() != self.cwd:
            self.bad("working-directory-changed", str(op))
        return error, r, out.getvalue()

    def same(self, op, got, want):
        if got != want:
            self.bad("wrong-outcomes:" + op["op"], f"{op}: outcomes {O.canon(got)}, should be {O.canon(want)}")

    def op_protocol(self, op):
        lines = list(op["lines"])
        error, net, _ = self.attempt(op, lambda: self.coin.build_relation_net(lines))
        if lines != op["lines"]:
            self.bad("protocol-changed", str(op))
        if op.get("bad"):
            if error is None:
                self.bad("accepted", f"{op['lines']} was turned into {net!r}")
            self.rec.probe("refused_protocol")
        if error is None:
            m = dict(Counter(map(meaning, op["lines"])))
            self.same(op, obs_outcomes(net.outcomes), m)
            self.nets[op["out"]] = net, m
            self.rec.log("protocol", O.canon(m))

    def described(self, op, net, text):
        want = Counter()
        total = sum(c for _, c in net.outcomes.items())
        for s, c in net.outcomes.items():
            want[str(s), c, float(Fraction(c) / Fraction(total))] += 1
        got = Counter()
        for name, c, p in PRINTED.findall(text):
            try:
                got[name, ast.literal_eval(c), float(p)] += 1
            except (ValueError, SyntaxError):
                self.bad("wrong-description", f"{op}: {name}, {c}, {p}")
        if {k[:2]: n for k, n in got.items()} != {k[:2]: n for k, n in want.items()}:
            self.bad("wrong-description", f"{op}: printed {sorted(map(str, got))}, should be {sorted(map(str, want))}")
        if any(not any(k[:2] == g[:2] and math.isclose(k[2], g[2], rel_tol=1e-9) for k in want) for g in got):
            self.bad("wrong-share", f"{op}: printed {sorted(map(str, got))}, should be {sorted(map(str, want))}")
        self.rec.nontrivial = True
        self.rec.log("described", len(got))

    def op_describe(self, op):
        if op["net"] not in self.nets:
            return
        net = self.nets[op["net"]][0]
        error, _, text = self.attempt(op, lambda: self.coin.describe_relation_net(net))
        if error is None:
            self.described(op, net, text)

    def op_conditional(self, op):
        if op["net"] not in self.nets:
            return
        net, m = self.nets[op["net"]]
        ns = [tuple(n) for n in op["evidence"]]
        evidence = (frozenset(ns), frozenset({(frozenset(ns), op["relation"])} if len(ns) > 1 else ()))

        def do():
            b = net.sample_builder()
            s = b.add_relation(set(ns), op["relation"]).build() if len(ns) > 1 else b.build_single_node(*ns[0])
            c = net.conditional_graph(s).relation_graph()
            self.coin.describe_relation_net(c)
            return c
        error, c, text = self.attempt(op, do)
        if error is None:
            self.same(op, obs_outcomes(c.outcomes), M.condition(m, evidence))
            self.described(op, c, text)

    def op_joint(self, op):
        if op["net"] not in self.nets:
            return
        net, m = self.nets[op["net"]]

        def do():
            j = net.make_joined()
            self.coin.describe_relation_net(j)
            return j
        want = joint_of(m)
        error, j, text = self.attempt({**op, "bad": want is None}, do)    # outcomes that do not fit together may be refused
        if error is None:
            got = obs_outcomes(j.outcomes)
            if want is not None:
                self.same(op, got, want)
                self.rec.probe("joined")
            for s in got:
                if not M.one_value_per_variable(s) or not M.connected(*s) or not s[0] <= frozenset().union(*[o[0] for o in m]):
                    self.bad("wrong-outcomes:joint", f"{op}: {O.canon(s)} joined from {O.canon(m)}")
            self.described(op, j, text)
            self.rec.log("joint", O.canon(got))

    # ------------------------------------------------------------------------------------------ programs
    def code(self, path, up_to=None):
        key = path, tuple(up_to or ())
        if key not in self.codes:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
            if up_to:
                left = dict(zip(("max_number_of_variables", "max_number_of_values", "max_number_of_relation_type"), up_to))
                for n in ast.walk(tree):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in left:
                        n.value = ast.copy_location(ast.Constant(left.pop(n.targets[0].id)), n.value)
                self.codes[key] = None if left else compile(tree, path, "exec")
            else:
                self.codes[key] = compile(tree, path, "exec")
        return self.codes[key]

    def as_program(self, code):
        main, mine = sys.modules.get("__main__"), types.ModuleType("__main__")
        mine.__file__ = code.co_filename
        sys.modules["__main__"] = mine
        try:
            exec(code, mine.__dict__)
        finally:
            sys.modules["__main__"] = main

    def shows(self, op, name, lines):
        """-> (kind, object the page has to show, network described)"""
        net = self.coin.build_relation_net(list(lines))
        if name == "coin":
            return "G", net, net
        if name == "joint":
            j = net.make_joined()
            self.same(op, obs_outcomes(j.outcomes), joint_of(dict(Counter(map(meaning, lines)))))
            return "G", j, j
        s = net.sample_builder().add_relation({("V1", "h1"), ("V2", "h2")}, "r1").build()
        k = net.conditional_graph(s)
        self.same(op, obs_outcomes(k.outcomes), M.condition(dict(Counter(map(meaning, lines))), EVIDENCE))
        return "K", k, k.relation_graph()

    def op_program(self, op):
        name = op["name"]
        lines = FIRST if name == "coin" else op["lines"]        # the first example holds its own protocol
        if name == "joint" and joint_of(dict(Counter(map(meaning, lines)))) is None:
            lines = FIRST
        kind, x, net = self.shows(op, name, lines)
        self.coin.experiment_results = list(lines)
        code = self.code(f"{SCRIPTS}/examples/{EXAMPLES[name]}.py")
        before = snapshot(self.disk.root)
        error, _, text = self.attempt(op, lambda: self.as_program(code))
        self.page(op, before, kind, x, error)
        if error is None:
            self.described(op, net, text)
            self.rec.probe("program_" + name)

    def page(self, op, before, kind, x, error):
        after = snapshot(self.disk.root)
        changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        pages = [k for k in changed if os.path.dirname(k) == "w" and k.endswith(".html") and k in after]
        if len(pages) > 1 or set(changed) - set(pages) or "w/old.html" in changed:
            self.bad("other-file-touched", f"{op}: changed {changed}")
        if error is not None:
            return
        if not pages:           # shown before, with the same content
            pages = [k for k in before if os.path.dirname(k) == "w" and k.endswith(".html") and k != "w/old.html"]
        want, fits = expected(kind, x), False
        for p in pages:
            try:
                nodes, edges = parse(after[p].decode("utf-8"))
                fits = fits or shown(kind, nodes, edges, want, VARS, getattr(x, "number_of_outcomes", 0)) == want
            except (ValueError, KeyError, UnicodeDecodeError) as e:
                if changed:
                    self.bad("incomplete-page", f"{op}: {e}")
        if not fits:
            self.bad("wrong-page", f"{op}: no complete page shows the outcomes, written: {changed}")

    def op_experiment(self, op):
        name = op["name"]
        code = self.code(f"{SCRIPTS}/experiments/{EXPERIMENTS[name]}.py", op.get("up_to"))
        if code is None:
            return self.rec.probe("parameters_not_found")
        before = snapshot(self.disk.root)
        error, _, text = self.attempt(op, lambda: self.as_program(code))
        if snapshot(self.disk.root) != before:
            self.bad("other-file-touched", str(op))
        if error is None:
            self.figures(op, text, op.get("up_to") or [3, 3, 3])
            self.rec.probe("experiment_" + name)

    def figures(self, op, text, up_to):
        cases = [(a, b, c) for a in range(1, up_to[0] + 1) for b in range(1, up_to[1] + 1) for c in range(1, up_to[2] + 1)]
        if op["name"] == "power":
            got = Counter(tuple(map(int, t)) for t in re.findall(
                r"n_var = (\d+),\s*n_val_with_u = (\d+), n_rel = (\d+), n_generated = (\d+), n_counted = (\d+)", text))
            want = Counter()
            for a, b, c in cases:
                n = space([b] * a, c)[0]
                want[a, b + 1, c, n, n] += 1
        elif op["name"] == "distribution":
            got, want = Counter(), Counter()
            for v, d in re.findall(r"V_ID = (\S+), distribution = (\{.*\})", text):
                d = ast.literal_eval(d)
                got[v, frozenset((k, round(p, 12)) for k, p in d.items())] += 1
            for a, b, c in cases:
                values = [[j for j in range(1, b + 1) if not (i == 1 and j == 2)] for i in range(1, a + 1)]
                total, each = space([len(x) for x in values], c)
                for i, (x, n) in enumerate(zip(values, each), 1):
                    d = {f"VAL_{i}_{j}": n / total for j in x}
                    d["unobserved"] = 1 - len(x) * n / total
                    want[f"VAR_{i}", frozenset((k, round(p, 12)) for k, p in d.items())] += 1
        else:
            return
        if got != want:
            self.bad("wrong-figures:" + op["name"], f"{op}: missing {sorted(map(str, want - got))[:3]}, printed {sorted(map(str, got - want))[:3]}")
        self.rec.nontrivial = True

    def op_process(self, op):
        """A whole interpreter with a hash seed of its own."""
        name = op["name"]
        module = "scripts.examples." + EXAMPLES[name] if name in EXAMPLES else "scripts.experiments." + EXPERIMENTS[name]
        before = snapshot(self.disk.root)
        prog = ("import sys, runpy, webbrowser\nwebbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = lambda *a, **k: True\n"
                f"sys.path.insert(0, {RESEARCH!r})\nrunpy.run_module({module!r}, run_name='__main__')\n")
        env = {**os.environ, "PYTHONHASHSEED": str(op["hashseed"]), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8"}
        self.disk.__exit__()            # the other interpreter has the real (scratch) directory
        try:
            r = subprocess.run([sys.executable, "-c", prog], cwd=self.cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=400)
        finally:
            self.disk.__enter__()
        self.rec.fault("hash_seed")
        if r.returncode:
            self.bad("program-failed:" + name, f"{op}: {r.stderr.decode(errors='replace')[-600:]}")
        text = r.stdout.decode("utf-8")
        if name in EXAMPLES:
            kind, x, net = self.shows(op, name, FIRST)
            self.page(op, before, kind, x, None)
            self.described(op, net, text)
        else:
            if snapshot(self.disk.root) != before:
                self.bad("other-file-touched", str(op))
            self.figures(op, text, [3, 3, 3])
        self.rec.probe("process_" + name)

    def simplify_op(self, op):
        for k in ("cancel", "fault", "stdout", "no_browser"):
            if k in op:
                yield {a: b for a, b in op.items() if a != k}
        if len(op.get("lines", ())) > 1 and not op.get("bad"):
            yield {**op, "lines": op["lines"][:len(op["lines"]) // 2]}
            yield {**op, "lines": op["lines"][1:]}


SCENARIOS = {"C36": Examples}
