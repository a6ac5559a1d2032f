"""Reading library objects through their public interface into the model's plain form."""


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def fl(x):
    return float(x)


def nearly(a, b):
    """Equality of nested containers in which floats may differ by rounding."""
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) \
            and not isinstance(b, bool) and close(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(nearly(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nearly(x, y) for x, y in zip(a, b))
    return a == b


def obs_relation(U, r):
    if hasattr(r, "source_variable"):
        return ("D", U.name(r.source_variable), U.name(r.target_variable), U.name(r.relation))
    return U.name(r)


def obs_node(U, n):
    return (U.name(n.variable), U.name(n.value))


def obs_edge(U, e):
    return (frozenset(obs_node(U, n) for n in e.endpoints), obs_relation(U, e.relation))


def obs_sample(U, s):
    return (frozenset(obs_node(U, n) for n in s.nodes), frozenset(obs_edge(U, e) for e in s.edges))


def obs_items(U, samples):
    """Samples (set or builder) -> {sample: count}; two entries for one sample are reported as such."""
    acc = {}
    for s, c in samples.items():
        k = obs_sample(U, s)
        if k in acc:
            acc[k] = (acc[k], c, "duplicate entry")
        else:
            acc[k] = c
    return acc


def canon(x):
    """A printable, order-free, comparable form of nested containers."""
    if isinstance(x, dict):
        return "{" + ",".join(sorted(f"{canon(k)}:{canon(v)}" for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(i) for i in x)) + ">"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(canon(i) for i in x) + ")"
    if isinstance(x, float):
        return repr(round(x, 11) + 0.0)
    return repr(x)


def obs_sample_full(U, s, texts=True):
    """Everything that can be read from a sample."""
    vs = sorted(U.spec["vars"])
    esv = s.edges_set_view()
    if esv is None:
        view = None
    elif isinstance(esv, frozenset):
        view = frozenset((frozenset((U.name(v), U.name(x)) for v, x in ep), obs_relation(U, r)) for ep, r in esv)
    else:
        view = (U.name(esv[0]), U.name(esv[1]))
    d = dict(
        core=obs_sample(U, s),
        view=view,
        values=frozenset((U.name(v), U.name(x)) for v, x in s.values()),
        included=frozenset(U.name(v) for v in s.included_variables),
        single=bool(s.is_single_node), k0=bool(s.is_k_0),
        pairs=frozenset(frozenset(U.name(v) for v in p) for p in s.edges_endpoint_variables()),
        value_of={v: (lambda x: None if x is None and not s.have_variable(U.label(v)) else U.name(x))(
            s.value_for_variable(U.label(v))) for v in vs},
        has={v: s.have_variable(U.label(v)) for v in vs},
    )
    if texts:
        d["name"] = str(s.name)
        d["repr"] = repr(s)
        d["text"] = s.text_view()
    return d


def set_len(t):
    try:
        return len(t)
    except OverflowError:  # len() of Python itself is limited
        return t.length


def obs_set_full(U, t):
    items = obs_items(U, t)
    return dict(items=items, length=t.length, len=set_len(t), bool=bool(t),
                samples=frozenset(obs_sample(U, s) for s in t.samples()),
                counts={obs_sample(U, s): t.count_of(s) for s in t.samples()},
                names=frozenset((obs_sample(U, s), str(s.name)) for s in t.samples()))


def obs_marginals(U, m):
    return {U.name(v): {U.name(x): fl(p) for x, p in d.items()} for v, d in m.items()}


def obs_variables(U, vs):
    return {U.name(v): frozenset(U.name(x) for x in xs) for v, xs in vs}


def obs_space_full(U, g):
    d = dict(outcomes=obs_set_full(U, g.outcomes), repr=repr(g), name=str(g.name),
             included=obs_variables(U, g.included_variables()),
             relations_included=frozenset(obs_relation(U, r) for r in g.included_relations()),
             printed=g.print_samples())
    if hasattr(g, "variables"):
        d["variables"] = obs_variables(U, g.variables)
        d["relations"] = frozenset(obs_relation(U, r) for r in g.relations)
    if hasattr(g, "evidence"):
        d["evidence"] = obs_sample_full(U, g.evidence)
    d["describe"] = canon({k: (frozenset(map(str, v)) if isinstance(v, (set, frozenset)) else v)
                           for k, v in g.describe().items()})
    if g.outcomes:
        d["marginals"] = obs_marginals(U, g.marginal_variables_probability())
        d["probabilities"] = {obs_sample(U, s): fl(p) for s, p in g.outcomes.probabilities()}
    return d


def obs_edges_set(U, view):
    """A sample as plain sets, back to the form of the model."""
    if view is None:
        return frozenset(), frozenset()
    if isinstance(view, tuple):
        return frozenset({(U.name(view[0]), U.name(view[1]))}), frozenset()
    edges = frozenset((frozenset((U.name(v), U.name(x)) for v, x in ep), obs_relation(U, r)) for ep, r in view)
    return frozenset(n for ep, _ in edges for n in ep), edges


def obs_folded(U, f):
    nodes = {}
    for n in f.nodes:
        v = U.name(n.variable)
        entry = dict(values=frozenset(U.name(x) for x in n.values),
                     counts={obs_node(U, vn): c for vn, c in n.value_nodes},
                     unobserved=n.unobserved_count(),
                     marginal={U.name(x): fl(p) for x, p in n.marginal_distribution().items()},
                     found=f.folded_node(n.variable) is n)
        nodes[v] = entry if v not in nodes else "duplicate node"
    edges = {}
    for e in f.edges:
        pair = frozenset(U.name(v) for v in e.endpoints)
        counts = {}
        for re_, c in e.relation_edges:
            k = obs_edge(U, re_)
            counts[k] = c if k not in counts else "duplicate"
        edges[pair] = counts if pair not in edges else "duplicate edge"
    return dict(n=f.number_of_outcomes, nodes=nodes, edges=edges, name=str(f.name),
                variables=frozenset(U.name(v) for v in f.variables))


def obs_activation(U, a):
    nodes = {}
    for n in a.nodes:
        v = U.name(n.variable)
        nodes[v] = ({U.name(x): fl(w) for x, w in n.values}, bool(n.in_query)) if v not in nodes else "duplicate node"
    edges = {}
    for e in a.edges:
        pair = frozenset(U.name(v) for v in e.endpoints)
        edges[pair] = ({obs_relation(U, r): c for r, c in e.relations}, bool(e.in_query)) if pair not in edges \
            else "duplicate edge"
    return dict(n=a.number_of_outcomes, nodes=nodes, edges=edges, name=str(a.name))
