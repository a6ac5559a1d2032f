"""Reference model of the relational network library, on plain names.

node     (variable, value)
relation name, or ("D", source variable, target variable, name)
edge     (frozenset({node, node}), relation)
sample   (frozenset(nodes), frozenset(edges))
set      {sample: count}
Nothing here imports the library.
"""
from fractions import Fraction
from itertools import product


def connected(nodes, edges):
    if not nodes:
        return True
    nodes = set(nodes)
    todo = [sorted(nodes, key=repr)[0]]
    seen = set(todo)
    adj = {}
    for ep, _ in edges:
        a, b = tuple(ep)
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    while todo:
        for m in adj.get(todo.pop(), ()):
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen == nodes


def variables_of(sample):
    return frozenset(v for v, _ in sample[0])


def one_value_per_variable(sample):
    return len(variables_of(sample)) == len(sample[0])


def contains(outcome, evidence):
    return evidence[0] <= outcome[0] and evidence[1] <= outcome[1]


def condition(mset, evidence):
    ev_vars = variables_of(evidence)
    return {o: c for o, c in mset.items() if contains(o, evidence) or not (ev_vars & variables_of(o))}


def total(mset):
    return sum(mset.values())


def included_variables(mset):
    acc = {}
    for o in mset:
        for v, x in o[0]:
            acc.setdefault(v, set()).add(x)
    return {v: frozenset(xs) for v, xs in acc.items()}


def included_relations(mset):
    return frozenset(r for o in mset for _, r in o[1])


def marginals(mset, variables, unobserved):
    """{variable: {value: float}}; unobserved share under key 'plain:u' when asked for."""
    n = total(mset)
    acc = {}
    for o, c in mset.items():
        for v, x in o[0]:
            if v in variables:
                d = acc.setdefault(v, {})
                d[x] = d.get(x, 0) + c
    res = {}
    for v, d in acc.items():
        s = sum(d.values())
        if unobserved:
            res[v] = {x: float(Fraction(c, n)) for x, c in d.items()}
            res[v]["plain:u"] = float(Fraction(n - s, n))
        else:
            res[v] = {x: float(Fraction(c, s)) for x, c in d.items()}
    return res


def folded(mset):
    nodes, edges = {}, {}
    for o, c in mset.items():
        for v, x in o[0]:
            d = nodes.setdefault(v, {})
            d[x] = d.get(x, 0) + c
        for e in o[1]:
            pair = frozenset(v for v, _ in e[0])
            d = edges.setdefault(pair, {})
            d[e] = d.get(e, 0) + c
    return nodes, edges


def var_pairs(sample):
    return frozenset(frozenset(v for v, _ in ep) for ep, _ in sample[1])


def is_joined(mset):
    return len({variables_of(o) for o in mset}) <= 1


def is_factorized(mset):
    """No empty outcome, and any two outcomes have the same variable pairs or none in common."""
    keys = {var_pairs(o) for o in mset}
    return all(o[0] for o in mset) and not any(a != b and a & b for a in keys for b in keys)


def factors(mset):
    acc = {}
    for o, c in mset.items():
        acc.setdefault(var_pairs(o) or variables_of(o), {})[o] = c
    return list(acc.values())


def groups(mset):
    """{variables: sub set} of samples linked by chains of common variable pairs; single nodes go by their variable.
    None when two groups span the same variables."""
    parts = []
    for o in sorted(mset, key=repr):
        key = var_pairs(o) or frozenset({variables_of(o)})
        touching = [p for p in parts if p[0] & key]
        parts = [p for p in parts if not p[0] & key]
        parts.append((key.union(*[p[0] for p in touching]), [o] + [x for p in touching for x in p[1]]))
    res = {}
    for key, members in parts:
        vs = frozenset(v for pair in key for v in pair)
        if vs in res:
            return None
        res[vs] = {o: mset[o] for o in members}
    return res


def join_on(mset, var, limit):
    """Joining any outcomes on one variable: (result, number of groups), or None where it is out of scope."""
    take = {o: c for o, c in mset.items() if var in variables_of(o)}
    parts = groups(take)
    if parts is None:
        return None
    cost = 1
    for p in parts.values():
        cost *= len(p)
    if cost > limit:
        return None
    res = {o: c for o, c in mset.items() if o not in take}
    if parts:
        for combo in product(*[sorted(p.items(), key=repr) for _, p in sorted(parts.items(), key=repr)]):
            nodes, edges, n = frozenset(), frozenset(), 1
            for (ns, es), c in combo:
                nodes, edges, n = nodes | ns, edges | es, n * c
            if one_value_per_variable((nodes, edges)):
                res[(nodes, edges)] = res.get((nodes, edges), 0) + n
    return res, len(parts)


def similarity(a, b):
    x, y = a[0] | a[1], b[0] | b[1]
    return Fraction(len(x & y), len(x | y))


def distances(outcome, centre, rel_filter):
    """Steps from the centre nodes over allowed edges; centre nodes (also those not in the outcome) are 0."""
    dist = {n: 0 for n in centre}
    frontier = set(centre)
    d = 0
    while frontier:
        d += 1
        nxt = set()
        for ep, r in outcome[1]:
            if rel_filter and r not in rel_filter:
                continue
            a, b = tuple(ep)
            for p, q in ((a, b), (b, a)):
                if p in frontier and q not in dist:
                    nxt.add(q)
        for n in nxt:
            dist[n] = d
        frontier = nxt
    return dist


def activation(mset, evidence, all_vars, rel_filter):
    """(nodes {var: ({value: float}, in_query)}, edges {pair: ({relation: count}, in_query)})"""
    n = total(mset)
    ev_vars = variables_of(evidence)
    weights = {v: {x: Fraction(0) for x in xs} for v, xs in all_vars.items()}
    rel_counts = {}
    for o, c in mset.items():
        sim = similarity(o, evidence)
        dist = distances(o, evidence[0], rel_filter)
        for node in o[0]:
            if node in evidence[0]:
                weights[node[0]][node[1]] += c
            elif node in dist:
                weights[node[0]][node[1]] += sim * c
        for e in evidence[1]:
            pair = frozenset(v for v, _ in e[0])
            d, _ = rel_counts.setdefault(pair, ({}, True))
            d[e[1]] = d.get(e[1], 0) + c
        for ep, r in o[1]:
            if (ep, r) in evidence[1] or (rel_filter and r not in rel_filter):
                continue
            a, b = tuple(ep)
            if a in dist and b in dist and abs(dist[a] - dist[b]) == 1:
                pair = frozenset(v for v, _ in ep)
                d, _ = rel_counts.setdefault(pair, ({}, False))
                d[r] = d.get(r, 0) + c
    nodes = {v: ({x: float(w / n) if n else 0.0 for x, w in xs.items()}, v in ev_vars) for v, xs in weights.items()}
    return nodes, rel_counts


def join_samples(samples):
    """The union of samples that agree on all shared variables, or None."""
    val = {}
    for nodes, _ in samples:
        for v, x in nodes:
            if val.setdefault(v, x) != x:
                return None
    return (frozenset().union(*[s[0] for s in samples]), frozenset().union(*[s[1] for s in samples]))


def natural_join(factors):
    """factors: list of {sample: count} -> {joined sample: product of counts}"""
    res = {}
    for choice in product(*[list(f.items()) for f in factors]):
        j = join_samples([s for s, _ in choice])
        if j is not None:
            c = 1
            for _, k in choice:
                c *= k
            assert j not in res
            res[j] = c
    return res


def all_samples(variables, relations):
    """Every connected sample with at most one value per variable and one relation per variable pair."""
    vs = sorted(variables)
    res = set()
    for mask in range(1, 1 << len(vs)):
        sub = [v for i, v in enumerate(vs) if mask >> i & 1]
        pairs = [(i, j) for i in range(len(sub)) for j in range(i + 1, len(sub))]
        shapes = []
        for choice in product([None] + sorted(relations), repeat=len(pairs)):
            es = [(p, r) for p, r in zip(pairs, choice) if r is not None]
            seen, todo = {0}, [0]
            while todo:
                k = todo.pop()
                for (i, j), _ in es:
                    for a, b in ((i, j), (j, i)):
                        if a == k and b not in seen:
                            seen.add(b)
                            todo.append(b)
            if len(seen) == len(sub):
                shapes.append(es)
        for values in product(*[sorted(variables[v]) for v in sub]):
            nodes = [(v, x) for v, x in zip(sub, values)]
            for es in shapes:
                res.add((frozenset(nodes), frozenset((frozenset({nodes[i], nodes[j]}), r) for (i, j), r in es)))
    return res
