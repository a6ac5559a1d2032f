"""Variable, value and relation labels whose hashes (hence every set and dict iteration order in the library) are
decided by the simulator, and the translation between labels and their plain names used by the reference model."""
import hashlib


class HStr(str):
    """A string whose hash is chosen by the simulator; equal to strings of the same text."""
    __slots__ = ("_hv",)

    def __new__(cls, text, hv):
        s = super().__new__(cls, text)
        s._hv = hv
        return s

    def __hash__(self):
        return self._hv

    __eq__ = str.__eq__
    __ne__ = str.__ne__


class Lab:
    """A label that is not a string: an arbitrary hashable user object."""
    __slots__ = ("n", "_hv")

    def __init__(self, n, hv):
        self.n = n
        self._hv = hv

    def __hash__(self):
        return self._hv

    def __eq__(self, other):
        return type(other) is type(self) and other.n == self.n

    def __lt__(self, other):
        return self.n < other.n if isinstance(other, Lab) else NotImplemented

    def __repr__(self):
        return self.n


class Twin(Lab):
    """Reads like another label but is not equal to it."""
    __slots__ = ()
    __hash__ = Lab.__hash__


def _hv(policy, hseed, name):
    d = int.from_bytes(hashlib.sha256(f"{hseed}|{name}".encode("utf-8", "backslashreplace")).digest()[:7], "big")
    if policy == "collide":
        return 7
    if policy == "few":
        return d % 3
    if policy == "low":
        return d % 64
    return d


class Universe:
    """Labels of one network.  spec: {"vars": {name: [values]}, "rels": [names], "kind", "hash", "hseed"}"""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec.get("kind", "str")
        self._cache = {}

    def label(self, name):
        if name in self._cache:
            return self._cache[name]
        if name in SPECIAL:
            x = self._cache[name] = SPECIAL[name]
            return x
        hv = _hv(self.spec.get("hash", "rand"), self.spec.get("hseed", 0), name)
        k = self.kind
        if k == "mixed":
            k = ("str", "obj", "tuple")[sum(map(ord, name)) % 3]
        if name.startswith("~"):
            x = Twin(name[1:], hv)
        elif k == "str":
            x = HStr(name, hv)
        elif k == "int":
            x = int(hashlib.sha256(name.encode()).hexdigest()[:6], 16) * 2 + 3
            if self.spec.get("hash") == "low":
                x %= 101
        elif k == "tuple":
            x = (HStr(name, hv), 1)
        else:
            x = Lab(name, hv)
        if type(x) is int:
            while any(x == y for n, y in self._cache.items()):
                x += 1
        self._cache[name] = x
        return x

    def prime(self):
        """Create all labels in a fixed order (int labels depend on it)."""
        for v in sorted(self.spec["vars"]):
            self.label(v)
        for v in sorted(self.spec["vars"]):
            for x in sorted(self.spec["vars"][v]):
                self.label(x)
        for r in sorted(self.spec["rels"]):
            self.label(r)
        return self

    def name(self, label):
        if isinstance(label, HStr):
            return str.__str__(label) + ""
        if label is None or isinstance(label, bool):
            return next(n for n, x in SPECIAL.items() if x is label)
        if isinstance(label, Lab):
            return "~" + label.n if isinstance(label, Twin) else label.n
        if isinstance(label, tuple) and len(label) == 2 and isinstance(label[0], HStr):
            return str.__str__(label[0]) + ""
        if isinstance(label, int) and not isinstance(label, bool):
            for n, x in self._cache.items():
                if type(x) is int and x == label:
                    return n
        if type(label) is str:
            return "plain:" + label
        return "?" + repr(label)


BIG_COUNTS = [1, 10 ** 400 + 7, 10 ** 6 + 3, 10 ** 9 + 7, 2 ** 31 - 1, 2 ** 53 + 1, 10 ** 18 + 9]

SPECIAL = {"~none": None, "~false": False, "~true": True}

VAR_POOL = ["a", "b", "c", "d", "ab", "ba", "abc", "x", "xy", "node", "on", "no", "e"]
VAL_POOL = ["T", "F", "1", "2", "12", "hi", "ih", "z"]
REL_POOL = ["r", "s", "rs", "sr", "q", "like"]


# Labels users do choose: truth values, None, labels with the same text, texts that run together
ODD_VALS = VAL_POOL + ["~none", "~false", "~true", "~T", "~1", "~none", "~false"]
ODD_VARS = ["a", "~a", "b", "~b", "ab", "x", "~true", "~none"]
ODD_RELS = REL_POOL + ["~none", "~true", "~false", "~r", "~s"]
UNDER_VARS = ["a", "a_b", "a_b_c", "b", "b_c"]
UNDER_VALS = ["c", "b_c", "b", "b_c_c", "c_c", "b_b_c"]


def pools(rng, odd=True):
    """-> (variable, value, relation) pools of one network"""
    x = rng.random()
    if odd and x < 0.25:
        return (ODD_VARS if x < 0.15 else VAR_POOL), ODD_VALS, ODD_RELS
    if odd and x < 0.35:
        return UNDER_VARS, UNDER_VALS, REL_POOL
    return VAR_POOL, VAL_POOL, REL_POOL


def pick(rng, pool, n):
    """n different labels of a pool"""
    out = []
    for x in rng.sample(pool, min(len(pool), n + 4)):
        if x not in out and len(out) < n:
            out.append(x)
    return out


def random_spec(rng, nvars=(2, 4), nvals=(1, 3), nrels=(1, 3),
                kinds=("str", "str", "str", "int", "tuple", "obj", "mixed"), odd=True):
    va, vl, rl = pools(rng, odd)
    vs = pick(rng, va, rng.randint(*nvars))
    return dict(
        vars={v: pick(rng, vl, rng.randint(*nvals)) for v in vs},
        rels=pick(rng, rl, rng.randint(*nrels)),
        kind=rng.choice(kinds),
        hash=rng.choice(["rand", "rand", "low", "few", "collide"]),
        hseed=rng.randrange(1 << 30))
