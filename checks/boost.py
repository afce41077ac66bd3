"""The boosting models of guest and hosts: the real classes over the in-memory federation, with a ghost cipher for Paillier."""
import itertools
import threading
import numpy as real_np
from symx.engine import Unsupported
from symx.fed import Fed
from checks.common import table, instance, array, guest_class
from checks.c06 import Cipher


class GhostKey:
    """stands for the private key"""


class GhostPublic:
    def encrypt(self, v, *a, **k):
        return Cipher(v)


def ghost_paillier(h):
    E = h.mod("ml.secureprotol.encrypt").PaillierEncrypt

    def generate_key(self, n_length=1024):
        self.public_key, self.privacy_key = GhostPublic(), GhostKey()

    def encrypt(self, value):
        return Cipher(value)

    def decrypt(self, value):
        if type(value) is not Cipher:
            raise TypeError("not a ciphertext: %s" % type(value).__name__)
        return value.v

    E.generate_key, E.encrypt, E.decrypt = generate_key, encrypt, decrypt


class Draws:
    """models of the random choices: every possible outcome of a draw without replacement (as a set) is a branch"""
    def __init__(self, h, prefix="draw"):
        self.h, self.n, self.log = h, 0, []
        self.prefix = prefix
        h.hooks["np.choice"] = self.choice
        h.hooks["np.permutation"] = self.permutation
        h.hooks["np.shuffle"] = h.hooks["random.shuffle"] = self.shuffle
        h.hooks["random.sample"] = lambda pop, k: self.subset(list(pop), k)
        h.hooks["np.seed"] = h.hooks["random.seed"] = self.seed
        h.hooks["np.RandomState"] = h.hooks["np.default_rng"] = h.hooks["random.Random"] = lambda s=None: Seeded(self, s)
        self.stream, self.memo, self.repeats = {}, {}, 0

    def seed(self, s=None, *a):
        """after seeding, a party's draws are a function of the seed and their number"""
        self.stream[threading.current_thread()] = None if s is None else [repr(s), 0]

    def pickn(self, k):
        st = self.stream.get(threading.current_thread())
        key = None
        if st is not None:
            key = (st[0], st[1], k)
            st[1] += 1
            if key in self.memo:
                self.repeats += 1
                return self.memo[key]
        i = self.h.choose("%s%d" % (self.prefix, self.n), k)
        self.n += 1
        if key is not None:
            self.memo[key] = i
        return i

    def subset(self, pool, k):
        if k > len(pool):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if k == len(pool):
            out = pool
        else:
            combos = list(itertools.combinations(range(len(pool)), k))
            i = self.pickn(len(combos))
            out = [pool[j] for j in combos[i]]
        self.log.append((list(pool), list(out)))
        return list(out)

    def choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, int) else list(a)
        if size is None:
            return self.subset(pool, 1)[0]
        size = int(size)
        if p is not None:
            raise Unsupported("numpy.random.choice with weights")
        if replace:
            out = []
            for _ in range(size):
                i = self.pickn(len(pool))
                out.append(pool[i])
            self.log.append((list(pool), list(out)))
        else:
            out = self.subset(pool, size)
        return real_np.array(out)

    def permutation(self, a):
        pool = list(range(a)) if isinstance(a, int) else list(a)
        for i in range(len(pool)):
            j = i + self.pickn(len(pool) - i)
            pool[i], pool[j] = pool[j], pool[i]
        return real_np.array(pool)

    def shuffle(self, a):
        a[:] = list(self.permutation(list(a)))


class Seeded:
    """a generator object: its draws are a function of its seed and their number"""
    def __init__(self, draws, seed):
        self.draws, self.state = draws, None if seed is None else ["object %r" % (seed,), 0]

    def _own(self, f, *a, **k):
        d, t = self.draws, threading.current_thread()
        old = d.stream.get(t)
        d.stream[t] = self.state
        try:
            return f(*a, **k)
        finally:
            d.stream[t] = old

    def choice(self, *a, **k):
        return self._own(self.draws.choice, *a, **k)

    def permutation(self, *a, **k):
        return self._own(self.draws.permutation, *a, **k)

    def shuffle(self, *a, **k):
        return self._own(self.draws.shuffle, *a, **k)

    def sample(self, pop, k):
        return self._own(self.draws.subset, list(pop), k)


class Boost:
    """rows: {key: [[value per feature] per party]}, labels: {key: label}; conf: nested configuration of BoostingTreeParam"""
    def __init__(self, h, rows, labels, conf=None, headers=None, order=None, sparse=False, params=None):
        self.h, self.rows, self.labels, self.conf = h, rows, labels, conf or {}
        self.keys = list(rows)
        first = rows[self.keys[0]]
        self.np = len(first)
        self.nh = self.np - 1
        self.headers = headers or [["p%d_%d" % (p, len(first[p]) - f) for f in range(len(first[p]))] for p in range(self.np)]
        self.order = order or [self.keys] * self.np
        self.sparse = sparse
        self.params = params                # function applied to each party's parameter object
        ghost_paillier(h)
        self.draws = Draws(h)

    def table(self, p, rows=None, order=None, sparse=None):
        rows = rows or self.rows
        sparse = self.sparse if sparse is None else sparse
        out = []
        for key in (order or [k for k in self.order[p] if k in rows]):
            v = rows[key][p]
            lab = self.labels.get(key) if p == 0 else None
            if sparse:
                feats = {f: x for f, x in enumerate(v) if not (type(x) is float and x == 0.0)}
                out.append((key, instance(self.h, feats, label=lab, inst_id=key, sparse=True, shape=len(v))))
            else:
                out.append((key, instance(self.h, v, label=lab, inst_id=key)))
        return table(self.h, out, header=self.headers[p])

    def tables(self, rows=None, order=None):
        return [self.table(p, rows, order and order[p]) for p in range(self.np)]

    def build(self, p):
        h = self.h
        if p == 0:
            m = guest_class(h, "boost")()
        else:
            m = h.cls("ml.tree.hetero_secureboosting_tree_host", "HeteroSecureBoostingTreeHost")()
        P = h.cls("ml.param.boosting_tree_param", "BoostingTreeParam")()
        setall(P, self.conf)
        if self.params:
            self.params(P, p)
        m._init_model(P)
        if p:
            m.set_runtime_idx(p - 1)
        return m

    def models(self):
        self.guest = self.build(0)
        self.hosts = [self.build(p) for p in range(1, self.np)]
        return self.guest, self.hosts

    def connect(self):
        fed = Fed(self.nh)
        if not getattr(self.h, "alone", False):       # the stand-alone trainer gets no channels
            self.guest.set_transfer_inst(fed.guest_inst())
        for k, m in enumerate(self.hosts):
            m.set_transfer_inst(fed.host_inst(k))
        return fed

    def fit(self, tables=None):
        tables = tables or self.tables()
        self.fed = fed = self.connect()
        jobs = {"guest": lambda: self.guest.fit(tables[0])}
        for k in range(self.nh):
            jobs[k] = (lambda k=k: self.hosts[k].fit(tables[k + 1]))
        fed.run(jobs)
        return fed

    def predict(self, tables=None):
        """{key: prediction row}"""
        tables = tables or self.tables()
        self.pfed = fed = self.connect()
        jobs = {"guest": lambda: self.guest.predict(tables[0])}
        for k in range(self.nh):
            jobs[k] = (lambda k=k: self.hosts[k].predict(tables[k + 1]))
        res = fed.run(jobs)
        return dict(res["guest"].collect())


def setall(obj, conf):
    for k, v in conf.items():
        if isinstance(v, dict):
            setall(getattr(obj, k), v)
        else:
            assert hasattr(obj, k), k
            setattr(obj, k, v)


def scalar(x):
    """the number in a scalar or one-element array"""
    while hasattr(x, "shape") and getattr(x, "shape", None):
        x = x[0]
    return x
