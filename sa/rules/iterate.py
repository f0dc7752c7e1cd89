"""Iterations of a derived optimizer, read over small meshes.

The value graph of one iteration (and of the start) is read over random small
arrays: every design, load, filter and state solve is a random function of
its arguments, so that whatever the values are, the relations a property
demands between them must hold.  Loop-carried values are taken from one
iteration to the next as the graph says; the multiplier search is followed
pass by pass.  Nothing of the package is run: only terms are read.
"""
from __future__ import annotations
import copy
import os
import random

from .. import terms as tm
from .. import dense as dn
from ..dense import np, Dense, Undecided, Crash
from ..terms import T, sym, const

RANGES = {
    "cfg.rho_min": (1e-3, 0.1), "cfg.rho_max": (0.8, 1.0),
    "cfg.E_min_coeff": (1e-4, 0.05), "cfg.beta_eta": (0.2, 0.8),
    "cfg.scaling_rate_min": (0.4, 0.9), "cfg.scaling_rate_max": (1.1, 2.0),
    "cfg.sensitivity_scale_floor": (1e-10, 1e-3),
    "cfg.vol_frac.init_value": (0.2, 0.95),
    "cfg.vol_frac.target_value": (0.2, 0.95),
    "cfg.lagrangian_clip": (0.3, 3.0), "cfg.mu_p": (0.5, 20.0),
    "cfg.lambda_decay": (0.05, 0.95),
    "cfg.augmented_lagrangian_mu": (0.0, 5.0),
    "cfg.lagrangian_percentile": (50.0, 99.0),
    "cfg.volume_chain_percentile": (50.0, 99.0),
    "cfg.lagrangian_scale_floor": (1e-9, 1e-4),
    "cfg.volume_chain_scale_floor": (1e-9, 1e-4),
    "cfg.volume_chain_gain": (0.5, 2.0), "tsk.E": (1.0, 20.0),
    "tsk.material_coef": (1.0, 20.0), "cfg.lambda_v": (0.0, 1.0),
    "cfg.tol_rho_change": (1e-4, 1e-2), "cfg.tol_kkt_residual": (1e-4, 1e-2),
    "cfg.filter_radius.init_value": (0.2, 1.0),
    "cfg.filter_radius.target_value": (0.2, 1.0),
}
SCHED = {"move_limit": (0.02, 0.3), "vol_frac": (0.3, 0.7), "p": (1.0, 4.0),
         "beta": (0.5, 6.0), "eta": (0.2, 1.0), "filter_radius": (0.3, 0.9),
         "neumann_scale": (0.2, 1.0), "percentile": (60.0, 99.0)}
FLAGS = ("sensitivity_filter", "center_lagrangian", "center_objective",
         "filter_lagrangian", "normalize_volume_chain")


def name_of(t):
    while isinstance(t, T) and t.op in ("str", "float"):
        t = t.args[0]
    return tm.cval(t) if tm.is_const(t) else None


class Case:
    """one random problem, configuration and set of stand-in functions"""

    def __init__(self, run, rng, flags=None, disjoint=None):
        self.run, self.rng = run, rng
        self.salt, self.salt2 = rng.random(), ()
        self.n = n = rng.choice([4, 5, 6, 7])
        self.nt = rng.choice([1, 2, 3])
        alle = list(range(n))
        k = rng.randint(2, n - 1)
        # an order that is not that of the elements
        self.D = np.array(rng.sample(alle, k))
        rest = [i for i in alle if i not in set(self.D.tolist())]
        self.disjoint = rng.random() < 0.5 if disjoint is None else disjoint
        if self.disjoint:
            self.N = np.array(sorted(rng.sample(rest, rng.randint(
                1, len(rest)))))
        else:
            self.N = np.array(sorted({rng.choice(self.D.tolist())} | set(
                rng.sample(rest, rng.randint(0, len(rest))))))
        rest2 = [i for i in rest if i not in set(self.N.tolist())]
        extra = [] if not self.disjoint else rest2
        free = rng.random() < 0.15          # no loaded elements at all
        if free:
            self.N = np.array([], dtype=int)
        self.Di = np.array(sorted(rng.sample(extra or rest or alle, 1)))
        self.DN = np.array(sorted(set(self.N.tolist())
                                  | set(self.Di.tolist())))
        self.fixed = np.array(sorted(set(rest)))
        self.vol = np.array([rng.uniform(0.5, 2.0) for _ in alle])
        self.num = {}
        for name, (lo, hi) in RANGES.items():
            self.num[name] = rng.uniform(lo, hi)
        self.flag = {f: rng.random() < 0.4 for f in FLAGS}
        self.flag.update(flags or {})
        lo = rng.choice([1e-7, 1e-3, 0.05])
        self.num["cfg.lambda_lower"] = lo
        self.num["cfg.lambda_upper"] = rng.choice([10.0, 1e3, 1e7])
        if run.kind == "LogMOC":
            self.num["cfg.lambda_lower"] = rng.choice([-1e3, -1.0, 0.0])
            self.num["cfg.lambda_upper"] = rng.choice([1.5, 50.0, 1e3])
        if rng.random() < 0.3:
            self.num["cfg.augmented_lagrangian_mu"] = 0.0
        self.num["cfg.filter_radius.num_steps"] = rng.choice([2, -1.0])
        self.num["cfg.max_iters"] = rng.randint(5, 9)
        self.num["cfg.restart_from"] = rng.randint(1, 3)
        self.percentile = rng.choice([None, 1, 1])
        self.gain_under = rng.choice([None, rng.uniform(0.5, 2.0)])
        self.num["cfg.dual_update"] = rng.choice(["ema", "augmented"])
        self.ends = {}
        for name, (lo, hi) in SCHED.items():
            for end in ("init_value", "target_value"):
                self.ends[f"cfg.{name}.{end}"] = self.num.pop(
                    f"cfg.{name}.{end}", rng.uniform(lo, hi))
        self.table = {}
        self.W = {}
        self.radii = [round(rng.uniform(0.3, 0.9), 3) for _ in range(2)]
        if rng.random() < 0.5:      # next to each other
            self.radii[1] = self.radii[0] * (1 + rng.choice(
                [0.04, -0.04, 1e-3, -1e-3]))
        self.named = {
            "tsk.design_elements": self.D, "tsk.neumann_elements": None if free else self.N,
            "tsk.dirichlet_elements": self.Di,
            "tsk.dirichlet_neumann_elements": self.DN,
            "tsk.fixed_elements": self.fixed,
            "tsk.all_elements": np.arange(n),
            "tsk.elements_volume": self.vol, "tsk.n_tasks": self.nt,
            "tsk.design_mask": np.isin(np.arange(n), self.D),
        }

    # ------------------------------------------------- stand-in functions
    def draw(self, *key):
        return random.Random(repr((self.salt,) + key))

    def matrix(self, radius):
        r = round(float(radius), 9)
        if r not in self.W:
            g = self.draw("filter", r)
            w = np.array([[g.uniform(0.05, 1.0) if i != j else 2.0
                           for j in range(self.n)] for i in range(self.n)])
            self.W[r] = w / w.sum(axis=1)[:, None]
        return self.W[r]

    def sched(self, name, it):
        k = (name, int(it))
        if k not in self.table:
            g = self.draw("sched", *k, *self.salt2)
            lo, hi = SCHED.get(name, (0.3, 0.9))
            v = g.uniform(lo, hi)
            if name == "filter_radius":
                v = self.radii[g.random() < 0.5]
            if name == "percentile":
                v = None if self.percentile is None else v
            self.table[k] = v
        return self.table[k]

    def func(self, name, args, shape, lo, hi):
        """an arbitrary function of its arguments"""
        key = tuple(np.round(np.asarray(a, dtype=float), 10).tobytes()
                    for a in args)
        g = self.draw(name, key)
        s = 10 ** g.uniform(-1.0, 2.0)
        v = np.array([g.uniform(lo, hi) for _ in range(
            int(np.prod(shape)))]).reshape(shape)
        return v * s

    def hook(self, d, t, E):
        op, a = t.op, t.args
        if op == "sym":
            nm = str(a[0])
            if nm in self.named:
                v = self.named[nm]
                return NoneV if v is None else v
            if nm in self.num:
                return self.num[nm]
            if nm in self.ends:
                return self.ends[nm]
            if nm.startswith("cfg.") and nm[4:] in self.flag:
                return self.flag[nm[4:]]
            if nm == "cfg.check_convergence":
                return False
            return None
        if op in ("is", "isnot") and a[1] is tm.NONE:
            s = tm.show(a[0], 3)
            if s in self.named or s in self.num or s in self.ends:
                return (self.named.get(s, 0) is None) == (op == "is")
            if s == "cfg.volume_chain_gain_under":
                return (self.gain_under is None) == (op == "is")
        if op == "sym" or op != "call":
            return None
        f = a[0]
        if f == "sched":
            src = name_of(a[1])
            if not isinstance(src, str):
                return None
            v = self.sched(src.split(".")[-1], d.ev(a[3], E))
            return NoneV if v is None else v
        if f == "isinstance":
            v = d.ev(a[1], E)
            nm = str(a[2].args[0]) if a[2].op == "ext" else None
            if nm in ("float", "builtins.float"):
                return isinstance(v, float)
            if nm in ("int", "builtins.int"):
                return isinstance(v, int)
            return None
        if f in ("filter.F", "filter.G"):
            w = self.matrix(d.ev(a[1], E))
            x = np.asarray(d.ev(a[2], E), dtype=float)
            if x.ndim == 0:
                x = np.full(self.n, float(x))
            return (w if f == "filter.F" else w.T) @ x
        if isinstance(f, str) and f.startswith("fem."):
            args = [d.ev(x, E) for x in a[1:]]
            shape = {"fem.objectives": (self.nt,), "fem.u": (3, self.nt),
                     "fem.energy": (self.n, self.nt),
                     "fem.sensitivity": (self.n, self.nt)}[f]
            lo, hi = {"fem.energy": (0.01, 1.0),
                      "fem.sensitivity": (-1.0, 0.3)}.get(f, (-1.0, 1.0))
            return self.func(f, args, shape, lo, hi)
        if f == "np.load" or f == "np.load()":
            g = self.draw("stored")
            return {"rho_design_elements": np.array([
                g.uniform(self.num["cfg.rho_min"], self.num["cfg.rho_max"])
                for _ in self.D])}
        if isinstance(f, str) and f.endswith("find_latest_iter_file"):
            return (2, "data")
        return None


class _NoneV:
    pass


NoneV = _NoneV()


class Reader(Dense):
    def ev(self, t, E=None):
        r = super().ev(t, E)
        return None if r is NoneV else r

    def _ev(self, t, E):
        if t.op == "sym" and str(t.args[0]) == "cfg.volume_chain_gain_under":
            return self.case.gain_under
        return super()._ev(t, E)


def reader(run, case):
    d = Reader({}, run.ip, case.n, case.hook)
    d.case = case
    return d


class Iter:
    """one iteration as read: E binds what the header holds"""

    def __init__(self, d, E, run, k):
        self.d, self.E, self.run, self.k = d, E, run, k

    def __call__(self, t):
        return self.d.ev(t, self.E)

    def fed(self, name):
        f = self.run.fed(name)
        if len(f) != 1:
            raise Undecided(f"{name} is recorded {len(f)} times")
        return self(f[0].extra["data"])


def iterations(run, case, count=3):
    """the first iterations of a run"""
    d = reader(run, case)
    l = run.loop
    steps = list(l.terms)
    E = {}

    def val(m, x, E):
        if x.op == "uninit":
            return dn.UNINIT
        try:
            return d.based(m, d.ev(x, E), E)
        except Crash:
            raise
        except Undecided as e:
            if os.environ.get("SA_DEBUG") == "2":
                print("unset", tm.show(m, 1), tm.show(x, 4), e)
            return dn.UNINIT
    cur = {m.id: val(m, i, E) for m, i, x in steps}
    for k in range(count):
        pairs = [(m, cur[m.id]) for m, _, _ in steps]
        if l.itv is not None:
            pairs.append((l.itv, k))
        E2 = d.bind({}, pairs)
        r = Iter(d, E2, run, k)
        r.pairs = pairs
        yield r
        cur = {m.id: val(m, x, E2) for m, i, x in steps}


def again(it, case, ends=False, others=False):
    """the same iteration, from the same start, with other end points in the
    configured schedules or other scheduled values at all other iterations"""
    c = copy.copy(case)
    if ends:
        c.ends = {k: v * case.draw("ends", k).uniform(0.3, 0.9)
                  for k, v in case.ends.items()}
    if others:
        now = int(it(it.run.iter))
        c.table = {k: v for k, v in case.table.items() if k[1] == now}
        c.salt2 = ("others", now)
    d = reader(it.run, c)
    return Iter(d, d.bind({}, it.pairs), it.run, it.k)


def flagged(label, flags):
    on = [f for f, v in flags.items() if v]
    return f"{label}" + (f" ({', '.join(on)})" if on else "")
