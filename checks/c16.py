"""C16: look-up with names of unknown letter case, every filter combination, and the classification of each solver against a symbolic step."""
import contextlib
import itertools
import warnings

from .common import *

BOUNDS = "26 solvers and every alias; a name in every letter case at once (the case of each letter is unknown until the code looks at it; then 5 spellings); every combination of the four filters with no group, each group in any letter case each ordered pair of groups and each group twice; classification: any right-hand side of dimension 1 and 2, t0 in [-4,4], h in (0,2], two steps"
ASSUMPTIONS = ["solver families as the documentation names them"]

GROUPS = {
    "Euler": EULER,
    "Adams-Bashforth": AB,
    "Adams-Moulton": AM,
    "BDF": BDF,
    "Runge-Kutta": ERK + ADAPTIVE,
}
SPELL = [str.swapcase, str.upper, str.lower, str.title, str]


class AnyCase(str):
    """A name whose letter case is not known; decided (by a fork) only when it matters."""

    def __new__(cls, ctx, name, tag):
        o = str.__new__(cls, name.swapcase())
        o.ctx, o.name, o.tag, o.got = ctx, name, tag, None
        return o

    def spelled(self):
        if self.got is None:
            self.got = SPELL[self.ctx.choice(self.tag, range(len(SPELL)))](self.name)
        return self.got

    def lower(self):
        return self.name.lower()

    def upper(self):
        return self.name.upper()

    def casefold(self):
        return self.name.casefold()

    def __hash__(self):
        return hash(self.spelled())

    def __eq__(self, o):
        return self.spelled() == (o.spelled() if isinstance(o, AnyCase) else o)

    def __ne__(self, o):
        return not self == o

    def __str__(self):
        return self.spelled()

    def __format__(self, spec):
        return format(self.spelled(), spec)


def names():
    """name or alias -> class, from the classes themselves."""
    out = {}
    for n in ALL:
        c = klass(n)
        for a in (n,) + tuple(c.ALIASES):
            out[a] = c
    return out


def h_lookup(ctx, name, cls):
    import nbkode

    want = klass(cls)
    got = nbkode.get_solver(AnyCase(ctx, name, "case"))
    ctx.check(got is want, f"get_solver({name}) is another solver")
    ctx.check(nbkode.get_solver(name) is want, f"get_solver({name})")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(getattr(nbkode, name) is want, f"nbkode.{name}")
    ctx.check(want in nbkode.get_solvers(), "not listed")
    listed = nbkode.list_solvers()
    entry = name if name == cls else f"{name} (alias of {cls})"
    ctx.check(listed.count(entry) == 1, "list_solvers")
    ctx.check((name in nbkode.list_solvers(include_alias=False)) == (name == cls), "list_solvers without aliases")
    ctx.reach("done")


def h_unknown(ctx, name):
    import nbkode

    bad = ctx.choice("how", [name + "x", name[:-1] + "_", "x" + name, " " + name, name + " ", ""])
    try:
        nbkode.get_solver(bad)
        ok = True
    except ValueError:
        ok = False
    ctx.check(not ok, "an unknown name is found")
    if bad:
        try:
            getattr(nbkode, bad)
            ok = True
        except AttributeError:
            ok = False
        ctx.check(not ok, "an unknown attribute is found")
    ctx.reach("done")


def h_filters(ctx, groups):
    import nbkode

    kw = {}
    for k in ("implicit", "fixed_step", "runge_kutta", "multistep"):
        v = ctx.choice(k, [None, True, False])
        if v is not None or ctx.choice(k + " given", [False, True]):
            kw[k] = v
    asked = [AnyCase(ctx, g, f"case{i}") for i, g in enumerate(groups)]
    got = nbkode.get_solvers(*asked, **kw)
    pool = [n for g in dict.fromkeys(groups or GROUPS) for n in GROUPS[g]]
    truth = {
        "implicit": lambda n: n in IMPLICIT,
        "fixed_step": lambda n: n in FIXED,
        "runge_kutta": lambda n: n in ERK + ADAPTIVE,
        "multistep": lambda n: n in MULTI,
    }
    want = [n for n in pool if all(v is None or truth[k](n) == v for k, v in kw.items())]
    ctx.check(sorted(c.__name__ for c in got) == sorted(want), f"get_solvers({groups}, {kw})", f"{got}")
    for c in got:
        ctx.check(nbkode.get_solver(c.__name__) is c, "the solver listed is not the one found")
    ctx.reach("done")


def h_groups(ctx, bad):
    import nbkode

    ctx.check(nbkode.get_groups() == tuple(sorted(GROUPS)), "get_groups")
    if bad is not None:
        try:
            nbkode.get_solvers(bad)
            ok = True
        except KeyError:
            ok = False
        ctx.check(not ok, "an unknown group is accepted")
    ctx.reach("done")


@contextlib.contextmanager
def watch(ctx, log):
    """Log the calls of the root finders."""
    if ctx.sym:
        with stubs.roots(log):
            yield
        return
    import nbkode.nbcompat.zeros as z

    undo = []
    for n in ("j_newton", "newton", "newton_hd"):
        f = getattr(z, n)

        def g(*a, f=load.twin(f), **kw):
            log.append(n)
            return f(*a, **kw)

        undo += load.replace_everywhere(f, g)
    try:
        yield
    finally:
        load.restore(undo)


def h_class(ctx, name, dim, zero):
    cls = klass(name)
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    y0 = ctx.vec("y", dim)
    f = (lambda t, y: ctx.array([0.0] * dim)) if zero else ctx.rhs("f", dim)
    log = []
    with watch(ctx, log), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        first = "ForwardEuler" if name in MULTI and steps_of(name) > 1 else None
        opts = dict(atol=float("inf"), rtol=0.0) if name in ADAPTIVE else {}
        s = make(ctx, name, f, t0, y0, h, first=klass(first) if first else None, **opts)
        a = s.t
        del log[:]
        s.step()
        b = s.t
        s.step()
        c = s.t
    ctx.check(cls.IMPLICIT is bool(log), "IMPLICIT" if not log else "not IMPLICIT, although it solves an equation")
    d = (c - b) - (b - a)
    if zero:
        same = band(d <= 1e-9, d >= -1e-9)
        if cls.FIXED_STEP is True:
            ctx.check(same, "FIXED_STEP, although the step changes")
        else:
            ctx.check(cls.FIXED_STEP is False, "FIXED_STEP is not a truth value")
            ctx.assume(h > 0.25)
            ctx.check(bnot(same), "not FIXED_STEP, although the step does not change")
    elif cls.FIXED_STEP:
        ctx.close(b - a, h, "FIXED_STEP, although the step is another")
        ctx.close(c - b, h, "FIXED_STEP, although the step is another")
    ctx.reach("done")


def tasks(tier):
    out = []

    def add(tag, fn, **cfg):
        out.append(Task(tag, fn, cfg, need=["done"]))

    for n, c in names().items():
        add(f"lookup:{n}", h_lookup, name=n, cls=c.__name__)
        add(f"unknown:{n}", h_unknown, name=n)
    add("filters", h_filters, groups=())
    for g in GROUPS:
        add(f"filters:{g}", h_filters, groups=(g,))
    for g in itertools.permutations(GROUPS, 2):
        add(f"filters:{g}", h_filters, groups=g)
        add(f"filters:{g[0]},{g[0]},{g[1]}", h_filters, groups=(g[0], *g)) if tier == "thorough" else None
    for g in GROUPS:
        add(f"filters:{g},{g}", h_filters, groups=(g, g))
    for bad in (None, "", "Eule", "RungeKutta", "adams"):
        add(f"groups:{bad}", h_groups, bad=bad)
    for n in ALL:
        for dim in (1, 2):
            for zero in (False, True):
                add(f"class:{n}:{dim}:{zero}", h_class, name=n, dim=dim, zero=zero)
    return out
