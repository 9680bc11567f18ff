"""C20: run with a finite t_bound anywhere, against single steps of fresh solvers: what is answered, where the integration ends, every step a legitimate step that ends by t_bound."""
import itertools
import warnings

from .c11 import event, solving
from .common import *

BOUNDS = "26 solvers; dimension 1; any right-hand side, t0 in [-4,4], h in (0,2], t_bound anywhere up to 3.5 steps (adaptive: 2.5 first steps) after the start; 1 to 3 requested times anywhere in the valid range in every order, t_bound itself among them; with and without a (non-terminal) event; then a second run up to t_bound and steps until refused; adaptive solvers with steps of constant or doubling length, or with up to one rejected attempt"
ASSUMPTIONS = ["implicit equations and the bisection along the step are replaced by their contracts (C13-C15)"]


def options(kind):
    if kind == "constant":
        return dict(atol=float("inf"), rtol=0.0, min_factor=1.0, max_factor=1.0)
    if kind == "growing":
        return dict(atol=float("inf"), rtol=0.0, min_factor=0.5, max_factor=2.0)
    return {}


def build(ctx, name, f, t0, y0, h, tb, first, kind):
    if name in ADAPTIVE:
        return make(ctx, name, f, t0, y0.copy(), h, t_bound=tb, **options(kind))
    return make(ctx, name, f, t0, y0.copy(), h, t_bound=tb, first=klass(first) if first else None)


def ask(ctx, s, ts, ev):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ev:
            e, _ = event(ctx, "y0", 0, False, None)
            return s.run_events(ts, e)[:2]
        return s.run(ts)


def times(ctx, n, lo, hi, last):
    """n requested times in [lo, hi], increasing; the last one hi if asked for."""
    out = []
    for i in range(n - last):
        w = ctx.real(f"w{i}", -64, 64)
        ctx.assume(w >= (out[-1] if out else lo))
        ctx.assume(w <= hi)
        out.append(w)
    return out + [hi] * last


def shuffled(xs, order):
    return [xs[i] for i in order]


def h_adaptive(ctx, name, n, order, last, kind, ev, span):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    tb = ctx.real("tb", -8, 32)
    ctx.assume(tb > t0)
    ctx.assume(tb <= t0 + span * h)
    y0 = ctx.vec("y", 1)
    f = ctx.rhs("f", 1)
    guard = [True]

    def g(t, y):
        ctx.check(t <= tb, "right-hand side evaluated in a step that ends beyond t_bound")
        return f(t, y)

    if kind == "reject":
        g = limited(ctx, g, budget(name, 3) + 2)
    with solving(ctx, memo=True):
        s = build(ctx, name, g, t0, y0, h, tb, None, kind)
        b = build(ctx, name, f, t0, y0, h, tb, None, kind)
        want = times(ctx, n, t0, tb, last)
        ts, ys = ask(ctx, s, shuffled(want, order), ev)
        ctx.check(len(ts) == n, "not every time is answered")
        if len(ts) != n:
            return
        ctx.closes(ts, shuffled(want, order), "times answered")
        got = dict(zip(order, [flat(y) for y in ys]))
        # single steps of another instance
        for i, w in enumerate(want):
            while not ctx.true(b.t >= w):
                a, ya = b.t, b.y.copy()
                b.step()
                ctx.check(b.t <= tb, "a step ends beyond t_bound")
                if kind != "reject":
                    r = klass(name)(f, a, ya, first_step=b.t - a, **options("constant"))
                    r.step()
                    ctx.closes(b.y, r.y, "state after a shortened step")
            ctx.closes(got[i], b.interpolate(w), "value at a requested time")
        ctx.check(s.t <= tb, "beyond t_bound")
        ctx.close(s.t, b.t, "the integration went elsewhere")
        if last:
            ctx.close(s.t, tb, "the integration does not end at t_bound")
            ctx.closes(got[n - 1], flat(s.y.copy()), "value at t_bound")
        # on to t_bound
        ts, ys = ask(ctx, s, tb, False)
        ctx.check(len(ts) == 1, "t_bound is not answered")
        ctx.close(s.t, tb, "the integration does not end at t_bound")
        if len(ts) == 1:
            ctx.close(ts[0], tb, "t_bound is not answered")
            ctx.closes(ys[0], s.y, "value at t_bound")
        for op in (s.step, s.skip):
            try:
                op()
                ok = True
            except RuntimeError:
                ok = False
            ctx.check(not ok, "a step beyond t_bound")
        ctx.close(s.t, tb, "moved by a refused step")
    ctx.reach("done")


def h_steps(ctx, name, kind, span):
    """step() until it is refused: ends at t_bound exactly."""
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    tb = ctx.real("tb", -8, 32)
    ctx.assume(tb >= t0)
    ctx.assume(tb <= t0 + span * h)
    f = ctx.rhs("f", 1)
    s = build(ctx, name, limited(ctx, f, budget(name, 3) + 2) if kind == "reject" else f, t0, ctx.vec("y", 1), h, tb, None, kind)
    for i in range(12):
        before = s.t
        try:
            s.step()
        except RuntimeError:
            break
        ctx.check(s.t > before, "a step that does not advance")
        ctx.check(s.t <= tb, "a step ends beyond t_bound")
    ctx.close(s.t, tb, "the integration does not end at t_bound")
    ctx.reach("done")


def h_fixed(ctx, name, n, order, last, ev, span, first, past):
    t0 = ctx.real("t0", -4, 4)
    h = ctx.pos("h", 2)
    tb = ctx.real("tb", -32, 64)
    y0 = ctx.vec("y", 1)
    f = ctx.rhs("f", 1)

    def g(t, y):
        ctx.check(t <= tb, "right-hand side evaluated in a step that ends beyond t_bound")
        return f(t, y)

    with solving(ctx, memo=True):
        b = build(ctx, name, f, t0, y0, h, float("inf"), first, None)
        start = b.t
        ctx.assume(tb >= start)
        ctx.assume(tb <= start + span * h)
        s = build(ctx, name, g, t0, y0, h, tb, first, None)
        want = times(ctx, n, start, tb, last)
        if past and len(s.cache.ts) > 1 and name in MULTI and steps_of(name) > 1:
            w = ctx.real("past", -64, 64)
            ctx.assume(w >= s.cache.ts[0])
            ctx.assume(w <= start)
            want = [w] + want
        ts, ys = ask(ctx, s, shuffled(want, order[: len(want)]) if not past else want[::-1], ev)
        asked = shuffled(range(n), order) if not past else list(range(len(want)))[::-1]
        # single steps of an unbounded solver: the grid, and the values on it
        value, i = {}, 0
        while True:
            while i < len(want) and ctx.true(want[i] <= b.t):
                value[i] = flat(b.interpolate(want[i]))
                i += 1
            if i == len(want) or ctx.true(b.t + h > tb):
                break
            b.step()
        expect = [k for k in asked if k in value]
        ctx.check(len(ts) == len(expect), "which times are answered")
        if len(ts) == len(expect):
            ctx.closes(ts, [want[k] for k in expect], "times answered, in the requested order")
            for k, y in zip(expect, ys):
                ctx.closes(y, value[k], "value at a requested time")
        ctx.check(s.t <= tb, "beyond t_bound")
        if len(expect) < len(want):
            ctx.reach("not all")
            ctx.check(s.t + h > tb, "stopped although a step fits")
        else:
            ctx.reach("all")
        ctx.close(s.t, b.t, "the integration went elsewhere")
        ctx.closes(s.y, b.y, "the integration went elsewhere")


def tasks(tier):
    out = []
    deep = tier != "quick"

    def add(tag, fn, need=("done",), **cfg):
        out.append(Task(tag, fn, cfg, need=list(need)))

    for name in ADAPTIVE[::-1]:
        for kind in ("constant", "growing"):
            if name != "DOP853" or deep or kind == "constant":
                add(f"{name}:3:{kind}", h_adaptive, name=name, n=3, order=(2, 0, 1), last=False, kind=kind, ev=False, span=2.5 if deep else 1.5)
            for n, order, last in ((1, (0,), True), (2, (0, 1), True), (2, (1, 0), True), (1, (0,), False)):
                for ev in (False, True):
                    if ev and n == 2 and not deep:
                        continue
                    add(f"{name}:{n}:{order}:{last}:{kind}:{ev}", h_adaptive, name=name, n=n, order=order, last=last, kind=kind, ev=ev, span=(2.5 if name != "DOP853" or deep else 1.5) + deep * (kind == "growing"))
            add(f"{name}:steps:{kind}", h_steps, name=name, kind=kind, span=3.5)
        if name != "DOP853" or deep:
            add(f"{name}:steps:reject", h_steps, name=name, kind="reject", span=1.5)
            add(f"{name}:1:reject", h_adaptive, name=name, n=1, order=(0,), last=True, kind="reject", ev=False, span=1.5)
    for name in FIXED:
        fi = "ForwardEuler" if name in MULTI and steps_of(name) > 1 else None
        both = ("all", "not all")
        for n, order, last in ((3, (2, 0, 1), False), (2, (1, 0), False), (2, (0, 1), True), (1, (0,), True), (1, (0,), False)):
            for ev in (False, True):
                if ev and n > 1 and not deep:
                    continue
                span = 3.5 if deep or (n < 3 and not ev) else 1.5 if ev else 2.5
                add(f"{name}:{n}:{order}:{last}:{ev}", h_fixed, both, name=name, n=n, order=order, last=last, ev=ev, span=span, first=fi, past=False)
        if fi:
            add(f"{name}:past", h_fixed, both, name=name, n=2, order=(0, 1), last=False, ev=False, span=2.5, first=fi, past=True)
    return out
