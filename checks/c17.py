"""C17: CaseInsensitiveDict under bounded histories of operations with arbitrary keys, against an association list."""
import collections

from .common import *

BOUNDS = "every history of up to 3 operations (thorough: 4) out of set, delete, pop, setdefault, update with a mapping, update with pairs, clear, popitem, over arbitrary names (any may equal any other, or differ in letter case only), arbitrary values; then every observer with an arbitrary name; constructor from nothing, a mapping, pairs; copies changed on either side"
ASSUMPTIONS = ["a name is its folded class and its spelling within the class; lower(), upper() and casefold() pick a spelling of the class (as for ASCII letters)"]


class Key(str):
    """An arbitrary name: (class of names equal up to case, spelling); equality forks."""

    def __new__(cls, c, s):
        o = str.__new__(cls, "key")
        o.c, o.s = c, s
        return o

    def lower(self):
        return Key(self.c, 0.0)

    casefold = lower

    def upper(self):
        return Key(self.c, 1.0)

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return isinstance(o, Key) and bool(self.c == o.c) and bool(self.s == o.s)

    def __ne__(self, o):
        return not self == o


def spelling(c, s):
    """A concrete name for the class c and spelling s (0 lower, 1 upper)."""
    import struct

    bits = struct.unpack("<Q", struct.pack("<d", float(c) + 0.0))[0]
    word = "".join("abcdefghijklmnop"[(bits >> (4 * i)) & 15] for i in range(16))
    word = word + "zyxwvutsrqponmlk" * 4
    if s == 0:
        return word
    if s == 1:
        return word.upper()
    b = struct.unpack("<Q", struct.pack("<d", float(s)))[0]
    return "".join(ch.upper() if i < 64 and (b >> i) & 1 else ch for i, ch in enumerate(word))


class Names:
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __call__(self):
        i = self.n
        self.n += 1
        c, s = self.ctx.real(f"c{i}", -8, 8), self.ctx.real(f"s{i}", -8, 8)
        if self.ctx.sym:
            return Key(c, s), c, s
        return spelling(c, s), c, s


class Model:
    """An association list keyed by the class."""

    def __init__(self):
        self.e = []  # [class, spelling, value]

    def find(self, c):
        for i, e in enumerate(self.e):
            if bool(e[0] == c):
                return i
        return None

    def set(self, c, s, v):
        i = self.find(c)
        if i is None:
            self.e.append([c, s, v])
        else:
            self.e[i] = [c, s, v]

    def pop(self, c):
        i = self.find(c)
        return None if i is None else self.e.pop(i)

    def copy(self):
        m = Model()
        m.e = [list(e) for e in self.e]
        return m


def klass_():
    from nbkode.util import CaseInsensitiveDict

    return CaseInsensitiveDict


MISS = object()


def compare(ctx, d, m, names, tag):
    """Every observer."""
    ctx.check(len(d) == len(m.e), f"{tag}: length")
    keys = list(d)
    ctx.check(len(keys) == len(m.e), f"{tag}: iteration")
    if len(keys) != len(m.e):
        return
    ctx.check(len(list(d.items())) == len(m.e) and len(list(d.values())) == len(m.e), f"{tag}: items, values")
    for c, s, v in m.e:
        k = Key(c, s) if ctx.sym else spelling(c, s)
        n = [x for x in keys if x == k]
        ctx.check(len(n) == 1, f"{tag}: iteration yields the last spelling once")
        got = [y for x, y in d.items() if x == k]
        ctx.check(len(got) == 1, f"{tag}: items")
        if len(got) == 1:
            ctx.close(got[0], v, f"{tag}: value of an item")
        low = [y for x, y in d.lower_items() if x == k.lower()]
        ctx.check(len(low) == 1, f"{tag}: lower_items")
        if len(low) == 1:
            ctx.close(low[0], v, f"{tag}: value of a lower item")
    # an arbitrary name
    k, c, s = names()
    i = m.find(c)
    ctx.check((k in d) == (i is not None), f"{tag}: membership")
    try:
        got = d[k]
    except KeyError:
        got = MISS
    ctx.check((got is not MISS) == (i is not None), f"{tag}: look-up")
    if got is not MISS and i is not None:
        ctx.close(got, m.e[i][2], f"{tag}: value")
    g = d.get(k, MISS)
    ctx.check((g is not MISS) == (i is not None), f"{tag}: get")
    if i is not None:
        ctx.reach("found")
    else:
        ctx.reach("missing")


def other(ctx, m, names, how):
    """A mapping with the same contents in other spellings (and what it should be equal to)."""
    ents = []
    for c, s, v in m.e:
        _, _, s2 = names()
        ents.append((c, s2, v))
    if how == "value" and ents:
        ents[-1] = (ents[-1][0], ents[-1][1], ents[-1][2] + 1.0)
    if how == "more":
        k, c, s = names()
        if m.find(c) is None:
            ents.append((c, s, 1.0))
    if how == "less" and ents:
        ents.pop()
    pairs = [(Key(c, s) if ctx.sym else spelling(c, s), v) for c, s, v in ents]
    same = len(ents) == len(m.e) and not (how == "value" and ents)
    return pairs, same


def operate(ctx, d, m, names, op, value):
    if op == "set":
        k, c, s = names()
        d[k] = value
        m.set(c, s, value)
    elif op in ("delete", "pop", "popdefault"):
        k, c, s = names()
        want = m.pop(c)
        got = MISS
        try:
            if op == "delete":
                del d[k]
            elif op == "pop":
                got = d.pop(k)
            else:
                got = d.pop(k, -5.0)
            failed = False
        except KeyError:
            failed = True
        ctx.check(failed == (want is None and op != "popdefault"), f"{op} of a missing name")
        if got is not MISS:
            ctx.close(got, want[2] if want else -5.0, f"{op}: value")
    elif op == "setdefault":
        k, c, s = names()
        got = d.setdefault(k, value)
        i = m.find(c)
        if i is None:
            m.set(c, s, value)
            ctx.close(got, value, "setdefault")
        else:
            ctx.close(got, m.e[i][2], "setdefault")
    elif op in ("update", "update pairs"):
        ps = []
        for j in range(2):
            k, c, s = names()
            if ps and bool(ps[0][1] == c):
                break  # equal names in one update: not claimed
            ps.append((k, c, s, value + j))
        arg = [(k, v) for k, _, _, v in ps]
        d.update(dict(arg) if op == "update" else arg)
        for k, c, s, v in ps:
            m.set(c, s, v)
    elif op == "clear":
        d.clear()
        m.e = []
    elif op == "popitem":
        try:
            k, v = d.popitem()
            ok = True
        except KeyError:
            ok = False
        ctx.check(ok == bool(m.e), "popitem")
        if ok and m.e:
            n = [i for i, e in enumerate(m.e) if (Key(e[0], e[1]) if ctx.sym else spelling(e[0], e[1])) == k]
            ctx.check(len(n) == 1, "popitem: name")
            if n:
                ctx.close(v, m.e[n[0]][2], "popitem: value")
                m.e.pop(n[0])


def build(ctx, names, how):
    m = Model()
    if how == "empty":
        return klass_()(), m
    if how == "none":
        return klass_()(None), m
    ps = []
    for j in range(2):
        k, c, s = names()
        if ps and bool(ps[0][1] == c):
            break
        v = ctx.real(f"iv{j}")
        ps.append((k, v))
        m.set(c, s, v)
    return klass_()(dict(ps) if how == "mapping" else ps), m


def h_history(ctx, ops, start):
    names = Names(ctx)
    d, m = build(ctx, names, start)
    for i, op in enumerate(ops):
        operate(ctx, d, m, names, op, ctx.real(f"v{i}"))
    compare(ctx, d, m, names, "mapping")
    ctx.reach("done")


def h_equal(ctx, ops, how, kind):
    names = Names(ctx)
    d, m = build(ctx, names, "empty")
    for i, op in enumerate(ops):
        operate(ctx, d, m, names, op, ctx.real(f"v{i}"))
    pairs, same = other(ctx, m, names, how)
    e = {"dict": dict, "cid": klass_(), "ordered": collections.OrderedDict}[kind](pairs)
    ctx.check((d == e) is same, "equality")
    ctx.check((d != e) is (not same), "inequality")
    ctx.check((e == d) is same, "equality, the other way round")
    ctx.check(not (d == 3) and not (d == pairs), "equality with something else")
    compare(ctx, d, m, names, "after comparing")
    ctx.reach("equal" if same else "different")


def h_copy(ctx, ops, after, which):
    names = Names(ctx)
    d, m = build(ctx, names, "empty")
    for i, op in enumerate(ops):
        operate(ctx, d, m, names, op, ctx.real(f"v{i}"))
    e = d.copy()
    ctx.check(isinstance(e, klass_()), "type of the copy")
    ctx.check(e == d and d == e, "a copy is equal")
    m2 = m.copy()
    if which == "copy":
        operate(ctx, e, m2, names, after, ctx.real("w"))
    else:
        operate(ctx, d, m, names, after, ctx.real("w"))
    compare(ctx, d, m, names, "original")
    compare(ctx, e, m2, names, "copy")
    ctx.reach("done")


def tasks(tier):
    import itertools

    out = []
    deep = tier != "quick"
    every = ["set", "delete", "pop", "popdefault", "setdefault", "update", "update pairs", "clear", "popitem"]
    main = ["set", "delete", "setdefault", "update"]

    def add(tag, fn, need=("done",), **cfg):
        out.append(Task(tag, fn, cfg, need=list(need)))

    hist = [h for n in range(3) for h in itertools.product(every, repeat=n)]
    hist += [h for h in itertools.product(main + deep * ["pop", "popitem"], repeat=3)]
    hist += [("set", "set", "set", x) for x in ("set", "delete", "update pairs", "popitem")]
    if deep:
        hist += list(itertools.product(("set", "delete"), repeat=4)) + [("set",) * 5]
    hist = sorted(set(hist), key=lambda h: (-len(h) - 2 * sum(o.startswith("update") for o in h), h))
    for h in hist:
        add("history:" + ",".join(h), h_history, ops=h, start="empty")
    for start in ("none", "mapping", "pairs"):
        for h in [()] + [(o,) for o in every]:
            add(f"start:{start}:{','.join(h)}", h_history, ops=h, start=start)
    for h in [("set",), ("set", "set"), ("set", "set", "delete"), ("set", "set", "set")]:
        for how in ("same", "value", "more", "less"):
            for kind in ("dict", "cid", "ordered"):
                need = ["equal"] if how == "same" else ["different"]
                add(f"equal:{','.join(h)}:{how}:{kind}", h_equal, need, ops=h, how=how, kind=kind)
        for after in every:
            for which in ("copy", "original"):
                add(f"copy:{','.join(h)}:{after}:{which}", h_copy, ops=h, after=after, which=which)
    return out
