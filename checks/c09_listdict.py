"""C09: ListDict behaves as an ordered mapping that is also indexed by position (model based)."""
from collections import OrderedDict

from hypothesis import strategies as st

from mt_metadata.common.list_dict import ListDict

from vp.core import Check, check, check_eq

C = Check("C09", rule="non-trivial: the history changed the container at least once and looked something up in a container with two or more items")


class Item:
    def __init__(self, kind, key, val):
        self.kind = kind
        self.val = val
        if kind == "id":
            self.id = key
        elif kind == "component":
            self.component = key
        elif kind == "both":
            self.id = key
            self.component = "not_" + key

    def copy(self):
        new = Item(self.kind, "", self.val)
        new.__dict__.update(self.__dict__)
        return new

    def __eq__(self, other):
        return isinstance(other, Item) and self.__dict__ == other.__dict__

    def __repr__(self):
        return f"Item({self.__dict__})"


KEYS = ["a", "b", "c", "0", "1", "2", "10", "B", "ex", "zz top", "", "a.b"]
keys = st.sampled_from(KEYS)
values = st.tuples(st.sampled_from(["id", "component", "both", "plain", "int"]), keys, st.integers(0, 99))
small = st.integers(-3, 13)
pairs = st.lists(st.tuples(keys, values), max_size=5)
bound = st.one_of(st.none(), keys, st.integers(-6, 8))
ops = st.one_of(
    st.tuples(st.just("append"), values),
    st.tuples(st.just("append"), values),
    st.tuples(st.just("set"), keys, values),
    st.tuples(st.just("seti"), st.integers(0, 13), values),
    st.tuples(st.just("remove"), keys),
    st.tuples(st.just("removei"), small),
    st.tuples(st.just("pop"), keys),
    st.tuples(st.just("pop_at"), st.integers(0, 9)),
    st.tuples(st.just("extend"), pairs, st.sampled_from(["dict", "ListDict", "OrderedDict"]), st.one_of(st.none(), keys, st.lists(keys, max_size=3))),
    st.tuples(st.just("update"), pairs, st.sampled_from(["dict", "ListDict", "OrderedDict"])),
    st.tuples(st.just("bad"), st.sampled_from(["extend", "update"]), st.sampled_from([None, 3, [("a", 1)], "ab"])),
    st.tuples(st.just("sort"), st.booleans()),
    st.tuples(st.just("get"), keys),
    st.tuples(st.just("geti"), small),
    st.tuples(st.just("slice"), bound, bound, st.sampled_from([None, 1, 2, -1, 3])),
    st.tuples(st.just("rename"), small, st.sampled_from(["n1", "n2", "n3"])),
    st.tuples(st.just("copy"), small),
    st.tuples(st.just("clear")),
)


def make(v):
    kind, key, val = v
    return val if kind == "int" else Item(kind, key, val)


def key_of(obj, default):
    if hasattr(obj, "id"):
        return obj.id
    if hasattr(obj, "component"):
        return obj.component
    return default


def raises(kinds, fn, what):
    try:
        r = fn()
    except kinds:
        return
    check(False, f"{what} was accepted and gave {r!r}")


def same(ld, model, what):
    check_eq(list(ld.keys()), list(model.keys()), f"{what}: keys")
    got = list(ld.values())
    check(len(got) == len(model) and all(x is y for x, y in zip(got, model.values())), f"{what}: values {got!r} != {list(model.values())!r}")
    check(all(x is y for x, y in zip(list(ld), model.values())) and len(list(ld)) == len(model), f"{what}: iteration gives the values in order")
    check(all(k1 == k2 and v1 is v2 for (k1, v1), (k2, v2) in zip(list(ld.items()), model.items())) and len(list(ld.items())) == len(model), f"{what}: items")
    check_eq(len(ld), len(model), f"{what}: len")
    for i, (k, v) in enumerate(model.items()):
        check(ld[k] is v, f"{what}: [{k!r}]")
        check(ld[i] is v, f"{what}: [{i}]")


@C.given(pairs, st.lists(ops, min_size=1, max_size=14), quick=1500, thorough=40000)
def history_matches_ordered_mapping(ctx, start, history):
    """any history of operations leaves the container equal to an ordered mapping; refused operations change nothing"""
    start = [(k, make(v)) for k, v in start]
    model = OrderedDict(start)
    ld = ListDict(OrderedDict(start)) if len(start) % 2 else ListDict(dict(start))
    changed = looked = False
    same(ld, model, "new")
    for op in history:
        name, what = op[0], f"{op!r}"
        if name == "append":
            v = make(op[1])
            ld.append(v)
            model[key_of(v, str(len(model)))] = v
            changed = True
        elif name == "set":
            v = make(op[2])
            ld[op[1]] = v
            model[op[1]] = v
            changed = True
        elif name == "seti":
            v = make(op[2])
            ld[op[1]] = v
            if op[1] < len(model):
                model[list(model)[op[1]]] = v
            else:
                model[key_of(v, str(op[1]))] = v
            changed = True
        elif name == "remove":
            if op[1] in model:
                ld.remove(op[1])
                del model[op[1]]
                changed = True
            else:
                raises(KeyError, lambda: ld.remove(op[1]), what)
        elif name == "removei":
            if 0 <= op[1] < len(model):
                ld.remove(op[1])
                del model[list(model)[op[1]]]
                changed = True
            elif op[1] >= 0:
                raises(KeyError, lambda: ld.remove(op[1]), what)
        elif name in ("pop", "pop_at"):
            k = op[1] if name == "pop" else (list(model)[op[1]] if op[1] < len(model) else "missing key")
            if k in model:
                got = ld.pop(k)
                check(list(got) == [k] and got[k] is model[k], f"pop({k!r}) gave {got!r}")
                del model[k]
                changed = True
            else:
                raises(KeyError, lambda: ld.pop(k), what)
        elif name in ("extend", "update"):
            other = OrderedDict((k, make(v)) for k, v in op[1])
            arg = {"dict": dict, "OrderedDict": OrderedDict, "ListDict": ListDict}[op[2]](other)
            if name == "update":
                ld.update(arg)
                skip = []
            else:
                skip = op[3]
                if skip is None:
                    ld.extend(arg)
                    skip = []
                else:
                    ld.extend(arg, skip_keys=skip)
                    skip = [skip] if isinstance(skip, str) else skip
            for k, v in other.items():
                if k not in skip:
                    model[k] = v
            if op[2] == "ListDict":
                same(arg, other, f"{what}: the other container")
            changed = True
        elif name == "bad":
            raises(TypeError, lambda: getattr(ld, op[1])(op[2]), what)
        elif name == "sort":
            want = OrderedDict((k, model[k]) for k in sorted(model))
            r = ld.sort(inplace=op[1])
            if op[1]:
                model = want
            else:
                check(list(r.items()) == list(want.items()), f"sort(inplace=False) gave {r!r}")
        elif name == "get":
            if op[1] not in model:
                raises(KeyError, lambda: ld[op[1]], what)
        elif name == "geti":
            if op[1] >= len(model):
                raises(KeyError, lambda: ld[op[1]], what)
        elif name == "slice":
            ks = list(model)
            if any(isinstance(b, str) and b not in model for b in op[1:3]):
                raises(KeyError, lambda: ld[op[1]:op[2]:op[3]], what)
            else:
                lo, hi = [ks.index(b) if isinstance(b, str) else b for b in op[1:3]]
                want = OrderedDict(list(model.items())[lo:hi:op[3]])
                got = ld[op[1]:op[2]:op[3]]
                check(isinstance(got, ListDict), f"{what}: a slice is a ListDict")
                same(got, want, what)
                looked = looked or len(model) > 1
        elif name == "rename":
            objs = [o for o in model.values() if isinstance(o, Item) and hasattr(o, "id")]
            current = {key_of(o, k) for k, o in model.items()}
            ids = [key_of(o, k) for k, o in model.items()]
            if objs and op[2] not in current and len(set(ids)) == len(ids):
                objs[op[1] % len(objs)].id = op[2]
                want = OrderedDict((key_of(o, k), o) for k, o in model.items())
                if len(want) == len(model):
                    r = ld.update_keys()
                    check_eq(dict(r), {k: n for k, n in zip(model, want) if k != n}, "update_keys reports old -> new")
                    model = want
                    changed = True
                    ctx.tag("rename")
                else:
                    ld = ListDict(model)
        elif name == "copy":
            cp = ld.copy()
            check(isinstance(cp, ListDict) and list(cp.keys()) == list(model) and list(cp.values()) == list(model.values()), "copy holds equal items under the same keys")
            check(cp == ld and ld == cp, "copy is equal")
            for v, w in zip(cp.values(), ld.values()):
                if isinstance(v, Item):
                    check(v is not w, "copy holds copies of its items")
                    v.val = -1
                    check(w.val != -1, "changing an item of the copy")
            cp["only in the copy"] = 1
            if len(model):
                cp.remove(op[1] % len(model))
            check(not (cp == ld), "the copy was changed")
        elif name == "clear":
            ld.clear()
            model.clear()
        same(ld, model, f"after {what}")
        looked = looked or len(model) > 1
    if not (changed and looked):
        ctx.trivial()


@C.given(pairs, pairs, st.randoms(use_true_random=False), quick=300, thorough=5000)
def equality_and_text(ctx, a, b, rnd):
    """two containers are equal exactly when they hold equal items under the same keys in the same order; the text names every key"""
    ma, mb = [OrderedDict((k, make(v)) for k, v in x) for x in (a, b)]
    la, lb = ListDict(ma), ListDict(mb)
    check_eq(la == lb, ma == mb, f"{ma} == {mb}")
    check(la == ListDict(OrderedDict((k, make(v)) for k, v in a)), "same content")
    turned = list(ma)
    rnd.shuffle(turned)
    mt = OrderedDict((k, ma[k]) for k in turned)
    check_eq(la == ListDict(mt), list(ma) == turned, f"{list(ma)} and the same items as {turned}")
    check_eq(la != ListDict(mt), list(ma) != turned, f"{list(ma)} and the same items as {turned}, !=")
    check(not (la == None) and not (la == 3), "another kind is never equal")  # noqa: E711
    for k in ma:
        check(repr(k) in repr(la), f"repr names {k!r}")
        check(k in str(la), f"str names {k!r}")
    if not ma:
        ctx.trivial()
