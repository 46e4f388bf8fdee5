"""C28: dotted paths address the same place for reading and writing."""
from copy import deepcopy

from hypothesis import strategies as st

from vlib.core import Sub, Violation, short

PROPERTY = "C28"
TECHNIQUE = ("property-based testing: round trips of paths, generated histories of assignments through paths, attributes and "
             "chains against a plain-dictionary model, merges against a recursive first-not-null model")
LEVEL_NOTE = "Names of any characters, dots and backslashes included; nested data up to depth 4; histories of up to 14 steps."
RULE = "a name with a dot or backslash, or two steps on one path, or two operands with a common key were involved"
ASSUMPTIONS = ["names are not empty and contain no control characters (BEL and BS are the library's escapes)",
               "paths do not run through lists", "lists are leaves in merges", "names are not attributes of str or int"]

CHARS = "ab.\\é _$"
NAME = st.one_of(st.sampled_from(["a", "b", "a.b", ".", "a\\", "\\.", "..", "b.", ".a", "a\\.b", "x y", "é"]),
                 st.text(alphabet=CHARS, min_size=1, max_size=5))
PATH = st.lists(NAME, min_size=1, max_size=4)
POOL = ["a", "b", "c", "a.b", "b.c", "c\\", ".a", "a\\.b", "é", "a.b.c"]
SCALAR = st.one_of(st.integers(-5, 5), st.sampled_from(["", "v", "a.b", 1.5, True, False]))


def trees(names, leaf, depth=3):
    tree = leaf
    for _ in range(depth):
        tree = st.one_of(leaf, st.dictionaries(names, tree, max_size=3))
    return st.dictionaries(names, tree, max_size=4)


def same(got, want, what):
    if not equal(got, want):
        raise Violation("%s: %s instead of %s" % (what, short(plain(got)), short(want)))


def plain(value):
    from dots import FlatList, NullType, from_data
    if isinstance(value, NullType):
        return None
    value = from_data(value)
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple, FlatList)):
        return [plain(v) for v in value]
    return value


def equal(a, b):
    a, b = plain(a), plain(b)
    return type(a) is type(b) and repr(prune(a)) == repr(prune(b))


def prune(tree):
    """without the keys that hold nothing, keys in order"""
    if isinstance(tree, dict):
        return {k: prune(v) for k, v in sorted(tree.items()) if v is not None}
    if isinstance(tree, list):
        return [prune(v) for v in tree]
    return tree


# paths ----------------------------------------------------------------------------------------------------------------

@st.composite
def path_case(draw):
    field = draw(PATH)
    if draw(st.booleans()):
        other = field[:draw(st.integers(0, len(field)))] + draw(st.lists(NAME, max_size=2))
    else:
        other = draw(st.lists(NAME, max_size=4))
    return {"field": field, "other": other, "up": draw(st.integers(1, 4))}


def paths(case, note):
    from dots import (concat_field, join_field, literal_field, relative_field, split_field, startswith_field, tail_field,
                      unliteral_field)
    field, other, up = case["field"], case["other"], case["up"]
    note.nontrivial(any("." in n or "\\" in n for n in field + other))
    a, b = join_field(field), join_field(other)
    same(split_field(a), field, "split_field(join_field(%r))" % field)
    same(split_field(b), other, "split_field(join_field(%r))" % other)
    same(join_field(n for n in field), a, "join_field of a generator")
    for name in field:
        same(split_field(literal_field(name)), [name], "split_field(literal_field(%r))" % name)
        same(unliteral_field(literal_field(name)), name, "unliteral_field(literal_field(%r))" % name)
    if not any(n.endswith("\\") for n in field[:-1]):
        same(split_field(".".join(literal_field(n) for n in field)), field, "the literal fields of %r put together" % field)
    same(concat_field(a, b), join_field(field + other), "concat_field(%r, %r)" % (a, b))
    same(concat_field(b, a), join_field(other + field), "concat_field(%r, %r)" % (b, a))
    same(startswith_field(a, b) if other else True, field[:len(other)] == other, "startswith_field(%r, %r)" % (a, b))
    first, rest = tail_field(a)
    same([first] + split_field(rest), field, "first and rest of tail_field(%r)" % a)
    # going up
    above = join_field([-1] * up + other)
    same(split_field(above), [-1] * up + other, "split_field(%r)" % above)
    if up <= len(field):
        same(concat_field(a, above), join_field(field[:-up] + other), "concat_field(%r, %r)" % (a, above))
    else:
        same(split_field(concat_field(a, above)), [-1] * (up - len(field)) + other, "concat_field(%r, %r)" % (a, above))
    relative = relative_field(a, b)
    common = 0
    while common < min(len(field), len(other)) and field[common] == other[common]:
        common += 1
    same(split_field(relative), [-1] * (len(other) - common) + field[common:], "relative_field(%r, %r)" % (a, b))
    same(concat_field(b, relative), a, "concat_field(%r, relative_field(%r, %r))" % (b, a, b))


# histories ------------------------------------------------------------------------------------------------------------

@st.composite
def history_case(draw):
    names = st.sampled_from(draw(st.lists(st.sampled_from(POOL), min_size=2, max_size=5, unique=True)))
    path = st.lists(names, min_size=1, max_size=4)
    value = st.one_of(SCALAR, st.lists(st.integers(0, 3), max_size=2), trees(names, SCALAR, 2), st.none())
    step = st.one_of(
        st.tuples(st.sampled_from(["set", "set", "chain", "attr", "default"]), path, value),
        st.tuples(st.sampled_from(["pop", "delete", "keep"]), path, st.none()))
    start = trees(names, st.one_of(SCALAR, st.none()))
    return {"start": draw(start), "steps": draw(st.lists(step.map(list), min_size=1, max_size=14))}


MISSING = object()


def look(tree, path):
    for name in path:
        if not isinstance(tree, dict) or tree.get(name) is None:
            return MISSING
        tree = tree[name]
    return tree


def blocked(tree, path):
    """a value that is not a mapping lies on the way"""
    for name in path[:-1]:
        if tree is None:
            return False
        if not isinstance(tree, dict):
            return True
        tree = tree.get(name)
    return tree is not None and not isinstance(tree, dict)


def through_list(tree, path):
    for name in path:
        if isinstance(tree, list):
            return True
        if not isinstance(tree, dict):
            return False
        tree = tree.get(name)
    return False


def assign(tree, path, value):
    if value is None:
        for name in path[:-1]:
            if not isinstance(tree, dict) or tree.get(name) is None:
                return
            tree = tree[name]
        tree.pop(path[-1], None)
        return
    for name in path[:-1]:
        if tree.get(name) is None:
            tree[name] = {}
        tree = tree[name]
    tree[path[-1]] = value


def history(case, note):
    from dots import NullType, join_field, literal_field, to_data, from_data
    model, data = deepcopy(case["start"]), deepcopy(case["start"])
    wrapped = to_data(data)
    kept, written = [], set()

    def read(path):
        # one expression after the other, as a program would
        here = wrapped
        for name in path:
            here = here[literal_field(name)]
        return here

    def compare(path, what):
        if through_list(model, path):
            return
        want = look(model, path)
        want = None if want is MISSING else want
        key = join_field(path)
        same(wrapped[key], want, "%s: reading [%r]" % (what, key))
        same(wrapped.get(key), want, "%s: get(%r)" % (what, key))
        same(wrapped.get(key, "other"), "other" if want is None else want, "%s: get(%r, default)" % (what, key))
        if want is None:
            below = wrapped[key]
            same(below["zz"], None, "%s: [zz] of the missing %r" % (what, key))
            same(below.zz.zz, None, "%s: .zz.zz of the missing %r" % (what, key))
            same(below["a.b"].zz, None, "%s: [a.b].zz of the missing %r" % (what, key))
        if not blocked(model, path):
            same(read(path), want, "%s: reading name by name %r" % (what, path))
            if all(n.isidentifier() for n in path):
                here = wrapped
                for name in path:
                    here = getattr(here, name)
                same(here, want, "%s: reading attributes %r" % (what, path))

    for kind, path, value in case["steps"]:
        key = join_field(path)
        what = "after %s %r = %s" % (kind, path, short(value))
        if through_list(model, path):
            note.excluded("path through a list")
            continue
        if key in written or any("." in n or "\\" in n for n in path):
            note.nontrivial()
        written.add(key)
        stuck = blocked(model, path)
        before = deepcopy(model)
        new = deepcopy(value)
        if kind == "keep":
            # the place of a missing value, to be filled later
            found = wrapped[key]
            if isinstance(found, NullType) and not stuck:
                kept.append((path, found))
            continue
        # a place that has since been removed or filled is no longer where it was
        kept = [k for k in kept if kind not in ("pop", "delete") and value is not None and k[0][:len(path)] != path]
        try:
            if kind == "set":
                wrapped[key] = new
            elif kind == "chain":
                if stuck:
                    continue
                read(path[:-1])[literal_field(path[-1])] = new
            elif kind == "attr":
                if stuck or not all(n.isidentifier() for n in path):
                    continue
                here = wrapped
                for name in path[:-1]:
                    here = getattr(here, name)
                setattr(here, path[-1], new)
            elif kind == "default":
                old = look(model, path)
                if old == []:
                    continue            # an empty list equals nothing here
                got = wrapped.setdefault(key, new)
                if old is not MISSING:
                    same(got, old, "answer of setdefault(%r)" % key)
                    value = old
            elif kind == "pop":
                old = look(model, path)
                if stuck:
                    continue
                got = wrapped.pop(key)
                same(got, None if old is MISSING else old, "answer of pop(%r)" % key)
                value = None
            elif kind == "delete":
                if look(model, path) is MISSING:
                    continue
                del wrapped[key]
                value = None
        except Exception:
            if not stuck:
                raise
            note.label("refused")
            same(data, before, "%s was refused: the data" % what)
            continue
        if stuck and value is not None:
            # nothing may be lost silently
            raise Violation("%s: no error, although a value lies on the way: %s" % (what, short(data)))
        if not stuck:
            assign(model, path, deepcopy(value))
        same(data, model, "%s: the data" % what)
        for other in [p for k, p, v in case["steps"]]:
            compare(other, what)
    for path, place in kept:
        if look(model, path) is MISSING and not blocked(model, path + ["c"]) and not through_list(model, path + ["c"]):
            place["c"] = 7
            assign(model, path + ["c"], 7)
            same(data, model, "after assigning through the kept missing value of %r: the data" % path)
    same(to_data(data), model, "wrapped data")
    if to_data(data) != deepcopy(data):
        raise Violation("Data is not equal to the dictionary it wraps: %s" % short(model))
    if from_data(to_data(data)) is not data:
        raise Violation("unwrapping wrapped data gives another object")


# leaves ---------------------------------------------------------------------------------------------------------------

LEAF = st.one_of(SCALAR, st.lists(st.one_of(SCALAR), max_size=3))


@st.composite
def leaves_case(draw):
    return {"tree": draw(trees(NAME, LEAF)), "prefix": draw(st.sampled_from([None, "p.", "q\\.r."])),
            "lists": draw(st.lists(st.dictionaries(st.sampled_from(["a", "b"]), LEAF, max_size=2), max_size=2))}


def all_leaves(tree, path=()):
    for name, value in tree.items():
        if isinstance(value, dict):
            yield from all_leaves(value, path + (name,))
        else:
            yield list(path) + [name], value


def without_empty(tree):
    out = {}
    for name, value in tree.items():
        if isinstance(value, dict):
            value = without_empty(value)
            if not value:
                continue
        out[name] = value
    return out


def leaves_inverse(case, note):
    import json
    from dots import join_field, leaves_to_data, split_field, to_data, from_data
    from dots.datas import leaves
    tree = case["tree"]
    want = list(all_leaves(tree))
    note.nontrivial(len(want) >= 2 and any("." in n or "\\" in n for p, v in want for n in p))
    for source in (tree, to_data(tree)):
        got = leaves(source) if source is tree else source.leaves()
        same([[split_field(k), v] for k, v in got], [[p, v] for p, v in want], "leaves of %s" % short(tree))
        same(leaves_to_data(dict(got)), without_empty(tree), "leaves_to_data(leaves(%s))" % short(tree))
        for key, value in got:
            same(to_data(tree)[key], value, "the leaf %r of %s" % (key, short(tree)))
    if case["prefix"]:
        start = split_field(case["prefix"] + "x")[:-1]
        same([[split_field(k), v] for k, v in leaves(tree, prefix=case["prefix"])], [[start + p, v] for p, v in want],
             "leaves with a prefix")
    same(leaves_to_data({join_field(p): v for p, v in want}), without_empty(tree), "leaves_to_data of joined paths")
    # plain structures all the way down
    source = dict(tree, rows=case["lists"])
    try:
        json.dumps(from_data(leaves_to_data({"rows": case["lists"]})))
    except TypeError:
        raise Violation("leaves_to_data leaves wrapped values inside lists: %s" % short(source))


# merges ---------------------------------------------------------------------------------------------------------------

@st.composite
def merge_case(draw):
    names = st.sampled_from(["a", "b", "c", "a.b", "a\\", "items", "get"])
    parts = draw(st.lists(trees(names, st.one_of(SCALAR, st.none())), min_size=2, max_size=4))
    return {"parts": parts, "wrap": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "shared": draw(st.booleans()), "none": draw(st.sampled_from([None, None, 0, 1]))}


def merge(a, b):
    out = {k: (merge(v, {}) if isinstance(v, dict) else v) for k, v in a.items()}
    for k, v in b.items():
        if out.get(k) is None:
            if v is not None:
                out[k] = merge(v, {}) if isinstance(v, dict) else v
        elif isinstance(out[k], dict) and isinstance(v, dict):
            out[k] = merge(out[k], v)
    return out


def scribble(tree):
    from dots import from_data
    tree = from_data(tree)
    for value in list(tree.values()):
        value = from_data(value)
        if isinstance(value, dict):
            scribble(value)
    tree["zz"] = 1


def merged(case, note):
    from dots import Data, from_data, set_default, to_data
    parts = case["parts"]
    if case["shared"]:
        # one mapping under two names of the last operand
        last = parts[-1]
        dicts = [v for v in last.values() if isinstance(v, dict)]
        if dicts:
            last["s"] = last["t"] = dicts[0]
            note.label("shared")
    keys = [k for p in parts for k in p]
    note.nontrivial(len(keys) > len(set(keys)))
    want = parts[0]
    for part in parts[1:]:
        want = merge(want, part)

    def operands(wrap):
        raw = deepcopy(parts)
        return raw, [to_data(r) if w else r for r, w in zip(raw, wrap)]
    # set_default
    raw, given = operands(case["wrap"])
    if case["none"] is not None:
        given.insert(case["none"] + 1, None)
    got = set_default(*given)
    same(got, want, "set_default of %s" % short(parts))
    if parts[0] or case["wrap"][0]:
        if from_data(got) is not raw[0]:
            raise Violation("set_default did not update its first operand")
    for i in range(1, len(parts)):
        same(raw[i], parts[i], "operand %d after set_default" % i)
    if case["none"] == 0:
        same(set_default(None, *[to_data(p) for p in deepcopy(parts)]), want, "set_default(None, ...)")
    if not case["shared"]:
        scribble(got)
        for i in range(1, len(parts)):
            same(raw[i], parts[i], "operand %d after the result of set_default was changed" % i)
    # a | b | c
    raw, given = operands([True] * 4)
    result = given[0]
    for other in given[1:]:
        result = result | other
    same(result, want, "the merge %s" % " | ".join(short(p, 100) for p in parts))
    for i in range(len(parts)):
        same(raw[i], parts[i], "operand %d after |" % i)
    scribble(result)
    for i in range(len(parts)):
        same(raw[i], parts[i], "operand %d after the result of | was changed" % i)
    # a |= b |= c
    raw, given = operands([True] * 4)
    target = given[0]
    for other in given[1:]:
        target |= other
    if from_data(target) is not raw[0] or not isinstance(target, Data):
        raise Violation("|= gave another object")
    same(target, want, "the merge in place of %s" % short(parts))
    for i in range(1, len(parts)):
        same(raw[i], parts[i], "operand %d after |=" % i)


# lists and wrapping ---------------------------------------------------------------------------------------------------

@st.composite
def lists_case(draw):
    item = st.one_of(st.integers(0, 5), st.sampled_from(["x", "y"]),
                     st.dictionaries(st.sampled_from(["a", "b", "a.b"]), st.one_of(st.integers(0, 3), st.none(),
                                     st.dictionaries(st.sampled_from(["b", "c"]), st.integers(0, 3), max_size=2)), max_size=3))
    kind = draw(st.sampled_from(["any", "dicts", "dicts"]))
    if kind == "dicts":
        item = item.filter(lambda v: isinstance(v, dict))
    index = st.one_of(st.none(), st.integers(-4, 8))
    return {"items": draw(st.lists(item, max_size=5)), "i": draw(index), "j": draw(index), "n": draw(st.integers(1, 7)),
            "path": draw(st.lists(st.sampled_from(["a", "b", "c", "a.b"]), min_size=1, max_size=3)),
            "add": draw(st.lists(item, max_size=3)), "at": draw(st.integers(0, 7))}


def lists(case, note):
    import dots
    from dots import FlatList, coalesce, from_data, join_field, listwrap, tuplewrap, to_data, unwraplist
    items, i, j, n = case["items"], case["i"], case["j"], case["n"]
    note.nontrivial(len(items) >= 2)
    raw = deepcopy(items)
    flat = to_data(raw)
    if not isinstance(flat, FlatList) or from_data(flat) is not raw or from_data(to_data(flat)) is not raw:
        raise Violation("wrapping and unwrapping a list gives another list")
    same(FlatList(flat), items, "FlatList of a FlatList")
    same(list(flat), items, "the items of %s" % short(items))
    if len(flat) != len(items):
        raise Violation("len(FlatList) is %d instead of %d" % (len(flat), len(items)))
    for k in range(-2, len(items) + 2):
        same(flat[k], items[k] if 0 <= k < len(items) else None, "[%d] of %s" % (k, short(items)))
    lo = 0 if i is None else min(max(i, 0), len(items))
    hi = len(items) if j is None else min(max(j, 0), len(items))
    same(flat[i:j], items[lo:hi], "[%s:%s] of %s" % (i, j, short(items)))
    same(flat.right(n), items[-n:], "right(%d)" % n)
    same(flat.limit(n), items[:n], "limit(%d)" % n)
    same(flat.not_right(n), items[:-n], "not_right(%d)" % n)
    same(flat.not_left(n), items[n:], "not_left(%d)" % n)
    same(flat.last(), items[-1] if items else None, "last()")
    same(listwrap(items), items, "listwrap of a list")
    same(listwrap(None), [], "listwrap(None)")
    same(listwrap(n), [n], "listwrap of a value")
    same(listwrap({"a": n}), [{"a": n}], "listwrap of a mapping")
    same(unwraplist(flat), None if not items else items[0] if len(items) == 1 else items, "unwraplist")
    same(list(tuplewrap([1, [2, n]])), [1, [2, n]], "tuplewrap")
    same(coalesce(None, *items), items[0] if items else None, "coalesce")
    same(dots.zip(["a", "b"], [n, items]), {"a": n, "b": items}, "zip")
    # select
    if all(isinstance(v, dict) for v in items):
        key = join_field(case["path"])
        if not any(through_list(v, case["path"]) for v in items):
            want = [None if look(v, case["path"]) is MISSING else look(v, case["path"]) for v in items]
            same(flat.get(key), want, "select %r of %s" % (key, short(items)))
    # growing
    other = flat + deepcopy(case["add"])
    same(other, items + case["add"], "list + list")
    same(deepcopy(case["add"]) + flat, case["add"] + items, "list + FlatList")
    same(raw, items, "the list after additions")
    copied = flat.copy()
    copied.extend(deepcopy(case["add"]))
    copied.append({"n": n})
    same(copied, items + case["add"] + [{"n": n}], "extend and append")
    same(raw, items, "the list after its copy was extended")
    model = deepcopy(items)
    model += [None] * (case["at"] + 1 - len(model))
    model[case["at"]] = n
    flat[case["at"]] = n
    same(flat, model, "[%d] = %d" % (case["at"], n))


SUBS = [
    Sub("paths", path_case, paths, quick=3000, thorough=60000),
    Sub("history", history_case, history, quick=2500, thorough=50000, shards=(2, 8)),
    Sub("leaves", leaves_case, leaves_inverse, quick=1500, thorough=30000),
    Sub("merge", merge_case, merged, quick=2000, thorough=40000),
    Sub("lists", lists_case, lists, quick=1500, thorough=30000),
]
