"""A reference interpreter for the combinators of /repo/parsing, and the generator of expressions and texts.

Expressions are JSON lists. `match` knows nothing of the library: ordered choice, longest match with the first of equals,
greedy repetition without going back, whitespace skipped between the parts of sequences and repetitions.
"""
import re

from hypothesis import strategies as st

CONTEXTS = {"none": ("", []), "blank": (" \t\n", []), "comment": (" ", ["/*-*/", "#"])}
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"
SKIPS = {"none": re.compile(""), "blank": re.compile(r"[ \t\n]*"),
         "comment": re.compile(r"(?: *(?:/\*[a-z ]*\*/|#[a-z]*))* *")}


class Ref:
    def __init__(self, expr, text, context, limit=40000):
        self.text, self.space, self.memo, self.limit, self.target = text, SKIPS[context], {}, limit, None
        self.depth = 0
        self.found_names = []
        self.expr = expr

    def skip(self, i):
        return self.space.match(self.text, i).end()

    def match(self, e, i):
        """-> (end, tokens) or None"""
        key = (id(e), i)
        if key in self.memo:
            return self.memo[key]
        self.limit -= 1
        if self.limit < 0:
            raise TooDeep()
        self.depth += 1
        if self.depth > 60:
            raise TooDeep()
        out = self.memo[key] = getattr(self, e[0])(e, i)
        self.depth -= 1
        return out

    def parse_all(self):
        """tokens, or None"""
        got = self.match(self.expr, self.skip(0))
        if got is None:
            return None
        end = self.skip(got[0])
        # a parser that reads everything may leave line ends
        if end < len(self.text) and not re.fullmatch(r"(?:\r?\n)*", self.text[end:]):
            return None
        return got[1]

    # leaves
    def lit(self, e, i):
        return (i + len(e[1]), [e[1]]) if self.text.startswith(e[1], i) else None

    def ilit(self, e, i):
        return (i + len(e[1]), [e[1]]) if self.text[i:i + len(e[1])].lower() == e[1].lower() else None

    def kw(self, e, i, lit=None):
        end = i + len(e[1])
        if self.text.startswith(e[1], i) and not (end < len(self.text) and self.text[end] in IDENT):
            return end, [e[1]]

    def ikw(self, e, i):
        end = i + len(e[1])
        if self.text[i:end].lower() == e[1].lower() and not (end < len(self.text) and self.text[end] in IDENT):
            return end, [e[1]]

    def word(self, e, i):
        _, first, body, low, high = e
        end = i
        if end < len(self.text) and self.text[end] in first:
            end += 1
            while end < len(self.text) and self.text[end] in body and (high is None or end - i < high):
                end += 1
        if end - i >= low:
            return end, [self.text[i:end]]

    def char(self, e, i):
        if i < len(self.text) and self.text[i] in e[1]:
            return i + 1, [self.text[i]]

    def nchar(self, e, i):
        _, chars, low, high = e
        end = i
        while end < len(self.text) and self.text[end] not in chars and (high is None or end - i < high):
            end += 1
        if end - i >= low:
            return end, [self.text[i:end]]

    def any(self, e, i):
        if i < len(self.text):
            return i + 1, [self.text[i]]

    def re(self, e, i):
        found = re.compile(e[1]).match(self.text, i)
        return (found.end(), [found.group(0)]) if found else None

    def sstart(self, e, i):
        return (i, []) if i == 0 else None

    def send(self, e, i):
        return (i, []) if i == len(self.text) else None

    def wstart(self, e, i):
        if i < len(self.text) and self.text[i] in e[1] and (i == 0 or self.text[i - 1] not in e[1]):
            return i, []

    def wend(self, e, i):
        if i > 0 and self.text[i - 1] in e[1] and (i == len(self.text) or self.text[i] not in e[1]):
            return i, []

    def white(self, e, i):
        _, chars, low, high = e
        end = i
        while end < len(self.text) and self.text[end] in chars and (high is None or end - i < high):
            end += 1
        if end - i >= low:
            return end, [self.text[i:end]]

    def before(self, e, i):
        start = i - (len(e[1][1]) if e[1][0] != "char" else 1)
        if start >= 0 and self.match(e[1], start) is not None:
            return i, []

    # combinations
    def sequence(self, parts, i):
        end, tokens, here = i, [], i
        for part in parts:
            if part[0] != "before" and end > here:
                here = self.skip(end)
            got = self.match(part, end if part[0] == "before" else here)
            if got is None:
                return None
            end = got[0]
            tokens = tokens + got[1]
        return end, tokens

    def __getattr__(self, name):
        return object.__getattribute__(self, "x_" + name)

    def x_and(self, e, i):
        return self.sequence(e[1], i)

    def first(self, e, i):
        for part in e[1]:
            got = self.match(part, i)
            if got is not None:
                return got

    def x_or(self, e, i):
        best = None
        for part in e[1]:
            got = self.match(part, i)
            if got is not None and (best is None or got[0] > best[0]):
                best = got
        return best

    def many(self, e, i):
        _, part, low, high, stop = e
        end, tokens, count, here = i, [], 0, i
        while high is None or count < high:
            if end > here:
                here = self.skip(end)
            if stop is not None and self.match(stop, here) is not None:
                break
            got = self.match(part, here)
            if got is None:
                break
            if got[0] == here:
                # matches nothing from here on, as often as you like
                count = max(count, low)
                break
            end = got[0]
            tokens = tokens + got[1]
            count += 1
        if count >= low:
            return end, tokens

    def opt(self, e, i):
        got = self.match(e[1], i)
        if got is None:
            return i, [] if e[2] is None else [e[2]]
        return got

    def x_not(self, e, i):
        return (i, []) if self.match(e[1], i) is None else None

    def ahead(self, e, i):
        return None if self.match(e[1], i) is None else (i, [])

    def group(self, e, i):
        got = self.match(e[1], i)
        return got and (got[0], [got[1]])

    def name(self, e, i):
        return self.match(e[2], i)

    def sup(self, e, i):
        got = self.match(e[1], i)
        return got and (got[0], [])

    def comb(self, e, i):
        got = self.match(e[1], i)
        return got and (got[0], ["".join(flat(got[1]))])

    def fwd(self, e, i):
        outer, self.target = self.target, e[1]
        try:
            return self.match(e[1], i)
        finally:
            self.target = outer

    def x_rec(self, e, i):
        return self.match(self.target, i)

    def dlist(self, e, i):
        rest = ["many", ["and", [["sup", e[2]], e[1]]], 0, None, None]
        self.memo.setdefault(("keep", id(e), i), rest)
        return self.sequence([e[1], rest], i)

    def one(self, e, i):
        hits = [s for s in e[1] if self.text.startswith(s, i)]
        if hits:
            s = max(hits, key=len)
            return i + len(s), [s]

    def each(self, e, i):
        todo, here, end, tokens = list(e[1]), i, i, []
        while todo:
            for k, part in enumerate(todo):
                inner = part[1] if part[0] == "opt" else part
                got = self.match(inner, here)
                if got is not None:
                    end, tokens = got[0], tokens + got[1]
                    here = self.skip(end)
                    del todo[k]
                    break
            else:
                break
        if any(part[0] != "opt" for part in todo):
            return None
        for part in todo:
            if part[2] is not None:
                tokens = tokens + [part[2]]
            end = here
        return end, tokens

    def skipto(self, e, i):
        _, part, include, fail = e
        at = i
        while at <= len(self.text):
            seen = at
            at = self.skip(at)
            if fail is not None and self.match(fail, at) is not None:
                return None
            got = self.match(part, at)
            if got is not None:
                tokens = [self.text[i:seen]] if seen > i else []
                return (got[0], tokens + got[1]) if include else (at, tokens)
            at += 1
        return None


class TooDeep(Exception):
    pass


def flat(tokens):
    for t in tokens:
        if isinstance(t, list):
            yield from flat(t)
        else:
            yield t


def nullable(e):
    op = e[0]
    if op in ("opt", "not", "ahead", "skipto", "before", "sstart", "send", "wstart", "wend"):
        return True
    if op == "many":
        return e[2] == 0 or nullable(e[1])
    if op == "and":
        return all(nullable(x) for x in e[1])
    if op in ("first", "or"):
        return any(nullable(x) for x in e[1])
    if op == "each":
        return all(nullable(x) for x in e[1])
    if op in ("group", "sup", "comb", "dlist", "fwd"):
        return nullable(e[1])
    if op == "name":
        return nullable(e[2])
    if op == "re":
        return re.fullmatch(e[1], "") is not None
    return False


# building with the library --------------------------------------------------------------------------------------------

def in_context(context, make):
    from parsing import Combine, Literal, Regex
    from parsing.whitespaces import Whitespace
    chars, ignores = CONTEXTS[context]
    with Whitespace(chars) as white:
        if ignores:
            with Whitespace("") as _:
                exprs = [Regex(r"\/\*[a-z ]*\*\/"), Regex(r"\#[a-z]*")]
            white.add_ignore(*exprs)
        return make()


def build(e, rec=None):
    import parsing as P
    from parsing.infix import delimited_list, one_of
    from functools import reduce
    op = e[0]
    sub = lambda x: build(x, rec)
    if op == "lit":
        return P.Literal(e[1])
    if op == "ilit":
        return P.CaselessLiteral(e[1])
    if op == "kw":
        return P.Keyword(e[1])
    if op == "ikw":
        return P.Keyword(e[1], caseless=True)
    if op == "word":
        return P.Word(e[1], e[2], min=e[3], max=e[4])
    if op == "char":
        return P.Char(e[1])
    if op == "any":
        return P.AnyChar()
    if op == "sstart":
        return P.StringStart()
    if op == "send":
        return P.StringEnd()
    if op == "wstart":
        return P.WordStart(e[1])
    if op == "wend":
        return P.WordEnd(e[1])
    if op == "white":
        return P.White(e[1], min=e[2], max=e[3] or 0)
    if op == "before":
        return P.PrecededBy(sub(e[1]))
    if op == "nchar":
        return P.CharsNotIn(e[1], min=e[2], max=e[3] or 0)
    if op == "re":
        return P.Regex(e[1])
    if op == "one":
        return one_of(list(e[1]))
    if op == "and":
        return reduce(lambda a, b: a + b, map(sub, e[1]))
    if op == "first":
        return reduce(lambda a, b: a | b, map(sub, e[1]))
    if op == "or":
        return reduce(lambda a, b: a ^ b, map(sub, e[1]))
    if op == "each":
        return reduce(lambda a, b: a & b, map(sub, e[1]))
    if op == "many":
        _, part, low, high, stop = e
        part = sub(part)
        if stop is not None:
            return (P.OneOrMore if low else P.ZeroOrMore)(part, stop_on=sub(stop))
        if high is None and low == 0:
            return P.ZeroOrMore(part)
        if high is None and low == 1:
            return P.OneOrMore(part)
        return part * (low, high)
    if op == "opt":
        return P.Optional(sub(e[1]), default=e[2])
    if op == "not":
        return ~sub(e[1])
    if op == "ahead":
        return P.LookAhead(sub(e[1]))
    if op == "group":
        return P.Group(sub(e[1]))
    if op == "name":
        return sub(e[2])(e[1])
    if op == "sup":
        return P.Suppress(sub(e[1]))
    if op == "comb":
        return P.Combine(sub(e[1]))
    if op == "dlist":
        return delimited_list(sub(e[1]), separator=sub(e[2]))
    if op == "skipto":
        return P.SkipTo(sub(e[1]), include=e[2], fail_on=None if e[3] is None else sub(e[3]))
    if op == "fwd":
        out = P.Forward()
        out << build(e[1], out)
        return out
    if op == "rec":
        return rec
    raise AssertionError(op)


# generating -----------------------------------------------------------------------------------------------------------

LITS = ["a", "b", "c", "A", "B", "ab", "abc", "ba", "Ab", "aB", "(", ")", ",", "1", "12", "a1", "*", "-"]
RES = ["a+", "[ab]c", "a?b", "(?:ab)+", "[A-C]\\d", "a|bc", "(a|b)c", "\\d+", "\\w", "[^abc]", "a{1,2}b", "b*c", "a(?=b)"]
text_leaf = st.one_of(
    st.sampled_from(LITS).map(lambda s: ["lit", s]), st.sampled_from(LITS).map(lambda s: ["lit", s]),
    st.sampled_from([s for s in LITS if s[0].isalpha()]).map(lambda s: ["ilit", s]),
    st.sampled_from([s for s in LITS if s.isalnum()]).map(lambda s: ["kw", s]),
    st.sampled_from([s for s in LITS if s.isalpha()]).map(lambda s: ["ikw", s]),
    st.tuples(st.sampled_from(["ab", "abc", "aA1", "A", "abcABC1(),*-"]), st.sampled_from(["ab", "b", "abcAB", "1", "a1"]),
              st.integers(1, 2), st.sampled_from([None, None, 1, 2, 3])).filter(lambda t: t[3] is None or t[3] >= t[2]).map(lambda t: ["word", *t]),
    st.sampled_from(["ab", "A", "aB1", "(,", "abcABC12(),*-"]).map(lambda s: ["char", s]),
    st.tuples(st.sampled_from([" ab", " a", "() ", "a", "^a", "-a]"]), st.integers(1, 2), st.sampled_from([None, 2, 3])).map(lambda t: ["nchar", *t]),
    st.sampled_from(RES).map(lambda s: ["re", s]),
    st.lists(st.sampled_from(LITS), min_size=2, max_size=5, unique=True).map(lambda l: ["one", l]),
    st.just(["any"]))
leaf = st.one_of(
    text_leaf, text_leaf, text_leaf, text_leaf, text_leaf, text_leaf,
    st.sampled_from([["sstart"], ["send"], ["wstart", "ab1"], ["wend", "ab1"], ["wstart", "aB("], ["wend", "b"], ["white", " ", 1, None],
                     ["white", " \n", 2, 2], ["white", " \t", 1, 2]]),
    st.sampled_from([["lit", "a"], ["lit", "ab"], ["kw", "a"], ["char", "bA"], ["ilit", "b"], ["ilit", "Ab"]]).map(lambda e: ["before", e]))


def bigger(inner):
    solid = inner.filter(lambda e: not nullable(e))
    return st.one_of(
        st.lists(inner, min_size=2, max_size=4).map(lambda l: ["and", l]),
        st.lists(inner, min_size=2, max_size=4).map(lambda l: ["and", l]),
        st.lists(inner, min_size=2, max_size=7).map(lambda l: ["first", l]),
        st.lists(inner, min_size=2, max_size=6).map(lambda l: ["or", l]),
        st.tuples(inner, st.integers(0, 2), st.sampled_from([None, None, 2, 3])).map(lambda t: ["many", *t, None]),
        st.tuples(inner, st.integers(0, 1), text_leaf).map(lambda t: ["many", t[0], t[1], None, t[2]]),
        st.tuples(inner, st.sampled_from([None, None, "D"])).map(lambda t: ["opt", *t]),
        inner.map(lambda e: ["not", e]), inner.map(lambda e: ["ahead", e]),
        inner.map(lambda e: ["group", e]), inner.map(lambda e: ["sup", e]), inner.map(lambda e: ["comb", e]),
        st.tuples(inner, text_leaf).map(lambda t: ["dlist", *t]),
        st.lists(st.one_of(solid, st.tuples(solid, st.sampled_from([None, "D"])).map(lambda t: ["opt", *t])), min_size=2, max_size=4).map(
            lambda l: ["each", l]),
        st.tuples(inner, st.booleans(), st.one_of(st.none(), leaf)).map(lambda t: ["skipto", *t]),
        solid.map(nested),
        # choices long enough for the lookup by first letters
        st.tuples(st.sampled_from(["first", "first", "or"]), st.lists(st.one_of(leaf, modified), min_size=4, max_size=9)).map(list))


# small things which begin in unusual ways
modified = st.one_of(
    st.tuples(leaf, st.sampled_from([None, "D"])).map(lambda t: ["opt", *t]),
    st.tuples(leaf, leaf).map(lambda t: ["and", [["opt", t[0], None], t[1]]]),
    st.tuples(leaf, leaf).map(lambda t: ["and", [["many", t[0], 0, None, None], t[1]]]),
    st.tuples(leaf, leaf).map(lambda t: ["and", [["not", t[0]], t[1]]]),
    st.lists(leaf, min_size=2, max_size=3).map(lambda l: ["and", l]),
    st.lists(leaf, min_size=2, max_size=3).map(lambda l: ["or", l]),
    st.lists(leaf, min_size=2, max_size=3).map(lambda l: ["group", ["first", l]]),
    st.lists(text_leaf, min_size=2, max_size=3).map(lambda l: ["each", l]),
    st.tuples(leaf, st.booleans()).map(lambda t: ["skipto", *t, None]))



def nested(e):
    """parentheses around any number of the thing or of nested parentheses"""
    return ["fwd", ["group", ["and", [["sup", ["lit", "("]], ["many", ["first", [["rec"], e]], 0, None, None], ["sup", ["lit", ")"]]]]]]


def fits(e):
    """the described language is a matter of the documentation only"""
    op = e[0]
    parts = [x for y in e[1:] for x in (y if isinstance(y, list) and y and isinstance(y[0], list) else [y])
             if isinstance(x, list) and x and isinstance(x[0], str)] if op not in ("one",) else []
    if op in ("many",) and nullable(e[1]) and loud(e[1]):
        return False                                # nothing says how many defaults or empty tokens there would be
    if op == "each" and any(x[0] == "each" or (x[1] if x[0] == "opt" else x)[0] == "many" for x in e[1]):
        return False                                # a & b & c is one thing
    if op == "dlist" and (nullable(e[2])):
        return False
    if op == "fwd" and inner_rec(e[1][1][1][1][1][1][1]):
        return False
    return all(fits(x) for x in parts)


def loud(e):
    """may give tokens without reading anything"""
    op = e[0]
    if op == "opt":
        return e[2] is not None or loud(e[1])
    if op in ("comb", "group"):
        return nullable(e[1])
    if op in ("and", "first", "or", "each"):
        return any(loud(x) for x in e[1])
    if op in ("many", "dlist", "fwd", "sup"):
        return op != "sup" and loud(e[1])
    if op == "name":
        return loud(e[2])
    if op == "re":
        return nullable(e)
    if op == "skipto":
        return e[2] and loud(e[1])
    return False


def inner_rec(e):
    return "'fwd'" in repr(e)


exprs = st.recursive(leaf, bigger, max_leaves=9).filter(fits)
SPACE = {"none": [""], "blank": ["", " ", "\n", "\t "], "comment": ["", " ", "/*ab*/", " #a ", "  /* a*/ "]}


def derive(draw, e, context, rec=None, depth=0):
    """a text the expression probably matches"""
    gap = lambda: draw(st.sampled_from(SPACE[context]))
    op = e[0]
    go = lambda x, r=rec: derive(draw, x, context, r, depth + 1)
    if op in ("lit", "kw"):
        return e[1]
    if op in ("ilit", "ikw"):
        return draw(st.sampled_from([e[1], e[1].upper(), e[1].lower()]))
    if op == "word":
        high = e[4] or e[3] + 2
        n = draw(st.integers(e[3], high))
        return draw(st.sampled_from(sorted(e[1]))) + "".join(draw(st.sampled_from(sorted(e[2]))) for _ in range(n - 1))
    if op == "char":
        return draw(st.sampled_from(sorted(e[1])))
    if op in ("sstart", "send", "wstart", "wend", "before"):
        return ""
    if op == "white":
        return e[1][0] * e[2]
    if op in ("any", "nchar"):
        return draw(st.sampled_from(["c", "1", "*"]))
    if op == "re":
        return draw(st.sampled_from(["a", "ab", "bc", "ac", "A1", "12", "aab", "1"]))
    if op == "one":
        return draw(st.sampled_from(e[1]))
    if op == "and":
        return "".join(go(x) + gap() for x in e[1])
    if op in ("first", "or"):
        return go(draw(st.sampled_from(e[1])))
    if op == "each":
        return "".join(go(x) + gap() for x in draw(st.permutations(e[1])))
    if op == "many":
        n = draw(st.integers(e[2], e[3] if e[3] is not None else e[2] + 2))
        return "".join(go(e[1]) + gap() for _ in range(n))
    if op == "opt":
        return go(e[1]) if draw(st.booleans()) else ""
    if op in ("not", "ahead"):
        return ""
    if op in ("group", "sup", "comb"):
        return go(e[1])
    if op == "name":
        return go(e[2])
    if op == "dlist":
        return (gap() + go(e[2]) + gap()).join(go(e[1]) for _ in range(draw(st.integers(1, 3))))
    if op == "skipto":
        return draw(st.sampled_from(["", "c", "1 ", "ca"])) + gap() + (go(e[1]) if e[2] else "")
    if op == "fwd":
        return go(e[1], e[1])
    if op == "rec":
        return go(rec) if depth < 12 else "()"
    raise AssertionError(op)


ALPHABET = "abcAB1(),*- "


@st.composite
def text_for(draw, e, context):
    text = draw(st.sampled_from(SPACE[context])) + derive(draw, e, context)
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        at = draw(st.integers(0, len(text)))
        kind = draw(st.sampled_from(["insert", "delete", "replace", "twice"]))
        if kind == "insert":
            text = text[:at] + draw(st.sampled_from(ALPHABET)) + text[at:]
        elif kind == "delete":
            text = text[:at] + text[at + 1:]
        elif kind == "replace":
            text = text[:at] + draw(st.sampled_from(ALPHABET)) + text[at + 1:]
        else:
            text = text + text[:at]
    return text[:40]
