"""C29: parser combinators accept exactly the language they describe."""
import re

from hypothesis import strategies as st

from vlib import peg
from vlib.core import Sub, Violation, short

PROPERTY = "C29"
TECHNIQUE = ("property-based testing: generated combinator expressions and texts cut from them, differential against a reference "
             "interpreter of ordered choice, longest choice and greedy repetition; operator tables against precedence climbing; "
             "regular expressions of deterministic combinators against both")
LEVEL_NOTE = "Expressions of up to nine leaves in three whitespace contexts, texts of up to 40 characters, tables of up to seven operators."
RULE = "the expression combines others and the text is not blank; or two operators and three operands; or two names"
ASSUMPTIONS = ["choices between repetitions of what can match nothing and gives tokens are not judged",
               "suffix operators bind tighter than binary ones; a prefix operator is not the operand of a tighter operator",
               "operands of `&` are single or optional, and read something",
               "regular expressions are compared for combinators a regular expression cannot read in another way by going back"]


@st.composite
def peg_case(draw):
    context = draw(st.sampled_from(sorted(peg.CONTEXTS)))
    e = draw(peg.exprs)
    return {"context": context, "expr": e, "texts": draw(st.lists(peg.text_for(e, context), min_size=1, max_size=4))}


def compound(e):
    return len(e) > 1 and (isinstance(e[1], list) and e[0] != "one" or e[0] == "name")


def attempt(parser, text):
    """tokens, or None"""
    from parsing import ParseException
    try:
        return parser.parse(text, parse_all=True).as_list()
    except ParseException:
        return None


def compare(text, got, want, what=""):
    if got != want:
        raise Violation("%s%r: %s instead of %s" % (what, text, "refused" if got is None else short(got),
                                                    "being refused" if want is None else short(want)))


def language(case, note):
    e = case["expr"]
    try:
        want = [peg.Ref(e, text, case["context"]).parse_all() for text in case["texts"]]
    except peg.TooDeep:
        note.excluded("too deep")
        return
    parser = peg.in_context(case["context"], lambda: peg.build(e).finalize())
    for text, tokens in zip(case["texts"], want):
        note.label("accepted" if tokens is not None else "refused")
        note.nontrivial(compound(e) and bool(text.strip()))
        compare(text, attempt(parser, text), tokens)


# finding matches in a longer text --------------------------------------------------------------------------------------

@st.composite
def scan_case(draw):
    context = draw(st.sampled_from(sorted(peg.CONTEXTS)))
    e = draw(peg.exprs.filter(lambda e: not peg.nullable(e)))
    pieces = draw(st.lists(st.one_of(peg.text_for(e, context), st.text(alphabet=peg.ALPHABET, max_size=3)), min_size=1, max_size=4))
    return {"context": context, "expr": e, "text": "".join(pieces)[:60], "most": draw(st.sampled_from([None, None, None, 1, 2])),
            "overlap": context == "none" and draw(st.booleans())}


def scan(case, note):
    e, text, most = case["expr"], case["text"], case["most"]
    want, end = [], 0
    ref = peg.Ref(e, text, case["context"])
    try:
        while end <= len(text) and (most is None or len(want) < most):
            start = ref.skip(end)
            got = ref.match(e, start)
            if got is None:
                end = start + 1
            else:
                want.append([got[1], start, got[0]])
                end = end + 1 if case["overlap"] else got[0]
    except peg.TooDeep:
        note.excluded("too deep")
        return
    note.label("matches %d" % min(len(want), 3))
    note.nontrivial(len(want) > 1)
    limit = {} if most is None else {"max_matches": most}
    make = lambda: peg.build(e).finalize()
    parser = peg.in_context(case["context"], make)
    found = [[t.as_list(), s, f] for t, s, f in parser.scan_string(text, overlap=case["overlap"], **limit)]
    compare(text, found, want, "scan_string of ")
    if case["overlap"]:
        return
    pieces, last = [], 0
    for _, s, f in want:
        pieces.append(text[last:s])
        last = f
    pieces.append(text[last:])
    limit = {} if most is None else {"maxsplit": most}
    compare(text, list(parser.split(text, **limit)), pieces, "split of ")
    if most is None and not any(isinstance(t, list) for tokens, _, _ in want for t in tokens):
        changed, last = "", 0
        for tokens, s, f in want:
            changed += text[last:s] + "".join(tokens)
            last = f
        compare(text, parser.transform_string(text), changed + text[last:], "transform_string of ")


# regular expressions -----------------------------------------------------------------------------------------------------

FIRST = "abcdefgh12.*(+[^$\\|?-"


def numbered(e, letters):
    """the expression with a first letter of its own in each leaf"""
    if e[0] == "leaf":
        c = letters.pop(0)
        return {"lit": ["lit", c + "Z" * e[2]], "char": ["char", c], "word": ["word", c, "Z%", 1, [None, 1, 3][e[2]]],
                "ilit": ["ilit", c + "Z" * e[2]], "nchar": ["and", [["lit", c], ["nchar", FIRST, 1, [None, 2, 3][e[2]]], ["lit", c]]],
                "re": ["re", re.escape(c) + "(?:Z|%%)*"], "kw": ["kw", c], "one": ["one", [c, c + "Z", c + "ZZ"]]}[e[1]]
    return [numbered(x, letters) if isinstance(x, list) and x and isinstance(x[0], str) else
            [numbered(y, letters) for y in x] if isinstance(x, list) else x for x in e]


def many_free(e):
    text = repr(e)
    return "'many'" not in text and "'dlist'" not in text and "'opt'" not in text


def regular(inner):
    return st.one_of(
        st.lists(inner, min_size=2, max_size=4).map(lambda l: ["and", l]), st.lists(inner, min_size=2, max_size=4).map(lambda l: ["and", l]),
        st.lists(inner, min_size=2, max_size=5).map(lambda l: ["first", l]), st.lists(inner, min_size=2, max_size=4).map(lambda l: ["or", l]),
        st.tuples(inner, st.integers(0, 2)).map(lambda t: ["many", t[0], t[1], None, None]),
        st.tuples(inner.filter(many_free), st.integers(0, 2), st.integers(2, 3)).map(lambda t: ["many", *t, None]),
        inner.map(lambda e: ["opt", e, None]), inner.map(lambda e: ["group", e]), inner.map(lambda e: ["sup", e]),
        inner.map(lambda e: ["comb", e]), st.tuples(inner, inner).map(lambda t: ["dlist", *t]))


regulars = st.recursive(st.tuples(st.just("leaf"), st.sampled_from(["lit", "char", "word", "ilit", "re", "one", "lit", "nchar"]),
                                  st.integers(0, 2)).map(list), regular, max_leaves=7)


def ends_early(e):
    """a choice takes an alternative that matches nothing before one that reads something"""
    if e[0] == "first" and any(peg.nullable(x) for x in e[1][:-1]):
        return True
    if e[0] == "many" and e[2] > 1 and (peg.nullable(e[1]) or not many_free(e[1])):
        return True
    if e[0] == "many" and e[3] is not None and peg.nullable(e[1]):
        return True
    if e[0] == "dlist" and (peg.nullable(e[1]) or peg.nullable(e[2])):
        return True
    return any(ends_early(x) for y in e[1:] if isinstance(y, list)
               for x in ([y] if y and isinstance(y[0], str) else y) if isinstance(x, list) and e[0] not in ("one",))


@st.composite
def regex_case(draw):
    letters = list(draw(st.permutations(FIRST)))
    e = numbered(draw(regulars), letters)
    if ends_early(e):
        e = ["group", ["lit", "a"]]
    text = draw(peg.text_for(e, "none"))
    return {"expr": e, "texts": [text] + draw(st.lists(peg.text_for(e, "none"), max_size=3))}


def regexes(case, note):
    e = case["expr"]
    parser = peg.in_context("none", lambda: peg.build(e).finalize())
    pattern = peg.in_context("none", lambda: peg.build(e).streamline().__regex__()[1])
    compiled = re.compile(pattern, re.DOTALL)
    for text in case["texts"]:
        want = peg.Ref(e, text, "none").parse_all()
        note.label("accepted" if want is not None else "refused")
        note.nontrivial(compound(e) and bool(text))
        compare(text, attempt(parser, text), want)
        if (compiled.fullmatch(text) is not None) != (want is not None):
            raise Violation("the regular expression %s %s %r" % (pattern, "matches" if want is None else "does not match", text))


# operator tables -----------------------------------------------------------------------------------------------------------

SYMBOLS = {"prefix": ["-", "not", "@"], "suffix": ["!", "isnull", "'"], "left": ["+", "*", "<", "<=", "-", "and"], "right": ["^", "**", "=", "of"]}


@st.composite
def table_case(draw):
    kinds = draw(st.lists(st.sampled_from(["prefix", "suffix", "left", "left", "right"]), min_size=1, max_size=7))
    table, used = [], set()
    for kind in kinds:
        symbol = draw(st.sampled_from(SYMBOLS[kind]))
        if (symbol, kind == "prefix") not in used:
            used.add((symbol, kind == "prefix"))
            table.append([symbol, kind, draw(st.sampled_from([False, False, False, True]))])
    # a suffix that binds looser than an operator in front of its operand could not be reached by a grammar of levels
    last = max([i for i, t in enumerate(table) if t[1] == "suffix"], default=-1)
    table = [t for t in table[:last + 1] if t[1] in ("suffix", "prefix")] + [t for t in table[:last + 1] if t[1] in ("left", "right")] + table[last + 1:]
    case = {"table": table}
    case["tokens"] = operand_tokens(draw, table, draw(st.integers(1, 7)))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1]))):
        at = draw(st.integers(0, len(case["tokens"])))
        case["tokens"][at:at + draw(st.integers(0, 1))] = draw(st.lists(st.sampled_from([t[0] for t in table] + ["x", "(", ")"]), max_size=1))
    case["blanks"] = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    return case


def operand_tokens(draw, table, left):
    one = lambda *kinds: [t[0] for t in table if t[1] in kinds]
    out = []
    for i in range(left):
        if i:
            if not one("left", "right"):
                break
            out.append(draw(st.sampled_from(one("left", "right"))))
        for _ in range(draw(st.sampled_from([0, 0, 1, 2])) if one("prefix") else 0):
            out.append(draw(st.sampled_from(one("prefix"))))
        if left > 1 and draw(st.integers(0, 4)) == 0:
            out += ["("] + operand_tokens(draw, table, left // 2) + [")"]
        else:
            out.append(draw(st.sampled_from(["x", "y", "z", "xy", "7"])))
        for _ in range(draw(st.sampled_from([0, 0, 1, 2])) if one("suffix") else 0):
            out.append(draw(st.sampled_from(one("suffix"))))
    return out


class Refused(Exception):
    pass


class Climber:
    """precedence climbing; the first row of the table binds tightest"""

    def __init__(self, table, tokens):
        self.tokens, self.at, self.loose = tokens, 0, False
        self.rows = {}
        for i, (symbol, kind, silent) in enumerate(table):
            self.rows[kind in ("left", "right") and "binary" or kind, symbol] = (len(table) - i, kind, silent)

    def peek(self):
        return self.tokens[self.at] if self.at < len(self.tokens) else None

    def take(self):
        self.at += 1
        return self.tokens[self.at - 1]

    def all(self):
        tree = self.climb(0)
        if self.at < len(self.tokens):
            raise Refused
        return tree

    def climb(self, lowest):
        token = self.peek()
        if token is None:
            raise Refused
        self.take()
        if ("prefix", token) in self.rows:
            power, _, silent = self.rows["prefix", token]
            self.loose = self.loose or power < lowest
            operand = self.climb(power)
            left = [operand] if silent else [token, operand]
        elif token == "(":
            left = self.climb(0)
            if self.peek() != ")":
                raise Refused
            self.take()
        elif re.fullmatch("[xyz]+|[0-9]+", token):
            left = token
        else:
            raise Refused
        while True:
            token = self.peek()
            if ("suffix", token) in self.rows:
                power, _, silent = self.rows["suffix", token]
                if power < lowest:
                    return left
                self.take()
                left = [left] if silent else [left, token]
            elif ("binary", token) in self.rows:
                power, kind, silent = self.rows["binary", token]
                if power < lowest:
                    return left
                self.take()
                right = self.climb(power + 1 if kind == "left" else power)
                left = [left, right] if silent else [left, token, right]
            else:
                return left


def tables(case, note):
    from parsing import infix_notation, Literal, Suppress, Word, LEFT_ASSOC, RIGHT_ASSOC
    table, tokens = case["table"], case["tokens"]
    climber = Climber(table, tokens)
    try:
        want = [climber.all()]
    except Refused:
        want = None
    if climber.loose:
        note.excluded("loose")
        return
    note.nontrivial(len(tokens) >= 5 and len({t for t in tokens if not re.fullmatch("[xyz0-9()]+", t)}) >= 2)
    note.label("accepted" if want else "refused")
    text = ""
    for i, token in enumerate(tokens):
        if i and (case["blanks"][i % 4] or operand(token) == operand(tokens[i - 1]) and "(" not in (token, tokens[i - 1])):
            text += " "
        text += token

    def make():
        spec = [(Suppress(Literal(symbol)) if silent else Literal(symbol), 1 if kind in ("prefix", "suffix") else 2,
                 RIGHT_ASSOC if kind in ("prefix", "right") else LEFT_ASSOC) for symbol, kind, silent in table]
        return infix_notation(Word("xyz") | Word("0123456789"), spec).finalize()

    compare(text, attempt(peg.in_context("blank", make), text), want, "operators %s: " % short(table))


def operand(token):
    return re.fullmatch("[xyz0-9]+", token) is not None


# names ---------------------------------------------------------------------------------------------------------------------

@st.composite
def names_case(draw):
    def parts(depth):
        out = []
        for name in draw(st.lists(st.sampled_from("pqrstuv"), min_size=1, max_size=4, unique=True)):
            kind = draw(st.sampled_from(["leaf", "many", "group", "plain"] if depth < 2 else ["leaf", "many", "plain"]))
            content = parts(depth + 1) if kind in ("group", "plain") else \
                draw(st.lists(st.sampled_from(["foo", "b", "xyz", "foo"]), min_size=1, max_size=1 if kind == "leaf" else 3))
            out.append([name, kind, content, draw(st.sampled_from(["", "", "there", "missing"]))])
        return out
    return {"parts": parts(0), "context": draw(st.sampled_from(["blank", "comment"]))}


def names(case, note):
    from parsing import Group, Optional, Suppress, Word
    from parsing.infix import delimited_list
    from parsing.utils import alphas
    counter = [0]

    def grammar(parts):
        """the expression, the text"""
        expr, text = None, ""
        for name, kind, content, option in parts:
            counter[0] += 1
            key = "%d:" % counter[0]
            if kind == "leaf":
                piece, words = Word(alphas)(name), content[0]
            elif kind == "many":
                piece, words = delimited_list(Word(alphas))(name), ",".join(content)
            else:
                inner, words = grammar(content)
                piece = Group(Suppress("(") + inner + Suppress(")"))(name) if kind == "group" else Suppress("(") + inner + Suppress(")")
                words = "( %s )" % words
            piece = Suppress(key) + piece
            if option:
                piece = Optional(piece)
            if option != "missing":
                text += " %s %s" % (key, words)
            expr = piece if expr is None else expr + piece
        return expr, text

    made = {}

    def make():
        expr, made["text"] = grammar(case["parts"])
        return Group(expr).finalize()

    parser = peg.in_context(case["context"], make)
    text = made["text"]
    note.nontrivial(len(case["parts"]) > 1)
    result = parser.parse(text, parse_all=True)

    def visible(parts, out):
        for name, kind, content, option in parts:
            if option != "missing":
                if kind == "plain":
                    visible(content, out)
                elif kind == "group":
                    out.setdefault(name, []).append(content)
                else:
                    out.setdefault(name, []).extend(content)
        return out

    def check(result, parts, where):
        want = visible(parts, {})
        for name in "pqrstuv":
            got = result[name]
            values = want.get(name, [])
            here = "%s%r: result[%r]" % (where, text, name)
            if bool(name in result) != bool(values) and not all(isinstance(v, list) and v and isinstance(v[0], list) for v in values):
                raise Violation("%s: 'in' says %s" % (here, name in result))
            if not values:
                if got:
                    raise Violation("%s is %s, nothing has this name" % (here, short(got.as_list())))
                continue
            if len(values) == 1:
                got = [got]
            else:
                got = list(got.tokens)
            if len(got) != len(values):
                raise Violation("%s holds %d values, not %d" % (here, len(got), len(values)))
            for g, v in zip(got, values):
                if isinstance(v, list):
                    check(g, v, "group %s of " % name)
                elif g != v:
                    raise Violation("%s holds %s, not %r" % (here, short(g), v))

    check(result, case["parts"], "")


SUBS = [Sub("language", peg_case, language, quick=2500, thorough=60000, shards=(4, 8), case_timeout=20),
        Sub("scan", scan_case, scan, quick=1200, thorough=25000, shards=(2, 8), case_timeout=20),
        Sub("regexes", regex_case, regexes, quick=1500, thorough=30000, shards=(2, 8), case_timeout=20),
        Sub("tables", table_case, tables, quick=1200, thorough=25000, shards=(2, 8), case_timeout=20),
        Sub("names", names_case, names, quick=600, thorough=12000, shards=(2, 8), case_timeout=20)]
