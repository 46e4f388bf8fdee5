"""C17: the non-validating tokenizer, splitter and formatter keep the text."""
import re

from hypothesis import strategies as st

from vlib import rawsql
from vlib.core import Sub, Violation, short

PROPERTY = "C17"
TECHNIQUE = ("property-based testing: generated token lists, scripts and arbitrary texts; the text is the oracle for the tokens and "
             "statements, and an independent tokenizer compares the text before and after formatting")
LEVEL_NOTE = "Texts of any characters for the lossless part; generated SQL, with comments and whitespace anywhere, for the rest."
RULE = "the text has at least three tokens that are not whitespace"
ASSUMPTIONS = []

TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<com>--[^\n\r]*(?:\r\n|\r|\n|$)|\#[ ][^\n\r]*(?:\r\n|\r|\n|$)|/\*.*?\*/)
  | (?P<str>'(?:''|\\\\|\\'|[^'\\]|\\(?![\\']))*')
  | (?P<quoted>"(?:""|[^"])*"|`(?:``|[^`])*`)
  | (?P<word>[\w$]+)
  | (?P<char>.)
""", re.X | re.S)


def scan(text):
    return [(m.lastgroup, m.group()) for m in TOKEN.finditer(text)]


def content(text, comments=True):
    """the text without whitespace, and without comments"""
    out = []
    for kind, t in scan(text):
        if kind == "com" and comments:
            out.append(("com", " ".join(t.split())))
        elif kind not in ("ws", "com"):
            out.append((kind, t))
    return out


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "%s... became %s..." % (a[max(0, i - 1):i + 3], b[max(0, i - 1):i + 3])


def lossless(text, note=None):
    import scheduler.compile.parse as P
    from scheduler.compile.parse.lexer import tokenize
    toks = list(tokenize(text))
    got = "".join(v for _, v in toks)
    if got != text:
        raise Violation("the tokens of %r put together are %r" % (text, got))
    if any(v == "" for _, v in toks):
        raise Violation("an empty token in %r" % text)
    if list(tokenize(text.encode("utf-8", "surrogatepass") if False else text)) != toks:
        raise Violation("reading %r again gives other tokens" % text)
    stmts = P.parse(text)
    whole = "".join(str(s) for s in stmts)
    rest = text[len(whole):]
    if text[:len(whole)] != whole or rest.strip():
        raise Violation("the statements of %r put together are %r" % (text, whole))
    leaves = [(t.ttype, t.value) for s in stmts for t in s.flatten()]
    for (a, v), (b, w) in zip(leaves, toks):
        if v != w:
            raise Violation("the leaves of the tree of %r are %r where the tokens are %r" % (text, v, w))
        if a is not b and not (str(b) == "Token.Wildcard" and str(a) == "Token.Operator"):
            raise Violation("the leaf %r of the tree of %r is a %s, the token a %s" % (v, text, a, b))
    for s in stmts:
        check_tree(s, text)
    flat = P.split(text)
    if flat != [str(s).strip() for s in stmts]:
        raise Violation("split of %r gives %r, parse %r" % (text, flat, [str(s) for s in stmts]))
    return stmts, toks


def check_tree(group, text):
    at = 0
    for t in group.tokens:
        if t.parent is not group:
            raise Violation("in the tree of %r, the parent of %r is %r" % (text, str(t), str(t.parent)))
        if t.is_group:
            check_tree(t, text)
            if t.value != str(t):
                pass
    leaves = list(group.flatten())
    for leaf in leaves[:20]:
        found = group.get_token_at_offset(at)
        if found is not leaf:
            raise Violation("the token at offset %d of %r is %r, not %r" % (at, str(group), str(found), str(leaf)))
        at += len(leaf.value)


def run_soup(text, note):
    stmts, toks = lossless(text)
    import scheduler.compile.parse as P
    if len([1 for t, v in toks if v.strip()]) >= 3:
        note.nontrivial()
    if len(stmts) > 1:
        note.label("several statements")
    if "surrog" in "":
        return
    try:
        raw = text.encode("utf-8")
    except UnicodeEncodeError:
        return
    from scheduler.compile.parse.lexer import tokenize
    if list(tokenize(raw)) != toks or list(tokenize(raw, "utf-8")) != toks:
        raise Violation("the UTF-8 bytes of %r have other tokens than the text" % text)


KINDS = {"str": "Token.Literal.String.Single", "sym": "Token.Literal.String.Symbol", "int": "Token.Literal.Number.Integer",
         "float": "Token.Literal.Number.Float", "hex": "Token.Literal.Number.Hexadecimal", "place": "Token.Name.Placeholder",
         "mcomment": "Token.Comment.Multiline", "scomment": "Token.Comment.Single", "dot": "Token.Punctuation",
         "punct": "Token.Punctuation", "func": None, "name": "Token.Name", "type": None}


def run_script(case, note):
    pieces, ends = [], []
    for i, s in enumerate(case["stmts"]):
        pieces += case["between"][i] + s
        ends.append(len(rawsql.text_of(pieces)))
    pieces += case["between"][-1]
    text = rawsql.text_of(pieces)
    stmts, toks = lossless(text)
    # every piece is a token, or, for whitespace, several
    at, starts = 0, {}
    for t, v in toks:
        starts[at] = (str(t), v)
        at += len(v)
    at = 0
    for kind, t in pieces:
        if kind != "ws":
            got = starts.get(at)
            if got is None or got[1] != t:
                raise Violation("%r at %d of %r is read as %r" % (t, at, text, got))
            want = KINDS.get(kind)
            if want and got[0] != want:
                raise Violation("%r in %r is read as %s" % (t, text, got[0]))
            if kind == "kw" and text[at + len(t):at + len(t) + 1] != "(" and not (got[0].startswith("Token.Keyword") or got[0].startswith("Token.Operator.Comparison")):
                raise Violation("%r in %r is read as %s" % (t, text, got[0]))
        at += len(t)
    # the script is cut behind the semicolons of the statements, and nowhere else
    got, at = [], 0
    for s in stmts:
        at += len(str(s))
        got.append(at)
    if len(stmts) < len(ends) or len(stmts) > len(ends) + 1 or (len(stmts) > len(ends) and content(str(stmts[-1]), False)):
        raise Violation("%r is split into %r" % (text, [str(s) for s in stmts]))
    for i, end in enumerate(ends[:-1]):
        between = text[end:got[i]]
        if got[i] < end or content(between, False):
            raise Violation("%r is split into %r" % (text, [str(s) for s in stmts]))
    if len(pieces) > 5:
        note.nontrivial()
    for k, t in pieces:
        if k in ("str", "sym", "mcomment", "scomment", "name") and ";" in t:
            note.label("semicolon in " + k)


CASES = [None, "upper", "lower", "capitalize"]


@st.composite
def formats(draw):
    case = draw(rawsql.script(1, 2, routines=True))
    o = {}
    kind = draw(st.sampled_from(["case", "strip", "ws", "ops", "reindent", "aligned", "all"]))
    if kind in ("case", "all"):
        o["keyword_case"] = draw(st.sampled_from(CASES))
        o["identifier_case"] = draw(st.sampled_from(CASES))
    if kind in ("strip", "all"):
        o["strip_comments"] = draw(st.booleans()) or kind == "strip"
    if kind in ("ws", "all"):
        o["strip_whitespace"] = draw(st.booleans()) or kind == "ws"
    if kind in ("ops", "all"):
        o["use_space_around_operators"] = draw(st.booleans()) or kind == "ops"
    if kind in ("reindent", "all"):
        o["reindent"] = True
        o["indent_width"] = draw(st.integers(1, 4))
        o["indent_tabs"] = draw(st.booleans())
        o["indent_after_first"] = draw(st.booleans())
        o["indent_columns"] = draw(st.booleans())
        o["wrap_after"] = draw(st.sampled_from([0, 0, 10, 40]))
        o["comma_first"] = draw(st.booleans())
    if kind == "aligned":
        o["reindent_aligned"] = True
    if draw(st.booleans()):
        o = {k: v for k, v in o.items() if v not in (False, None)}
    case["options"] = o
    return case


def run_format(case, note):
    import scheduler.compile.parse as P
    pieces = []
    for i, s in enumerate(case["stmts"]):
        pieces += case["between"][i] + s
    pieces += case["between"][-1]
    text = rawsql.text_of(pieces)
    o = case["options"]
    out = P.format(text, **dict(o))
    keep = not o.get("strip_comments")
    want, got = content(text, keep), content(out, keep)
    if o.get("keyword_case") or o.get("identifier_case"):
        fold = lambda c: [(k, t.lower() if k in ("word", "quoted") else t) for k, t in c]
        want, got = fold(want), fold(got)
    if want != got:
        raise Violation("%r formatted with %s is\n%r\n%s" % (text, o, out, diff(want, got)))
    if o.get("strip_comments") and any(k == "com" for k, _ in scan(out)):
        raise Violation("%r formatted with %s still has a comment:\n%r" % (text, o, out))
    again = P.format(out, **dict(o))
    stable = not o.get("reindent") and not o.get("reindent_aligned") and not o.get("indent_columns") and not o.get("strip_comments")
    if o.get("use_space_around_operators") and any(k in ("scomment", "mcomment") for k, _ in pieces):
        stable = False
    if again != out and stable:
        raise Violation("%r formatted with %s is\n%r\nand formatted again\n%r" % (text, o, out, again))
    note.nontrivial()
    note.label(*o)


SUBS = [Sub("soup", rawsql.soup, run_soup, quick=4000, thorough=200000, shards=(2, 8)),
        Sub("script", lambda: rawsql.script(), run_script, quick=2000, thorough=60000, shards=(3, 8)),
        Sub("format", formats, run_format, quick=4000, thorough=60000, shards=(3, 8))]
