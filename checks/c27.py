"""C27: the LALR parser generator accepts exactly its grammar, the lexer cuts as its rules say."""
import re

from hypothesis import strategies as st

from vlib import lalr
from vlib.core import Sub, Violation, short

PROPERTY = "C27"
TECHNIQUE = ("property-based testing: generated grammars, all short strings and sampled longer ones, differential against "
             "enumeration of the derivable strings and against LALR(1) tables made by merging canonical LR(1) states; "
             "operator tables against operator-precedence parsing; generated lexer rules against trying them in order")
LEVEL_NOTE = ("Grammars of up to nine productions over four nonterminals and four terminals, all strings up to five symbols and "
              "sampled ones of up to 25; lexers of up to nine rules and three states.")
RULE = ("a grammar without conflicts of two nonterminals that derives two strings; or two operators and three operands; "
        "or a text of three tokens from two rules")
ASSUMPTIONS = ["cells with more than two actions, or with an acceptance in conflict, are not judged",
               "string rules of equal length that match at the same place are not judged"]

NTS = ["s", "t", "u", "v"]
TERMS = ["A", "B", "+", ";"]


def ply():
    from scheduler.lex_module.ply import lex, yacc
    return lex, yacc


class Log:
    def __init__(self):
        self.lines = []

    def _take(self, msg, *args, **kw):
        self.lines.append(msg % args if args else msg)

    info = debug = _take

    def warning(self, msg, *args, **kw):
        self._take("warning: " + msg, *args)

    def error(self, msg, *args, **kw):
        self._take("error: " + msg, *args)

    critical = error


class Tok:
    def __init__(self, kind, value, lineno, lexpos):
        self.type, self.value, self.lineno, self.lexpos = kind, value, lineno, lexpos


class Feed:
    """a lexer made of a list"""

    def __init__(self, kinds, tokens=None):
        self.lineno, self.lexpos = 1, 0
        self.tokens = tokens or [Tok(k, i, 1 + i // 3, 10 * i) for i, k in enumerate(kinds)]
        self.given = 0

    def token(self):
        if self.given >= len(self.tokens):
            return None
        t = self.tokens[self.given]
        self.given += 1
        return t


# ------------------------------------------------------------- grammars

@st.composite
def chains(draw):
    """nonterminals that end in each other and so follow each other around, entered in several ways"""
    some, term = st.sampled_from(NTS[1:]), st.sampled_from(TERMS)
    maybe = st.one_of(st.just([]), term.map(lambda t: [t]), term.map(lambda t: [t]))
    prods = [["s", draw(maybe) + [draw(some)] + draw(maybe)] for _ in range(draw(st.integers(2, 4)))]
    for n in NTS[1:]:
        prods += [[n, [draw(term), draw(some)]] for _ in range(draw(st.integers(1, 2)))]
        prods.append([n, draw(maybe)])
    return NTS, TERMS, prods


@st.composite
def grammar_case(draw):
    nts = NTS[:draw(st.integers(1, 4))]
    terms = TERMS[:draw(st.integers(1, 4))]
    symbol = st.sampled_from(nts + terms + terms)
    led = st.builds(lambda t, r: [t] + r, st.sampled_from(terms), st.lists(symbol, max_size=3))
    rhs = st.one_of(led, led, st.lists(symbol, max_size=4), st.just([]))
    if draw(st.booleans()):
        nts, terms, prods = draw(chains())
    else:
        prods = [[n, draw(rhs)] for n in nts]
        for _ in range(draw(st.integers(0, 5))):
            prods.append([draw(st.sampled_from(nts)), draw(rhs)])
    seen = []
    for p in prods:
        if p not in seen:
            seen.append(p)
    order = draw(st.permutations(range(len(seen)))) if draw(st.booleans()) else list(range(len(seen)))
    prods = [seen[i] for i in order]
    case = {"prods": prods, "join": draw(st.lists(st.booleans(), min_size=len(prods), max_size=len(prods))),
            "names": draw(st.integers(0, 5)), "start": draw(st.sampled_from([None, None, "arg", "global"])),
            "first": draw(st.sampled_from(nts)), "texts": []}
    if draw(st.integers(0, 2)) == 0:
        used = [t for t in terms if any(t in r for _, r in prods)]
        if used:
            levels = draw(st.lists(st.tuples(st.sampled_from(["left", "right", "nonassoc"]), st.sampled_from(used)),
                                   min_size=1, max_size=3, unique_by=lambda x: x[1]))
            case["prec"] = [[a, [t]] for a, t in levels]
            case["prod_prec"] = {str(i): draw(st.sampled_from([t for _, t in levels]))
                                 for i in range(len(prods)) if draw(st.integers(0, 5)) == 0}
    n = draw(st.integers(0, 3))
    for _ in range(n):
        case["texts"].append({"picks": draw(st.lists(st.integers(0, 11), min_size=0, max_size=30)),
                              "change": draw(st.one_of(st.none(), st.tuples(st.integers(0, 20), st.sampled_from(["del", "A", "B", "+", ";"]))
                                                       .map(list)))})
    return case


def source_of(case):
    """the text of a module of p_ functions; productions that are joined share one function"""
    lines = ["tokens = ('A', 'B')", "log = []"]
    if case.get("start") == "global":
        lines.append("start = %r" % case["first"])
    if case.get("prec"):
        lines.append("precedence = %r" % (tuple((a,) + tuple(t) for a, t in case["prec"]),))
    n, k = 0, 0
    prods = case["prods"]
    while k < len(prods):
        group = [k]
        while k + 1 < len(prods) and prods[k + 1][0] == prods[k][0] and case["join"][k + 1]:
            k += 1
            group.append(k)
        k += 1
        name = "p_%s" % ["f%d" % n, "z%d" % (99 - n), "%s_%d" % ("ab"[n % 2], n), "rule%d" % (n * 7 % 10 * 10 + n), "x%d" % n, "y%d" % n][case["names"]]
        n += 1
        lines.append("def %s(p):" % name)
        rules = []
        for j, i in enumerate(group):
            right = " ".join(s if s in NTS or s in ("A", "B") else "'%s'" % s for s in prods[i][1])
            named = (case.get("prod_prec") or {}).get(str(i))
            if named:
                right += " %%prec %s" % (named if named.isalpha() else "'%s'" % named)
            rules.append(("%s : %s" % (prods[i][0], right) if j == 0 else "    | %s" % right).rstrip())
        doc = ("\n" + " " * 9).join(rules)
        lines.append('    """%s"""' % doc)
        lines.append("    action(p)")
    lines.append("def p_error(t):")
    lines.append("    wrong(t)")
    return "\n".join(lines) + "\n"


class Stop(Exception):
    pass


class Parser:
    def __init__(self, case, note=None):
        lex, yacc = ply()
        self.prods = [(l, tuple(r)) for l, r in case["prods"]]
        self.reduced, self.errors, self.spans = [], [], []
        self.module = lalr.module_from(source_of(case))
        self.module.action, self.module.wrong = self._action, self._wrong
        self.log, self.errlog = Log(), Log()
        try:
            self.parser = yacc.yacc(module=self.module, debug=True, debuglog=self.log, errorlog=self.errlog,
                                    start=case["first"] if case.get("start") == "arg" else None)
        finally:
            lalr.forget(self.module)

    def _action(self, p):
        types = [x.type for x in p.slice]
        i = self.prods.index((types[0], tuple(types[1:])))
        self.reduced.append(i)
        p[0] = [i, [p[k] for k in range(1, len(p))]]
        if self.tracking:
            self.spans.append([p[0], [(p.linespan(k), p.lexspan(k)) for k in range(1, len(p))]])

    def _wrong(self, token):
        self.errors.append(token)
        if self.stops:
            raise Stop()

    def parse(self, kinds, tracking=False, stops=False):
        """stops: leave at the first error instead of recovering from it"""
        del self.reduced[:], self.errors[:], self.spans[:]
        self.tracking, self.stops = tracking, stops
        try:
            return self.parser.parse(lexer=Feed(kinds), tracking=tracking)
        except Stop:
            return None

    def conflicts(self):
        sr = sum("shift/reduce conflict" in x for x in self.errlog.lines)
        rr = sum("reduce/reduce conflict" in x for x in self.errlog.lines)
        return bool(sr), bool(rr)


def sample(g, picks, longest=25):
    """a string of the grammar, by the given choices, then by the shortest way"""
    depth = {}
    while True:
        grown = False
        for i, (l, r) in enumerate(g.prods):
            if all(s in depth or s not in g.nts for s in r):
                d = 1 + max([depth[s][0] for s in r if s in g.nts] or [0])
                if l not in depth or d < depth[l][0]:
                    depth[l] = (d, i)
                    grown = True
        if not grown:
            break
    out, todo, k = [], [g.start], 0
    while todo:
        s = todo.pop()
        if s not in g.nts:
            out.append(s)
            continue
        ways = [i for i, (l, _) in enumerate(g.prods) if l == s]
        if k < len(picks) and len(out) + len(todo) < longest:
            i = ways[picks[k] % len(ways)]
            k += 1
        else:
            i = depth[s][1]
        todo.extend(reversed(g.prods[i][1]))
    return out


def check_spans(spans, count):
    for node, kids in spans:
        for kid, (lines, places) in zip(node[1], kids):
            if isinstance(kid, list) and has_empty(kid):
                continue
            own = lalr.leaves(kid)
            want = ((1 + own[0] // 3, 1 + own[-1] // 3), (10 * own[0], 10 * own[-1]))
            if (lines, places) != want:
                raise Violation("positions of %s are %r instead of %r" % (short(kid), (lines, places), want))


def has_empty(tree):
    return isinstance(tree, list) and (not tree[1] or any(has_empty(k) for k in tree[1]))


def grammar(case, note):
    lex, yacc = ply()
    first = case["first"] if case.get("start") else case["prods"][0][0]
    prods = case["prods"]
    g = lalr.Grammar(prods, first)
    bad = g.unproductive()
    try:
        p = Parser(case)
    except yacc.LALRError:
        p = None
    except yacc.YaccError:
        if not bad:
            raise Violation("the grammar %r is refused" % (prods,))
        note.label("never ends")
        return
    if bad:
        raise Violation("the grammar %r is taken although %r never ends" % (prods, sorted(bad)))
    declared = case.get("prec") or (), {int(i): t for i, t in (case.get("prod_prec") or {}).items()}
    table, fine = lalr.Table(g, *declared), lalr.Table(g, *declared, merge=False)
    if fine.cells is None:
        note.excluded("too many states")
        return
    if table.accepting:
        note.label("acceptance in conflict")
        return
    if p is None:
        raise Violation("building a parser for %r failed" % (prods,))
    # states may be kept apart that LALR(1) would merge: no conflict that LALR(1) does not have, none
    # left out that LR(1) has; a symbol declared against one that is not is reported or not
    told = p.conflicts()
    if not case.get("prec"):
        for k, kind in enumerate(("shift/reduce", "reduce/reduce")):
            least, most = [fine.sr, fine.rr][k], [table.sr, table.rr][k]
            if told[k] and not most and not table.more or least and not told[k]:
                raise Violation("the grammar %r has %s conflicts, reported: %r" % (prods, kind if most else "no " + kind, told))
        if fine.more and not any(told):
            raise Violation("the grammar %r has conflicts and none is reported" % (prods,))
    free = not any(p.conflicts()) and not case.get("prec")
    note.label("without conflicts" if free else "with conflicts")
    longest = 5 if len(g.terms) < 3 else 4
    strings = [()]
    layer = [()]
    for _ in range(longest):
        layer = [x + (t,) for x in layer for t in g.terms]
        strings += layer
    language = g.language(longest)
    long_ones = []
    for t in case["texts"]:
        s = sample(g, t["picks"])
        if t["change"]:
            at, what = t["change"]
            if s and what == "del":
                del s[at % len(s)]
            elif what != "del":
                s.insert(at % (len(s) + 1), what)
        if all(x in TERMS[:2] or x in g.terms for x in s):
            long_ones.append(tuple(s))
    note.nontrivial(free and len(g.nts) > 1 and len(language) > 1)
    note.count("strings", len(strings) + len(long_ones))
    for k, s in enumerate(strings + long_ones):
        try:
            want, info = table.run(s)
            judged = fine.run(s) == (want, info)
        except lalr.Unjudged:
            judged = False
        if free and len(s) <= longest:
            derived = s in language
            if judged and derived != (want is not None):
                raise AssertionError("reference disagrees with itself on %r %r" % (prods, s))
        elif judged:
            derived = want is not None
        else:
            note.excluded("LR(1) and LALR(1) differ, or more than two actions")
            continue
        got = p.parse(s, tracking=k % 2 == 1, stops=not free)
        accepted = got is not None and not p.errors
        if accepted != derived:
            raise Violation("%r by %r: %s instead of %s" % (s, prods, *(("accepted", "refused") if accepted else ("refused", "accepted"))))
        if accepted:
            if judged and (got != want or p.reduced != info):
                raise Violation("%r by %r: read as %s instead of %s" % (s, prods, short(got), short(want)))
            if (lalr.derivation(g, got, g.start, s) or lalr.leaves(got) != list(range(len(s)))
                    or p.reduced != lalr.postorder(got)):
                raise Violation("%r by %r: %s is no derivation" % (s, prods, short(got)))
            if k % 2 == 1:
                check_spans(p.spans, len(s))
        elif judged:
            token = p.errors[0]
            at = len(s) if token is None else token.value
            if at != info:
                raise Violation("%r by %r: refused at symbol %r instead of %r" % (s, prods, at, info))


GRAMMARS = [
    # nonterminals that end in each other, the follow of one entry needed three steps on
    [["s", ["u"]], ["s", ["v", "+"]], ["t", ["+", "v"]], ["t", ["B", "v"]], ["t", []], ["u", ["B", "t"]], ["u", ["A"]],
     ["v", [";", "u"]], ["v", []]],
    [["s", ["B", "t"]], ["s", ["B", "u", "A"]], ["t", [";", "u"]], ["t", ["A", "t"]], ["t", []], ["u", ["B", "v"]],
     ["u", ["A"]], ["v", ["+", "u"]], ["v", ["B", "t"]], ["v", ["A"]]],
    # a nonterminal whose begun and new productions meet in one state
    [["s", ["u"]], ["s", ["v", "A"]], ["t", ["A", "t"]], ["t", []], ["u", ["+", "v"]], ["u", []], ["v", ["+", "t"]], ["v", []]],
    # LALR and not SLR: assignments with dereferencing
    [["s", ["t", "+", "u"]], ["s", ["u"]], ["t", [";", "u"]], ["t", ["A"]], ["u", ["t"]]],
    # LR(1) and not LALR(1)
    [["s", ["A", "t", "A"]], ["s", ["B", "u", "A"]], ["s", ["A", "u", "B"]], ["s", ["B", "t", "B"]], ["t", ["+"]], ["u", ["+"]]],
    # chains of things that may be empty
    [["s", ["t", "u", "v", "A"]], ["t", []], ["t", ["B"]], ["u", []], ["u", ["+", "u"]], ["v", []], ["v", [";", "t"]]],
    [["s", ["t", "A"]], ["t", ["u", "v"]], ["u", []], ["v", ["B", "s"]], ["v", []]],
    # lists, both ways round
    [["s", ["s", ";", "t"]], ["s", ["t"]], ["t", ["A", "t"]], ["t", []]],
    # dangling else
    [["s", ["A", "s", "B", "s"]], ["s", ["A", "s"]], ["s", ["+"]]],
    # a level that goes round
    [["s", ["t"]], ["s", ["A"]], ["t", ["s"]]],
    [["s", ["s"]], ["s", ["A"]]],
]
DIRECTED_GRAMMARS = [{"prods": p, "join": [j] * len(p), "names": n, "start": None, "first": "s",
                      "texts": [{"picks": [1, 2, 0, 3, 1, 0, 2, 1, 1, 0, 2, 3], "change": None},
                                {"picks": [0, 1, 1, 2, 3, 0, 0, 1, 2], "change": [3, "A"]}]}
                     for n, p in enumerate(GRAMMARS[:6]) for j in (True, False)] + \
    [{"prods": p, "join": [True] * len(p), "names": 0, "start": "arg", "first": "s", "texts": []} for p in GRAMMARS[6:]]


# ------------------------------------------------------ grammars that are no good

FAULTS = ["undefined", "duplicate", "token as rule", "error as rule", "no rules", "unknown precedence", "twice in precedence",
          "wrong associativity", "prec of nothing", "prec of unknown", "long literal", "no colon", "no tokens", "start unknown",
          "error as token", "arguments", "bar first", "none"]


@st.composite
def fault_case(draw):
    return {"fault": draw(st.sampled_from(FAULTS)), "at": draw(st.integers(0, 2)), "debug": draw(st.booleans())}


def fault(case, note):
    lex, yacc = ply()
    f = case["fault"]
    rules = [("p_one", "p", "s : s '+' t\n         | t"), ("p_two", "p", "t : A"), ("p_three", "p", "t : B B")]
    head = ["tokens = ['A', 'B']", "precedence = [('left', 'A'), ('right', 'B')]"]
    name, arg, doc = rules[case["at"]]
    lhs = doc.split()[0]
    if f == "undefined":
        doc += "\n         | nowhere A"
    elif f == "duplicate":
        doc += "\n         | " + doc.split(":")[1].split("|")[0].strip()
    elif f == "token as rule":
        doc += "\n       B : A"
    elif f == "error as rule":
        doc += "\n       error : A"
    elif f == "unknown precedence":
        head[1] = "precedence = [('left', 'A'), ('right', 'Z')]"
    elif f == "twice in precedence":
        head[1] = "precedence = [('left', 'A'), ('right', 'A')]"
    elif f == "wrong associativity":
        head[1] = "precedence = [('leftish', 'A')]"
    elif f == "prec of nothing":
        doc += "\n         | A B %prec"
    elif f == "prec of unknown":
        doc += "\n         | A B %prec Z"
    elif f == "long literal":
        doc += "\n         | '++'"
    elif f == "no colon":
        doc += "\n       %s A" % lhs
    elif f == "no tokens":
        head[0] = "tokens = []"
    elif f == "start unknown":
        head.append("start = 'nothing'")
    elif f == "error as token":
        head[0] = "tokens = ['A', 'B', 'error']"
    elif f == "arguments":
        arg = "p, q"
    elif f == "bar first":
        doc = "| " + doc.split(":")[1].split("|")[0]
    if f == "no rules":
        rules = []
    else:
        rules[case["at"]] = (name, arg, doc)
    source = "\n".join(head) + "\n" + "".join('def %s(%s):\n    """%s"""\n    p[0] = len(p)\n' % r for r in rules)
    module = lalr.module_from(source + "def p_error(t):\n    pass\n")
    errlog = Log()
    try:
        parser = yacc.yacc(module=module, debug=case["debug"], debuglog=Log() if case["debug"] else None, errorlog=errlog)
    except yacc.YaccError:
        parser = None
    finally:
        lalr.forget(module)
    note.label(f)
    note.nontrivial(f != "none")
    # an associativity or a doubled entry is warned about, and the entry is not used
    warned = f in ("twice in precedence", "wrong associativity")
    if warned:
        if parser is None or not errlog.lines:
            raise Violation("%s: %s" % (f, "refused" if parser is None else "no warning"))
        return
    if (parser is None) != (f != "none"):
        raise Violation("a grammar with the fault %r (in rule %d) is %s" % (f, case["at"], "refused" if parser is None else "accepted"))
    if parser is None and not any(x.startswith("error") for x in errlog.lines):
        raise Violation("a grammar with the fault %r is refused and nothing says why" % f)


# ------------------------------------------------------------- operators

OPS = ["+", "-", "*", "/", "<", "^", "!", "~"]


@st.composite
def operator_case(draw):
    ops = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=6, unique=True))
    kinds = {}
    for o in ops:
        kinds[o] = draw(st.sampled_from(["bin", "bin", "bin", "both", "pre", "post"]))
    binary = [o for o in ops if kinds[o] in ("bin", "both")]
    before = [o for o in ops if kinds[o] in ("pre", "both")]
    after = [o for o in ops if kinds[o] == "post"]
    if not binary:
        kinds[ops[0]] = "bin"
        binary, before, after = ops[:1], [o for o in before if o != ops[0]], [o for o in after if o != ops[0]]
    names = list(ops) + ["U" + str(ops.index(o)) for o in ops if kinds[o] in ("both",)]
    order = draw(st.permutations(names))
    levels, k = [], 0
    while k < len(order):
        n = draw(st.integers(1, 3))
        levels.append([draw(st.sampled_from(["left", "left", "right", "nonassoc"])), list(order[k:k + n])])
        k += n
    texts = []
    for _ in range(draw(st.integers(1, 4))):
        t = []
        for i in range(draw(st.integers(2, 7))):
            if i:
                t.append(draw(st.sampled_from(binary)))
            if before and draw(st.integers(0, 2)) == 0:
                t += draw(st.lists(st.sampled_from(before), min_size=1, max_size=2))
            t.append(draw(st.sampled_from(["1", "2", "34", "5", "6", "( 5 %s 6 )" % binary[-1], "( 7 )"])))
            if after and draw(st.integers(0, 2)) == 0:
                t.append(draw(st.sampled_from(after)))
        t = " ".join(t).split()
        if draw(st.integers(0, 4)) == 0:
            at = draw(st.integers(0, len(t) - 1))
            change = draw(st.sampled_from(["del", "(", ")", "8"] + ops))
            if change == "del":
                del t[at]
            else:
                t.insert(at, change)
        texts.append(" ".join(t))
    return {"kinds": kinds, "levels": levels, "texts": texts, "shape": draw(st.booleans()), "lines": draw(st.booleans())}


def operator_source(case):
    kinds = case["kinds"]
    ops = list(kinds)
    token = {o: "OP%d" % i for i, o in enumerate(ops)}
    lines = ["tokens = %r" % (["NUM"] + [token[o] for o in ops],), "literals = '()'"]
    lines.append("precedence = %r" % ([tuple([a] + [token.get(x, x) for x in t]) for a, t in case["levels"]],))
    for o in ops:
        lines.append("t_%s = %r" % (token[o], re.escape(o)))
    lines += ["t_ignore = ' \\t'", "def t_NUM(t):", "    r'[0-9]+'", "    return t",
              "def t_newline(t):", "    r'\\n+'", "    t.lexer.lineno += len(t.value)",
              "def t_error(t):", "    raise ValueError(t.value)"]
    rules = []
    for o in ops:
        if kinds[o] in ("bin", "both"):
            rules.append(("e : e %s e" % token[o], "p[0] = [p[1], p[2], p[3]]"))
        if kinds[o] == "both":
            rules.append(("e : %s e %%prec U%d" % (token[o], ops.index(o)), "p[0] = [p[1], p[2]]"))
        if kinds[o] == "pre":
            rules.append(("e : %s e" % token[o], "p[0] = [p[1], p[2]]"))
        if kinds[o] == "post":
            rules.append(("e : e %s" % token[o], "p[0] = [p[1], p[2]]"))
    rules.append(("e : '(' e ')'", "p[0] = ['()', p[2]]"))
    rules.append(("e : NUM", "p[0] = p[1]"))
    if case["shape"]:
        rules.reverse()
    for i, (doc, body) in enumerate(rules):
        lines += ["def p_r%d(p):" % i, '    "%s"' % doc, "    " + body]
    lines += ["def p_error(t):", "    wrong.append(t)"]
    return "\n".join(lines) + "\n"


def operators(case, note):
    lex, yacc = ply()
    kinds = case["kinds"]
    ops = list(kinds)
    rules = {}
    for o in ops:
        if kinds[o] in ("bin", "both", "post"):
            rules[o] = o
        if kinds[o] == "both":
            rules[("pre", o)] = "U%d" % ops.index(o)
        if kinds[o] == "pre":
            rules[("pre", o)] = o
    ref = lalr.OpParser(case["levels"], rules)
    module = lalr.module_from(operator_source(case))
    module.wrong = wrong = []
    errlog = Log()
    try:
        lexer = lex.lex(module=module, errorlog=errlog)
        parser = yacc.yacc(module=module, debug=True, debuglog=Log(), errorlog=errlog)
    finally:
        lalr.forget(module)
    if any("conflict" in x for x in errlog.lines):
        raise Violation("declared operators %r %r are in conflict: %r" % (kinds, case["levels"], errlog.lines))
    for text in case["texts"]:
        words = text.split()
        tokens = [(w if w in "()" else kinds[w].replace("both", "bin") if w in kinds else "num", w) for w in words]
        if any(k == "num" and not w.isdigit() for k, w in tokens):
            continue                                    # an operator of the fixed parts that this table lacks
        want = ref.parse(tokens)
        del wrong[:]
        lexer.lineno = 1
        got = parser.parse(("\n" if case["lines"] else "").join([text.replace(" ", "\n" if case["lines"] else " ")]), lexer=lexer)
        if wrong:
            got = None
        operands = sum(w.isdigit() for w in words)
        note.label("accepted" if want is not None else "refused")
        note.nontrivial(operands > 2 and want is not None)
        if got != want:
            raise Violation("%r with %r, levels %r: %s instead of %s" % (text, kinds, case["levels"],
                            "refused" if got is None else short(got), "being refused" if want is None else short(want)))


# ------------------------------------------------------------- recovery

@st.composite
def recovery_case(draw):
    good = st.sampled_from(["A", "A + A", "A + A + A", "B A", "B A + A", "C A"])
    bad = st.sampled_from(["", "+", "A A", "A +", "+ A", "A + + A", "B B", "A B A", "B", "A B + A + B", "C", "C A A", "C C", "A C"])
    raising = st.sampled_from(["A A!", "A!", "A + A!", "B A!", "C A!"])
    statements = draw(st.lists(st.one_of(good, good, good, bad, raising), min_size=1, max_size=7))
    return {"statements": ["A"] + statements, "open": draw(st.booleans()), "again": draw(st.booleans())}


RECOVERY = '''
tokens = ('A', 'B', 'C')
def p_list(p):
    """list : list stmt
            | """
    p[0] = p[1] + [p[2]] if len(p) == 3 else []
def p_stmt(p):
    "stmt : sum ';'"
    p[0] = p[1]
def p_marked(p):
    "stmt : C lone ';'"
    p[0] = "C " + p[2]
def p_lone(p):
    "lone : A"
    if '!' in p[1]:
        raise SyntaxError
    p[0] = p[1]
def p_stmt_error(p):
    "stmt : error ';'"
    p[0] = "error"
def p_sum(p):
    """sum : sum '+' A
           | B A
           | A"""
    if '!' in p[len(p) - 1]:
        raise SyntaxError
    p[0] = p[1] + "+" + p[3] if len(p) == 4 else " ".join(p[1:])
def p_error(t):
    wrong.append(t)
'''
GOOD = re.compile(r"(B )?A( \+ A)*$|C A$")


def recovery(case, note):
    """statements that end in a semicolon: each that is no statement becomes one error, the others stay"""
    lex, yacc = ply()
    module = lalr.module_from(RECOVERY)
    module.wrong = wrong = []
    try:
        parser = yacc.yacc(module=module, errorlog=Log())
    finally:
        lalr.forget(module)
    tokens, want, first = [], [], None
    statements = case["statements"]
    for i, s in enumerate(statements):
        words = s.split()
        last = i == len(statements) - 1 and case["open"] and bool(words)
        ok = bool(GOOD.match(s)) and not last
        if not ok and first is None and "!" not in s:
            at = len(words)
            for k in range(len(words)):
                if not re.match(r"B$|(B )?A( \+ A)*( \+)?$|C( A)?$", " ".join(words[:k + 1])):
                    at = k
                    break
            first = len(tokens) + at
        elif not ok and first is None:
            first = "raised"
        for w in words + ([] if last else [";"]):
            tokens.append(Tok(w.rstrip("!"), w, 1 + i, len(tokens)))
        if not last:
            want.append(s.replace(" + ", "+") if ok else "error")
    note.nontrivial(len(statements) > 1 and "error" in want and any(x != "error" for x in want))
    note.label("unfinished" if last else "finished")
    for _ in range(2 if case["again"] else 1):
        del wrong[:]
        got = parser.parse(lexer=Feed(None, list(tokens)))
        if last:
            if got is not None:
                raise Violation("%r without its end gives %s" % (statements, short(got)))
        elif got != want:
            raise Violation("%r gives %s instead of %s" % (statements, short(got), short(want)))
        if isinstance(first, int):
            where = len(tokens) if wrong and wrong[0] is None else wrong[0].lexpos if wrong else None
            if where != first:
                raise Violation("%r: first complaint at %r instead of %r" % (statements, where, first))
        elif first is None and wrong:
            raise Violation("%r: complaint about %r" % (statements, wrong[0]))


# ----------------------------------------------------------------- lexers

EXAMPLES = [
    (r"a+", ["a", "aaa"]), (r"b", ["b"]), (r"ab", ["ab"]), (r"abb?", ["ab", "abb"]), (r"[0-9]+", ["0", "12"]),
    (r"\d+\.\d*", ["3.", "3.14"]), (r"[a-z]+", ["abc", "x"]), (r"\+\+", ["++"]), (r"\+", ["+"]), (r"=", ["="]), (r"==", ["=="]),
    (r'"[^"\n]*"', ['"a b"', '""']), (r"\n+", ["\n", "\n\n"]), (r"\(", ["("]), (r"a\ b", ["a b"]), (r"(a|b)c", ["ac", "bc"]),
    (r"(x(y)?z?)+", ["x", "xyzx"]), (r"/\*", ["/*"]), (r"\*/", ["*/"]), (r"\#.*", ["# x\n", "#"]), (r"[A-Z]\w*", ["Ab", "Z_1"]),
    (r".", ["?", "b", " "]), (r"c(?=a)", ["ca", "cb"]), (r"\+ \+ =", ["++="]), (r"[a-c]{2}", ["ab", "cc"]), (r"(?:b|c)+", ["bcb"]),
    (r"0|1", ["0", "1"]), (r"a|ab", ["ab", "a"]), (r"  b  b  ", ["bb"]), (r"[^\w\n]{2,3}", ["+=", "*/ "]),
    (r"é|ü+", ["é", "üü"]), (r"(?P<inner>d)e?", ["d", "de"])]
PATTERNS = [p for p, _ in EXAMPLES]
SNIPPETS = ["a", "b", "c", "ab", "abb", "aa", "12", "3.4", "0", "+", "++", "++=", "=", "==", '"a b"', "\n", "(", " ", "  ", "ac", "bc",
            "xyz", "x", "/*", "*/", "# x", "Ab", "Z", "a b", "ca", "?", "\t", "é"]
ACTIONS = ["tok", "tok", "drop", "type", "int", "lines", "linestok", "skip", "begin", "begindrop", "push", "pushdrop", "pop", "popdrop", "back"]
STATES = ["foo", "bar"]


@st.composite
def lexer_case(draw):
    states = [[s, draw(st.sampled_from(["inclusive", "exclusive"]))] for s in STATES[:draw(st.sampled_from([0, 0, 1, 2]))]]
    names = ["INITIAL"] + [s for s, _ in states]
    pats = draw(st.lists(st.integers(0, len(PATTERNS) - 1), min_size=2 + len(names), max_size=9, unique=True))
    rules = []
    for i, p in enumerate(pats):
        if i < len(names):
            where = [names[i]]                          # every state has a rule
        else:
            where = draw(st.sampled_from([[n] for n in names] + [names]))
        kind = draw(st.sampled_from(["str", "str", "func", "func", "ignore"]))
        rules.append({"states": where, "any": len(where) > 1 and draw(st.booleans()), "kind": kind, "re": p,
                      "act": draw(st.sampled_from(ACTIONS)) if kind == "func" else None,
                      "to": draw(st.sampled_from(names)), "deco": draw(st.booleans())})
    fitting = st.sampled_from([x for r in rules for x in EXAMPLES[r["re"]][1]] + [" "])
    ignore = {n: draw(st.sampled_from([" ", " \t", "", "c "])) for n in names if draw(st.booleans())}
    error = {n: draw(st.sampled_from(["skip", "tok", "skip", "tok", "begin", "line", "stuck"])) for n in names if draw(st.integers(0, 4))}
    return {"states": states, "rules": rules, "ignore": ignore, "error": error,
            "literals": draw(st.sampled_from(["", "+(", ["?", "="], "a"])), "eof": draw(st.sampled_from([None, None, "a b", "12\n++"])),
            "object": draw(st.booleans()),
            "text": "".join(draw(st.lists(st.one_of(fitting, fitting, fitting, st.sampled_from(SNIPPETS)), min_size=3, max_size=20))),
            "clone": draw(st.one_of(st.none(), st.integers(0, 6)))}


def rule_name(case, i):
    r = case["rules"][i]
    token = "%sT%d" % ("ignore_" if r["kind"] == "ignore" else "", i)
    if r["any"] and len(r["states"]) == 1 + len(case["states"]):
        return "t_ANY_" + token
    states = [] if r["states"] == ["INITIAL"] and i % 2 else r["states"]
    return "t_" + "".join(s + "_" for s in states) + token


def lexer_source(case):
    names = ["INITIAL"] + [s for s, _ in case["states"]]
    body, lines = [], ["from scheduler.lex_module.ply.lex import TOKEN"]
    body.append("tokens = %r" % (tuple("T%d" % i for i in range(len(case["rules"]))) + ("CHANGED",),))
    if case["states"]:
        body.append("states = %r" % (tuple(tuple(s) for s in case["states"]),))
    if case["literals"]:
        body.append("literals = %r" % (case["literals"],))
    for n, chars in case["ignore"].items():
        body.append("t_%s_ignore = %r" % (n, chars) if n != "INITIAL" else "t_ignore = %r" % chars)
    me = "self, t" if case["object"] else "t"
    for i, r in enumerate(case["rules"]):
        name, pattern = rule_name(case, i), PATTERNS[r["re"]]
        if r["kind"] != "func":
            body.append("%s = %r" % (name, pattern))
            continue
        if r["deco"]:
            body.append("@TOKEN(%r)" % pattern)
        body.append("def %s(%s):" % (name, me))
        if not r["deco"]:
            body.append("    %r" % pattern)
        to = r["to"]
        text = {"tok": ["return t"], "drop": ["pass"], "type": ["t.type = 'CHANGED'", "return t"],
                "int": ["t.value = len(t.value)", "return t"],
                "lines": ["t.lexer.lineno += t.value.count('\\n')"],
                "linestok": ["t.lexer.lineno += t.value.count('\\n')", "return t"],
                "skip": ["t.lexer.skip(1)", "return t"],
                "begin": ["t.lexer.begin(%r)" % to, "return t"], "begindrop": ["t.lexer.begin(%r)" % to],
                "push": ["t.lexer.push_state(%r)" % to, "return t"], "pushdrop": ["t.lexer.push_state(%r)" % to],
                "pop": ["if t.lexer.lexstatestack: t.lexer.pop_state()", "return t"],
                "popdrop": ["if t.lexer.lexstatestack: t.lexer.pop_state()"],
                "back": ["if len(t.value) > 1:", "    t.lexer.lexpos -= 1", "    t.value = t.value[:-1]", "return t"]}[r["act"]]
        body += ["    " + x for x in text]
    for n, how in case["error"].items():
        body.append("def t_%serror(%s):" % ("" if n == "INITIAL" else n + "_", me))
        body += ["    " + x for x in {"skip": ["t.lexer.skip(1)"],
                                      "tok": ["t.lexer.skip(1)", "t.value = t.value[0]", "return t"],
                                      "stuck": ["return t"],
                                      "begin": ["t.lexer.begin('INITIAL')", "t.lexer.skip(1)"],
                                      "line": ["t.lexer.lineno += 1", "t.lexer.skip(2)"]}[how]]
    if case["eof"] is not None:
        body += ["def t_ANY_eof(%s):" % me, "    if not MORE: return None", "    t.lexer.input(MORE.pop())", "    return t.lexer.token()"]
    if case["object"]:
        lines.append("class Rules:")
        lines += ["    " + x for x in body]
    else:
        lines += body
    return "\n".join(lines) + "\n"


def _rule(pattern, states=("INITIAL",), kind="str", act=None, to="INITIAL"):
    return {"states": list(states), "any": False, "kind": kind, "re": PATTERNS.index(pattern), "act": act, "to": to, "deco": False}


BOTH = ("INITIAL", "foo")
NESTED = [_rule(r"\(", BOTH, "func", "push", "foo"), _rule("=", BOTH, "func", "pop"), _rule("[a-z]+"), _rule("[0-9]+", ["foo"]),
          _rule(r"\n+", BOTH, "func", "lines")]
DIRECTED_LEXERS = [dict({"states": [["foo", "exclusive"]], "ignore": {"INITIAL": " ", "foo": " "}, "error": {"INITIAL": "tok", "foo": "tok"},
                         "literals": "", "eof": None, "object": o, "clone": None}, **more) for o in (False, True) for more in (
    # an error rule that leaves the state: the ignored characters are the new state's
    {"rules": [_rule("b", kind="func", act="begin", to="foo"), _rule("[0-9]+", ["foo"]), _rule("[a-z]+")],
     "ignore": {"INITIAL": " ", "foo": "c "}, "error": {"foo": "begin"}, "text": "b?cab"},
    # what a copy does to its states is not seen by the original
    {"rules": NESTED, "text": "a = a 1 ( 1 a ( 2", "clone": 1},
    {"rules": NESTED, "text": "a ( 1 a ( 2\n = 3 = a 4 (\n\n 5 ( = = a 6", "clone": 4},
    {"rules": NESTED, "text": "a ( 1 a ( 2 = 3 = a", "eof": "1 = a"},
)]


class Tie(Exception):
    pass


class RefLexer:
    def __init__(self, case):
        self.case = case
        self.kind = dict([("INITIAL", "inclusive")] + [tuple(s) for s in case["states"]])
        self.state, self.stack, self.pos, self.line = "INITIAL", [], 0, 1
        self.text = case["text"]
        self.more = [case["eof"]] if case["eof"] is not None else []
        self.order = {}
        for s in self.kind:
            own = [i for i, r in enumerate(case["rules"]) if s in r["states"]]
            funcs = [i for i in own if case["rules"][i]["kind"] == "func"]
            plain = sorted((i for i in own if case["rules"][i]["kind"] != "func"), key=lambda i: -len(PATTERNS[case["rules"][i]["re"]]))
            self.order[s] = [funcs, plain]
        self.res = {r["re"]: re.compile(PATTERNS[r["re"]], re.VERBOSE) for r in case["rules"]}

    def inherits(self, s):
        return s != "INITIAL" and self.kind[s] == "inclusive"

    def of(self, table, s):
        if s in table:
            return table[s]
        return table.get("INITIAL") if self.inherits(s) else None

    def match(self):
        for s in [self.state] + (["INITIAL"] if self.inherits(self.state) else []):
            funcs, plain = self.order[s]
            for i in funcs:
                m = self.res[self.case["rules"][i]["re"]].match(self.text, self.pos)
                if m:
                    return i, m.group()
            hits = []
            for i in plain:
                m = self.res[self.case["rules"][i]["re"]].match(self.text, self.pos)
                if m:
                    hits.append((i, m.group()))
            if hits:
                size = [len(PATTERNS[self.case["rules"][i]["re"]]) for i, _ in hits]
                if len(size) > 1 and size[0] == size[1]:
                    raise Tie()
                return hits[0]
        return None

    def token(self):
        """[type, value, line, place], None at the end, "wrong" where it stops"""
        while True:
            if self.pos >= len(self.text):
                if self.more:
                    self.text, self.pos = self.more.pop(), 0
                    continue
                return None
            c = self.text[self.pos]
            if c in (self.of(self.case["ignore"], self.state) or ""):
                self.pos += 1
                continue
            hit = self.match()
            if hit is None:
                if c in self.case["literals"]:
                    self.pos += 1
                    return [c, c, self.line, self.pos - 1]
                how = self.of(self.case["error"], self.state)
                if how in (None, "stuck"):
                    return "wrong"
                token = ["error", c, self.line, self.pos]
                self.pos += 2 if how == "line" else 1
                if how == "line":
                    self.line += 1
                if how == "begin":
                    self.state = "INITIAL"
                if how == "tok":
                    return token
                continue
            i, value = hit
            r = self.case["rules"][i]
            token = ["T%d" % i, value, self.line, self.pos]
            self.pos += len(value)
            if r["kind"] == "str":
                return token
            if r["kind"] == "ignore":
                continue
            act = r["act"]
            if act == "type":
                token[0] = "CHANGED"
            elif act == "int":
                token[1] = len(value)
            elif act.startswith("lines"):
                self.line += value.count("\n")
            elif act == "skip":
                self.pos += 1
            elif act.startswith("begin"):
                self.state = r["to"]
            elif act.startswith("push"):
                self.stack.append(self.state)
                self.state = r["to"]
            elif act.startswith("pop"):
                if self.stack:
                    self.state = self.stack.pop()
            elif act == "back" and len(value) > 1:
                self.pos -= 1
                token[1] = value[:-1]
            if act in ("drop", "lines", "begindrop", "pushdrop", "popdrop"):
                continue
            return token


def read_all(lexer, lex, limit=200, start=()):
    out = list(start)
    for _ in range(limit):
        try:
            t = lexer.token()
        except lex.LexError:
            return out + ["wrong"]
        if t is None:
            return out
        out.append([t.type, t.value, t.lineno, t.lexpos])
    return out + ["..."]


def lexer(case, note):
    lex, yacc = ply()
    ref = RefLexer(case)
    want = []
    try:
        for _ in range(200):
            t = ref.token()
            if t is None:
                break
            want.append(t)
            if t == "wrong":
                break
        else:
            want.append("...")
    except Tie:
        note.excluded("rules of one length")
        return
    module = lalr.module_from(lexer_source(case))
    module.MORE = [case["eof"]] if case["eof"] is not None else []
    errlog = Log()
    try:
        try:
            target = module.Rules() if case["object"] else module
            made = lex.lex(module=target, errorlog=errlog)
        except SyntaxError:
            raise Violation("the rules %r are refused: %r" % (case["rules"], errlog.lines))
    finally:
        lalr.forget(module)
    kinds = {t[0] for t in want if isinstance(t, list)}
    note.nontrivial(len(want) > 2 and len(kinds) > 1)
    note.label("stops" if want and want[-1] == "wrong" else "to the end")
    made.input(case["text"])
    if case["clone"] is None or case["eof"] is not None:
        got = read_all(made, lex)
        if got != want:
            differ(case, got, want)
        if want and want[-1] in ("wrong", "..."):
            return
        if made.token() is not None:
            raise Violation("a token after the end of %r" % case["text"])
        return
    # a copy made on the way reads on by itself, and so does the original
    head = []
    for _ in range(case["clone"]):
        if len(head) < len(want) and want[len(head)] != "wrong":
            head += read_all(made, lex, limit=1)[:1]
    copy = made.clone()
    note.label("cloned")
    for name, one in (("the copy", copy), ("the original after its copy", made)):
        got = read_all(one, lex, start=head)
        if got != want:
            differ(case, got, want, name)


def differ(case, got, want, who="it"):
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    raise Violation("%r: %s gives %r instead of %r as token %d" % (case["text"], who, got[k:k + 1], want[k:k + 1], k))


# ---------------------------------------------------- rules that are no good

LEX_FAULTS = ["empty match", "bad regex", "unknown token", "no tokens", "bad token name", "long literal", "unknown state type",
              "state twice", "no rules in state", "ignore as function", "error as string", "arguments", "no regex", "none"]


@st.composite
def lex_fault_case(draw):
    return {"fault": draw(st.sampled_from(LEX_FAULTS)), "func": draw(st.booleans()), "state": draw(st.booleans())}


def lex_fault(case, note):
    lex, yacc = ply()
    f = case["fault"]
    lines = ["tokens = ['A', 'B']", "states = [('foo', 'exclusive')]"]
    prefix = "t_foo_" if case["state"] else "t_"
    extra = None
    if f == "empty match":
        extra = "a*"
    elif f == "bad regex":
        extra = "(a"
    elif f == "unknown token":
        lines.append("%sZ = 'z'" % prefix)
    elif f == "no tokens":
        lines[0] = "tokens = []"
    elif f == "bad token name":
        lines[0] = "tokens = ['A', 'B', 'C-D']"
    elif f == "long literal":
        lines.append("literals = ['+', '++']")
    elif f == "unknown state type":
        lines[1] = "states = [('foo', 'exclusively')]"
    elif f == "state twice":
        lines[1] = "states = [('foo', 'exclusive'), ('foo', 'inclusive')]"
    elif f == "no rules in state":
        lines[1] = "states = [('foo', 'exclusive'), ('bar', 'exclusive')]"
    elif f == "ignore as function":
        lines += ["def %signore(t):" % prefix, "    'c'"]
    elif f == "error as string":
        lines.append("%serror = 'c'" % prefix)
    elif f == "arguments":
        lines += ["def %sB(t, u):" % prefix, "    'b'"]
    elif f == "no regex":
        lines += ["def %sB(t):" % prefix, "    return t"]
    lines += ["t_A = 'x'", "t_foo_A = 'x'"]
    if extra:
        lines += ["def %sB(t):" % prefix, "    %r" % extra, "    return t"] if case["func"] else ["%sB = %r" % (prefix, extra)]
    module = lalr.module_from("\n".join(lines) + "\n")
    errlog = Log()
    try:
        made = lex.lex(module=module, errorlog=errlog)
    except SyntaxError:
        made = None
    finally:
        lalr.forget(module)
    note.label(f)
    note.nontrivial(f != "none")
    if (made is None) != (f != "none"):
        raise Violation("rules with the fault %r are %s" % (f, "refused" if made is None else "accepted"))
    if made is None and not any(x.startswith("error") for x in errlog.lines):
        raise Violation("rules with the fault %r are refused and nothing says why" % f)


SUBS = [
    Sub("grammar", grammar_case, grammar, case_timeout=20, quick=2400, thorough=60000, directed=DIRECTED_GRAMMARS),
    Sub("operators", operator_case, operators, case_timeout=20, quick=500, thorough=20000),
    Sub("recovery", recovery_case, recovery, case_timeout=20, quick=300, thorough=10000),
    Sub("lexer", lexer_case, lexer, case_timeout=20, quick=1500, thorough=60000, directed=DIRECTED_LEXERS),
    Sub("fault", fault_case, fault, quick=150, thorough=1500),
    Sub("lexfault", lex_fault_case, lex_fault, quick=150, thorough=1500),
]
