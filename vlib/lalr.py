"""Reference for a parser generator: derivable strings, LALR(1) tables from merged canonical LR(1)
states, the documented conflict rules, and an operator-precedence parser."""
import linecache
import sys
import types

END = "$end"
_serial = [0]


def module_from(source):
    """a module whose functions know their lines"""
    _serial[0] += 1
    name = "generated_grammar_%d" % _serial[0]
    filename = "<%s>" % name
    module = types.ModuleType(name)
    module.__file__ = filename
    sys.modules[name] = module
    linecache.cache[filename] = (len(source), None, source.splitlines(True), filename)
    exec(compile(source, filename, "exec"), module.__dict__)
    return module


def forget(module):
    sys.modules.pop(module.__name__, None)
    linecache.cache.pop(module.__file__, None)


class Grammar:
    """prods: list of (lhs, [symbols]); a symbol is a nonterminal when it has productions"""

    def __init__(self, prods, start=None):
        self.prods = [(l, tuple(r)) for l, r in prods]
        self.start = start or self.prods[0][0]
        self.nts = {l for l, _ in self.prods}
        self.terms = sorted({s for _, r in self.prods for s in r if s not in self.nts})

    def unproductive(self):
        good = set()
        while True:
            n = len(good)
            for l, r in self.prods:
                if all(s in good or s not in self.nts for s in r):
                    good.add(l)
            if len(good) == n:
                return self.nts - good

    def language(self, longest):
        """every derivable string of at most `longest` symbols"""
        lang = {n: set() for n in self.nts}
        while True:
            grown = False
            for l, r in self.prods:
                strings = {()}
                for s in r:
                    if s in self.nts:
                        strings = {x + y for x in strings for y in lang[s] if len(x) + len(y) <= longest}
                    else:
                        strings = {x + (s,) for x in strings if len(x) < longest}
                    if not strings:
                        break
                if not strings <= lang[l]:
                    lang[l] |= strings
                    grown = True
            if not grown:
                return lang[self.start]

    # ---- LALR(1) as merged canonical LR(1)
    def firsts(self):
        nullable, first = set(), {n: set() for n in self.nts}
        changed = True
        while changed:
            changed = False
            for l, r in self.prods:
                before = (len(first[l]), l in nullable)
                for s in r:
                    if s not in self.nts:
                        first[l].add(s)
                        break
                    first[l] |= first[s]
                    if s not in nullable:
                        break
                else:
                    nullable.add(l)
                changed = changed or before != (len(first[l]), l in nullable)
        return nullable, first

    def tables(self, limit=400, merge=True):
        """(states, cells): cells[state][symbol] = set of actions ('s', j) / ('r', i) / ('a',);
        None when there are too many canonical states"""
        nullable, first = self.firsts()
        prods = self.prods + [("S'", (self.start,))]
        accept = len(self.prods)
        of = {}
        for i, (l, _) in enumerate(self.prods):
            of.setdefault(l, []).append(i)

        def first_of(symbols, la):
            out = set()
            for s in symbols:
                if s not in self.nts:
                    out.add(s)
                    return out
                out |= first[s]
                if s not in nullable:
                    return out
            out.add(la)
            return out

        def closure(items):
            items, todo = set(items), list(items)
            while todo:
                i, dot, la = todo.pop()
                r = prods[i][1]
                if dot < len(r) and r[dot] in self.nts:
                    for b in first_of(r[dot + 1:], la):
                        for j in of[r[dot]]:
                            item = (j, 0, b)
                            if item not in items:
                                items.add(item)
                                todo.append(item)
            return frozenset(items)

        begin = closure({(accept, 0, END)})
        index, order, moves = {begin: 0}, [begin], []
        k = 0
        while k < len(order):
            by = {}
            for i, dot, la in order[k]:
                if dot < len(prods[i][1]):
                    by.setdefault(prods[i][1][dot], set()).add((i, dot + 1, la))
            row = {}
            for s, kernel in by.items():
                state = closure(kernel)
                if state not in index:
                    if len(order) >= limit:
                        return None
                    index[state] = len(order)
                    order.append(state)
                row[s] = index[state]
            moves.append(row)
            k += 1
        cores, merged = {}, []
        for state in order:
            core = frozenset((i, dot) for i, dot, _ in state)
            merged.append(cores.setdefault(core if merge else state, len(cores)))
        cells = [{} for _ in cores]
        gotos = [{} for _ in cores]
        for k, state in enumerate(order):
            for i, dot, la in state:
                if dot == len(prods[i][1]):
                    cells[merged[k]].setdefault(la, set()).add(("a",) if i == accept else ("r", i))
            for s, j in moves[k].items():
                if s in self.nts:
                    gotos[merged[k]][s] = merged[j]
                else:
                    cells[merged[k]].setdefault(s, set()).add(("s", merged[j]))
        return cells, gotos


class Unjudged(Exception):
    pass


class Table:
    """conflicts and the documented ways out of them"""

    def __init__(self, grammar, prec=(), prod_prec=None, merge=True):
        self.g = grammar
        self.level = {}
        for n, (assoc, terms) in enumerate(prec):
            for t in terms:
                self.level[t] = (assoc, n + 1)
        self.rule = []
        for i, (l, r) in enumerate(grammar.prods):
            named = (prod_prec or {}).get(i)
            if named is None:
                own = [s for s in r if s not in grammar.nts]
                named = own[-1] if own else None
            self.rule.append(self.level.get(named, ("right", 0)))
        t = grammar.tables(merge=merge)
        self.cells = None
        self.sr = self.rr = self.accepting = 0
        self.silent = 0                                 # one side declared only
        self.more = 0                                   # three ways or more
        if t is None:
            return
        self.cells, self.gotos = t
        self.act = []
        for row in self.cells:
            self.act.append({a: self._resolve(a, acts) for a, acts in row.items()})

    def _resolve(self, term, acts):
        acts = sorted(acts)
        if len(acts) == 1:
            return acts[0]
        if ("a",) in acts:
            self.accepting += 1
            return ("?",)
        if len(acts) > 2:
            self.more += 1
            return ("?",)
        if acts[0][0] == "r" and acts[1][0] == "r":
            self.rr += 1
            return acts[0]                              # the rule that comes first
        reduce_, shift = acts
        sprec, slevel = self.level.get(term, ("right", 0))
        rprec, rlevel = self.rule[reduce_[1]]
        if not slevel and not rlevel:
            self.sr += 1
        elif not slevel or not rlevel:
            self.silent += 1
        if slevel < rlevel or (slevel == rlevel and rprec == "left"):
            return reduce_
        if slevel == rlevel and rprec == "nonassoc":
            return ("x",)
        return shift

    def run(self, tokens, steps=2000):
        """(tree, reductions) or (None, index of the token that is refused)"""
        states, values = [0], []
        done = []
        k = 0
        tokens = list(tokens) + [END]
        for _ in range(steps):
            row = self.act[states[-1]]
            a = row.get(tokens[k], ("x",))
            if a[0] == "x" and len(set(row.values())) == 1 and next(iter(row.values()))[0] == "r":
                a = next(iter(row.values()))            # may be done before the symbol is looked at
            if a[0] == "?":
                raise Unjudged("three-way conflict")
            if a[0] == "x":
                return None, k
            if a[0] == "a":
                return values[0], done
            if a[0] == "s":
                states.append(a[1])
                values.append(k)
                k += 1
                continue
            l, r = self.g.prods[a[1]]
            n = len(r)
            kids = values[len(values) - n:] if n else []
            if n:
                del values[-n:]
                del states[-n:]
            done.append(a[1])
            values.append([a[1], kids])
            states.append(self.gotos[states[-1]][l])
        raise Unjudged("does not end")


def leaves(tree):
    if not isinstance(tree, list):
        return [tree]
    return [x for kid in tree[1] for x in leaves(kid)]


def postorder(tree):
    if not isinstance(tree, list):
        return []
    return [i for kid in tree[1] for i in postorder(kid)] + [tree[0]]


def derivation(grammar, tree, symbol, tokens):
    """what is wrong with a tree as a derivation, or None"""
    if symbol not in grammar.nts:
        if isinstance(tree, list) or tokens[tree] != symbol:
            return "%r stands for %s" % (tree, symbol)
        return None
    if not isinstance(tree, list):
        return "%r stands for %s" % (tree, symbol)
    l, r = grammar.prods[tree[0]]
    if l != symbol or len(r) != len(tree[1]):
        return "rule %d stands for %s" % (tree[0], symbol)
    for s, kid in zip(r, tree[1]):
        wrong = derivation(grammar, kid, s, tokens)
        if wrong:
            return wrong
    return None


class OpParser:
    """the textbook: at every operator the topmost unfinished operation is finished or waits,
    by level, then by associativity"""

    def __init__(self, levels, rules):
        self.levels = {t: (assoc, n + 1) for n, (assoc, terms) in enumerate(levels) for t in terms}
        self.rules = rules                              # token or ('pre', token) -> its precedence token

    def parse(self, tokens):
        """tokens: list of (kind, text); kinds num, bin, pre, post, (, ).  tree or None"""
        self.t, self.k = list(tokens) + [("end", "")], 0
        tree = self._expr()
        if tree is None or self.t[self.k][0] != "end":
            return None
        return tree

    def _operand(self):
        kind, text = self.t[self.k]
        if kind == "num":
            self.k += 1
            return text
        if kind == "(":
            self.k += 1
            inner = self._expr()
            if inner is None or self.t[self.k][0] != ")":
                return None
            self.k += 1
            return ["()", inner]
        return None

    def _expr(self):
        # stack of unfinished operations: ("pre", op) or ("bin", op, left); `value` is the finished right end
        stack = []
        while True:
            while self.t[self.k][0] == "pre" or (self.t[self.k][0] == "bin" and ("pre", self.t[self.k][1]) in self.rules):
                stack.append(("pre", self.t[self.k][1]))
                self.k += 1
            value = self._operand()
            if value is None:
                return None
            while True:
                kind, text = self.t[self.k]
                if kind not in ("bin", "post"):
                    while stack:
                        value = self._join(stack.pop(), value)
                    return value
                # the unfinished operation on top against this operator
                while stack:
                    top = stack[-1]
                    key = ("pre", top[1]) if top[0] == "pre" else top[1]
                    assoc, level = self.levels[self.rules[key]]
                    _, mine = self.levels[text]
                    if mine < level or (mine == level and assoc == "left"):
                        value = self._join(stack.pop(), value)
                    elif mine == level and assoc == "nonassoc":
                        return None
                    else:
                        break
                self.k += 1
                if kind == "post":
                    value = [value, text]
                    continue
                stack.append(("bin", text, value))
                break

    @staticmethod
    def _join(op, value):
        return [op[1], value] if op[0] == "pre" else [op[2], op[1], value]
