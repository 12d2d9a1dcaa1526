"""A small interpreter of the repository's ANTLR grammar: the generated parser and the ANTLR runtime are not part of the repository.

Reads /repo's .g4 files and offers what the importer uses of the generated parser: one context class per rule with accessors for
sub-rules and tokens, labels, parentCtx, accept; a visitor base class; and the few runtime classes of the conversion tool.
Lexing: longest match, first rule wins. Parsing: ordered choice and greedy loops (the grammar needs no more)."""
import builtins
import keyword
import os
import re
import sys
import types

from mc.core import REPO

DIR = os.path.join(REPO, "framework", "cognitive", "speclanguage", "src", "main", "antlr4")
META = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<cls>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_]\w*)|(?P<op>->|\+=|[:;|()?*+=,.~{}@])""", re.S)


class SyntaxProblem(Exception):
    pass


# ------------------------------------------------------------- grammar files

def scan(text):
    i, res = 0, []
    while i < len(text):
        m = META.match(text, i)
        if not m:
            raise SyntaxProblem(f"grammar: {text[i:i + 30]!r}")
        if m.lastgroup:
            res.append((m.lastgroup, m.group()))
        i = m.end()
    return res


class Reader:
    """rules: name -> ('alt', [...]) in order of appearance"""

    def __init__(self, name):
        self.rules, self.order, self.done, self.skip, self.fragments = {}, [], set(), set(), set()
        self.load(name)

    def load(self, name):
        if name in self.done:
            return
        self.done.add(name)
        with open(os.path.join(DIR, name + ".g4"), encoding="utf-8") as f:
            t = self.t = scan(f.read())
        i, imports = 0, []
        while i < len(t):
            if t[i][1] in ("grammar", "parser", "lexer"):
                i += {"grammar": 3}.get(t[i][1], 1)
            elif t[i][1] == "fragment":
                i += 1
                self.fragments.add(t[i][1])
            elif t[i][1] == "import":
                while t[i][1] != ";":
                    if t[i][0] == "id" and t[i][1] != "import":
                        imports.append(t[i][1])
                    i += 1
                i += 1
            else:
                rule = t[i][1]
                if t[i + 1][1] != ":":
                    raise SyntaxProblem(f"grammar {name}: {t[i:i + 3]}")
                body, i = self.alts(t, i + 2)
                if t[i][1] == "->":
                    self.skip.add(rule)
                    i += 2
                if t[i][1] != ";":
                    raise SyntaxProblem(f"grammar {name}, rule {rule}: {t[i:i + 3]}")
                i += 1
                if rule not in self.rules:      # the importing grammar overrides
                    self.rules[rule] = body
                    self.order.append(rule)
        for x in imports:
            self.load(x)

    def alts(self, t, i):
        res = []
        while True:
            seq = []
            while t[i][1] not in ("|", ";", ")", "->") or t[i][0] == "lit":
                e, i = self.element(t, i)
                seq.append(e)
            res.append(("seq", seq))
            if t[i][1] != "|":
                return ("alt", res), i
            i += 1

    def element(self, t, i):
        label = None
        if t[i][0] == "id" and t[i + 1][1] in ("=", "+=") and t[i + 1][0] == "op":
            label, i = t[i][1], i + 2
        k, v = t[i]
        i += 1
        if k == "op" and v == "(":
            e, i = self.alts(t, i)
            i += 1
        elif k == "op" and v == ".":
            e = ("any",)
        elif k == "lit":
            e = ("lit", re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), v[1:-1]))
        elif k == "cls":
            e = ("cls", v)
        elif k == "id":
            e = ("ref", v)
        else:
            raise SyntaxProblem(f"grammar: {t[i - 1:i + 3]}")
        if t[i][0] == "op" and t[i][1] in "?*+":
            kind, i = t[i][1], i + 1
            lazy = t[i] == ("op", "?")
            i += lazy
            e = ("rep", kind, e, lazy)
        return (("label", label, e) if label else e), i


def is_token(name):
    return name[0].isupper()


class Token:
    def __init__(self, kind, text, pos):
        self.type, self.text, self.pos = kind, text, pos

    def __repr__(self):
        return f"{self.type}:{self.text}"


class TerminalNode:
    def __init__(self, tok):
        self.symbol, self.parentCtx = tok, None

    def getText(self):  # noqa
        return self.symbol.text

    def __str__(self):
        return self.symbol.text

    def accept(self, visitor):
        return visitor.visitTerminal(self)


class Context:
    rule = None
    labels = ()

    def __init__(self, parent=None):
        self.parentCtx, self.children = parent, []
        for x in self.labels:
            setattr(self, x, None)

    def getText(self):  # noqa
        return "".join(c.getText() for c in self.children)

    def getChildren(self):  # noqa
        return iter(self.children)

    def getChildCount(self):  # noqa
        return len(self.children)

    def accept(self, visitor):
        return getattr(visitor, "visit" + cap(self.rule))(self)


class Visitor:
    def visit(self, tree):
        return tree.accept(self)

    def visitChildren(self, node):  # noqa
        res = None
        for c in node.children:
            res = c.accept(self)
        return res

    def visitTerminal(self, node):  # noqa
        return None


def cap(s):
    return s[0].upper() + s[1:]


def safe(name):
    """the generator's escape of names Python uses"""
    return name + "_" if keyword.iskeyword(name) or hasattr(builtins, name) else name


class Grammar:
    def __init__(self, name):
        g = Reader(name)
        self.rules = g.rules
        self.alias = {}
        lits = []
        for r in g.order:
            b = g.rules[r]
            if is_token(r) and b[0] == "alt" and len(b[1]) == 1 and len(b[1][0][1]) == 1 and b[1][0][1][0][0] == "lit":
                self.alias[b[1][0][1][0][1]] = r
        for r in g.order:
            if not is_token(r):
                self.literals(g.rules[r], lits)
        self.lexer = [("'" + x + "'", re.compile(re.escape(x)), False) for x in lits if x not in self.alias]
        self.lexer += [(r, re.compile(self.regex(g.rules[r], {r: 1})), r in g.skip) for r in g.order if is_token(r) and r not in g.fragments]
        self.ctx = {}
        for r in g.order:
            if not is_token(r):
                self.ctx[r] = self.context(r)
        self.visitor = type(name + "Visitor", (Visitor,), {"visit" + cap(r): (lambda s, ctx: s.visitChildren(ctx)) for r in self.ctx})

    def literals(self, e, out):
        k = e[0]
        if k in ("alt", "seq"):
            for x in e[1]:
                self.literals(x, out)
        elif k in ("rep", "label"):
            self.literals(e[2], out)
        elif k == "lit" and e[1] not in out:
            out.append(e[1])

    def regex(self, e, seen):
        k = e[0]
        if k == "alt":
            return "(?:" + "|".join(self.regex(x, seen) for x in e[1]) + ")"
        if k == "seq":
            return "".join(self.regex(x, seen) for x in e[1])
        if k == "rep":
            return "(?:" + self.regex(e[2], seen) + ")" + e[1] + ("?" if e[3] else "")
        if k == "label":
            return self.regex(e[2], seen)
        if k == "lit":
            return re.escape(e[1])
        if k == "cls":
            return e[1]
        if k == "any":
            return r"[\s\S]"
        n = seen.get(e[1], 0)
        if n > 2:
            return "(?!)"       # deeper recursion adds nothing in this grammar
        return self.regex(self.rules[e[1]], {**seen, e[1]: n + 1})

    def counts(self, e):
        k = e[0]
        if k == "ref":
            return {e[1]: 1}
        if k == "lit":
            return {self.alias[e[1]]: 1} if e[1] in self.alias else {}
        if k == "label":
            return self.counts(e[2])
        if k == "rep":
            c = self.counts(e[2])
            return c if e[1] == "?" else {x: 2 for x in c}
        res = {}
        for x in e[1]:
            for r, n in self.counts(x).items():
                res[r] = res.get(r, 0) + n if k == "seq" else max(res.get(r, 0), n)
        return res

    def find_labels(self, e):
        k = e[0]
        if k == "label":
            return [e[1], *self.find_labels(e[2])]
        if k == "rep":
            return self.find_labels(e[2])
        if k in ("alt", "seq"):
            return [y for x in e[1] for y in self.find_labels(x)]
        return []

    def context(self, rule):
        body = {"rule": rule, "labels": tuple(safe(x) for x in self.find_labels(self.rules[rule]))}
        for name, n in self.counts(self.rules[rule]).items():
            body[safe(name)] = self.accessor(name, n > 1)
        return type(cap(rule) + "Context", (Context,), body)

    @staticmethod
    def accessor(name, many):
        def hit(c):
            return isinstance(c, TerminalNode) and c.symbol.type == name if is_token(name) else isinstance(c, Context) and c.rule == name
        if many:
            def get(self, i=None):
                found = [c for c in self.children if hit(c)]
                return found if i is None else (found[i] if i < len(found) else None)
        else:
            def get(self):
                return next((c for c in self.children if hit(c)), None)
        return get

    # --------------------------------------------------------- use

    def lex(self, text):
        i, res = 0, []
        while i < len(text):
            best = None
            for kind, rx, skip in self.lexer:
                m = rx.match(text, i)
                if m and m.end() > i and (best is None or m.end() > best[0]):
                    best = (m.end(), kind, skip)
            if best is None:
                raise SyntaxProblem(f"cannot read {text[i:i + 20]!r}")
            if not best[2]:
                res.append(Token(best[1], text[i:best[0]], i))
            i = best[0]
        return res

    def parse(self, rule, toks):
        self.toks, self.far = toks, 0
        r = self.rule(rule, 0, None)
        if r is None:
            raise SyntaxProblem(f"not understood from {toks[self.far:self.far + 8]}")
        if r[0] != len(toks):
            raise SyntaxProblem(f"not understood from {toks[max(self.far, r[0]):][:8]}")
        return r[1]

    def rule(self, name, i, parent):
        c = self.ctx[name](parent)
        r = self.match(self.rules[name], i, c)
        if r is None:
            return None
        c.children = r[1]
        for l, v in r[2]:
            setattr(c, safe(l), v)
        return r[0], c

    def match(self, e, i, ctx):
        """-> (end, children, labels) or None"""
        k = e[0]
        if k == "alt":
            for x in e[1]:
                r = self.match(x, i, ctx)
                if r is not None:
                    return r
            return None
        if k == "seq":
            ch, lb = [], []
            for x in e[1]:
                r = self.match(x, i, ctx)
                if r is None:
                    return None
                i = r[0]
                ch += r[1]
                lb += r[2]
            return i, ch, lb
        if k == "rep":
            ch, lb, n = [], [], 0
            while True:
                r = self.match(e[2], i, ctx)
                if r is None or r[0] == i:
                    break
                i = r[0]
                ch += r[1]
                lb += r[2]
                n += 1
                if e[1] == "?":
                    break
            return None if e[1] == "+" and n == 0 else (i, ch, lb)
        if k == "label":
            r = self.match(e[2], i, ctx)
            if r is None:
                return None
            c = r[1][0]
            return r[0], r[1], r[2] + [(e[1], c.symbol if isinstance(c, TerminalNode) else c)]
        if k == "ref" and not is_token(e[1]):
            r = self.rule(e[1], i, ctx)
            return None if r is None else (r[0], [r[1]], [])
        kind = e[1] if k == "ref" else self.alias.get(e[1], "'" + e[1] + "'")
        if i < len(self.toks) and self.toks[i].type == kind:
            t = TerminalNode(self.toks[i])
            t.parentCtx = ctx
            self.far = max(self.far, i + 1)
            return i + 1, [t], []
        return None


G = None


def install():
    """the modules the importer and the conversion tool ask for"""
    global G
    if G is not None:
        return G
    G = Grammar("CogniLang")

    class FileStream:
        def __init__(self, name, *a):
            with open(name, encoding="utf-8") as f:
                self.text = f.read()

    class InputStream:
        def __init__(self, text):
            self.text = text

    class CogniLangLexer:
        def __init__(self, stream):
            self.text = stream.text

    class CommonTokenStream:
        def __init__(self, lexer):
            self.tokens = G.lex(lexer.text)

    def __init__(self, stream):  # noqa
        self.stream = stream
    body = {cap(r) + "Context": c for r, c in G.ctx.items()}
    body["__init__"] = __init__
    for r in G.ctx:
        body[safe(r)] = (lambda self, r=r: G.parse(r, self.stream.tokens))
    parser = type("CogniLangParser", (), body)

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    module("antlr4", FileStream=FileStream, InputStream=InputStream, CommonTokenStream=CommonTokenStream)
    pk = module("rei.format.cognilang", __path__=[])
    for n, kw in (("CogniLangLexer", {"CogniLangLexer": CogniLangLexer}), ("CogniLangParser", {"CogniLangParser": parser}),
                  ("CogniLangVisitor", {"CogniLangVisitor": G.visitor})):
        setattr(pk, n, module("rei.format.cognilang." + n, **kw))
    return G


def tree(text):
    g = install()
    return g.parse("rootnode", g.lex(text))
