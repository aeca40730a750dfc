"""Translates a regular expression literal of the source into Verus specification functions, node by node.

For the literal with the name `n` it emits
  n_accepts(s)       the language of is_match
  n_captures(s, g)   what a match with the groups `g` (number -> text of the groups that took part) says; weaker than the
                     leftmost-first rule of the crate: some parse with these groups exists
and weave.py adds two axioms that tie them to what the `regex` crate does with that literal (that crate is trusted to implement
these constructs: characters, classes, POSIX classes, concatenation, alternation, groups, ? * +, ^ and $ at the ends, (?x)).
Anything else raises Unsupported.
"""


import hashlib


class Unsupported(Exception):
    pass


POSIX = {"alpha": "(('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'))", "digit": "('0' <= c && c <= '9')",
         "alnum": "(('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9'))",
         "upper": "('A' <= c && c <= 'Z')", "lower": "('a' <= c && c <= 'z')"}


def lit(c):
    return "'\\u{%x}'" % ord(c)


class Parser:
    def __init__(self, text):
        self.t, self.i, self.x, self.groups = text, 0, False, 0
        if self.t.startswith("(?x)"):
            self.x, self.i = True, 4

    def skip(self):
        while self.x and self.i < len(self.t) and (self.t[self.i].isspace() or self.t[self.i] == "#"):
            if self.t[self.i] == "#":
                while self.i < len(self.t) and self.t[self.i] != "\n":
                    self.i += 1
            else:
                self.i += 1

    def peek(self):
        self.skip()
        return self.t[self.i] if self.i < len(self.t) else ""

    def alt(self):
        b = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            b.append(self.cat())
        return b[0] if len(b) == 1 else ("alt", b)

    def cat(self):
        items = []
        while self.peek() not in ("", "|", ")"):
            items.append(self.rep())
        return items[0] if len(items) == 1 else ("cat", items)

    def rep(self):
        a = self.atom()
        while self.peek() and self.peek() in "*+?{":
            q = self.peek()
            if q == "{":
                raise Unsupported("counted repetition")
            self.i += 1
            if a[0] in ("start", "end"):
                raise Unsupported("repeated anchor")
            if q == "*":
                a = ("star", a) if a[0] not in ("star",) else a
                if self.peek() == "?":
                    raise Unsupported("lazy repetition")
            elif q == "+":
                if self.peek() == "?":
                    raise Unsupported("lazy repetition")
                a = ("cat", [a, ("star", a)]) if a[0] != "star" else a
            else:
                a = ("opt", a) if a[0] not in ("opt", "star") else a
        return a

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "^":
            return ("start",)
        if c == "$":
            return ("end",)
        if c == ".":
            return ("class", "c != '\\n'")
        if c == "(":
            if self.t.startswith("?", self.i):
                if self.t.startswith("?:", self.i):
                    self.i += 2
                    n = None
                else:
                    raise Unsupported("group flags")
            else:
                self.groups += 1
                n = self.groups
            a = self.alt()
            if self.peek() != ")":
                raise Unsupported("unbalanced group")
            self.i += 1
            return ("group", n, a) if n else a
        if c == "[":
            return ("class", self.cls())
        if c == "\\":
            return ("class", self.escape())
        return ("class", "c == " + lit(c))

    def escape(self):
        c = self.t[self.i]
        self.i += 1
        if c.isalnum():
            raise Unsupported("escape \\" + c)
        return "c == " + lit(c)

    def cls(self):
        neg = self.t.startswith("^", self.i)
        if neg:
            self.i += 1
        parts = []
        while self.t[self.i] != "]":
            if self.t.startswith("[:", self.i):
                j = self.t.index(":]", self.i)
                n = self.t[self.i + 2:j]
                if n not in POSIX:
                    raise Unsupported("class " + n)
                parts.append(POSIX[n])
                self.i = j + 2
                continue
            if self.t[self.i] == "[":
                self.i += 1
                parts.append("(" + self.cls() + ")")
                continue
            if self.t[self.i] in "&~" or (self.x and self.t[self.i].isspace()):
                raise Unsupported("class operator")
            if self.t[self.i] == "\\":
                self.i += 1
                parts.append("(" + self.escape() + ")")
                continue
            c = self.t[self.i]
            self.i += 1
            if self.t[self.i] == "-" and self.t[self.i + 1] != "]":
                d = self.t[self.i + 1]
                if d in "[\\":
                    raise Unsupported("class range")
                self.i += 2
                parts.append("(%s <= c && c <= %s)" % (lit(c), lit(d)))
            else:
                parts.append("c == " + lit(c))
        self.i += 1
        s = " || ".join(parts)
        return "!(%s)" % s if neg else s


def groups(a):
    if a[0] == "group":
        return [a[1]] + groups(a[2])
    if a[0] in ("cat", "alt"):
        return [g for b in a[1] for g in groups(b)]
    if a[0] in ("star", "opt"):
        return groups(a[1])
    return []


def strip(a):
    """without the groups"""
    if a[0] == "group":
        return strip(a[2])
    if a[0] == "cat":
        return ("cat", [strip(b) for b in a[1]])
    if a[0] == "alt":
        return ("alt", [strip(b) for b in a[1]])
    if a[0] == "star":
        b = strip(a[1])
        return b if b[0] == "star" else ("star", b)
    if a[0] == "opt":
        b = strip(a[1])
        return b if b[0] in ("opt", "star") else ("opt", b)
    return a


def parse(literal, first=0):
    p = Parser(literal)
    p.groups = first
    a = p.alt()
    if p.i < len(p.t):
        raise Unsupported("trailing text")
    return a


class Spec:
    """The functions of all nodes, named by their content: equal sub-expressions share one function."""

    def __init__(self):
        self.out = {}

    def node(self, a, cap=False):
        cap = cap and bool(groups(a))
        if not cap:
            a = strip(a)
        name = "re_" + hashlib.md5(repr((a, cap)).encode()).hexdigest()[:8]
        if name in self.out:
            return name
        sig = ", g: Map<int, Seq<char>>" if cap else ""
        call = lambda b, s: "%s(%s%s)" % (self.node(b, cap), s, ", g" if cap and groups(b) else "")
        dec = ""
        self.out[name] = ""
        if a[0] in ("start", "end"):
            raise Unsupported("inner anchor")
        if a[0] == "class":
            body = "s.len() == 1 && %s_c(s[0])" % name
            dec = None
            self.out[name] = "pub open spec fn %s_c(c: char) -> bool { %s }\n" % (name, a[1])
        elif a[0] == "star" and a[1][0] == "class":
            body = "forall|k: int| 0 <= k < s.len() ==> %s_c(#[trigger] s[k])" % self.node(a[1])
        elif a[0] == "star":
            body = "s.len() == 0 || exists|i: int| 0 < i <= s.len() && %s(s.take(i)) && %s(#[trigger] s.skip(i))" % (self.node(strip(a[1])), name)
            dec = " decreases s.len()"
            if cap:
                # the groups of a repetition are the last round's: nothing is said about them
                body, dec = "%s(s)" % self.node(strip(a)), ""
        elif a[0] == "opt":
            body = "(s.len() == 0%s) || %s" % ("".join(" && !g.dom().contains(%d)" % i for i in groups(a[1])) if cap else "", call(a[1], "s"))
        elif a[0] == "alt":
            body = " || ".join("(%s%s)" % (call(x, "s"), "".join(" && !g.dom().contains(%d)" % i for i in groups(a) if i not in groups(x)) if cap else "") for x in a[1])
        elif a[0] == "group":
            body = "g.dom().contains(%d) && g[%d] == s && %s" % (a[1], a[1], call(a[2], "s"))
        elif a[0] == "cat":
            if not a[1]:
                body = "s.len() == 0"
            else:
                rest = a[1][1:] if len(a[1]) > 2 else [a[1][1]]
                rest = ("cat", rest) if len(rest) > 1 else rest[0]
                body = "exists|i: int| 0 <= i <= s.len() && %s && %s" % (call(a[1][0], "#[trigger] s.take(i)"), call(rest, "s.skip(i)"))
        self.out[name] += "/// %s\npub open spec fn %s(s: Seq<char>%s) -> bool%s { %s }" % (show(a), name, sig, dec or "", body)
        return name

    def whole(self, literal, name):
        a = parse(literal)
        items = a[1] if a[0] == "cat" else [a]
        start = bool(items) and items[0] == ("start",)
        end = bool(items) and items[-1] == ("end",)
        items = items[1 if start else 0:len(items) - (1 if end else 0)]
        b = items[0] if len(items) == 1 else ("cat", items)
        for cap in (False, True):
            n = self.node(b, cap)
            arg = ", g" if cap and groups(b) else ""
            if start and end:
                body = "%s(s%s)" % (n, arg)
            elif start:
                body = "exists|j: int| 0 <= j <= s.len() && %s(#[trigger] s.take(j)%s)" % (n, arg)
            elif end:
                body = "exists|i: int| 0 <= i <= s.len() && %s(#[trigger] s.skip(i)%s)" % (n, arg)
            else:
                body = "exists|i: int, j: int| 0 <= i <= j <= s.len() && %s(#[trigger] s.subrange(i, j)%s)" % (n, arg)
            self.out[name + str(cap)] = "pub open spec fn %s(s: Seq<char>%s) -> bool { %s }" % (
                name + ("_captures" if cap else "_accepts"), ", g: Map<int, Seq<char>>" if cap else "", body)

    def text(self):
        return "\n".join(self.out.values()) + "\n"


def show(a):
    if a[0] == "class":
        return "<%s>" % a[1]
    if a[0] == "cat":
        return " ".join(show(b) for b in a[1])
    if a[0] == "alt":
        return "(" + " | ".join(show(b) for b in a[1]) + ")"
    if a[0] == "group":
        return "(%d: %s)" % (a[1], show(a[2]))
    return "(%s)%s" % (show(a[1]), "*" if a[0] == "star" else "?")


if __name__ == "__main__":
    import sys
    x = Spec()
    x.whole(sys.argv[1], "re")
    print(x.text())
