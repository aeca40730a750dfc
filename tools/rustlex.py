"""A small Rust lexer and item indexer used by the weaver.

It works on the output of `rustc -Zunpretty=expanded`, i.e. on rustc's own canonical pretty printing, so the layout it
sees does not depend on how the source was formatted.  It does not interpret code: it only finds where items, loops and
closures begin, so that contract attributes can be inserted in front of them.
"""
import re

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?(?:[eE][+-]?[0-9_]+)?[A-Za-z0-9_]*")
OPS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=",
       "%=", "^=", "&=", "|=", "<<", "..", ]


class Tok:
    __slots__ = ("kind", "text", "start", "end", "match")

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end, self.match = kind, text, start, end, None

    def __repr__(self):
        return "%s:%r@%d" % (self.kind, self.text, self.start)


def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r"(?:b|c|br|cr|r)?(#*)\"").match(src, i)
        if m and (src[i] in "\"bcr"):
            pre = src[i:m.end()]
            if "r" in pre.split('"')[0]:
                close = '"' + m.group(1)
                j = src.index(close, m.end()) + len(close)
            elif m.group(1):
                j = None
            else:
                j = m.end()
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            if j is not None:
                toks.append(Tok("str", src[i:j], i, j))
                i = j
                continue
        if c == "'" or (c == "b" and src.startswith("b'", i)):
            k = i + (2 if c == "b" else 1)
            if src[k] == "\\":
                j = src.index("'", k + 2) + 1
                toks.append(Tok("char", src[i:j], i, j))
                i = j
                continue
            if k + 1 < n and src[k + 1] == "'":
                toks.append(Tok("char", src[i:k + 2], i, k + 2))
                i = k + 2
                continue
            m = IDENT.match(src, k)
            toks.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            toks.append(Tok("num", m.group(), i, m.end()))
            i = m.end()
            continue
        for op in OPS:
            if src.startswith(op, i):
                toks.append(Tok("op", op, i, i + len(op)))
                i += len(op)
                break
        else:
            toks.append(Tok("op", c, i, i + 1))
            i += 1
    stack = []
    pair = {")": "(", "]": "[", "}": "{"}
    for k, t in enumerate(toks):
        if t.kind == "op" and t.text in "([{":
            stack.append(k)
        elif t.kind == "op" and t.text in ")]}" and len(t.text) == 1:
            o = stack.pop()
            assert toks[o].text == pair[t.text], (toks[o], t)
            toks[o].match, t.match = k, o
    assert not stack
    return toks


class Item:
    def __init__(self, kind, path, start_tok, body_open, body_close, head_tok):
        self.kind, self.path = kind, path
        self.start_tok = start_tok      # first token of the item, attributes excluded
        self.head_tok = head_tok        # the keyword token
        self.body_open, self.body_close = body_open, body_close


QUAL = {"pub", "const", "unsafe", "extern", "async", "default"}


def impl_key(toks, i, j):
    """Key for an impl header in toks[i:j] (after `impl`): 'T' or 'Trait for T', generics and paths stripped."""
    k = i
    if toks[k].text == "<":
        depth = 0
        while True:
            if toks[k].text == "<":
                depth += 1
            elif toks[k].text == ">":
                depth -= 1
            elif toks[k].text == ">>":
                depth -= 2
            k += 1
            if depth <= 0:
                break
    parts, cur = [], []
    while k < j:
        t = toks[k].text
        if t == "where":
            break
        if t == "for":
            parts.append(cur)
            cur = []
        else:
            cur.append(toks[k])
        k += 1
    parts.append(cur)

    def short(ts):
        # textual form with leading paths dropped: a::b::C<x::D> -> C<D>
        out = []
        for idx, t in enumerate(ts):
            if t.kind == "life":
                continue
            if t.text == "::":
                continue
            if idx + 1 < len(ts) and ts[idx + 1].text == "::" and t.kind == "id":
                continue
            out.append(t.text)
        s = ""
        for t in out:
            if s and s[-1].isalnum() and t[0].isalnum():
                s += " "
            s += t
        return s.replace("<>", "")
    return " for ".join(short(p) for p in parts)


def index(src, toks):
    """All mod/struct/enum/trait/impl/fn items (functions at module, impl and trait level)."""
    items = []

    def walk(i, end, path):
        while i < end:
            # skip attributes
            while i < end and toks[i].text == "#":
                i += 1
                if toks[i].text == "!":
                    i += 1
                i = toks[i].match + 1
            if i >= end:
                return
            start = i
            # visibility and qualifiers
            j = i
            while j < end and toks[j].kind in ("id", "str") and (toks[j].text in QUAL or toks[j].kind == "str"):
                if toks[j].text == "const" and toks[j + 1].text not in ("fn", "unsafe", "async", "extern"):
                    break
                if toks[j].text == "extern" and toks[j + 1].text == "crate":
                    break
                if toks[j].text == "pub" and toks[j + 1].text == "(":
                    j = toks[j + 1].match + 1
                else:
                    j += 1
            kw = toks[j].text
            if kw in ("mod", "struct", "enum", "trait", "union", "fn", "type", "static", "const") :
                name = toks[j + 1].text if toks[j + 1].text != "mut" else toks[j + 2].text
            k = j
            # find the end of the item: `;` or a `{...}` block at depth 0
            angle = 0
            body = None
            seen_eq = False
            while k < end:
                t = toks[k]
                if t.kind == "op":
                    if t.text in ("(", "["):
                        k = t.match + 1
                        continue
                    if t.text == "=" and kw in ("const", "static", "type", "use"):
                        seen_eq = True
                    if t.text == "{":
                        if kw in ("use", "const", "static", "type") or seen_eq:
                            k = t.match + 1
                            continue
                        body = k
                        break
                    if t.text == ";":
                        break
                k += 1
            if kw == "macro_rules":
                o = next(x for x in range(j, end) if toks[x].text in "({[")
                i = toks[o].match + 1
                if i < end and toks[i].text == ";":
                    i += 1
                continue
            close = toks[body].match if body is not None else k
            if kw == "mod":
                p = path + [name]
                items.append(Item("mod", p, start, body, close, j))
                if body is not None:
                    walk(body + 1, close, p)
            elif kw == "impl":
                key = impl_key(toks, j + 1, body)
                p = path + ["[" + key + "]" if " for " in key else key]
                items.append(Item("impl", p, start, body, close, j))
                walk(body + 1, close, p)
            elif kw == "trait":
                p = path + [name]
                items.append(Item("trait", p, start, body, close, j))
                walk(body + 1, close, p)
            elif kw in ("struct", "enum", "union"):
                items.append(Item(kw, path + [name], start, body, close, j))
                # tuple struct: body None, ends at ;
            elif kw == "fn":
                items.append(Item("fn", path + [name], start, body, close, j))
            elif kw in ("static", "const", "type"):
                items.append(Item(kw, path + [name], start, body, close, j))
            i = close + 1
            if i < end and toks[i].text == ";" and kw in ("mod",):
                i += 1
    walk(0, len(toks), [])
    return items


def loops_and_closures(toks, item):
    """Token indices of loops (`for`/`while`/`loop`) and closures in a function body, in source order."""
    loops, closures = [], []
    i = item.body_open + 1
    while i < item.body_close:
        t = toks[i]
        if t.kind == "id" and t.text in ("for", "while", "loop") and toks[i + 1].text != "<":
            # a labelled loop starts at its label
            loops.append(i)
        elif t.kind == "id" and t.text == "move" and toks[i + 1].text in ("|", "||"):
            closures.append(i)
            i += 1
            i = skip_params(toks, i)
            continue
        elif t.kind == "op" and t.text in ("|", "||"):
            prev = toks[i - 1]
            if (prev.kind == "op" and prev.text in ("(", ",", "=", "{", ";", "=>", "&&")) or prev.text in ("return",):
                if not is_pattern_bar(toks, i):
                    closures.append(i)
                    i = skip_params(toks, i)
                    continue
        i += 1
    return loops, closures


def is_pattern_bar(toks, i):
    return False


def skip_params(toks, i):
    if toks[i].text == "||":
        return i + 1
    j = i + 1
    while toks[j].text != "|":
        if toks[j].text in ("(", "[", "{"):
            j = toks[j].match + 1
        else:
            j += 1
    return j + 1
