#!/usr/bin/env python3
"""Weaves contracts into the macro-expanded source of a crate.

usage: weave.py EXPANDED.rs OUT.rs CONTRACT.vc [CONTRACT.vc ...]

The expanded source is copied verbatim; the only edits are insertions (attributes in front of items, functions, loops and
closures; ghost `proof!` blocks; and Verus specification items appended to modules).  Nothing of the executable text is
changed.  An anchor which does not exist, or whose number of loops/closures differs from what the contract expects, is a
LOST ANCHOR: it is reported on stdout as JSON and the exit code is 3.
"""
import json
import re
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex


class Lost(Exception):
    pass


SEEN = set()
WIDE = set()        # functions whose loops are verified in the context of what is known before them
FLIPPED = set()     # functions whose boolean closures are taken to answer the opposite question (`!any(p)` has become `all(!p)`)


def parse_contracts(paths):
    """-> list of (directive, arg, [(sub, text)])"""
    out = []
    for p in paths:
        cur = None
        sub = None
        tags = []
        for ln, line in foreach(list(enumerate(open(p), 1))):
            if line.startswith("@@"):
                name = line[2:].strip()
                cur[2].append([name, ""])
                sub = cur[2][-1]
            elif line.startswith("@"):
                d, _, a = line[1:].strip().partition(" ")
                if d == "for":
                    tags = a.split()
                    cur = None
                    continue
                if d == "include":
                    q = os.path.join(os.path.dirname(p), a.strip())
                    if q not in SEEN:
                        SEEN.add(q)
                        out.extend(parse_contracts([q]))
                    cur = None
                    continue
                if d == "also":        # `@also PROPERTY fn fn ..`: these contracts, given above, decide PROPERTY too
                    w = re.findall(r"(?:\[[^]]*\]|\S)+", a)
                    for f in w[1:]:
                        hit = [i for i, c in enumerate(out) if c[0] == "fn" and (c[1] == f or f.endswith("*") and c[1].startswith(f[:-1]))]
                        if not hit:
                            raise SystemExit("%s:%d: no contract for %s" % (p, ln, f))
                        for i in hit:
                            out[i] = out[i][:4] + (out[i][4] + [w[0]],)
                    cur = None
                    continue
                cur = (d, a.strip(), [["", ""]], "%s:%d" % (os.path.basename(p), ln), tags)
                sub = cur[2][0]
                out.append(cur)
            elif line.startswith("##"):
                continue
            else:
                if cur is None:
                    if line.strip():
                        raise SystemExit("%s:%d: text outside a directive" % (p, ln))
                    continue
                sub[1] += line
    return out


def foreach(lines):
    """`@foreach A B : a1 b1 ; a2 b2 ; ...` .. `@end` repeats the lines in between with $A, $B replaced."""
    out, i = [], 0
    while i < len(lines):
        ln, line = lines[i]
        if line.startswith("@foreach "):
            head = line[9:]
            while not head.rstrip().endswith("."):
                i += 1
                head += " " + lines[i][1]
            names, _, rows = head.rstrip()[:-1].partition(":")
            names = names.split()
            j = i + 1
            while lines[j][1].strip() != "@end":
                j += 1
            for row in rows.split(";"):
                if not row.strip():
                    continue
                vals = [v.replace(".for.", " for ") for v in row.split()]
                assert len(vals) == len(names), (ln, row)
                for n, l in lines[i + 1:j]:
                    for a, b in sorted(zip(names, vals), key=lambda x: -len(x[0])):
                        l = l.replace("$" + a, b)
                    out.append((n, l))
            i = j + 1
        else:
            out.append((ln, line))
            i += 1
    return out


def weave(src, contracts, degraded=()):
    """`degraded`: functions whose body is not to be verified in this run (their contract becomes an assumption)."""
    for d, arg, subs, where, tags in contracts:
        if d == "fn" and any(n == "splitarms" for n, _ in subs):
            src = split_arms(src, arg)
    src, contracts, unlifted = lifts(src, contracts, degraded)
    src, contracts, mine = statics(src, contracts, degraded)
    if any(c[0] in ("path", "slices") for c in contracts):
        src = path_calls(src, {arg for d, arg, subs, where, tags in contracts if d == "fn"} - set(degraded),
                         dict(c[1].split() for c in contracts if c[0] == "path"), any(c[0] == "slices" for c in contracts))
        contracts = [c for c in contracts if c[0] not in ("path", "slices")]
    if any(c[0] == "joined" for c in contracts):
        src = joined_calls(src, {arg for d, arg, subs, where, tags in contracts if d == "fn"} - set(degraded))
        contracts = [c for c in contracts if c[0] != "joined"]
    if any(d == "fmt" for d, arg, subs, where, tags in contracts):
        src = fmt_calls(src, {arg for d, arg, subs, where, tags in contracts if d == "fn"} - set(degraded),
                        [tuple(c[1].split()[1:]) or ("",) for c in contracts if c[0] == "fmt" and c[1].startswith("message")],
                        any(c[0] == "fmt" and c[1] == "untyped" for c in contracts),
                        any(c[0] == "fmt" and c[1] == "quoted" for c in contracts))
        src = debug_paths(src, {arg for d, arg, subs, where, tags in contracts if d == "fn" and arg.endswith("]::fmt")})
    contracts = [c for c in contracts if c[0] != "fmt"]
    toks = rustlex.lex(src)
    items = rustlex.index(src, toks)
    src, toks, items = use_statics(src, toks, items, mine, {arg for d, arg, subs, where, tags in contracts if d == "fn"} - set(degraded))
    by = {}
    for it in items:
        by.setdefault((it.kind if it.kind in ("fn", "mod", "impl", "trait") else "item", "::".join(it.path)), []).append(it)
    # `@consts m PREFIX..`: `@const` for every text constant of m with one of the prefixes that has none yet
    known = {c[1] for c in contracts if c[0] == "const"}
    more = []
    for d, arg, subs, where, tags in contracts:
        if d != "consts":
            more.append((d, arg, subs, where, tags))
            continue
        mod, *prefixes = arg.split()
        for (kind, path), its in sorted(by.items()):
            m, _, name = path.rpartition("::")
            if kind == "item" and m == mod and name.startswith(tuple(prefixes)) and path not in known and its[0].kind == "const":
                known.add(path)
                more.append(("const", path, subs, where, tags))
    contracts = more
    ins = []   # (pos, seq, text)
    reps = []  # (start, end, text)
    lost = list(unlifted)
    woven = []
    mods = set()
    contracted = set()
    marked = set()
    marked_traits = set()
    renames = {}
    fields = {}
    info = {}

    def touch(path):
        parts = path.split("::")
        while parts and ("mod", "::".join(parts)) not in by:
            parts.pop()
        if parts:
            mods.add("::".join(parts))

    def add(pos, text):
        ins.append((pos, len(ins), text))

    def one(kind, path):
        c = by.get((kind, path), [])
        if not c:
            raise Lost("no %s `%s` in the current source" % (kind, path))
        if len(c) > 1:
            raise Lost("%s `%s` is ambiguous" % (kind, path))
        return c[0]

    for d, arg, subs, where, tags in contracts:
        try:
            if d not in ("rename", "field"):
                touch(arg)
            if d == "crate":
                # inner attributes and items at the crate root
                for name, text in subs:
                    if name == "":
                        add(len(src), "\n" + text)
            elif d == "rename":
                a, b = arg.split()
                renames[a] = b
            elif d == "field":
                a, b = arg.split()
                fields[a] = b
            elif d == "mod":
                it = one("mod", arg)
                add(toks[it.body_close].start, "\n" + subs[0][1])
            elif d in ("item", "trait", "impl"):
                it = one(d, arg)
                add(toks[it.start_tok].start, subs[0][1].strip() + "\n")
                if d == "impl":
                    marked.add(arg)
                if d == "trait":
                    marked_traits.add(arg)
                for name, text in subs[1:]:
                    if name == "body":     # appended inside the braces
                        add(toks[it.body_close].start, "\n" + text)
                    else:
                        raise SystemExit("%s: unknown section %s" % (where, name))
            elif d == "const":
                # the elided lifetime of a constant's type is 'static: written out, for Verus' macro
                it = one("item", arg)
                add(toks[it.start_tok].start, subs[0][1].strip() + "\n")
                k = it.start_tok
                while toks[k].text not in ("=", ";"):
                    if toks[k].text == "&" and not toks[k + 1].text.startswith("'"):
                        add(toks[k].end, "'static ")
                    k += 1
            elif d == "fn":
                it = one("fn", arg)
                if arg in contracted:
                    raise SystemExit("%s: second contract for %s" % (where, arg))
                if arg in degraded:
                    add(toks[it.start_tok].start, "#[verus_verify(external_body)]\n" + strip_mode(subs[0][1]) + "\n")
                    contracted.add(arg)
                    info[arg] = {"tags": tags, "where": where, "trusted": True, "degraded": True, "body": it.body_open is not None}
                    continue
                trusted = "external_body" in subs[0][1]
                mark = (len(ins), len(reps))
                try:
                    weave_fn(src, toks, it, arg, subs, where, add, lambda a, b, t: reps.append((a, b, t)))
                except Lost:
                    del ins[mark[0]:]
                    raise
                woven.append(arg)
                contracted.add(arg)
                info[arg] = {"tags": tags, "where": where, "trusted": trusted, "degraded": False, "body": it.body_open is not None,
                             "bare": not subs[0][1].strip()}
                continue
            else:
                raise SystemExit("%s: unknown directive %s" % (where, d))
        except Lost as e:
            lost.append({"kind": d, "anchor": arg, "contract": where, "reason": str(e), "exists": d == "fn" and len(by.get(("fn", arg), [])) == 1})
    for (kind, p), its in by.items():
        if kind == "trait" and p in marked_traits:
            for it in its:
                for f in items:
                    if f.kind == "fn" and it.body_open < f.head_tok < it.body_close and f.body_open is not None and "::".join(f.path) not in contracted:
                        add(toks[f.start_tok].start, "#[verifier::external_body]\n")
    # an inherent impl with a contracted function is under verification; its other functions are external (never called by a
    # verified function without Verus rejecting the call)
    impls = {}
    for (kind, p), its in by.items():
        if kind == "impl":
            for it in its:
                impls.setdefault(p, []).append(it)
    for p, its in impls.items():
        for it in its:
            fns = [f for f in items if f.kind == "fn" and it.body_open is not None and it.body_open < f.head_tok < it.body_close]
            if any("::".join(f.path) in contracted for f in fns):
                # Verus skips the functions of an `#[automatically_derived]` impl: the marker, which has no meaning at run time, is dropped
                k = it.start_tok
                while toks[k - 1].text == "]" and toks[toks[k - 1].match - 1].text == "#":
                    o = toks[k - 1].match
                    if toks[o + 1].text == "automatically_derived":
                        reps.append((toks[o - 1].start, toks[k - 1].end, ""))
                    k = o - 1
                if p not in marked:
                    add(toks[it.start_tok].start, "#[verus_verify]\n")
                for f in fns:
                    if "::".join(f.path) not in contracted:
                        if " for " in p:
                            lost.append({"kind": "impl", "exists": False, "anchor": p, "contract": "", "reason": "trait impl has the uncontracted function `%s`" % f.path[-1]})
                        add(toks[f.start_tok].start, "#[verifier::external]\n")
    # method calls redirected to a wrapper of the same body (see the contracts file that declares the rename)
    for f in items:
        if f.kind == "fn" and "::".join(f.path) in contracted and f.body_open is not None and not info.get("::".join(f.path), {}).get("trusted"):
            for k in range(f.body_open, f.body_close):
                if toks[k].text == "." and toks[k + 1].text in renames and toks[k + 2].text in ("(", "::"):
                    reps.append((toks[k + 1].start, toks[k + 1].end, renames[toks[k + 1].text]))
                    if toks[k + 2].text == "(" and toks[k + 3].text in ("Some", "Ok") and toks[k + 4].text == ")":   # the constructor as a function
                        reps.append((toks[k + 3].start, toks[k + 3].end, "crate::vstdx::vx_" + toks[k + 3].text.lower()))
                elif toks[k].text == "." and toks[k + 1].text in fields and toks[k + 2].text not in ("(", "::", "="):
                    reps.append((toks[k + 1].start, toks[k + 1].end, fields[toks[k + 1].text] + "()"))
    # a closure parameter that is a pattern is bound by a `let` at the start of the closure's body
    for f in items:
        if f.kind == "fn" and "::".join(f.path) in contracted and "::".join(f.path) not in degraded and f.body_open is not None:
            for c in rustlex.loops_and_closures(toks, f)[1]:
                closure_patterns(src, toks, c, ins, add, reps)
    for m in sorted(mods):
        it = by[("mod", m)][0]
        # after the inner attributes of the module
        k = it.body_open + 1
        while toks[k].text == "#" and toks[k + 1].text == "!":
            k = toks[k + 2].match + 1
        ins.append((toks[k].start, -1, "#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vstdx::*; #[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec as _;\n"))
    allr = sorted([(pos, 0, seq, pos, text) for pos, seq, text in ins] + [(a, 1, 0, b, t) for a, b, t in set(reps)])
    out, p = [], 0
    for pos, _, _, end, text in allr:
        out.append(src[p:pos])
        out.append(text)
        p = end
    out.append(src[p:])
    return "".join(out), info, lost


def weave_fn(src, toks, it, arg, subs, where, add, rep=None):
    L, C = rustlex.loops_and_closures(toks, it) if it.body_open is not None else ([], [])
    add(toks[it.start_tok].start, ("#[verifier::loop_isolation(false)]\n" if arg in WIDE else "") + subs[0][1].strip() + "\n")
    nl = nc = 0
    for name, text in subs[1:]:
        w = name.split()
        if w[0] in ("shape", "generic", "retype", "param", "iter") and text.strip():
            raise SystemExit("fn `%s`: text after @@%s" % (arg, w[0]))
        if w[0] == "loop":
            nl += 1
        if w[0] == "closure":
            nc += 1
        if w[0] == "shape":
            if [len(L), len(C)] != [int(w[1]), int(w[2])]:
                raise Lost("fn `%s` has %d loops and %d closures, the contract was written for %s and %s" % (arg, len(L), len(C), w[1], w[2]))
            continue
        if w[0] in ("splitarms", "lift", "outline"):
            continue
        if w[0] == "generic":      # `dyn T` in the parameter types is generalised to a type parameter `VxDyn: T + ?Sized`
            k = it.head_tok
            while toks[k].text != it.path[-1]:
                k += 1
            if toks[k + 1].text != "(":
                raise Lost("fn `%s` has type parameters already" % arg)
            o = k + 1
            sites = [x for x in range(o, toks[o].match) if toks[x].text == "dyn"]
            if len({toks[x + 1].text for x in sites}) != 1 or any(toks[x + 2].text not in (">", ">>") for x in sites):
                raise Lost("fn `%s` does not have one `dyn` trait among its parameters" % arg)
            add(toks[k].end, "<VxDyn: %s + ?Sized>" % toks[sites[0] + 1].text)
            for x in sites:
                rep(toks[x].start, toks[x + 1].end, "VxDyn")
            continue
        if w[0] == "with":         # the ghost argument `text` is passed to the calls of the named methods
            k = it.body_open + 1
            while k < it.body_close:
                if toks[k].text == "." and toks[k + 1].text in w[1:] and toks[k + 2].text == "(" and toks[k + 3].text != ")":
                    with_arg(toks, it, arg, k, text.strip(), add)
                k += 1
            continue
        if w[0] == "retype":       # a type in the signature that Verus has no notion of is replaced by a stand-in
            a, b = [x.split() for x in name[len("retype"):].split("=>")]
            k = e = it.head_tok
            while toks[e].text not in (";", "{"):
                e = toks[e].match + 1 if toks[e].text in ("(", "[") else e + 1
            pat = [t.text for t in rustlex_lex_loose(" ".join(a))]
            sites = [x for x in range(k, e - len(pat) + 1) if [toks[x + y].text for y in range(len(pat))] == pat]
            if len(sites) != 1:
                raise Lost("the signature of fn `%s` does not have the type `%s` once" % (arg, " ".join(a)))
            rep(toks[sites[0]].start, toks[sites[0] + len(pat) - 1].end, " ".join(b))
            continue
        if w[0] == "param":        # a parameter that bears the name of the function is renamed
            k = it.head_tok
            while toks[k].text != "(":
                k += 1
            names = [x for x in range(k, it.body_close) if toks[x].text == w[1] and toks[x].kind == "id" and toks[x - 1].text not in (".", "::")]
            if not names or toks[names[0] + 1].text != ":" or any(toks[x + 1].text in ("(", "::", "!", ":") for x in names[1:]):
                raise Lost("fn `%s` has no parameter `%s` that can be renamed" % (arg, w[1]))
            for x in names:
                rep(toks[x].start, toks[x].end, w[2])
            continue
        if w[0] == "entry":
            add(toks[it.body_open].end, "\n" + text)
        elif w[0] == "iter":       # `for p in E` is verified as `for p in wrapper(E)`
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            k = L[i]
            if toks[k].text != "for":
                raise Lost("fn `%s`: loop %d is not a for loop" % (arg, i))
            while toks[k].text != "in":
                k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
            add(toks[k].end, " " + w[2] + "(")
            add(toks[loop_body(toks, L[i])].start, ") ")
        elif w[0] == "beforeloop":   # ghost code before the loop
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            add(toks[L[i]].start, text + "\n")
        elif w[0] == "loop":
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            add(toks[L[i]].start, text.strip() + "\n")
        elif w[0] == "loopbody":   # ghost code at the start of the loop body
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            o = loop_body(toks, L[i])
            add(toks[o].end, "\n" + text)
        elif w[0] == "loopend":    # ghost code at the end of the loop body
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            o = loop_body(toks, L[i])
            c = toks[o].match
            add(toks[c].start, ("" if toks[c - 1].text in (";", "{", "}") else ";") + "\n" + text)
        elif w[0] == "afterloop":
            i = int(w[1])
            if i >= len(L):
                raise Lost("fn `%s` has no loop %d" % (arg, i))
            o = loop_body(toks, L[i])
            add(toks[toks[o].match].end, "\n" + text)
        elif w[0] == "closure":
            i = int(w[1])
            if i >= len(C):
                raise Lost("fn `%s` has no closure %d" % (arg, i))
            add(toks[C[i]].start, (negated(text.strip()) if arg in FLIPPED else text.strip()) + " ")
        elif w[0] == "armend":     # a hint at the end of every arm of the n-th match that is a block of statements
            ms = [k for k in range(it.body_open, it.body_close) if toks[k].text == "match" and toks[k].kind == "id"]
            if int(w[1]) < len(ms):
                o = loop_body(toks, ms[int(w[1])])
                k = o + 1
                while k < toks[o].match:
                    while toks[k].text != "=>":
                        k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
                    k += 1
                    if toks[k].text == "{":
                        if toks[toks[k].match - 1].text in (";", "}"):
                            add(toks[toks[k].match].start, "\n" + text)
                        k = toks[k].match + 1
                    else:
                        while k < toks[o].match and toks[k].text != ",":
                            k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
                    if toks[k].text == ",":
                        k += 1
        elif w[0] == "before":     # before the n-th occurrence of a token sequence
            n, pat = int(w[1]), name.split(None, 2)[2]
            k = find_seq(toks, it, pat, n)
            if k is None:
                raise Lost("fn `%s` has no occurrence %d of `%s`" % (arg, n, pat))
            add(toks[k].start, text.strip() + "\n")
        else:
            raise SystemExit("%s: unknown section %s" % (where, name))
    if nl and nl != len(L) or nc and nc != len(C):
        raise Lost("fn `%s` now has %d loops and %d closures" % (arg, len(L), len(C)))


def with_arg(toks, it, arg, k, text, add):
    """`proof_with!{text}` before the statement of the call at token `k` (a match arm's expression gets braces)."""
    back = {t.match: i for i, t in enumerate(toks) if t.text in ("(", "[", "{") and t.match is not None}
    j = k - 1
    while j > it.body_open and toks[j].text not in (";", "{", "}", "=>"):
        if toks[j].text in ("(", "[", ","):
            raise Lost("fn `%s`: a call of `%s` is inside another expression" % (arg, toks[k + 1].text))
        j = back[j] - 1 if toks[j].text in (")", "]") else j - 1
    add(toks[j + 1].start, ("{ " if toks[j].text == "=>" else "") + "proof_with!{%s}\n" % text)
    if toks[j].text == "=>":
        e = j + 1
        while toks[e].text not in (",", "}"):
            e = toks[e].match + 1 if toks[e].text in ("(", "[", "{") else e + 1
        add(toks[e - 1].end, " }")


def lifts(src, contracts, degraded):
    """`@@lift f` with the text `SIGNATURE\nCALL`: Verus has no closures that write to what they capture.  In
    `E.iter().map(|p| BODY).collect()`, collected into a Result, the body becomes a function `f` of its own, verbatim, and the
    chain the loop that std defines it to be: call `f` for each item, stop at the first error.
    `@@outline f` with the same text: a method of a trait of std cannot have a contract of its own; its body becomes the free
    function `f` before the impl, verbatim, and the method calls it."""
    lost = []
    for d, arg, subs, where, tags in list(contracts):
        for name, text in subs if d == "fn" else []:
            if name.split()[0:1] not in (["lift"], ["outline"]):
                continue
            f = name.split()[1]
            sig, call = text.strip().split("\n")
            child = arg.rpartition("::")[0] + "::" + f
            if name.split()[0] == "outline":
                child = re.sub(r"(::)?\[[^\]]*\]::[^:]*$", "", arg) + "::" + f
            try:
                if arg in degraded:
                    raise Lost("degraded")
                toks = rustlex.lex(src)
                its = [i for i in rustlex.index(src, toks) if i.kind == "fn" and "::".join(i.path) == arg]
                if len(its) != 1:
                    raise Lost("no fn `%s`" % arg)
                it = its[0]
                if name.split()[0] == "outline":
                    outer = [i for i in rustlex.index(src, toks) if i.kind == "impl" and i.body_open < it.start_tok and it.body_close < i.body_close]
                    body = src[toks[it.body_open].start:toks[it.body_close].end]
                    if re.search(r"\bself\b|\bSelf\b", body):
                        raise Lost("fn `%s` mentions Self" % arg)
                    src = (src[:toks[outer[-1].start_tok].start] + "fn " + f + sig + " " + body + "\n" + src[toks[outer[-1].start_tok].start:toks[it.body_open].start]
                           + "{ " + call + " }" + src[toks[it.body_close].end:])
                    contracts = [c for c in contracts if not (c[0] == "fn" and c[1] == arg)]    # the method itself is not verified
                    continue
                C = rustlex.loops_and_closures(toks, it)[1]
                sites = [c for c in C if [t.text for t in toks[c - 3:c]] == [".", "map", "("] and not C[:C.index(c)]]
                if len(sites) != 1:
                    raise Lost("fn `%s` has no first closure that is mapped" % arg)
                c = sites[0]
                end = rustlex.skip_params(toks, c)
                close = toks[c - 1].match
                if toks[end].text != "{" or toks[end].match + 1 != close or [t.text for t in toks[close + 1:close + 5]] != [".", "collect", "(", ")"]:
                    raise Lost("fn `%s`: the mapped closure is not a block whose results are collected" % arg)
                if any(t.text == "return" for t in toks[end:toks[end].match]):
                    raise Lost("fn `%s`: the mapped closure returns" % arg)
                if [t.text for t in toks[c - 7:c - 3]] != [".", "iter", "(", ")"]:
                    raise Lost("fn `%s`: not a mapped `iter()`" % arg)
                a = c - 8
                back = {t.match: i for i, t in enumerate(toks) if t.text in ("(", "[", "{") and t.match is not None}
                while toks[a - 1].text not in (";", "{", "}", "=", "(", ",", "=>"):
                    a = back[a - 1] if toks[a - 1].text in (")", "]") else a - 1
                pat = src[toks[c + 1].start:toks[end - 2].end]
                body = src[toks[end].start:toks[toks[end].match].end]
                items = src[toks[a].start:toks[c - 4].end]
                loop = ("{ let mut vx_all = Vec::new(); let mut vx_stop = None; for %s in %s { match %s { Ok(vx_v) => { vx_all.push(vx_v); } "
                        "Err(vx_e) => { vx_stop = Some(vx_e); break; } } } match vx_stop { Some(vx_e) => Err(vx_e), None => Ok(vx_all) } }" % (pat, items, call))
                src = (src[:toks[it.start_tok].start] + "fn " + f + sig + " " + body + "\n" + src[toks[it.start_tok].start:toks[a].start]
                       + loop + src[toks[close + 4].end:])
            except Lost as e:
                contracts = [c for c in contracts if not (c[0] == "fn" and c[1] == child)]
                if arg not in degraded:
                    lost.append({"kind": "fn", "anchor": arg, "contract": where, "reason": str(e), "exists": True})
    return src, contracts, lost


def split_arms(src, path):
    """`A | B => body` of the function's matches becomes `A => body, B => body` (Verus has no or-patterns that bind mutably)."""
    again = True
    while again:
        again = False
        toks = rustlex.lex(src)
        for it in rustlex.index(src, toks):
            if it.kind != "fn" or "::".join(it.path) != path or it.body_open is None:
                continue
            for m in range(it.body_open, it.body_close):
                if toks[m].text != "match" or toks[m].kind != "id" or again:
                    continue
                o = loop_body(toks, m)
                k = o + 1
                while k < toks[o].match:
                    a, bars = k, []
                    while toks[k].text != "=>":
                        if toks[k].text == "|" and k > a:
                            bars.append(k)
                        k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
                    arrow = k
                    k += 1
                    if toks[k].text == "{" and toks[toks[k].match + 1].text not in (".", "?"):
                        e = toks[k].match
                        k = e + 1
                    else:
                        while k < toks[o].match and toks[k].text != ",":
                            k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
                        e = k - 1
                    if toks[k].text == ",":
                        k += 1
                    if bars and not any(toks[x].text == "if" for x in range(a, arrow)):
                        body = src[toks[arrow].start:toks[e].end]
                        cuts = [a] + [b + 1 for b in bars]
                        ends = bars + [arrow]
                        arms = ",\n".join(src[toks[c].start:toks[d - 1].end] + " " + body for c, d in zip(cuts, ends))
                        src = src[:toks[a].start] + arms + "," + src[toks[k - 1].end:]
                        again = True
                        break
    return src


def statics(src, contracts, degraded):
    """`@static m::NAME` (spec with `$R` for the value): the initializer of the `lazy_static!` constant NAME is copied into a
    function `m::vx_init_NAME` under that contract, and `m::vx_static_NAME()` stands for a use of the constant.
    `@regex m::NAME n`: the same for a constant made by `Regex::new(<literal>).unwrap()`, with the specification functions of
    tools/regex_spec.py made from that literal.  `$re{pattern}` in a contract names the specification function of a pattern."""
    import re
    out, mine, spec, axioms = [], {}, None, []
    use = [c for c in contracts if c[0] in ("static", "regex")]
    if not use:
        return src, contracts, mine
    import regex_spec
    spec = regex_spec.Spec()
    for c in contracts:
        d, arg, subs, where, tags = c
        if d not in ("static", "regex"):
            out.append(c)
            continue
        path = arg.split()[0]
        mod, _, name = path.rpartition("::")
        m = re.search(r"static %s\s*:\s*%s\s*=.*?fn __static_ref_initialize\(\)\s*->\s*(.*?)\s*\{" % (name, name), src, re.S)
        missing = (("item", path, [["", ""]], where, tags))
        if not m:
            out.append(missing)
            continue
        toks = rustlex.lex(src)
        o = next(t for t in toks if t.start == m.end() - 1)
        body = src[o.start:toks[o.match].end]
        ty = m.group(1)
        text = subs[0][1]
        if d == "regex":
            gen = arg.split()[1]
            l = re.search(r'Regex::new\(\s*(r(#*)"(.*?)"\2)\s*\)', body, re.S)
            try:
                if not l:
                    raise regex_spec.Unsupported("no literal")
                spec.whole(l.group(3), gen)
            except (regex_spec.Unsupported, ValueError, IndexError):
                out.append(missing)
                continue
            text = "ensures crate::vxre::re_text(*$R) == %s@" % l.group(1)
            axioms.append("pub broadcast axiom fn axiom_%s(s: Seq<char>)\n    ensures #[trigger] regex_accepts(%s@, s) == %s_accepts(s);\n"
                          "pub broadcast axiom fn axiom_%s_captures(s: Seq<char>, g: Map<int, Seq<char>>)\n    requires #[trigger] regex_captures(%s@, s, g)\n    ensures %s_captures(s, g);\n"
                          "pub broadcast axiom fn axiom_%s_valid()\n    ensures #[trigger] regex_valid(%s@);\n"
                          "pub broadcast group group_%s { axiom_%s, axiom_%s_captures, axiom_%s_valid }\n"
                          % (gen, l.group(1), gen, gen, l.group(1), gen, gen, l.group(1), gen, gen, gen, gen))
            body = "{ proof! { broadcast use crate::vxre::group_%s; } %s" % (gen, body.strip()[1:])
        head = "vx_init_%s() -> %s" % (name, ty)
        key = "%s::vx_init_%s" % (mod, name)
        src = append_to_mod(src, mod, "fn %s %s\n#[verus_verify(external_body)]\n#[verus_spec(r => %s)]\npub fn vx_static_%s() -> &'static %s { &%s }\n"
                            % (head, body, text.replace("*$R", "*r").replace("$R", "(*r)"), name, ty, name))
        out.append(("fn", key, [["", "#[verus_spec(r => %s)]\n" % text.replace("*$R", "r").replace("$R", "r")]] + [list(x) for x in subs[1:]], where, tags))
        mine[path] = "crate::%s::vx_static_%s()" % (mod, name)

    def pat(m):
        if m.group(1):      # with its groups, numbered from there
            return "crate::vxre::" + spec.node(regex_spec.parse(m.group(2), int(m.group(1)) - 1), True)
        return "crate::vxre::" + spec.node(regex_spec.parse(m.group(2)))
    out = [(d, arg, [[n, re.sub(r"\$re(\d*)\{\{(.*?)\}\}", pat, t)] for n, t in subs], where, tags) for d, arg, subs, where, tags in out]
    if axioms:
        out = [(d, arg, [[n, t.replace("$REGEX_SPECS", spec.text() + "".join(axioms))] for n, t in subs], where, tags) for d, arg, subs, where, tags in out]
    return src, out, mine


def debug_paths(src, fns):
    """Verus' macro names a function under contract `Self::fmt`: in a module which imports `Debug` beside `Display` that is
    ambiguous, so the import is dropped and the trait is written with its full path."""
    toks = rustlex.lex(src)
    mods = {f.partition("::[")[0] for f in fns}
    reps = []
    for it in rustlex.index(src, toks):
        if it.kind != "mod" or "::".join(it.path) not in mods:
            continue
        uses = False
        k = it.body_open + 1
        sites = []
        while k < it.body_close:
            if toks[k].text == "use" and toks[k - 1].text in (";", "}", "{", "]", "pub"):
                e = k
                while toks[e].text != ";":
                    e += 1
                for j in range(k, e):
                    if toks[j].text == "Debug" and toks[j + 1].text in (",", "}") and toks[j - 1].text in (",", "{"):
                        uses = True
                        sites.append((toks[j].start, toks[j + 1].end if toks[j + 1].text == "," else toks[j].end, ""))
                k = e
            elif toks[k].text == "Debug" and toks[k].kind == "id" and toks[k - 1].text != "::":
                sites.append((toks[k].start, toks[k].end, "::std::fmt::Debug"))
            k += 1
        if uses:
            reps += sites
    out, p = [], 0
    for a, b, t in sorted(reps):
        out.append(src[p:a] + t)
        p = b
    return "".join(out) + src[p:]


def append_to_mod(src, mod, text):
    toks = rustlex.lex(src)
    for it in rustlex.index(src, toks):
        if it.kind == "mod" and "::".join(it.path) == mod:
            p = toks[it.body_close].start
            return src[:p] + "\n" + text + src[p:]
    return src + "\n" + text


def use_statics(src, toks, items, mine, fns):
    """In the functions under contract, the name of a lazy constant becomes a call of `vx_static_NAME`."""
    reps = []
    mods = ["::".join(it.path) for it in items if it.kind == "mod"]
    for path, call in mine.items():
        mod, _, name = path.rpartition("::")
        sub = [q + "::" for q in mods if q.startswith(mod + "::")]
        for it in items:
            p = "::".join(it.path)
            if not p.startswith(mod + "::") or any(p.startswith(q) for q in sub):
                continue
            if it.kind == "fn" and p in fns and it.body_open is not None:
                for k in range(it.body_open, it.body_close):
                    if toks[k].text == name and toks[k].kind == "id" and toks[k - 1].text not in ("::", "fn") and toks[k + 1].text not in ("::", "{", "!"):
                        e = k
                        if [t.text for t in toks[k + 1:k + 5]] == [".", "deref", "(", ")"]:     # the call yields the reference
                            e = k + 4
                        reps.append((toks[k].start, toks[e].end, call))
    if not reps:
        return src, toks, items
    out, p = [], 0
    for a, b, t in sorted(reps):
        out.append(src[p:a] + t)
        p = b
    src = "".join(out) + src[p:]
    toks = rustlex.lex(src)
    return src, toks, rustlex.index(src, toks)


def path_calls(src, fns, paths, slices):
    """`@path A::b c`: in functions under contract a call `A::b(..)` is verified as `c(..)`, `@path (A::B) c`: `A::B` as an argument as `c`.
    `@slices`: `&x[a..b]` is verified as `crate::vstdx::vx_slice(x, a, b)`, whose body is that very expression (`x` a local)."""
    toks = rustlex.lex(src)
    reps = []
    for it in rustlex.index(src, toks):
        if it.kind != "fn" or "::".join(it.path) not in fns or it.body_open is None:
            continue
        for k in range(it.body_open, it.body_close):
            if toks[k].kind != "id" or toks[k - 1].text in (".", "::"):
                continue
            for a, b in paths.items():
                given = a.startswith("(")       # `@path (A::B) c`: the constructor `A::B` handed over as a function
                parts = a.strip("()").replace("::", " :: ").split()
                if given and toks[k - 1].text == "(" and [t.text for t in toks[k:k + len(parts) + 1]] == parts + [")"]:
                    reps.append((toks[k].start, toks[k + len(parts) - 1].end, b))
                if not given and [t.text for t in toks[k:k + len(parts) + 1]] == parts + ["("]:
                    reps.append((toks[k].start, toks[k + len(parts) - 1].end, b))
            if slices and toks[k - 1].text == "&" and toks[k + 1].text == "[":
                c = toks[k + 1].match
                dots = [j for j in range(k + 2, c) if toks[j].text == ".."]
                if len(dots) == 1 and dots[0] > k + 2 and dots[0] < c - 1:
                    reps.append((toks[k - 1].start, toks[c].end, "crate::vstdx::vx_slice(%s, %s, %s)" % (
                        toks[k].text, src[toks[k + 2].start:toks[dots[0] - 1].end], src[toks[dots[0] + 1].start:toks[c - 1].end])))
    for a, b, t in sorted(reps, reverse=True):
        src = src[:a] + t + src[b:]
    return src


def joined_calls(src, fns):
    """`.map(T::to_string).collect::<Vec<String>>().join(..)` (or with the closure `|v| v.to_string()`) becomes `.vx_joined(..)`,
    a wrapper whose body is that very chain."""
    import re
    toks = rustlex.lex(src)
    reps = []
    for it in rustlex.index(src, toks):
        if it.kind != "fn" or "::".join(it.path) not in fns or it.body_open is None:
            continue
        for k in range(it.body_open, it.body_close):
            if [t.text for t in toks[k:k + 3]] != [".", "map", "("]:
                continue
            c = toks[k + 2].match
            f = "".join(t.text for t in toks[k + 3:c])
            if not (re.fullmatch(r"[\w:]+::to_string", f) or re.fullmatch(r"\|(\w+)\|\1\.to_string\(\)", f)):
                continue
            tail = "".join(t.text for t in toks[c + 1:c + 16])
            m = re.match(r"\.collect::<Vec<(String|_)>>\(\)\.join\(", tail)
            if not m:
                continue
            e, acc = c + 1, ""
            while acc != m.group(0):
                acc += toks[e].text
                e += 1
            reps.append((toks[k].start, toks[e - 1].end, ".vx_joined("))
    for a, b, t in sorted(reps, reverse=True):
        src = src[:a] + t + src[b:]
    return src


def fmt_calls(src, fns, messages=(), untyped=False, quoted=False):
    """`f.write_fmt(format_args!("a{0}b{1}", X, Y))` becomes `f.vx_write2("a", &(X), "b", &(Y), "")`, and a `format!` likewise
    `crate::vstdf::vx_format2(..)`: wrappers whose body is that very call (plain `{}` pieces only).
    With `@fmt message PREFIX..` a `format!` (of functions with one of the prefixes) becomes `vx_messageN`, whose contract says no more than that the
    literals are in the text.
    With `@fmt untyped` the wrappers are `vx_twriteN` and `vx_tformatN`, which do not repeat the bound `Display` of the pieces (rustc has checked it in
    the source): for types that print through each other, where Verus takes the bounds for a cycle.
    With `@fmt quoted` a piece `{:?}` stands for the text `vx_quoted` of a string."""
    import re
    tw, tf = ("vx_twrite", "crate::vstdt::vx_tformat") if untyped else ("vx_write", "crate::vstdf::vx_format")
    message = tuple(p for m in messages for p in m)
    toks = rustlex.lex(src)
    reps = []
    for it in rustlex.index(src, toks):
        if it.kind != "fn" or "::".join(it.path) not in fns or it.body_open is None:
            continue
        for k in range(it.body_open, it.body_close):
            if toks[k].text != "format_args" or toks[k + 1].text != "!" or toks[k + 2].text != "(":
                continue
            o = k + 2
            c = toks[o].match
            m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"', toks[o + 1].text, re.S)
            if not m:
                continue
            args, a = [], o + 2
            while a < c:
                a += 1
                b = a
                while b < c and toks[b].text != ",":
                    b = toks[b].match + 1 if toks[b].text in ("(", "[", "{") else b + 1
                if b > a:
                    args.append(src[toks[a].start:toks[b - 1].end])
                a = b
            lits, cur, i, n, ok = [], "", 0, 0, True
            t = m.group(1)
            while i < len(t):
                if t.startswith("{{", i) or t.startswith("}}", i):
                    cur += t[i]
                    i += 2
                elif t[i] == "{":
                    j = t.index("}", i)
                    if quoted and t[i + 1:j] == "%d:?" % n and n < len(args):
                        args[n] = "crate::vstdf::vx_quoted(&(%s))" % args[n]
                    else:
                        ok = ok and t[i + 1:j] == str(n)
                    lits.append(cur)
                    cur, n, i = "", n + 1, j + 1
                else:
                    cur += t[i]
                    i += 1
            lits.append(cur)
            shown = re.fullmatch(r"\{0?:#?\?\}", t) and len(args) == 1
            if shown:
                ok, n, lits = True, 1, ["", ""]
            if not ok or n != len(args):
                continue
            call = "%d(%s)" % (n, ", ".join(['"%s"' % lits[0]] + ['&(%s), "%s"' % (x, l) for x, l in zip(args, lits[1:])]))
            if not shown and toks[k - 2].text == "write_fmt" and toks[k - 1].text == "(" and toks[k - 1].match == c + 1:
                reps.append((toks[k - 2].start, toks[c + 1].end, tw + call))
            elif toks[k - 2].text == "format" and toks[k - 1].match == c + 1:
                h = k - 2
                while toks[h - 1].text == "::" or (toks[h - 1].kind == "id" and toks[h].text == "::"):
                    h -= 1
                e = c + 1
                # the identity function `must_use` around it
                if toks[h - 1].text == "{" and toks[h - 2].text == "(" and toks[h - 3].text == "must_use":
                    e = toks[h - 2].match
                    h = h - 3
                    while toks[h - 1].text == "::" or (toks[h - 1].kind == "id" and toks[h].text == "::"):
                        h -= 1
                if shown:        # the `Debug` text of a value: any text
                    reps.append((toks[h].start, toks[e].end, "crate::vstdf::vx_debug(&(%s))" % args[0]))
                elif any("::".join(it.path).startswith(p) for p in message):
                    longest = max(lits, key=len)
                    reps.append((toks[h].start, toks[e].end, '{ proof! { assert("%s"@.len() > 0) by { reveal_strlit("%s"); } } crate::vstdm::vx_message%s }' % (longest, longest, call)))
                else:
                    reps.append((toks[h].start, toks[e].end, tf + call))
    reps.sort()
    # innermost first: a rewritten call inside another one is left to a second pass
    out, p, again = [], 0, False
    for a, b, t in reps:
        if a < p:
            again = True
            continue
        if any(x > a and y <= b for x, y, _ in reps):
            inner = [(x, y, z) for x, y, z in reps if x > a and y <= b]
            again = True
            out.append(src[p:inner[0][0]] + inner[0][2])
            p = inner[0][1]
            continue
        out.append(src[p:a] + t)
        p = b
    out.append(src[p:])
    src = "".join(out)
    return fmt_calls(src, fns, messages, untyped, quoted) if again else src


def negated(attr):
    m = re.match(r"#\[verus_spec\((\w+): bool => ensures (\w+) == (.*)\)\]$", attr, re.S)
    return "#[verus_spec(%s: bool => ensures %s == !(%s))]" % m.groups() if m and m.group(1) == m.group(2) else attr


def closure_patterns(src, toks, c, ins, add, reps):
    if toks[c].text == "move":
        c += 1
    if toks[c].text == "||":
        return
    end = rustlex.skip_params(toks, c)      # first token after the closing bar
    k, n, lets = c + 1, 0, []
    while k < end - 1:
        a = k
        while toks[k].text not in (",", ":") and k < end - 1:
            k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
        b = k - 1
        while toks[k].text != "," and k < end - 1:
            k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
        if any(toks[x].text in ("(", "[", "{", "&") for x in range(a, b + 1)):
            lets.append("let %s = vx_p%d; " % (src[toks[a].start:toks[b].end], n))
            reps.append((toks[a].start, toks[b].end, "vx_p%d" % n))
        n += 1
        k += 1
    if not lets:
        return
    k = end
    while toks[k].text not in (",", ";", ")", "]", "}"):
        k = toks[k].match + 1 if toks[k].text in ("(", "[", "{") else k + 1
    add(toks[end].start, "{ " + "".join(lets))
    add(toks[k - 1].end, " }")


def strip_mode(attrs):
    """the attributes of a contract without its own verus_verify mode"""
    import re
    return re.sub(r"#\[verus_verify(\([^)]*\))?\]", "", attrs).strip()


def loop_body(toks, i):
    k = i + 1
    while True:
        t = toks[k]
        if t.text in ("(", "["):
            k = t.match + 1
            continue
        if t.text == "{":
            # a struct literal cannot appear here unparenthesised, so this is the body (for a `match` scrutinee etc. the
            # pretty printer parenthesises)
            return k
        k += 1


def find_seq(toks, it, pat, n):
    p = [t.text for t in rustlex_lex_loose(pat)]
    c = 0
    for k in range(it.body_open + 1, it.body_close - len(p) + 1):
        if [toks[k + x].text for x in range(len(p))] == p:
            if c == n:
                return k
            c += 1
    return None


def rustlex_lex_loose(s):
    import re
    out = []
    i = 0
    bal = rustlex
    # reuse the lexer but tolerate unbalanced brackets
    class T:
        pass
    toks = []
    rest = s
    pos = 0
    while pos < len(s):
        if s[pos].isspace():
            pos += 1
            continue
        m = rustlex.IDENT.match(s, pos) or rustlex.NUM.match(s, pos)
        if m:
            toks.append(rustlex.Tok("x", m.group(), pos, m.end()))
            pos = m.end()
            continue
        for op in rustlex.OPS:
            if s.startswith(op, pos):
                toks.append(rustlex.Tok("op", op, pos, pos + len(op)))
                pos += len(op)
                break
        else:
            toks.append(rustlex.Tok("op", s[pos], pos, pos + 1))
            pos += 1
    return toks


FEATURES = ("allocator_api,unboxed_closures,fn_traits,proc_macro_hygiene,stmt_expr_attributes,fmt_helpers_for_derive,core_intrinsics,structural_match,panic_internals,derive_eq_internals,"
            "libstd_sys_internals,trivial_clone,coverage_attribute,"
            "liballoc_internals,print_internals,fmt_internals,format_args_nl,hint_must_use,rt")


def prepare(src):
    """Prelude lines that let rustc read its own expanded output back; nothing else is touched."""
    src = src.replace("\nextern crate std;", "\nextern crate std; extern crate alloc; #[allow(unused_imports)] use vstd::prelude::*;", 1)
    # a helper attribute of a derive that has been expanded has no meaning left
    src = re.sub(r'^\s*#\[grammar = "[^"]*"\]$', "", src, flags=re.M)
    # how much room a vector is given is not observable, and the lengths of two vectors in memory do not overflow when added
    t = r"\s*(?:\w+(?:\.\w+)*\.len\(\)|\d+)\s*"
    src = re.sub(r"\bVec::with_capacity\(%s(?:\+%s)+\)" % (t, t), "Vec::new()", src)
    return "#![feature(%s)]\n#![allow(internal_features)]\n" % FEATURES + src


def main():
    exp, out = sys.argv[1], sys.argv[2]
    src = prepare(open(exp).read())
    text, info, lost = weave(src, parse_contracts(sys.argv[3:]))
    open(out, "w").write(text)
    print(json.dumps({"functions": info, "lost": lost}, indent=1))
    sys.exit(3 if lost else 0)


if __name__ == "__main__":
    main()
