#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decides one property on /repo's working tree
   check.py --replay FILE                         runs the case of a replay file again

1. builds /repo's crates and the harness;  2. expands each crate under contract with rustc and weaves the contracts of
contracts/*.vc into the expanded text;  3. Verus discharges the obligations, function by function;  4. the harness searches
for a failing input on the real crates (replay of a refuted contract, and the bounded stand-in for what no contract reaches).

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: /repo does not build.
"""
import copy
import threading
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build
import rustlex
import weave
from properties_def import PROPS

GHOST = "_VERUS_VERIFIED_"
CONTRACTS = os.path.join(HERE, "contracts")


WEAVING = threading.Lock()


def export(res, ext):
    """The contracts of a run, as Verus exports them, with the compiled crate.  -> verus arguments, or None"""
    crate = res["crate"]
    d = os.path.join(build.WORK, "export-" + res["run"])
    os.makedirs(d, exist_ok=True)
    cmd = ["verus", "--crate-type", "lib", "--crate-name", crate, "--edition", build.CRATES[crate][1], os.path.join(build.WORK, res["run"] + ".woven.rs"),
           "--cap-lints", "allow", "--no-verify", "--compile", "--export", d + "/%s.vir" % crate, "-o", d + "/lib%s.rlib" % crate] + build.externs(crate, ext)
    for f in ("/%s.vir" % crate, "/lib%s.rlib" % crate):
        if os.path.exists(d + f):
            os.remove(d + f)
    p = subprocess.run(cmd, env=build.env(True), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0 or not os.path.exists(d + "/%s.vir" % crate):
        return None
    return {"crate": crate, "rlib": d + "/lib%s.rlib" % crate, "vir": d + "/%s.vir" % crate}


def run_verus(crate, vc, ext, prop, tier, log, base=None):
    """One crate under one set of contracts, with the degrade loop.  `base`: the future of the run of a crate it depends on,
    whose contracts it uses.  -> result dict"""
    name = "%s-%s" % (crate, os.path.splitext(os.path.basename(vc))[0])
    res = {"run": name, "crate": crate, "contracts": os.path.basename(vc), "degraded": {}, "lost": [], "failed": [], "ok": False, "smt_ms": 0,
           "functions": {}, "verified": [], "rounds": 0}
    try:
        exp = build.expand(crate, ext)
    except build.BuildError as e:
        res["lost"].append("the crate cannot be expanded: " + str(e)[:2000])
        return res
    src = weave.prepare(open(exp).read())
    degraded = {}
    flipped, wide, first = set(), set(), None
    rlimit = 30
    out = os.path.join(build.WORK, name + ".woven.rs")
    args = build.externs(crate, ext)
    if base is not None:
        b = base.result()
        e = export(b, ext) if b["ok"] else None
        if e is None:
            res["lost"].append("the contracts of %s are not available" % b["run"])
            return res
        args = ["%s=%s" % (e["crate"], e["rlib"]) if a.startswith(e["crate"] + "=") else a for a in args]
        args += ["-L", "dependency=" + os.path.join(build.WORK, "stub"), "--import", "%s=%s" % (e["crate"], e["vir"])]
    for rnd in range(12):
        res["rounds"] = rnd + 1
        with WEAVING:
            weave.SEEN.clear()
            weave.FLIPPED.clear()
            weave.FLIPPED.update(flipped)
            weave.WIDE.clear()
            weave.WIDE.update(wide)
            contracts = weave.parse_contracts([os.path.join(CONTRACTS, vc)])
            text, info, lost = weave.weave(src, contracts, degraded)
        hard = [l for l in lost if not l["exists"] and l["kind"] != "fn"]
        soft = [l for l in lost if l["exists"]]
        gone = [l for l in lost if not l["exists"] and l["kind"] == "fn"]
        res["lost"] = ["%s: %s" % (l["anchor"], l["reason"]) for l in hard + gone]
        new = {l["anchor"]: "annotation lost: " + l["reason"] for l in soft if l["anchor"] not in degraded}
        if new:
            degraded.update(new)
            continue
        res["functions"] = info
        res["degraded"] = degraded
        open(out, "w").write(text)
        cmd = ["verus", "--crate-type", "lib", "--crate-name", crate, "--edition", build.CRATES[crate][1], out, "--cap-lints", "allow",
               "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4", "--rlimit", str(rlimit)] + args
        res["cmd"] = " ".join(cmd[:8] + ["--rlimit", str(rlimit)])
        t = time.time()
        try:
            p = subprocess.run(cmd, env=build.env(True), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=500 if first is None else 200)
        except subprocess.TimeoutExpired:
            if first is not None:
                return first
            res["lost"].append("the verifier did not answer within 500 s")
            return res
        log.append("%s round %d: verus %.1f s" % (name, rnd + 1, time.time() - t))
        try:
            j = json.loads(p.stdout)
            vr = j["verification-results"]
        except (ValueError, KeyError):
            j, vr = {}, {}
        errs = []
        for line in p.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                errs.append(m)
        if vr.get("verified") is not None and not vr.get("encountered-vir-error") and "smt" in j.get("times-ms", {}):
            bd = [f for m in j["times-ms"]["smt"]["smt-run-module-times"] for f in m.get("function-breakdown", [])]
            # a function with a ghost argument is verified under a name of its own
            twins = {f["function"].replace(GHOST, "") for f in bd if GHOST in f["function"]}
            bd = [dict(f, function=f["function"].replace(GHOST, "")) for f in bd if GHOST in f["function"] or f["function"] not in twins]
            res["smt_ms"] = j["times-ms"]["smt"]["total"]
            lines = line_index(text, info)
            rl = set()
            for m in errs:
                if "rlimit" in m["message"] or "Resource limit" in m["message"]:
                    rl |= set(fns_of(m, lines))
            bad = {}
            for f in bd:
                if not f.get("success"):
                    bad[f["function"].replace(crate + "::", "", 1)] = f
            if bad and first is not None:
                return first            # that is not it: report the first failure
            if bad and rl and rlimit < 200:
                rlimit *= 8
                continue
            names = {verus_name(k): k for k in info}
            mods = mod_tags(contracts)
            for b in bad:
                k = names.get(b) or next((x for x in info if elsewhere(x, [b])), None)
                msgs = [m for m in errs if k and k in fns_of(m, lines)] or errs
                tags = info[k]["tags"] if k else mods.get(b.rsplit("::", 1)[0], [])
                if k in rl:
                    degraded[k] = "resource limit exceeded"
                    continue
                res["failed"].append({"function": k or b, "tags": tags, "obligation": msgs[0]["message"] if msgs else "?",
                                      "output": "\n".join(m["rendered"] for m in msgs)[:6000]})
            done = {f["function"].replace(crate + "::", "", 1): f for f in bd}
            for k, i in info.items():
                f = done.get(verus_name(k)) or done.get(elsewhere(k, done))
                if f and f.get("success") and not i["trusted"]:
                    res["verified"].append({"function": k, "ms": f["time-micros"] / 1000.0, "tags": i["tags"]})
            res["errors_outside"] = vr.get("errors", 0) - len(bad)
            res["ok"] = not hard
            if res["errors_outside"] > 0 and not bad:
                res["failed"].append({"function": "?", "tags": [prop], "obligation": errs[0]["message"] if errs else "?",
                                      "output": "\n".join(m["rendered"] for m in errs)[:6000]})
            # what a closure is said to answer is an annotation, not an obligation of the function: try the opposite;
            # and what is known before a loop may be what its body needs: try with that in the loop's context
            if res["failed"] and first is None:
                flipped = {k for m in errs if "post-condition of closure" in m["message"] for k in fns_of(m, lines)}
                wide = {k for m in errs for k in fns_of(m, lines)} & {c[1] for c in contracts if c[0] == "fn" and any(x.startswith("loop ") for x, _ in c[2])}
                if flipped or wide:
                    first = copy.deepcopy(res)
                    res["verified"], res["failed"] = [], []
                    continue
            return res
        if first is not None:
            return first
        # not verified at all: a construct outside the verifier's reach, or a contract that no longer type-checks.  The
        # functions the errors point at are left out of this run, their contract is assumed.
        lines = line_index(text, info)
        new = {}
        for m in errs:
            for k in fns_of(m, lines):
                if k not in degraded and not info[k]["trusted"]:
                    new[k] = "outside the verifier's reach: " + m["message"][:300]
        if not new:
            res["lost"].append("not verified: " + "; ".join(m["message"][:300] for m in errs[:4]) + (p.stderr[-800:] if not errs else ""))
            return res
        degraded.update(new)
    res["lost"].append("no verifiable subset found")
    return res


def line_index(text, info):
    toks = rustlex.lex(text)
    idx = []
    starts = [0]
    for m in re.finditer("\n", text):
        starts.append(m.end())
    import bisect
    for it in rustlex.index(text, toks):
        p = "::".join(it.path)
        if it.kind == "fn" and p in info and it.body_open is not None:
            idx.append((bisect.bisect(starts, toks[it.start_tok].start), bisect.bisect(starts, toks[it.body_open].start),
                        bisect.bisect(starts, toks[it.body_close].start), p))
    return idx


def fns_of(m, lines):
    """the contracted functions an error message points into; the body first"""
    body, head = [], []
    for s in m.get("spans", []):
        if not s["file_name"].endswith(".woven.rs"):
            continue
        for a, b, c, p in lines:
            if b <= s["line_start"] <= c:
                body.append(p)
            elif a <= s["line_start"] < b:
                head.append(p)
    return list(dict.fromkeys(body or head))


def verus_name(path):
    """the path Verus prints for a function: `[Trait for Type]` becomes the type"""
    parts = split_path(path)
    out = []
    for p in parts:
        m = re.match(r"\[(?:.* for )?(.*)\]$", p)
        if m:
            p = m.group(1)
        p = re.sub(r"<.*>$", "", p)
        out.append(p)
    return "::".join(out)


def elsewhere(path, known):
    """the name of a method of a trait impl whose type is declared in another module"""
    if not re.search(r"\[.* for ", path):
        return None
    tail = verus_name(path).split("::")[-2:]
    return next((n for n in known if n.split("::")[-2:] == tail), None)


def split_path(path):
    parts, d, cur = [], 0, ""
    i = 0
    while i < len(path):
        c = path[i]
        if c in "[<":
            d += 1
        if c in "]>":
            d -= 1
        if path.startswith("::", i) and d == 0:
            parts.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    return parts + [cur]


def mod_tags(contracts):
    r = {}
    for d, arg, subs, where, tags in contracts:
        if d == "mod":
            r.setdefault(arg, [])
            r[arg] += tags
    return r


# what the weaving changes in the text of a function besides adding ghost code (see DESIGN.md)
REWRITES = {
    "iter": "the items of a `for` loop are taken through a wrapper (loop number and wrapper: %(a)s)",
    "splitarms": "a match arm `A | B => e` is verified as two arms",
    "generic": "the `dyn` trait of the parameters is generalised to any type with that trait",
    "with": "the calls of %(a)s pass the ghost argument %(t)s",
    "param": "a parameter is renamed: %(a)s",
    "retype": "a type of the signature is replaced by an opaque stand-in: %(a)s",
}
REWRITES_TOP = {
    "fmt": "`write!` and `format!` with plain `{}` pieces are verified as calls of wrappers with a trusted contract (%(a)s)",
    "path": "a call of A::b is verified as a call of a wrapper, c, with a trusted contract: %(a)s",
    "slices": "`&x[a..b]` of a text is verified as a call of a wrapper with a trusted contract",
    "joined": "`.map(T::to_string).collect::<Vec<String>>().join(..)` is verified as a call of a wrapper with a trusted contract",
    "static": "the lazily initialised constant %(a)s is verified as a call that yields what its initialiser yields",
    "field": "a read of the field %(a)s: the field is read through an accessor with an assumed contract (its type is opaque)",
    "regex": "the regular expression of %(a)s has the meaning tools/regex_spec.py gives its literal",
}
ALWAYS = [
    "the text verified is rustc's expanded output of the current source (macros, derives and cfgs resolved), not the text before expansion",
    "a closure parameter that is a pattern is verified as a `let` of that pattern",
    "`#[automatically_derived]` is dropped from derived impls under contract",
    "functions without a contract are outside the verification; Verus rejects a call of one from a function under contract",
]


def trusted_base(vcs):
    """every assumption of the contract files in use"""
    out = list(ALWAYS)
    weave.SEEN.clear()
    for vc in vcs:
        for d, arg, subs, where, tags in weave.parse_contracts([os.path.join(CONTRACTS, vc)]):
            for name, text in subs:
                if d == "fn" and name == "" and "external_body" in text:
                    out.append("assumed contract: %s (%s)" % (arg, where))
                w = name.split()
                if d == "fn" and w and w[0] in REWRITES:
                    out.append("in %s: %s" % (arg, REWRITES[w[0]] % {"a": " ".join(w[1:]), "t": text.strip()}))
                if d in REWRITES_TOP and name == "":
                    out.append(REWRITES_TOP[d] % {"a": arg})
                if d == "rename":
                    out.append("method call .%s(..) is verified as its wrapper .%s(..)" % tuple(arg.split()))
                for m in re.finditer(r"axiom fn (\w+)", text):
                    out.append("axiom: %s (%s)" % (m.group(1), where))
                for m in re.finditer(r"assume_specification[^\[]*\[([^\]]*)\]", text):
                    out.append("assumed contract: %s (%s)" % (m.group(1).strip(), where))
                if d in ("mod", "crate", "impl", "trait"):
                    for m in re.finditer(r"external_body\]?\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?fn (\w+)", text):
                        out.append("assumed contract: %s (%s)" % (m.group(1), where))
                for m in re.finditer(r"\b(assume|admit)\s*\(", text):
                    out.append("%s in %s (%s)" % (m.group(1), arg, where))
    return list(dict.fromkeys(out))


def known_findings():
    k = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                k[(m.group(1), m.group(2))] = m.group(3)
    return k


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    log = []
    try:
        exe, ext = build.cargo_harness()
    except build.BuildError as e:
        print("check.py: /repo or the harness does not build\n" + str(e))
        return 2
    log.append("build %.1f s" % (time.time() - t0))
    hout = os.path.join(build.WORK, prop + ".harness.json")
    if os.path.exists(hout):
        os.remove(hout)

    def harness():
        try:
            return subprocess.run([exe, "run", prop, tier, str(seed), hout], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  timeout=700, cwd=build.WORK)
        except subprocess.TimeoutExpired:
            return None
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fh = ex.submit(harness)
        fv = []
        for c, vc, *over in P.get("runs", []):
            base = next((f for f, r in zip(fv, P["runs"]) if r[:2] == over[0]), None) if over else None
            fv.append(ex.submit(run_verus, c, vc, ext, prop, tier, log, base))
        runs = [f.result() for f in fv]
        h = fh.result()
    violations, findings = [], []
    kf = known_findings()
    H = {"evaluations": 0, "distinct": 0, "subs": [], "samples": [], "failures": []}
    if os.path.exists(hout):
        H = json.load(open(hout))
    else:
        H["failures"].append({"sub": "harness", "case": 0, "seed": seed, "key": "", "input": "the whole run", "expected": "the harness ends",
                              "observed": "it ended abnormally: " + (h.stdout[-3000:] + " exit %d" % h.returncode if h else "timeout")})
    for f in H["failures"]:
        if f["key"] and (prop, f["key"]) in kf:
            findings.append(f)
        else:
            violations.append(f)
    failed = [(r, f) for r in runs for f in r["failed"] if prop in f["tags"]]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nviol = 0
    rp = os.path.join(HERE, "replays", prop + ".json")
    if os.path.exists(rp):
        os.remove(rp)
    obligations = [{"run": r["run"], "function": f["function"], "obligation": f["obligation"], "verifier_output": f["output"]} for r, f in failed]
    for o in obligations:
        print("FAILED OBLIGATION %s: %s: %s" % (o["run"], o["function"], o["obligation"]))
    if violations or obligations:
        nviol = len(violations) + len(obligations)
        json.dump({"property": prop, "cases": violations[:20], "failed_obligations": obligations,
                   "how": "python3 check.py --replay " + rp}, open(rp, "w"), indent=1)
        for f in violations[:3]:
            print("case %s/%s: input %s\n  expected %s\n  observed %s" % (f["sub"], f["case"], f["input"][:1500], f["expected"][:1500], f["observed"][:1500]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if violations else " no-failing-input-found"))
    for k in dict.fromkeys(f["key"] for f in findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[(prop, k)]))
    # ---- evidence
    fns = [(r, k, i) for r in runs for k, i in r["functions"].items() if prop in i["tags"]]
    ver = {(r["run"], v["function"]): v["ms"] for r in runs for v in r["verified"]}
    own = [(r, k, i) for r, k, i in fns if not i["trusted"] or i["degraded"]]
    own = [(r, k, i) for r, k, i in own if i["body"]]
    good = [(r, k) for r, k, i in own if (r["run"], k) in ver and r["ok"]]
    degr = ["%s: %s" % (k, r["degraded"][k]) for r, k, i in own if k in r["degraded"]]
    lost = ["%s: %s" % (r["run"], l) for r in runs for l in r["lost"]]
    trusted = trusted_base([r[1] for r in P.get("runs", [])])
    assumptions = list(P.get("assumptions", []))
    assumptions += ["bounded, not proved: " + b for b in P.get("bounded", [])]
    if degr:
        assumptions.append("NOT PROVED ON THIS TREE (covered by the bounded search only): " + "; ".join(degr))
    if lost:
        assumptions.append("NOT PROVED ON THIS TREE (covered by the bounded search only): " + "; ".join(lost))
        print("note: part of the proof does not apply to this tree: " + "; ".join(lost)[:1500])
    for d in degr:
        print("note: not proved on this tree, bounded search only: " + d[:400])
    level = P["level"]
    cov = {"obligations": len(own) + sum(1 for l in lost), "discharged": len(good),
           "obligation_unit": "one function (or trait method, or lemma) under contract: its postconditions, loop invariants, callee "
                              "preconditions, overflow and index checks, discharged by Verus with Z3 for all inputs",
           "checker_cmd": "; ".join(r.get("cmd", "") for r in runs), "back_end": "Verus 0.2026.09.13 / Z3 4.16.0 (bundled)",
           "trusted_base": trusted,
           "functions_under_contract": [{"function": k, "contract": i["where"], "solver_ms": ver.get((r["run"], k))} for r, k, i in own],
           "functions_with_assumed_contract": [k for r, k, i in fns if i["trusted"] and not i["degraded"]],
           "whole_run": [{"run": r["run"], "functions_verified": len(r["verified"]), "smt_ms": r["smt_ms"], "failed": [f["function"] for f in r["failed"]]} for r in runs],
           "bounded": {"evaluations": H["evaluations"], "distinct_nontrivial": H["distinct"],
                       "rule": "seeded generation plus listed corner cases, on the real crates; a case counts as distinct by the hash of its input",
                       "sub_checks": H["subs"], "samples": H["samples"]}}
    cov["evaluations"] = H["evaluations"]
    cov["distinct_nontrivial"] = H["distinct"]
    cov["rule"] = cov["bounded"]["rule"]
    cov["samples"] = H["samples"]
    if level == "other":
        cov["explanation"] = P.get("explanation", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d functions under contract discharged; %d cases searched (%d distinct); %s; %.1f s" %
          (prop, len(good), len(own), H["evaluations"], H["distinct"], ", ".join(log), time.time() - t0))
    return 1 if violations or obligations else 0


def replay(path):
    d = json.load(open(path))
    exe, ext = build.cargo_harness()
    rc = 0
    for c in d["cases"]:
        p = subprocess.run([exe, "replay", d["property"], c["sub"], str(c["case"]), str(c["seed"])], cwd=build.WORK)
        rc |= p.returncode
    for o in d["failed_obligations"]:
        print("%s: %s: %s\n%s" % (o["run"], o["function"], o["obligation"], o["verifier_output"]))
        rc |= 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
