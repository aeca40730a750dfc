"""Builds /repo's crates (with the toolchain Verus drives) and expands them with rustc itself."""
import glob
import json
import os
import subprocess
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
TARGET = os.path.join(WORK, "target")

CRATES = {
    "atelier_core": ("atelier-core", "2018"),
    "atelier_json": ("atelier-json", "2018"),
    "atelier_query": ("atelier-query", "2018"),
    "atelier_assembler": ("atelier-assembler", "2018"),
    "atelier_rdf": ("atelier-rdf", "2018"),
    "atelier_smithy": ("atelier-smithy", "2018"),
}


def env(bootstrap=False):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
             CARGO_HUSKY_DONT_INSTALL_HOOKS="1", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    if bootstrap:
        e["RUSTC_BOOTSTRAP"] = "1"
    return e


class BuildError(Exception):
    pass


def cargo_harness():
    """Builds the harness (and with it every crate of /repo under check).  -> (path of the binary, {crate: rlib})"""
    os.makedirs(WORK, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml")],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ext, exe, msgs = {}, None, []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            if m.get("executable"):
                exe = m["executable"]
                continue
            k = m["target"]["kind"]
            for f in m["filenames"]:
                if ("proc-macro" in k and f.endswith(".so")) or (f.endswith(".rlib") and "custom-build" not in k):
                    ext.setdefault(m["target"]["name"].replace("-", "_"), []).append(f)
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msgs.append((m["target"]["name"], m["message"]["rendered"]))
    if p.returncode != 0:
        raise BuildError(json.dumps(msgs)[:6000] + p.stderr[-3000:])
    return exe, ext


STUB = {}
STUB_LOCK = threading.Lock()


def log_stub():
    """made once per process: the runs of a check ask for it from several threads"""
    with STUB_LOCK:
        if "log" not in STUB:
            out = os.path.join(WORK, "stub")
            os.makedirs(out, exist_ok=True)
            subprocess.run(["rustc", "--crate-type", "lib", "--crate-name", "log", "--edition", "2018", "-o", out + "/liblog.rlib",
                            os.path.join(VERIF, "stubs/log/lib.rs")], env=env(), check=True)
            STUB["log"] = out + "/liblog.rlib"
    return STUB["log"]


def externs(crate, ext):
    """--extern arguments for a crate of /repo, taken from its [dependencies]."""
    import re
    toml = open(os.path.join(REPO, CRATES[crate][0], "Cargo.toml")).read()
    sec = re.search(r"^\[dependencies\]$(.*?)^\[(?!dependencies)", toml + "\n[", re.S | re.M).group(1)
    args = []
    for name in re.findall(r"^([A-Za-z0-9_-]+)\s*=", sec, re.M):
        n = name.replace("-", "_")
        if n == "log":
            args += ["--extern", "log=" + log_stub()]
        elif n in ext:
            args += ["--extern", "%s=%s" % (n, ext[n][-1])]
    return args + ["-L", "dependency=" + os.path.join(TARGET, "debug/deps")]


LOCK = threading.Lock()
EXPANDED = {}


def expand(crate, ext):
    """The crate's current source after expansion, once per process.  -> file"""
    with LOCK:
        if crate not in EXPANDED:
            EXPANDED[crate] = expand_now(crate, ext)
        return EXPANDED[crate]


def expand_now(crate, ext):
    d, ed = CRATES[crate]
    p = subprocess.run(["rustc", "--crate-type", "lib", "--crate-name", crate, "--edition", ed, "src/lib.rs", "--cap-lints", "allow",
                        "-Zunpretty=expanded"] + externs(crate, ext), cwd=os.path.join(REPO, d), env=env(True),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError(p.stderr[-4000:])
    out = os.path.join(WORK, crate + ".expanded.rs")
    open(out, "w").write(p.stdout)
    return out


if __name__ == "__main__":
    import sys
    exe, ext = cargo_harness()
    print(exe)
    json.dump(ext, open(os.path.join(WORK, "ext.json"), "w"))
    for c in sys.argv[1:] or CRATES:
        print(expand(c, ext))
        json.dump(externs(c, ext), open(os.path.join(WORK, c + ".args.json"), "w"))
