#!/usr/bin/env python3
"""Builds the repository's sources and one harness, out of tree, from /repo's current files.

usage: build.py VARIANT HARNESS...   (VARIANT: asan | tsan | plain)
Output goes to /verif/.build/VARIANT (git-ignored).  ninja decides what is stale; the build
file itself is regenerated on every call from what is in /repo/src and /verif/harness now.
"""
import os, sys, subprocess, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
COMPAT = "/opt/vp/compat/supamcp_linux.h"

SAN = {
    # alignment: cache-line aligned structs are malloc'ed all over the tree (harmless on x86-64);
    # function: callbacks are called through compatible-but-differently-spelled pointer types.
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,function",
             "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
INC = ["include", "src/common", "src/common/internal", "src/json", "src/json/internal",
       "src/transport", "src/transport/internal", "src/server", "src/server/internal",
       "src/client", "src/client/internal", "src/connection_pool", "src/connection_pool/internal",
       "src/gateway", "server", "client"]


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def gen(variant):
    bdir = os.path.join(VERIF, ".build", variant)
    os.makedirs(bdir, exist_ok=True)
    inc = [f"-I{REPO}/{d}" for d in INC if os.path.isdir(f"{REPO}/{d}")]
    base = ["-g", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-DMCP_VERIF_HOOKS", "-pthread", "-w", "-Wno-incompatible-function-pointer-types", "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-implicit-int", "-Wno-return-type"] + SAN[variant]
    cflags = base + ["-std=gnu11", "-include", COMPAT] + inc
    hc = base + ["-std=gnu11", f"-I{VERIF}/harness", "-include", COMPAT] + inc
    hcxx = base + ["-std=gnu++17", f"-I{VERIF}/harness"] + inc
    ld = SAN[variant] + ["-pthread"]
    lines = ["ninja_required_version = 1.5", f"builddir = {bdir}",
             "rule cc", "  description = CC $in", f"  command = clang -MD -MF $out.d {' '.join(cflags)} $xf -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule hcc", "  description = HCC $in", f"  command = clang -MD -MF $out.d {' '.join(hc)} $xf -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule hcxx", "  description = HCXX $in", f"  command = clang++ -MD -MF $out.d {' '.join(hcxx)} $xf -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ar", "  description = AR", "  command = rm -f $out && ar crs $out $in",
             "rule so", "  command = gcc -shared -fPIC -g -O1 -D_GNU_SOURCE -w " + " ".join(inc) + f" -include {COMPAT} $in -o $out",
             "rule link", "  description = LINK $out", f"  command = clang++ {' '.join(ld)} -Wl,--export-dynamic $in $xl -Wl,--start-group {bdir}/libmcp.a -Wl,--end-group -lwebsockets -lssl -lcrypto -ldl -lm -o $out", ""]
    objs = []
    for src in sorted(glob.glob(f"{REPO}/src/**/*.c", recursive=True)):
        o = f"{bdir}/repo/{os.path.relpath(src, REPO)}.o"
        objs.append(o)
        lines.append(f"build {esc(o)}: cc {esc(src)}")
    lines.append(f"build {bdir}/libmcp.a: ar {' '.join(esc(o) for o in objs)}")
    targets = {}
    for src in sorted(glob.glob(f"{VERIF}/harness/h_*.c*")):
        name = os.path.basename(src).rsplit(".", 1)[0]
        xl, xf, use = "", "", []
        for l in open(src):
            if l.startswith("// LINK:"):
                xl = l[8:].strip()
            if l.startswith("// CFLAGS:"):
                xf = l[10:].strip()
            if l.startswith("// USE:"):
                use = l[7:].split()
        rule = "hcxx" if src.endswith(".cpp") else "hcc"
        o = f"{bdir}/h/{os.path.basename(src)}.o"
        lines.append(f"build {o}: {rule} {src}")
        if xf:
            lines.append(f"  xf = {xf}")
        lines.append(f"build {bdir}/{name}: link {o} {bdir}/h/vh.c.o {bdir}/h/vj.c.o {' '.join(f'{bdir}/h/{u}.c.o' for u in use)} | {bdir}/libmcp.a")
        if xl:
            lines.append(f"  xl = {xl}")
        targets[name] = f"{bdir}/{name}"
    # the shipped server, instrumented
    for n, srcs in (("mcp_server", ["server/main.c", "server/tools/http_client_tool.c"]),):
        os_ = []
        for s in srcs:
            if os.path.exists(f"{REPO}/{s}"):
                o = f"{bdir}/repo/{s}.o"
                lines.append(f"build {o}: cc {REPO}/{s}")
                os_.append(o)
        if os_:
            lines.append(f"build {bdir}/{n}: link {' '.join(os_)} | {bdir}/libmcp.a")
            targets[n] = f"{bdir}/{n}"
    for n in sorted(os.path.basename(x)[:-2] for x in glob.glob(f"{VERIF}/harness/v*.c")):
        lines.append(f"build {bdir}/h/{n}.c.o: hcc {VERIF}/harness/{n}.c")
    for src in sorted(glob.glob(f"{VERIF}/harness/so_*.c")):
        name = os.path.basename(src)[:-2]
        lines.append(f"build {bdir}/{name}.so: so {src}")
        targets[name + ".so"] = f"{bdir}/{name}.so"
    new = "\n".join(lines) + "\n"
    p = f"{bdir}/build.ninja"
    if not os.path.exists(p) or open(p).read() != new:
        open(p, "w").write(new)
    return bdir, targets


def drop_stale(bdir):
    """Removes objects whose sources changed in content, so that file times never decide."""
    import hashlib, json
    cur = {}
    for d in ("src", "include", "server", "client"):
        for root, _, files in os.walk(f"{REPO}/{d}"):
            for f in files:
                if f.endswith((".c", ".h")):
                    q = os.path.join(root, f)
                    cur[q] = hashlib.sha1(open(q, "rb").read()).hexdigest()
    st = f"{bdir}/.sources.json"
    try:
        old = json.load(open(st))
    except (OSError, ValueError):
        old = None
    if old != cur:
        changed = set(cur) if old is None else {q for q in set(old) | set(cur) if old.get(q) != cur.get(q)}
        everything = any(q.endswith(".h") for q in changed)
        for root, _, files in os.walk(f"{bdir}/repo"):
            for f in files:
                if f.endswith(".o") and (everything or os.path.join(REPO, os.path.relpath(os.path.join(root, f), f"{bdir}/repo"))[:-2] in changed):
                    os.unlink(os.path.join(root, f))
        if everything and os.path.isdir(f"{bdir}/h"):
            for f in os.listdir(f"{bdir}/h"):
                if f.endswith(".o"):
                    os.unlink(f"{bdir}/h/{f}")
        json.dump(cur, open(st, "w"))


def build(variant, names):
    bdir = os.path.join(VERIF, ".build", variant)
    os.makedirs(bdir, exist_ok=True)
    with open(f"{bdir}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bdir, targets = gen(variant)
        drop_stale(bdir)
        missing = [n for n in names if n not in targets]
        if missing:
            return None, f"unknown harness {missing}"
        want = [targets[n] for n in names] or [f"{bdir}/libmcp.a"]
        r = subprocess.run(["ninja", "-k0", "-C", bdir] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            out = "\n".join(l for l in r.stdout.splitlines() if "error" in l or l.startswith("FAILED"))
            return None, out[:4000] or r.stdout[-3000:]
    return {n: targets[n] for n in names}, ""


if __name__ == "__main__":
    t, err = build(sys.argv[1], sys.argv[2:])
    if t is None:
        sys.stderr.write(err + "\n")
        sys.exit(2)
    for n, p in t.items():
        print(p)
