#!/usr/bin/env python3
"""Build the property checks from /repo's current working tree and run them.

  run.py <PROPERTY> [quick|thorough] [--seed N] [--cases N] [--seconds S]
  run.py replay <file>
  run.py build <GROUP>|all
  run.py list

Exit status of a check: 0 the property held on everything explored, 1 with a
line "VIOLATION property=<id> replay=<path>" otherwise.
"""
import glob
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

TARGET_LIBS = ["schema", "lib/env", "lib/toolchain", "lib/target"]
ALL_LIBS = TARGET_LIBS + ["lib/args", "toolchains", "plugins"]

sys.path.insert(0, VERIF)
from groups import GROUPS  # noqa: E402

VARIANTS = {
    "asan": "-O0 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "plain": "-O0 -g1",
    "tsan": "-O1 -g1 -fsanitize=thread -Wno-tsan",
}
INCLUDES = ["", "schema/include", "lib/env/include", "lib/toolchain/include",
            "lib/target/include", "lib/args/include", "toolchains/include",
            "targets/include", "plugins/include"]


def prop_group(prop):
    for g, info in GROUPS.items():
        if prop in info["props"]:
            return g
    sys.exit("unknown property %s" % prop)


def ninja_escape(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate(groups):
    os.makedirs(BUILD, exist_ok=True)
    out = ["ninja_required_version = 1.5", "builddir = %s" % BUILD]
    defs = "-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB"
    incs = " ".join("-I%s" % os.path.join(REPO, "buildcc", i) for i in INCLUDES)
    incs += " -I%s/harness -I%s/harness/shim" % (VERIF, VERIF)
    for v, flags in VARIANTS.items():
        out.append("rule cxx_%s\n  command = g++ -std=c++17 %s %s $xflags %s -MD -MF $out.d -c $in -o $out"
                   "\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % (v, flags, defs, incs))
        out.append("rule link_%s\n  command = g++ %s $in -o $out -lspdlog -lfmt -lpthread $xlibs"
                   "\n  description = LINK $out" % (v, flags))
    seen = set()

    def obj(variant, src, xflags="", tag=""):
        rel = src.lstrip("/").replace("/", "_")
        o = os.path.join(BUILD, variant, tag + rel + ".o")
        if o not in seen:
            seen.add(o)
            out.append("build %s: cxx_%s %s\n  xflags = %s" % (
                ninja_escape(o), variant, ninja_escape(src), xflags))
        return o

    targets = []
    for g in groups:
        info = GROUPS[g]
        v = info.get("variant", "asan")
        objs = []
        for lib in info.get("libs", []):
            pat = os.path.join(REPO, "buildcc", lib, "src", "**", "*.cpp")
            for s in sorted(glob.glob(pat, recursive=True)):
                x = info.get("lib_xflags", "")
                if lib == "lib/args":
                    # Taskflow 3.6's for_each lives in its own header
                    x += " -include taskflow/algorithm/for_each.hpp"
                objs.append(obj(v, s, x, tag=info.get("tag", "")))
        for pat, x in info.get("repo_sources", []):
            for s in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
                objs.append(obj(v, s, x.replace("@REPO@", REPO), tag=info.get("tag", "")))
        for s in ["harness/pbt_main.cpp", "harness/support.cpp"] + info["sources"]:
            objs.append(obj(v, os.path.join(VERIF, s), info.get("xflags", "")))
        t = os.path.join(BUILD, v, g)
        out.append("build %s: link_%s %s\n  xlibs = %s" % (
            t, v, " ".join(ninja_escape(o) for o in objs), info.get("xlibs", "")))
        targets.append(t)
    nf = os.path.join(BUILD, "build_%s.ninja" % ("_".join(groups) if len(groups) < 3 else "all"))
    text = "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return nf, targets


def build(groups, quiet=True):
    nf, targets = generate(groups)
    r = subprocess.run(["ninja", "-f", nf] + targets, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("harness build failed (does /repo compile?)")
        sys.exit(2)
    return dict(zip(groups, targets))


def env_for(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:suppressions=" + \
        os.path.join(VERIF, "harness", "tsan.supp")
    e["LC_ALL"] = "C.UTF-8"
    e["VERIF_REPO"] = REPO
    e["VERIF_DIR"] = VERIF
    for k in ("XDG_CONFIG_HOME",):
        e.pop(k, None)
    return e


def main():
    a = sys.argv[1:]
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 0
    if a[0] == "list":
        for g, i in GROUPS.items():
            print(g, " ".join(i["props"]))
        return 0
    if a[0] == "setup":
        # nothing is kept between runs: check that tools and sources are there
        for tool in ("g++", "ninja"):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        generate(list(GROUPS))
        return 0
    if a[0] == "build":
        gs = list(GROUPS) if a[1] == "all" else a[1:]
        build(gs)
        return 0
    if a[0] == "replay":
        j = json.load(open(a[1]))
        g = prop_group(j["property"])
        b = build([g])[g]
        return subprocess.run([b, "--prop", j["property"], "--replay", a[1]],
                              env=env_for(GROUPS[g].get("variant", "asan"))).returncode
    prop = a[0]
    rest = a[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    if "--seed" not in rest:
        rest += ["--seed", str(int(os.environ.get("VERIF_SEED", "1") or "1"))]
    g = prop_group(prop)
    b = build([g])[g]
    cmd = [b, "--prop", prop, "--tier", tier,
           "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
           "--replay-dir", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "known_findings.txt")] + rest
    return subprocess.run(cmd, env=env_for(GROUPS[g].get("variant", "asan"))).returncode


if __name__ == "__main__":
    sys.exit(main())
