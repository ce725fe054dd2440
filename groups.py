TARGET = ["schema", "lib/env", "lib/toolchain", "lib/target"]
ALL = TARGET + ["lib/args", "toolchains", "targets", "plugins"]

BOOT = ("-I@REPO@/buildexe/include -I@REPO@/bootstrap/include")

GROUPS = {
    "buildexe": {
        "props": ["X01", "X02"],
        "variant": "plain",
        "libs": ALL,
        "repo_sources": [("buildexe/buildexe.cpp", "-Dmain=buildexe_main " + BOOT),
                         ("buildexe/src/*.cpp", BOOT),
                         ("bootstrap/src/*.cpp", BOOT)],
        "sources": ["props/buildexe.cpp"],
    },
    "args": {
        "props": ["A01", "J01", "J02"],
        "variant": "plain",
        "libs": ALL,
        "sources": ["props/args.cpp"],
    },
    "race": {
        "props": ["P01"],
        "variant": "tsan",
        "libs": TARGET + ["lib/args", "toolchains", "targets"],
        "lib_xflags": "-include tsan_fence.hpp",
        "xflags": "-include tsan_fence.hpp",
        "sources": ["props/race.cpp"],
    },
    "reg": {
        "props": ["R01", "R02", "R03", "R04"],
        "variant": "plain",
        "libs": TARGET + ["lib/args", "toolchains", "targets"],
        "sources": ["props/reg.cpp"],
    },
    "toolchain": {
        "props": ["C01", "C02", "C03"],
        "variant": "plain",
        "libs": TARGET + ["toolchains", "targets"],
        "sources": ["props/toolchain.cpp"],
    },
    "env": {
        "props": ["E01", "E02", "E03", "E04", "Z01"],
        "variant": "asan",
        "libs": TARGET,
        "sources": ["props/env.cpp"],
    },
    "desc": {
        "props": ["K01", "K02", "K03", "S01"],
        "variant": "plain",
        "libs": TARGET,
        "sources": ["props/desc.cpp"],
    },
    "gen_hist": {
        "props": ["G01", "G02"],
        "variant": "plain",
        "libs": TARGET,
        "sources": ["props/gen_hist.cpp"],
    },
    "target_hist": {
        "props": ["B01", "B02", "B03", "B04", "B05"],
        "variant": "plain",
        "libs": TARGET,
        "sources": ["props/target_hist.cpp"],
    },
}
