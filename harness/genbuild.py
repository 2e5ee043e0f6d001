#!/usr/bin/env python3
"""Generate a ninja build of /repo's library sources plus the harness.

The list of library sources is read from arki/meson.build in the working tree.
Nothing is written outside of the output directory.
"""
import os
import re
import sys

REPO = os.environ.get("ARKI_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

INC = ["-I" + os.path.join(HERE, "config"), "-I" + REPO, "-I" + REPO + "/arki", "-I.", "-Iarki",
       "-I/usr/include/lua5.1", "-I/usr/include/lzo"]
LIBS = ("-lgeos_c -llua5.1 -llzo2 -leccodes -larchive -lzip -lz -lcurl "
        "-lsqlite3 -lssl -lcrypto -lstdc++fs -lpthread -ldl -lutil")

VARIANTS = {
    "rel": ("g++", "-O1 -g0", ""),
    "san": ("g++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr "
            "-fno-sanitize-recover=undefined -fno-omit-frame-pointer",
            "-fsanitize=address,undefined"),
}


def lib_sources():
    text = open(os.path.join(REPO, "arki/meson.build")).read()
    m = re.search(r"libarkimet_sources\s*=\s*\[(.*?)\]", text, re.S)
    srcs = re.findall(r"'([^']+\.cc)'", m.group(1))
    srcs += ["data/grib.cc", "dataset/http.cc"]
    srcs += ["matcher/reftime/lexer.cc", "matcher/reftime/parser.cc"]
    # Output of arki-query and arki-scan: it does not need Python
    d = os.path.join(REPO, "arki/python/cmdline")
    if os.path.isdir(d):
        srcs += ["python/cmdline/" + f for f in sorted(os.listdir(d))
                 if f.endswith(".cc") and not f.endswith("-test.cc")]
    seen = set()
    out = []
    for s in srcs:
        if s in seen:
            continue
        seen.add(s)
        if os.path.exists(os.path.join(REPO, "arki", s)):
            out.append(s)
    return out


def write_if_changed(path, data):
    try:
        if open(path).read() == data:
            return
    except OSError:
        pass
    with open(path, "w") as fd:
        fd.write(data)


def generate(variant, outdir):
    cxx, flags, ldflags = VARIANTS[variant]
    os.makedirs(outdir, exist_ok=True)
    ccache = ""
    if os.path.exists("/usr/bin/ccache"):
        ccache = "ccache "
    L = []
    L.append("ninja_required_version = 1.5")
    L.append("builddir = .")
    L.append(f"cxxflags = -std=gnu++17 {flags} -fPIC -pthread -w "
             f"-D_FILE_OFFSET_BITS=64 -DARKI_VERIF {' '.join(INC)}")
    L.append(f"rule cxx\n  command = {ccache}{cxx} $cxxflags $extra -MD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
    L.append("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    L.append("rule flex\n  command = flex --outfile=$base.cc --header-file=$base.h $in\n"
             "  description = FLEX\n  restat = 1")
    L.append("rule bison\n  command = bison $in --defines=$base.hh --output=$base.cc\n"
             "  description = BISON\n  restat = 1")
    L.append(f"rule link\n  command = {cxx} {ldflags} -rdynamic -o $out $in {LIBS}\n"
             "  description = LINK $out")
    R = os.path.join(REPO, "arki/matcher/reftime")
    L.append(f"build arki/matcher/reftime/reftime-lex.cc arki/matcher/reftime/reftime-lex.h: flex {R}/reftime-lex.ll\n"
             "  base = arki/matcher/reftime/reftime-lex")
    L.append(f"build arki/matcher/reftime/reftime-parse.cc arki/matcher/reftime/reftime-parse.hh: bison {R}/reftime-parse.yy\n"
             "  base = arki/matcher/reftime/reftime-parse")
    gen = "arki/matcher/reftime/reftime-lex.h arki/matcher/reftime/reftime-parse.hh"
    objs = []
    for s in lib_sources():
        o = "lib/" + s.replace("/", "_").replace(".cc", ".o")
        dep = f" || {gen}" if "reftime" in s else ""
        L.append(f"build {o}: cxx {REPO}/arki/{s}{dep}")
        objs.append(o)
    for s in ("reftime-lex", "reftime-parse"):
        o = f"lib/gen_{s}.o"
        L.append(f"build {o}: cxx arki/matcher/reftime/{s}.cc || {gen}\n"
                 f"  extra = -Iarki/matcher/reftime -I{R}")
        objs.append(o)
    L.append("build libarki.a: ar " + " ".join(objs))
    hobjs = []
    for f in sorted(os.listdir(HERE)):
        if f.endswith(".cc"):
            o = "harness/" + f[:-3] + ".o"
            L.append(f"build {o}: cxx {HERE}/{f} || {gen}")
            hobjs.append(o)
    L.append("build check: link " + " ".join(hobjs) + " libarki.a")
    L.append("default check")
    os.makedirs(os.path.join(outdir, "arki/matcher/reftime"), exist_ok=True)
    write_if_changed(os.path.join(outdir, "build.ninja"), "\n".join(L) + "\n")


if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2])
