#!/usr/bin/env python3
"""Builds the securefs sources of /repo's working tree (plus the /verif harness) with ninja.

Nothing is written in /repo.  Usage: build.py [target ...]   (default: vdrv)
"""
import os, re, subprocess, sys, glob, hashlib, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    with open(path, "w") as f: f.write(text)

def overlay(rel, mark, add):
    h = open("/usr/include/absl/" + rel).read()
    assert mark in h, rel
    i = h.index(mark)
    write_if_changed(f"{BUILD}/gen/overlay/absl/{rel}", h[:i] + add + "\n" + h[i:])

def generate():
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    t = open(f"{REPO}/sources/is_fuse_t.h.in").read().replace("@SECUREFS_IS_FUSE_T_VALUE_FOR_HEADER@", "false")
    write_if_changed(f"{gen}/is_fuse_t.h", t)
    t = open(f"{REPO}/sources/git-version.cpp.in").read().replace("@GIT_VERSION@", "verif")
    write_if_changed(f"{gen}/git-version.cpp", t)
    # apt's abseil 20220623 lacks Condition(bool(*)(const T*), T*): overlay of the system header plus that overload.
    h = open("/usr/include/absl/synchronization/mutex.h").read()
    mark = "  template<typename T>\n  Condition(bool (*func)(T *), T *arg);"
    if mark not in h:
        mark = "  template <typename T>\n  Condition(bool (*func)(T *), T *arg);"
    assert mark in h
    h = h.replace(mark, mark + "\n  template <typename T, typename = void>\n  Condition(bool (*func)(const T *), T *arg)\n"
                  "      : Condition(func, static_cast<const T *>(arg)) {}\n")
    write_if_changed(f"{gen}/overlay/absl/synchronization/mutex.h", h)
    # apt's abseil is built with its own absl::string_view: make it convertible from/to std::string_view (layout unchanged).
    h = open("/usr/include/absl/strings/string_view.h").read()
    mark = "  // Implicit constructor of a `string_view` from a `const char*` and length.\n"
    if "#ifdef ABSL_USES_STD_STRING_VIEW" in h and mark in h:
        h = h.replace("#include <string>\n", "#include <string>\n#include <string_view>\n", 1)
        h = h.replace(mark, "  constexpr string_view(std::string_view s) noexcept : ptr_(s.data()), length_(s.size()) {}\n"
                      "  constexpr operator std::string_view() const noexcept { return std::string_view(ptr_, length_); }\n" + mark, 1)
        write_if_changed(f"{gen}/overlay/absl/strings/string_view.h", h)
        overlay("strings/str_cat.h", "  AlphaNum(absl::string_view pc) : piece_(pc) {}", "  AlphaNum(std::string_view pc) : piece_(pc) {}")
        overlay("strings/internal/str_split_internal.h", "  ConvertibleToStringView(absl::string_view s)", "  ConvertibleToStringView(std::string_view s) : value_(s) {}")
        h = open("/usr/include/absl/base/options.h").read()
        for k in ("OPTIONAL", "VARIANT"):
            h = h.replace(f"#define ABSL_OPTION_USE_STD_{k} 0", f"#define ABSL_OPTION_USE_STD_{k} 1")
        write_if_changed(f"{gen}/overlay/absl/base/options.h", h)

def small_btree():
    """A copy of the directory index with order 5.  When the constant is not found the copy keeps the order of the sources."""
    for f in ("btree_dir.h", "btree_dir.cpp"):
        t = open(f"{REPO}/sources/{f}").read()
        t = re.sub(r"(\bBTREE_MAX_NUM_ENTRIES\s*=\s*)13\b", r"\g<1>5", t)
        write_if_changed(f"{BUILD}/gen/small/{f}", t)

def ninja_text():
    fuse = subprocess.run(["pkg-config", "--cflags-only-I", "fuse"], capture_output=True, text=True).stdout.split()
    fuse = ["-isystem " + x[2:] for x in fuse if x.startswith("-I")]
    absl_libs = ["absl_synchronization", "absl_time", "absl_strings", "absl_str_format_internal", "absl_raw_hash_set",
                 "absl_hash", "absl_base", "absl_failure_signal_handler", "absl_symbolize"]
    pc = subprocess.run(["pkg-config", "--libs"] + absl_libs, capture_output=True, text=True).stdout.strip()
    libs = f"-lcryptopp -largon2 -lsqlite3 -lprotobuf -lfuse -ldl -lpthread -Wl,--start-group {pc} -Wl,--end-group"
    san = os.environ.get("VERIF_SAN", "")
    cflags = (f"-std=c++17 -O1 -g1 -w -D_FILE_OFFSET_BITS=64 -DFUSE_USE_VERSION=29 -DSECUREFS_VERIF_HOOKS=1 "
              f"-I{BUILD}/gen/overlay -I{BUILD}/gen -I{REPO}/sources -I{VERIF}/shim {' '.join(fuse)} {san}")
    L = [f"cflags = {cflags}", f"libs = {libs}",
         "rule cxx", "  command = g++ $cflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule proto", f"  command = protoc -I {REPO}/protos --cpp_out={BUILD}/gen $in",
         "rule ar", "  command = /bin/rm -f $out && ar crs $out $in",
         "rule link", f"  command = g++ {san} -rdynamic $in -o $out $libs", ""]
    pb = f"{BUILD}/gen/params.pb.h"
    L.append(f"build {pb} {BUILD}/gen/params.pb.cc: proto {REPO}/protos/params.proto")
    objs = []
    for s in sorted(glob.glob(f"{REPO}/sources/*.cpp")) + [f"{BUILD}/gen/git-version.cpp", f"{BUILD}/gen/params.pb.cc",
                                                          f"{VERIF}/shim/uni_algo_shim.cpp"]:
        if s.endswith("/win.cpp"): continue
        o = f"{BUILD}/obj/{os.path.basename(s)}.o"
        L.append(f"build {o}: cxx {s} || {pb}")
        if s.endswith(("/fuse_tracer_v2.cpp", "/fuse_hook.cpp")): L.append(f"  cflags = {cflags} -include {VERIF}/shim/{'tracer' if 'tracer' in s else 'logfmt'}_compat.h")
        objs.append(o)
    L.append(f"build {BUILD}/libsecurefs.a: ar {' '.join(objs)}")
    for s in sorted(glob.glob(f"{VERIF}/harness/*.cpp")):
        n = os.path.basename(s)[:-4]
        o = f"{BUILD}/obj/h_{n}.o"
        L.append(f"build {o}: cxx {s} || {pb}")
        L.append(f"build {BUILD}/{n}: link {o} {BUILD}/libsecurefs.a")
        L.append(f"build {n}: phony {BUILD}/{n}")
    L.append("")
    return "\n".join(L)

def drop_stale():
    """ninja goes by modification times; copies of the tree may not keep them, so contents decide here."""
    rec = f"{BUILD}/hashes.json"
    try: old = json.load(open(rec))
    except (OSError, ValueError): old = {}
    new = {}
    for d in (f"{REPO}/sources", f"{REPO}/protos", f"{VERIF}/harness", f"{VERIF}/shim", f"{VERIF}/shim/uni_algo"):
        for f in sorted(glob.glob(d + "/*")):
            if os.path.isfile(f): new[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
    changed = [f for f in set(old) | set(new) if old.get(f) != new.get(f)]
    if changed:
        gone = glob.glob(f"{BUILD}/obj/*.o") if any(not f.endswith(".cpp") for f in changed) else [f"{BUILD}/obj/{h}{os.path.basename(f)}.o" for f in changed for h in ("",)] + \
            [f"{BUILD}/obj/h_{os.path.basename(f)[:-4]}.o" for f in changed]
        for o in gone:
            if os.path.exists(o): os.unlink(o)
    write_if_changed(rec, json.dumps(new))

def build(targets, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    drop_stale()
    generate()
    small_btree()
    write_if_changed(f"{BUILD}/build.ninja", ninja_text())
    p = subprocess.run(["ninja", "-C", BUILD] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit(3)
    return BUILD

if __name__ == "__main__":
    build(sys.argv[1:] or ["vdrv"])
