#!/usr/bin/env python3
"""C23: every way to build the library gives the same library.

Enumerates (a) every public header alone, in two translation units, with both
compilers and every language standard; (b) every build configuration within the
bounds, whose dump of results is compared with that of the first one; (c) the
CMake routes to a consumer (installed, as a subdirectory; compiled, shared,
header-only).  Same command line and output as the C++ harnesses.
"""
import argparse, itertools, json, math, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
for o in ("out", "crumb", "seed", "case-seconds", "only", "repo"):
    ap.add_argument("--" + o)
ap.add_argument("--thorough", action="store_true")
A = ap.parse_args()
REPO = A.repo
WORK = os.path.join(os.getcwd(), "c23-work")
shutil.rmtree(WORK, ignore_errors=True)
os.makedirs(WORK)
INC = os.path.join(REPO, "include")
counts = dict(headers=0, configurations=0, values_compared=0, states=0, transitions=0, traces_validated_against_impl=0, consumers=0)
viols, samples = [], []
LIMIT = 400


def violation(key, what):
    if all(v["key"] != key for v in viols):
        viols.append({"key": key, "what": what[:600]})
        sys.stderr.write("violation %s: %s\n" % (key, what))


def run(cmd, cwd=WORK, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=LIMIT)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def first_error(log):
    m = re.search(r"^.*(?:error|multiple definition|undefined reference|CMake Error|Error:).*$", log, re.M)
    return (m.group(0) if m else log.strip().split("\n")[-1])[:300]


def wanted(key):
    return A.only is None or A.only == key


# --- headers -------------------------------------------------------------
HEADERS = """quadrature.hpp types.hpp type_traits.hpp batch/spherical_micro_batcher.hpp
composite_quadratures/product_quadrature.hpp composite_quadratures/pruned_spherical_quadrature.hpp
composite_quadratures/spherical_quadrature.hpp composite_quadratures/sub_quadrature.hpp
generators/radial_factory.hpp generators/s2_factory.hpp generators/spherical_factory.hpp
quadratures/all.hpp quadratures/primitive.hpp quadratures/primitive/gausschebyshev1.hpp quadratures/primitive/gausschebyshev2.hpp
quadratures/primitive/gausschebyshev2modified.hpp quadratures/primitive/gausschebyshev3.hpp quadratures/primitive/gausslegendre.hpp
quadratures/primitive/gausslobatto.hpp quadratures/primitive/uniform.hpp quadratures/radial.hpp quadratures/radial/becke.hpp
quadratures/radial/mhl.hpp quadratures/radial/muraknowles.hpp quadratures/radial/radial_transform.hpp
quadratures/radial/treutlerahlrichs.hpp quadratures/s2.hpp quadratures/s2/ahrens_beylkin.hpp quadratures/s2/delley.hpp
quadratures/s2/lebedev_laikov.hpp quadratures/s2/womersley.hpp util/bound_transform.hpp util/copy_grid.hpp
util/create_array.hpp util/legendre.hpp""".split()
ONCE = "generators/impl/impl.hpp"   # to be included in exactly one translation unit


def header_case(h, cxx, std):
    tag = "%s-%s-%s" % (h.replace("/", "_"), cxx, std)
    src = os.path.join(WORK, tag + ".cxx")
    with open(src, "w") as f:
        f.write("#include <integratorxx/%s>\n#include <integratorxx/%s>\n" % (h, h))
    obj = src + ".o"
    rc, log = run([cxx, "-std=" + std, "-O0", "-I" + INC, "-c", src, "-o", obj])
    if rc:
        return "the header does not compile alone: " + first_error(log)
    mainsrc = os.path.join(WORK, tag + ".main.cxx")
    with open(mainsrc, "w") as f:
        f.write("int main() { return 0; }\n")
    objs = [obj] if h == ONCE else [obj, shutil.copy(obj, obj + ".2.o")]
    rc, log = run([cxx, mainsrc] + objs + ["-o", src + ".exe"])
    for p in objs + [src + ".exe"]:
        if os.path.exists(p):
            os.unlink(p)
    if rc:
        return "two translation units which include the header do not link: " + first_error(log)
    return None


# --- configurations ------------------------------------------------------
LIBSRC = ["radial_factory.cxx", "s2_factory.cxx", "spherical_factory.cxx"]
MACROS = {"plain": [], "NDEBUG": ["-DNDEBUG"], "unchecked": ["-DINTEGRATORXX_DISABLE_SANITY_CHECK"],
          "verbose": ["-DINTEGRATORXX_VERBOSITY_LEVEL=1"], "debug-stl": ["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS"],
          "all-off": ["-DNDEBUG", "-DINTEGRATORXX_DISABLE_SANITY_CHECK", "-DINTEGRATORXX_VERBOSITY_LEVEL=0"]}
ARCH = {"generic": [], "native": ["-march=native"], "pic": ["-fPIC"], "uchar": ["-funsigned-char"], "traps": ["-ftrapv", "-fno-strict-aliasing"],
        "autoinit": ["-ftrivial-auto-var-init=pattern"]}


def configs():
    if A.thorough:
        for mode, cxx, opt, std, mac, arch in itertools.product(("compiled", "header-only", "header-only in a unit of its own"), ("g++", "clang++"), ("O0", "O1", "O2", "O3", "Os"),
                                                                ("c++17", "c++20"), sorted(MACROS), ("generic", "native")):
            yield mode, cxx, opt, std, mac, arch
        for cxx, opt, arch in itertools.product(("g++", "clang++"), ("O0", "O2", "O3"), sorted(ARCH)):
            yield "compiled", cxx, opt, "c++17", "plain", arch
        return
    for mode, cxx, opt in itertools.product(("compiled", "header-only", "header-only in a unit of its own"), ("g++", "clang++"), ("O0", "O3")):
        yield mode, cxx, opt, "c++17", "plain", "generic"
    for cxx, mac in itertools.product(("g++", "clang++"), sorted(MACROS)):
        if mac != "plain":
            yield "compiled", cxx, "O1" if cxx == "g++" else "O0", "c++17", mac, "generic"
    for cxx, arch in itertools.product(("g++", "clang++"), ("native", "autoinit")):
        yield "compiled", cxx, "O2", "c++17", "plain", arch
    for cxx in ("g++", "clang++"):
        yield "compiled", cxx, "Os", "c++20", "plain", "generic"


objects = {}


def build_obj(job):
    cmd, obj = job
    return obj, run(cmd + ["-o", obj])


def plan(cfg):
    mode, cxx, opt, std, mac, arch = cfg
    flags = [cxx, "-" + opt, "-std=" + std, "-I" + INC] + MACROS[mac] + ARCH[arch]
    tag = "-".join((cxx, opt, std, mac, arch)).replace("+", "x")
    dump = os.path.join(HERE, "dump.cxx")
    if mode == "header-only":
        need = [(flags + ["-DC23_HEADER_ONLY", "-c", dump], tag + "-dump-ho.o")]
    else:
        need = [(flags + ["-c", dump], tag + "-dump.o")]
        if mode == "compiled":
            need += [(flags + ["-c", os.path.join(REPO, "src", s)], tag + "-" + s + ".o") for s in LIBSRC]
        else:
            need += [(flags + ["-c", os.path.join(HERE, "impl.cxx")], tag + "-impl.o")]
    return cxx, need


LINE = re.compile(r"^(.*?)([|#])(.*)$")
TOL = {"d": (1e-7, 1e-14), "f": (2e-3, 1e-5), "F": (1e30, 1e30)}   # F: single precision cancels in this rule; only its size is compared


def read(path):
    out = []
    for line in open(path):
        m = LINE.match(line.rstrip("\n"))
        out.append(m.groups() if m else (line, "|", ""))
    return out


def compare(ref, got, key):
    if ref is got:
        return
    for i in range(max(len(ref), len(got))):
        if i >= len(got) or i >= len(ref):
            return violation(key, "the dump ends at line %d of %d, after %r" % (len(got), len(ref), (got[-1:] or [""])[0]))
        (l, k, v), (l2, k2, v2) = ref[i], got[i]
        counts["values_compared"] += 1
        if (l, k) != (l2, k2):
            return violation(key, "%s %s instead of %s %s" % (l2, v2[:100], l, v[:100]))
        if v == v2:
            continue
        if k == "|":
            return violation(key, "%s is %s, elsewhere %s" % (l, v2[:150], v[:150]))
        rel, ab = TOL[v[0]]
        a, b = [float(x) for x in v[2:].split()], [float(x) for x in v2[2:].split()]
        if len(a) != len(b):
            return violation(key, "%s has %d values, elsewhere %d" % (l, len(b), len(a)))
        scale = max([abs(x) for x in a if math.isfinite(x)] or [0])
        for j, (x, y) in enumerate(zip(a, b)):
            counts["values_compared"] += 1
            if x == y or (math.isnan(x) and math.isnan(y)):
                continue
            if not abs(x - y) <= rel * max(abs(x), abs(y)) + ab * scale:
                return violation(key, "%s: value %d is %.17g, elsewhere %.17g" % (l, j, y, x))


PERTURB = {"as is": {}, "dirty memory": {"MALLOC_PERTURB_": "165"}}


def run_dump(exe, name, env):
    path = os.path.join(WORK, name + ".txt")
    e = dict(os.environ, LC_ALL="C", **env)
    rc, log = run([exe, path], env=e)
    if rc != 0:
        return None, "the program ends with %s: %s" % (rc, first_error(log))
    r = read(path)
    os.unlink(path)
    if not r or r[-1][0] != "end":
        return None, "the program stops early"
    return r, None


def main():
    pool = ThreadPoolExecutor(max_workers=8)
    # (a)
    stds = ("c++17", "c++20", "c++2b")
    cases = [(h, c, s) for h in HEADERS + [ONCE] for c in ("g++", "clang++") for s in (stds if A.thorough else stds[:1])
             if os.path.exists(os.path.join(INC, "integratorxx", h)) and wanted("header/" + h)]
    for (h, c, s), bad in zip(cases, pool.map(lambda x: header_case(*x), cases)):
        counts["headers"] += 1
        if bad:
            violation("header/" + h, "%s %s: %s" % (c, s, bad))
    # (b)
    cfgs = [c for c in dict.fromkeys(configs())]
    ref_cfg = ("compiled", "g++", "O1", "c++17", "plain", "generic")
    todo = [c for c in cfgs if wanted("configuration/" + "/".join(c))]
    ref = None
    batches = [[ref_cfg] + todo[:30]] + [todo[i:i + 30] for i in range(30, len(todo), 30)] if todo or A.only is None else []
    if any(wanted("consumer/" + n) for n in CONSUMERS) and not batches:
        batches = [[ref_cfg]]
    for batch in batches:
        jobs, seen = [], {}
        for c in batch:
            for cmd, obj in plan(c)[1]:
                if obj not in seen:
                    seen[obj] = None
                    jobs.append((cmd, os.path.join(WORK, obj)))
        jobs.sort(key=lambda j: "-dump" not in j[1])
        for obj, res in pool.map(build_obj, jobs):
            seen[os.path.basename(obj)] = res

        def finish(c):
            key = "configuration/" + "/".join(c)
            cxx, need = plan(c)
            for cmd, obj in need:
                rc, log = seen[obj]
                if rc:
                    return key, None, "does not compile: " + first_error(log)
            exe = os.path.join(WORK, "exe-" + re.sub(r"\W", "x", "-".join(c)))
            rc, log = run([cxx] + [os.path.join(WORK, o) for _, o in need] + ["-o", exe])
            if rc:
                return key, None, "does not link: " + first_error(log)
            out = []
            for pn, env in PERTURB.items():
                r, bad = run_dump(exe, os.path.basename(exe) + pn.replace(" ", ""), env)
                if bad:
                    return key, None, "%s (%s)" % (bad, pn)
                out.append((pn, r))
            os.unlink(exe)
            return key, out, None
        for c, (key, out, bad) in zip(batch, pool.map(finish, batch)):
            counts["configurations"] += 1
            if len(samples) < 10:
                samples.append(key)
            if bad:
                violation(key, bad)
                continue
            for pn, r in out:
                if ref is None:
                    ref = r
                compare(ref, r, key)
        for obj in seen:
            p = os.path.join(WORK, obj)
            if os.path.exists(p):
                os.unlink(p)
    # (c)
    names = [n for n in CONSUMERS if wanted("consumer/" + n)]
    for n, (r, bad) in zip(names, pool.map(consumer, names)):
        counts["consumers"] += 1
        if bad:
            violation("consumer/" + n, bad)
        elif ref is not None:
            compare(ref, r, "consumer/" + n)
    counts["states"] = counts["headers"] + counts["configurations"] + counts["consumers"]
    counts["transitions"] = counts["values_compared"]
    counts["traces_validated_against_impl"] = counts["states"]
    info = {"headers": "each of %d public headers alone, twice in a unit, in two units" % (len(HEADERS) + 1),
            "configurations": "full product" if A.thorough else "12 of mode x compiler x optimisation, 10 of macros, 6 of architecture and standard",
            "consumers": "CMake: " + ", ".join(CONSUMERS)}
    json.dump({"status": "done", "counts": counts, "info": info, "samples": samples, "nviolations": len(viols), "violations": viols}, open(A.out, "w"))
    shutil.rmtree(WORK, ignore_errors=True)
    return 1 if viols else 0


CONSUMERS = ["compiled, installed", "shared, installed", "header-only, installed", "compiled, subdirectory", "header-only, subdirectory"]


def consumer(name):
    kind, route = name.split(", ")
    d = os.path.join(WORK, "consumer-" + re.sub(r"\W+", "-", name))
    os.makedirs(d)
    opts = ["-DINTEGRATORXX_ENABLE_TESTS=OFF", "-DCMAKE_INSTALL_PREFIX=" + d + "/prefix", "-DCMAKE_CXX_COMPILER=g++",
            "-DINTEGRATORXX_HEADER_ONLY=" + ("ON" if kind == "header-only" else "OFF"), "-DBUILD_SHARED_LIBS=" + ("ON" if kind == "shared" else "OFF")]
    env = {k: v for k, v in os.environ.items() if not k.startswith("CMAKE") and k not in ("CXXFLAGS", "LDFLAGS")}
    if route == "installed":
        for cmd in (["cmake", "-S", REPO, "-B", d + "/lib"] + opts, ["cmake", "--build", d + "/lib", "-j2"], ["cmake", "--install", d + "/lib"]):
            rc, log = run(cmd, env=env)
            if rc:
                return None, "%s: %s" % (" ".join(cmd[:3]), first_error(log))
        find = "find_package(IntegratorXX REQUIRED)\n"
    else:
        find = "add_subdirectory(%s lib)\n" % REPO
    with open(d + "/CMakeLists.txt", "w") as f:
        f.write("cmake_minimum_required(VERSION 3.17)\nproject(consumer LANGUAGES CXX)\n" + find +
                "add_executable(dump %s/dump.cxx)\ntarget_link_libraries(dump PRIVATE IntegratorXX::IntegratorXX)\n" % HERE +
                ("target_compile_definitions(dump PRIVATE C23_HEADER_ONLY)\n" if kind == "header-only" else ""))
    conf = ["cmake", "-S", d, "-B", d + "/b", "-DCMAKE_PREFIX_PATH=" + d + "/prefix", ] + [o for o in opts if "PREFIX" not in o]
    for cmd in (conf, ["cmake", "--build", d + "/b", "-j2"]):
        rc, log = run(cmd, env=env)
        if rc:
            return None, "consumer: %s" % first_error(log)
    r, bad = run_dump(d + "/b/dump", os.path.basename(d), {})
    shutil.rmtree(d, ignore_errors=True)
    return r, bad


sys.exit(main())
