"""The checks: which harness decides which property, and how it is built."""
LIB_SOURCES = ["radial_factory.cxx", "s2_factory.cxx", "spherical_factory.cxx"]

MC = "model_checking"


def part(name, src, **kw):
    d = {"name": name, "src": [src] if isinstance(src, str) else src}
    d.update(kw)
    return d


ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DMC_SANITIZED"]
WATCHED = ["c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c26", "c28"]

CHECKS = {
    "C01": {"level": MC, "parts": [part("c01", "c01.cxx", flags=["-O2"])]},
    "C02": {"level": MC, "parts": [part("c02", ["c02.cxx", "c02_f.cxx", "c02_d.cxx", "c02_l.cxx"], flags=["-O1"])]},
    "C03": {"level": MC, "parts": [part("c03", "c03.cxx", flags=["-O0"])]},
    "C04": {"level": MC, "parts": [part("c04", "c04.cxx", lib=True)]},
    "C05": {"level": MC, "parts": [part("c05", "c05.cxx", flags=["-O3"])]},
    "C06": {"level": MC, "parts": [part("c06", "c06.cxx", flags=["-O3"])]},
    "C07": {"level": MC, "parts": [part("c07", "c07.cxx", flags=["-O2"])]},
    "C08": {"level": MC, "parts": [part("c08", "c08.cxx", flags=["-O2"])]},
    "C09": {"level": MC, "parts": [part("c09", "c09.cxx", flags=["-O1"])]},
    "C10": {"level": MC, "parts": [part("c10", "c10.cxx", flags=["-O1"])]},
    "C11": {"level": MC, "parts": [part("c11", "c11.cxx", flags=["-O1"])]},
    "C12": {"level": MC, "parts": [part("c12", "c12.cxx", flags=["-O1"])]},
    "C13": {"level": MC, "parts": [part("c13", "c13.cxx", lib=True)]},
    "C14": {"level": MC, "parts": [part("c14", "c14.cxx", lib=True)]},
    "C15": {"level": MC, "parts": [part("c15", "c15.cxx", lib=True)]},
    "C16": {"level": MC, "parts": [part("c16", "c16.cxx", lib=True)]},
    "C17": {"level": MC, "parts": [part("c17", "c17.cxx", flags=["-O2"])]},
    "C18": {"level": MC, "parts": [part("c18", "c18.cxx")]},
    "C19": {"level": MC, "parts": [part("c19", "c19.cxx")]},
    "C20": {"level": MC, "parts": [part("c20", "c20.cxx", flags=["-O1"])]},
    "C26": {"level": MC, "parts": [part("c26", "c26.cxx", flags=["-O1"])]},
    "C28": {"level": MC, "parts": [part("c28", "c28.cxx", flags=["-O1"])]},
    "C25": {"level": MC, "parts": [part("c25", "c25.cxx", flags=["-O2"], lib=True)]},
    "C21": {"level": MC, "parts": [part("c21", "c21.cxx", flags=["-O1"], lib=True)]},
    "C22": {"level": MC, "parts": [part("c22", "c22.cxx", lib=True, flags=["-O1", "-g0", "-fsanitize=thread"], plain_src=["sched.cc"],
                                        linkflags=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", "-rdynamic"], libs=["-ldl"])]},
    "C23": {"level": MC, "parts": [part("c23", [], script="c23/c23.py")]},
    "C24": {"level": MC, "parallel": 8, "parts": [part("c24", "c24.cxx", lib=True, flags=["-O1", "-g"], case_seconds=600,
                                                       wrapper=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes"])] +
            [part(h + "-watched", h + ".cxx", lib=True, flags=ASAN, crash_only=True, case_seconds=600,
                  env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"}) for h in WATCHED]},
    "C29": {"level": MC, "parts": [part("c29", "c29.cxx", flags=["-O1"])]},
    "C30": {"level": MC, "parts": [part("c30", "c30.cxx", lib=True, flags=["-O1"])]},
    "C31": {"level": MC, "parts": [part("c31", "c31.cxx", lib=True, flags=["-O0"])]},
    "C32": {"level": MC, "parts": [part("c32", "c32.cxx", flags=["-O2"])]},
    "C33": {"level": MC, "parts": [part("c33", "c33.cxx", flags=["-O2"])]},
    "C34": {"level": MC, "parts": [part("c34", "c34.cxx", flags=["-O1"], lib=True)]},
    "C27": {"level": MC, "parts": [part("c27", "c27.cxx", lib=True, flags=["-O1"])]},
}
