"""How each check is built.  units: (source, compiler, flags, uses /repo headers)."""

ENGINE_FLAGS = ["-std=c++20", "-O1", "-g1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FUNC_FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"] + SAN


def functional(src, level="exploration", std="c++20", extra=(), link=(), assumptions=(), more=()):
    flags = [("-std=" + std) if f == "-std=c++20" else f for f in FUNC_FLAGS] + list(extra)
    return {"units": [("pbt.cpp", "g++", ENGINE_FLAGS, False), (src, "g++", flags, True)] + list(more),
            "link": ["g++"] + SAN + ["-pthread"] + list(link),
            "level": level,
            "technique": "property-based testing",
            "assumptions": ["g++ 13, -std=%s, address and undefined behaviour sanitizers on" % std] + list(assumptions)}


def overloads(src, *extra):
    return (src, "g++", FUNC_FLAGS + list(extra) + ([] if "_" in src else ["-DVARIANT=overloads"]) + ["-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1", "-Dpluto=pluto_overloads"], True)


TSAN_FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread"]
VSCHED_FLAGS = ["-std=c++20", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-fno-threadsafe-statics", "-fno-builtin"]


def concurrent(src, assumptions=(), more=(), extra=(), link=()):
    """Checks that run under the deterministic scheduler (harness/vsched.cpp)."""
    return {"units": [("pbt.cpp", "g++", ENGINE_FLAGS, False), ("vsched.cpp", "g++", VSCHED_FLAGS, False),
                      (src, "g++", TSAN_FLAGS + list(extra), True)] + list(more),
            "link": ["g++", "-pthread", "-rdynamic", "-ldl"] + list(link),
            "level": "exploration",
            "technique": "property-based testing of generated schedules",
            "assumptions": ["g++ 13, threads interleave at synchronisation operations, atomics, clock reads and file operations (data races are reported, so finer interleavings add nothing)",
                            "sequentially consistent atomics"] + list(assumptions)}


OTHER = ["-DPLUTO_LOCALE_NO_STATIC=1", "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"]
BUILDS = [("g++", 20, 1, []), ("g++", 14, 0, []), ("g++", 14, 2, []), ("g++", 17, 2, []), ("g++", 20, 2, OTHER), ("g++", 23, 2, []), ("g++", 14, 1, OTHER),
          ("clang++", 14, 2, []), ("clang++", 17, 0, OTHER), ("clang++", 20, 0, []), ("clang++", 23, 2, [])]

CHECKS = {
    "P01": functional("p01.cpp"),
    "P02": functional("p02.cpp"),
    "P03": functional("p03.cpp"),
    "P04": functional("p04.cpp", more=[overloads("p04.cpp")]),
    "P05": functional("p05.cpp", more=[overloads("p05.cpp")]),
    "P06": functional("p06.cpp", more=[overloads("p06.cpp")]),
    "P07": functional("p07.cpp"),
    "P08": functional("p08.cpp", extra=["-ftrivial-auto-var-init=pattern"]),
    "P09": functional("p09.cpp", more=[("p09.cpp", "g++", FUNC_FLAGS + ["-DSECOND", "-DVARIANT=uncached", "-DPLUTO_LOCALE_NO_STATIC=1", "-Dpluto=pluto_uncached"], True), overloads("p09.cpp", "-DSECOND", "-DOVERLOADS=1")]),
    "P10": functional("p10.cpp", more=[("p10_17.cpp", "g++", ["-std=gnu++17" if f == "-std=c++20" else f for f in FUNC_FLAGS] + ["-Dpluto=pluto17"], True), overloads("p10_overloads.cpp")]),
    "P11": functional("p11.cpp"),
    "P12": functional("p12.cpp"),
    "P13": functional("p13.cpp"),
    "P14": functional("p14.cpp", extra=["-fno-sanitize=float-cast-overflow"]),
    "P15": functional("p15.cpp"),
    "P16": functional("p16.cpp"),
    "P17": functional("p17.cpp"),
    "P18": functional("p18.cpp", level="fault_enumeration"),
    "P19": concurrent("p19.cpp", more=[("p19_14.cpp", "g++", ["-std=gnu++14" if f == "-std=c++20" else f for f in TSAN_FLAGS] + ["-Dpluto=pluto14"], True)]),
    "P20": functional("p20.cpp", more=[("p20_14.cpp", "g++", ["-std=gnu++14" if f == "-std=c++20" else f for f in FUNC_FLAGS] + ["-Dpluto=pluto14"], True)]),
    "P21": functional("p21.cpp", more=[("p21_%s.cpp" % v, "g++", FUNC_FLAGS + ["-Dpluto=pluto_%s" % v], True) for v in ("micro", "hundred_ns", "default")]),
    "P22": functional("p22.cpp"),
    "P23": concurrent("p23.cpp"),
    "P24": concurrent("p24.cpp"),
    "P25": concurrent("p25.cpp"),
    "P26": concurrent("p26.cpp", more=[("p26_%s.cpp" % v, "g++", TSAN_FLAGS + ["-Dpluto=pluto_%s" % v, "-Dpool_test=pool_test_%s" % v], True) for v in ("steady", "coarse")]),
    "P27": concurrent("p27.cpp"),
    "P28": concurrent("p28.cpp"),
    "P29": concurrent("p29.cpp"),
    "P30": functional("p30.cpp"),
    "P31": functional("p31.cpp", more=[("p31.cpp", "g++", FUNC_FLAGS + ["-DVARIANT=hidden", "-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1", "-Dpluto=pluto_hidden"], True)]),
    "P32": functional("p32.cpp", more=[("p32.cpp", "g++", FUNC_FLAGS + ["-DVARIANT=hidden", "-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1", "-Dpluto=pluto_hidden"], True),
                                       ("p32.cpp", "g++", FUNC_FLAGS + ["-DVARIANT=micro", "-DMICRO_CLOCK=1", "-Dpluto=pluto_micro"], True)]),
    "P33": concurrent("p33.cpp"),
    "P34": concurrent("p34.cpp"),
    "P35": concurrent("p35.cpp"),
    "P37": functional("p37.cpp", more=[("p37.cpp", "g++", FUNC_FLAGS + ["-DSECOND", "-DVARIANT=%s" % v, "-Dpluto=pluto_%s" % v] + f, True)
                                       for v, f in (("uncached", ["-DPLUTO_LOCALE_NO_STATIC=1"]), ("classic", ["-DDEFAULT_CLASSIC"]), ("uncached_utf8", ["-DPLUTO_LOCALE_NO_STATIC=1", "-DDEFAULT_UTF8"]))]),
    "P36": {
        "units": [("pbt.cpp", "g++", ENGINE_FLAGS, False), ("p36.cpp", "g++", ["-std=c++20", "-O1", "-g1", "-w"], False)],
        "link": ["g++", "-pthread", "-ldl"],
        # the same file built in every way; p36.cpp compares the answers
        "libs": [("p36_eval.cpp", cxx, ["-std=c++%d" % std, "-O%d" % opt, "-w", "-Dpluto=pluto_%d" % i, "-Dp36=p36_%d" % i] + extra)
                 for i, (cxx, std, opt, extra) in enumerate(BUILDS)],
        "level": "exploration",
        "technique": "property-based testing (differential between builds, generated programs)",
        "assumptions": ["g++ 13 and clang++ 18 with libstdc++ 13 on x86-64 Linux"],
    },
}
