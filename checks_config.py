# Per-property build and run settings.
def C(units, quick_cases=200000, quick_s=60, thorough_s=300, fuzz_s=180, **kw):
    d = {"units": units, "quick": {"cases": quick_cases, "seconds": quick_s},
         "thorough": {"seconds": thorough_s, "fuzz_seconds": fuzz_s}}
    d.update(kw)
    return d
def isa(name, *flags):
    return ("p04_impl.cpp", "-DP04_NAME=" + name, "-DJS=JS_" + name, "-Dty=ty_" + name, "-Dglue=glue_" + name) + flags
try:
    AVX2 = "avx2" in open("/proc/cpuinfo").read()
except OSError:
    AVX2 = False
P04_UNITS = [("p04.cpp",) + (() if AVX2 else ("-DP04_NO_AVX2",)),
             isa("scalar", "-DJS_DISABLE_SIMD"), isa("sse2"), isa("sse42", "-msse4.2"),
             isa("neon", "-U__SSE2__", "-D__ARM_NEON=1", "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "neon"))]
if AVX2:
    P04_UNITS.append(isa("avx2", "-mavx2"))
PORTABLE = ("num_portable.cpp", "-DFT_NO_INT128", "-DJS=JS_portable")
CHECKS = {
    "P02": C(["p02.cpp"], 900000),
    "P03": C(["p03.cpp"], 450000),
    "P04": C(P04_UNITS, 450000),
    "P05": C(["p05.cpp"], 450000),
    "P06": C(["p06.cpp"], 180000),
    "P07": C(["p07.cpp"], 120000),
    "P08": C(["p08.cpp"], 240000),
    "P09": C(["p09.cpp"], 900000),
    "P10": C(["p10.cpp", PORTABLE], 1200000),
    "P11": C(["p11.cpp", PORTABLE], 1200000),
    "P12": C(["p12.cpp"], 600000, std="gnu++17"),
    "P13": C(["p13.cpp"], 600000),
    "P14": C(["p14.cpp"], 300000),
    "P15": C(["p15.cpp"], 3000000),
    "P16": C(["p16.cpp"], 450000),
    "P17": C(["p17.cpp"], 900000),
    "P18": C(["p18.cpp"], 600000),
    "P19": C(["p19.cpp"], 450000),
    "P20": C(["p20.cpp"], 750000),
    "P21": C(["p21.cpp"], 300000),
    "P22": C(["p22.cpp"], 1200000),
    "P23": C(["p23.cpp"], 1200000),
    "P24": C(["p24.cpp"], 1200000),
    "P25": C(["p25.cpp"], 450000),
    "P27": C(["p27.cpp"], 1200000),
    "P28": C(["p28.cpp"], 900000),
    "P26": C(["p26.cpp"], 1500000),
    "P01": C(["p01.cpp"], 1200000),
    "P30": C(["p30.cpp"], 600000),
    "P29": C(["p29.cpp"], 180000),
    "P32": C(["p32.cpp"], 150000),
    "P31": C(["p31.cpp"], 24000, threads=True,
             note="Random search over jobs, nestings and thread plans under the thread sanitizer (address sanitizer in the coverage-guided part); assurance is limited to the generated cases counted in the evidence file. Trusts the compiler and the sanitizers; schedules are the operating system's, races are found by happens-before analysis of them."),
}
