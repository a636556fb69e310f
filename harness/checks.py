"""Table of the checks: how each property's harness is built."""
import os
A = ["values outside the enumerated alphabets are not visited; GMP is the reference for exact integers",
     "x86-64 Linux, little endian"]
# name, unchecked mode, compiler, flags
_T = ["-DCFG_TYPES_1"]
CONFIGS = [
    ("g++ -O2 c++20", 0, "g++", ["-std=c++20", "-O2", *_T]),
    ("g++ -O0", 0, "g++", ["-std=c++20", "-O0", *_T]),
    ("g++ -O3", 0, "g++", ["-std=c++20", "-O3", *_T]),
    ("g++ -Os, no assertions", 0, "g++", ["-std=c++20", "-Os", "-DNDEBUG", *_T]),
    ("g++ -O2, library assertions", 0, "g++", ["-std=c++20", "-O2", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", *_T]),
    ("g++ unchecked mode", 1, "g++", ["-std=c++20", "-O2", "-DAESI_UNSAFE", *_T]),
    ("g++ GMP integration", 0, "g++", ["-std=c++20", "-O2", "-DAESI_GMP_INTEGRATION", *_T]),
    ("g++ old-style comparison", 0, "g++", ["-std=c++20", "-O2", "-DPRE_CPP_20", "-DVERIF_OLD_COMPARE", *_T]),
    ("g++ c++23", 0, "g++", ["-std=c++23", "-O2", *_T]),
    ("g++ unsigned char", 0, "g++", ["-std=c++20", "-O2", "-funsigned-char", *_T]),
    ("clang++ -O0", 0, "clang++", ["-std=c++20", "-O0", *_T]),
    ("clang++ -O2", 0, "clang++", ["-std=c++20", "-O2", *_T]),
    ("clang++ -O3 c++23 unchecked mode, no assertions, GMP", 1, "clang++", ["-std=c++23", "-O3", "-DAESI_UNSAFE", "-DNDEBUG", "-DAESI_GMP_INTEGRATION", *_T]),
    ("clang++ old-style comparison, unsigned char", 0, "clang++", ["-std=c++20", "-O1", "-DPRE_CPP_20", "-DVERIF_OLD_COMPARE", "-funsigned-char", *_T]),
    ("g++ -O1, uninitialised variables filled with a pattern", 0, "g++", ["-std=c++20", "-O1", "-ftrivial-auto-var-init=pattern", *_T]),
    ("clang++ -O1, uninitialised variables zeroed", 0, "clang++", ["-std=c++20", "-O1", "-ftrivial-auto-var-init=zero", *_T]),
    ("g++ -O2, wrapping signed arithmetic, no aliasing assumptions", 0, "g++", ["-std=c++20", "-O2", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", *_T]),
    ("g++ -Ofast -funroll-loops, unchecked mode, old-style comparison, GMP", 1, "g++", ["-std=c++20", "-Ofast", "-funroll-loops", "-DAESI_UNSAFE", "-DPRE_CPP_20", "-DVERIF_OLD_COMPARE", "-DAESI_GMP_INTEGRATION", *_T]),
    ("clang++ -Os, library assertions, no assertions of the library itself", 0, "clang++", ["-std=c++20", "-Os", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC", *_T]),
    ("clang++ -O1 c++23, wrapping signed arithmetic", 0, "clang++", ["-std=c++23", "-O1", "-fwrapv", "-fno-strict-aliasing", "-fno-finite-loops", *_T]),
    ("clang++ CUDA branches emulated on the host, GMP, unchecked mode", 1, "clang++", ["-std=c++20", "-O2", "-DVERIF_OLD_COMPARE", "-DAESI_UNSAFE", "-DAESI_GMP_INTEGRATION", "-include", "cudastub.h", *_T]),
    ("g++ c++23, no exceptions, no run-time types, threads, fortified, hidden visibility", 0, "g++", ["-std=c++23", "-O2", "-fno-exceptions", "-fno-rtti", "-pthread", "-D_FORTIFY_SOURCE=3", "-fstack-protector-strong", "-D_GLIBCXX_USE_CXX11_ABI=0", *_T]),
    ("clang++ c++26, no exceptions, no run-time types, threads", 0, "clang++", ["-std=c++26", "-O2", "-fno-exceptions", "-fno-rtti", "-pthread", "-fno-math-errno", *_T]),
    ("g++ CUDA branches emulated on the host", 0, "g++", ["-std=c++20", "-O2", "-DVERIF_OLD_COMPARE", "-include", "cudastub.h", *_T]),
]
# Together with the rows above: every combination of any three of these switches occurs (a covering array of strength 3).
_SWITCH = {"UNSAFE": ["-DAESI_UNSAFE"], "NDEBUG": ["-DNDEBUG"], "GMP": ["-DAESI_GMP_INTEGRATION"], "OLD": ["-DPRE_CPP_20", "-DVERIF_OLD_COMPARE"], "CUDA": ["-DVERIF_OLD_COMPARE", "-include", "cudastub.h"], "UCHAR": ["-funsigned-char"], "DEBUGLIB": ["-D_GLIBCXX_ASSERTIONS"]}
for _i, _row in enumerate([
    "UNSAFE NDEBUG GMP OLD CUDA STD23 UCHAR DEBUGLIB GNU",
    "CUDA STD23 UCHAR CLANG DEBUGLIB GNU",
    "UNSAFE NDEBUG OLD CUDA CLANG GNU",
    "NDEBUG GMP OLD UCHAR CLANG OPT DEBUGLIB GNU",
    "UNSAFE GMP STD23 UCHAR GNU",
    "GMP OLD CUDA STD23 CLANG DEBUGLIB",
    "UNSAFE NDEBUG OLD CUDA STD23 UCHAR CLANG OPT DEBUGLIB",
    "UNSAFE OPT DEBUGLIB GNU",
    "NDEBUG GMP CUDA UCHAR CLANG DEBUGLIB",
    "NDEBUG GMP OLD CUDA STD23 OPT GNU",
    "UNSAFE NDEBUG GMP OLD STD23 DEBUGLIB",
    "UNSAFE NDEBUG GMP CUDA UCHAR CLANG GNU",
    "UNSAFE GMP OLD CLANG DEBUGLIB GNU",
]):
    _on = _row.split()
    _fl = ["-std=" + ("gnu++" if "GNU" in _on else "c++") + ("23" if "STD23" in _on else "20"), ["-O1", "-O2", "-O3"][_i % 3] if "OPT" in _on else "-O0"]
    for _k in _on:
        _fl += [x for x in _SWITCH.get(_k, []) if x == "-include" or x not in _fl]
    CONFIGS.append(("clang++ " * ("CLANG" in _on) + "g++ " * ("CLANG" not in _on) + "covering row %d: %s" % (_i + 1, " ".join(_on)), int("UNSAFE" in _on), "clang++" if "CLANG" in _on else "g++", _fl + _T))
# code that selects instructions by the target's capabilities (only where this processor has them)
try:
    _cpu = set(open("/proc/cpuinfo").read().split())
except OSError:
    _cpu = set()
if {"avx2", "bmi1", "bmi2", "abm", "movbe", "fma", "f16c", "popcnt", "ssse3", "sse4_1", "sse4_2", "cx16", "lahf_lm"} <= _cpu:
    CONFIGS.append(("g++ gnu++20 -O3, x86-64-v3", 0, "g++", ["-std=gnu++20", "-O3", "-march=x86-64-v3", *_T]))
    CONFIGS.append(("clang++ gnu++20 -O2, x86-64-v3", 0, "clang++", ["-std=gnu++20", "-O2", "-march=x86-64-v3", *_T]))
CHECKS = {
    "C01": {"sources": [("C01.cpp", 12)], "assumptions": A},
    "C02": {"sources": [("C02.cpp", 12)], "assumptions": A},
    "C03": {"sources": [("C03.cpp", 12)], "assumptions": A},
    "C04": {"sources": [("C04.cpp", 12)], "assumptions": A},
    "C05": {"sources": [("C05.cpp", 12)], "assumptions": A},
    "C06": {"sources": [("C06.cpp", 10)], "assumptions": A},
    "C07": {"sources": [("C07.cpp", 9)], "assumptions": A},
    "C08": {"sources": [("C08.cpp", 9)], "assumptions": A},
    "C09": {"sources": [("C09.cpp", 10)], "assumptions": A},
    "C10": {"sources": [("C10.cpp", 11)], "assumptions": A},
    "C11": {"sources": [("C11.cpp", 10)], "assumptions": A},
    "C12": {"sources": [("C12.cpp", 8)], "assumptions": A},
    "C13": {"sources": [("C13.cpp", 10)], "assumptions": A},
    "C14": {"sources": [("C14.cpp", 9)], "assumptions": A},
    "C15": {"sources": [("C15.cpp", 6)], "assumptions": A + ["non-ASCII characters are not alphanumeric, whatever the program's locale says"]},
    "C16": {"sources": [("C16.cpp", 5)], "assumptions": A + ["width 0, classic locale; text of a zero under showbase is accepted with or without prefix"]},
    "C17": {"sources": [("C17.cpp", 10)], "assumptions": A + ["truncated text in a too-small buffer is unspecified; contents of the buffer behind the terminator are unspecified"]},
    "C18": {"sources": [("C18.cpp", 9)], "assumptions": A + ["char streams only: the wchar_t instantiation of readBinary/writeBinary does not compile"]},
    "C19": {"sources": [("C19.cpp", 10)], "assumptions": A},
    "C20": {"sources": [("C20.cpp", 9)], "assumptions": A,
            "variants": [{"variant_name": "g++", "flags": ["-O2", "-DAESI_GMP_INTEGRATION"]}, {"variant_name": "clang++", "cxx": "clang++", "flags": ["-O1", "-DAESI_GMP_INTEGRATION"]}]},
    "C21": {"sources": [("C21.cpp", 13)], "assumptions": A + ["out-parameters of divide and gcd are distinct from the inputs"]},
    "C22": {"sources": [("C22.cpp", 30)], "nogla": True,
            "variants": [{"variant_name": "g++ evaluates the constant expressions", "flags": ["-O1", "-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-cache-depth=8"]},
                         {"variant_name": "clang++ evaluates the constant expressions of the 96-bit types", "cxx": "clang++", "sources": [("C22.cpp", 10)], "flags": ["-O1", "-fconstexpr-steps=2000000000", "-fconstexpr-depth=5000"]}],
            "control": ["-DVERIF_NO_CONSTEXPR"], "control_message": "an operation on legal operands is not a constant expression",
            "assumptions": A},
    "C23": {"cxx": "clang++", "sources": [("C23.cpp", 12), ("ctrlsched.cpp", [None])], "flags": ["-O2"], "source_flags": {"C23.cpp": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"]}, "ldflags": ["-rdynamic"],
            "assumptions": A + ["instrumentation sees the code compiled into the harness (all of the library: it is header-only); libstdc++ and libc are assumed thread-safe",
                                "preemption bound 2 (thorough: 3) at synchronisation operations; accesses the program does not order are reported as races, so plain accesses need no switch points"]},
    "C24": {"sources": [("C24.cpp", 6)], "ldflags": ["-ldl"], "config_source": "C24_cfg.cpp", "config_libs": ["-lgmpxx", "-lgmp"], "configs": CONFIGS, "env": {},
            "assumptions": A + ["CUDA is emulated on the host (stub headers, no nvcc); no 32-bit or non-x86 target is installed"]},
    "C25": {"sources": [("C25.cpp", 13)], "assumptions": A + ["signed results whose magnitude reaches 2^N end a branch; moved-from numbers are assigned before use"]},
    "C27": {"cxx": "clang++", "sources": [("C27.cpp", [None]), ("ctrlsched.cpp", [None])], "flags": ["-O2", "-I", os.path.join(os.path.dirname(os.path.abspath(__file__)), "cudastub")], "source_flags": {"C27.cpp": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"]}, "ldflags": ["-rdynamic"],
            "assumptions": A + ["no CUDA compiler or device here: the __CUDACC__ branches are compiled on the host with stub vocabulary; atomicExch is modelled as one indivisible relaxed exchange of a 32-bit word",
                                "signed numbers: sequential use only (the library documents the sign as not atomic)"]},
    "C26": {"cxx": "clang++", "sources": [("C26.cpp", 13)],
            "variants": [{"variant_name": "clang address + undefined-behaviour sanitizer, library assertions", "flags": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "ldflags": ["-fsanitize=address,undefined"],
                          "env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"}},
                         {"variant_name": "clang memory sanitizer", "flags": ["-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all", "-DVERIF_MSAN", "-fsanitize-ignorelist=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "msan-ignore.txt")], "mainflags": [], "ldflags": ["-fsanitize=memory"], "env": {"MSAN_OPTIONS": "poison_in_malloc=0:poison_in_free=0"}}],
            "assumptions": A + ["the memory sanitizer build leaves out the stream operations (uninstrumented libstdc++)"]},
}
_LIM = "Bounded by the tables and bounds listed in the evidence file. Trusted: the reference model (GMP or the operation on distinct copies), the compilers, the harness."
for _id, _t in {
    "C16": "explicit-state exploration: every sequence of stream manipulators and outputs up to a depth, and every device-failure point, on the real operators in lockstep with a reference formatter",
    "C17": "explicit-state exploration: every value of an alphabet x every buffer size (guard bytes around the buffer), in lockstep with a reference numeral",
    "C18": "exhaustive fault-point exploration: every truncation point, chunking and device-failure byte of every stream history, in lockstep with a byte-exact model",
    "C21": "exhaustive exploration of aliasing patterns x operations, in lockstep with the same operation on distinct copies",
    "C22": "exhaustive exploration of operation x operand tables executed twice, by the constant evaluator and at run time, and compared",
    "C23": "stateless model checking: every schedule of 2-3 threads up to a preemption bound under a controlled scheduler with happens-before race detection on the instrumented real code; plus all two-operation histories",
    "C24": "exhaustive exploration of operation x operand tables executed by every configuration's build in lockstep",
    "C25": "explicit-state exploration of all operation sequences up to a depth on a set of registers, in lockstep with exact integers",
    "C27": "stateless model checking: every interleaving (up to a preemption bound) of the block operations of 2-3 threads under a controlled scheduler with race detection, each final state checked against all orders; plus exhaustive sequential value pairs",
    "C26": "exhaustive exploration of operation x operand tables (every built-in type, every buffer size, every short text) on builds whose undefined behaviour traps (address, undefined-behaviour and memory sanitizers as monitors)",
}.items():
    CHECKS[_id]["technique"] = _t
    CHECKS[_id]["note"] = _LIM
