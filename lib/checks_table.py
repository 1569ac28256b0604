"""The checks: which harness decides which property, in which configurations."""
import os
import c01_concepts, k01_constant, p01_programs, p02_modules
import s03_simd
import s04_detection

SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-D_GLIBCXX_ASSERTIONS"]
OPT = ["-O2", "-DNDEBUG"]
AVX2 = ["-mavx2", "-DXME_SIMD_ENABLE_AVX2"]
AVX512 = ["-mavx512f", "-DXME_SIMD_ENABLE_AVX512F"]
SSE42 = ["-msse4.2", "-DXME_SIMD_ENABLE_SSE42"]
SSSE3 = ["-mssse3", "-DXME_SIMD_ENABLE_SSSE3"]
SSE3 = ["-msse3", "-DXME_SIMD_ENABLE_SSE3"]
SSE2 = ["-DXME_SIMD_ENABLE_SSE2"]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
TBB = ["-ltbb"]

CONFIGS = {
    # sanitizers and assertions on
    "san": {"cxx": "g++", "flags": SAN},
    # as a release build: optimised, assertions off
    "opt": {"cxx": "g++", "flags": OPT, "scale": 3.0},
    "clang": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                          "-fno-sanitize=function",
                                          "-fno-sanitize-address-use-after-scope"]},
    "fuzz": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined",
                                         "-fno-sanitize-recover=all", "-fno-sanitize=function", "-fno-sanitize-address-use-after-scope",
                                         "-DPBT_FUZZ"]},
    # quick to compile, for harnesses of many templates
    "asan0": {"cxx": "g++", "flags": ["-O0", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]},
    "rel1": {"cxx": "g++", "flags": ["-O1", "-DNDEBUG"], "scale": 2.0},
    # extensions of GNU: __int128 counts as an integral type
    "gnu": {"cxx": "g++", "flags": ["-std=gnu++20", "-O1", "-g1"]},
    # C++23: the branches of the code for deducing this
    "clang23": {"cxx": "clang++", "flags": ["-std=c++23", "-D__cpp_explicit_this_parameter=202110L", "-O0", "-g1", "-fsanitize=address",
                                            "-fno-sanitize-recover=all", "-fno-sanitize=function",
                                          "-fno-sanitize-address-use-after-scope"]},
    "gcc23": {"cxx": "g++", "flags": ["-std=c++23", "-O1", "-DNDEBUG"]},
    # assertions on, no sanitizer (coroutines)
    "asserts": {"cxx": "g++", "flags": ["-O1", "-g1"]},
    # real threads
    "tsan": {"cxx": "g++", "flags": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], "probe": True},
    # instruction sets
    "asan-sse2": {"cxx": "g++", "flags": ASAN + SSE2},
    "asan-ssse3": {"cxx": "g++", "flags": ASAN + SSSE3},
    "asan-avx2": {"cxx": "g++", "flags": ASAN + AVX2, "cpu": "avx2"},
    "san-sse42": {"cxx": "g++", "flags": SAN + SSE42},
    "san-avx2": {"cxx": "g++", "flags": SAN + AVX2, "cpu": "avx2"},
    "san-avx512": {"cxx": "g++", "flags": SAN + AVX512, "cpu": "avx512f"},
    "opt-sse3": {"cxx": "g++", "flags": OPT + SSE3, "scale": 3.0},
    "opt-sse42": {"cxx": "g++", "flags": ["-std=gnu++20"] + OPT + SSE42, "scale": 3.0},
    "opt-avx2": {"cxx": "g++", "flags": OPT + AVX2, "scale": 3.0, "cpu": "avx2"},
    "opt-avx512": {"cxx": "g++", "flags": OPT + AVX512, "scale": 1.0, "cpu": "avx512f"},
    "opt-avx": {"cxx": "g++", "flags": OPT + ["-mavx", "-DXME_SIMD_ENABLE_AVX"], "cpu": "avx"},
    "opt-sse41": {"cxx": "g++", "flags": OPT + ["-msse4.1", "-DXME_SIMD_ENABLE_SSE41"]},
    # less enabled than the compiler may use
    "native-sse2": {"cxx": "g++", "flags": OPT + ["-mavx2"] + SSE2, "cpu": "avx2"},
    "native-sse": {"cxx": "g++", "flags": OPT + ["-mavx2", "-DXME_SIMD_ENABLE_SSE"], "cpu": "avx2"},
    "native-mmx": {"cxx": "g++", "flags": OPT + ["-mavx2", "-DXME_SIMD_ENABLE_MMX"], "cpu": "avx2"},
    # math: clip volume handedness
    "opt-lh": {"cxx": "g++", "flags": OPT + ["-DXME_MATH_CLIP_LH"]},
}

ASSUMPTIONS = ["g++ 13, libstdc++, range-v3 and the sanitizers' run time behave as specified",
               "the harness uses the public interface within its documented preconditions"]

CHECKS = {}


def make_libraries(work, sh):
    """The shared libraries of S02, in the scratch directory of the run"""
    d = os.path.join(work, "libs")
    os.mkdir(d)
    for i, name in enumerate(["libone.so", "libone.so2", "libone", "libother.so", "libone.so.1"]):
        src = os.path.join(d, "l%d.c" % i)
        with open(src, "w") as f:
            f.write("int which(void){return %d;}\nint which_2(int x){return %d+x;}\nconst int number=%d,own_%d=%d;\n"
                    % (i, 100 * i, 1000 + i, i, 2000 + i))
        rc, out = sh(["gcc", "-shared", "-fPIC", "-O1", "-nostdlib", "-o", os.path.join(d, name), src], 120)
        if rc != 0:
            raise RuntimeError("the test libraries do not build: " + out[-500:])
    with open(os.path.join(d, "notalibrary.so"), "w") as f:
        f.write("this is no library\n")
    return ['-DLIBDIR="%s"' % d]


def check(pid, src, rule, configs=("san", "opt"), **kw):
    CHECKS[pid] = dict(src=src, rule=rule, configs=list(configs), **kw)


check("A01", "a01_array_model.cpp",
      "A case is a generated history of operations over three Arrays, replayed on std::vector. "
      "Non-trivial: at least 4 operations took effect, including one that inserts or erases before the end or "
      "reallocates a non-empty Array.",
      scale={"san": 4, "opt": 4})

check("A02", "a02_array_lifetime.cpp",
      "A case is a generated history of operations over three Arrays whose elements and memory are entered in a ledger. "
      "Non-trivial: at least 4 operations took effect, including one that inserts or erases before the end or "
      "reallocates a non-empty Array.",
      scale={"san": 2, "opt": 2})

check("A03", "a03_array_capacity.cpp",
      "A case is a generated history of operations on two Arrays (or one of more than 2^32 elements), with the storage observed before and after each. "
      "Non-trivial: at least 3 operations on an Array of two or more elements (or more than 30 appends).")

check("A04", "a04_array_faults.cpp",
      "A case is one operation on a generated Array, repeated with a failure injected at every element creation and "
      "every allocation it makes in turn, or a history of operations with failures at generated points. Non-trivial: "
      "the Array held elements and the operation failed at one point at least (or 2 operations of the history failed).",
      level="fault_enumeration", technique="property-based testing with enumerated fault injection")

check("A05", "a05_array_view.cpp",
      "A case makes views of generated storage in every supported way and cuts generated sub-views out of them. "
      "Non-trivial: the view has at least two elements.",
      technique="property-based testing against the viewed storage",
      scale={"san": 6, "opt": 6})

check("A06", "a06_array_iterators.cpp",
      "A case walks an iterator through a generated sequence of moves, comparing it with its position, or runs an "
      "algorithm over an Array and over a std::vector. Non-trivial: at least 3 moves over at least two elements.",
      technique="property-based testing against integer positions",
      scale={"san": 6, "opt": 6})

check("H01", "h01_heap.cpp",
      "A case is a generated history of pushes, emplaces, pops and constructions, ending with popping everything, "
      "replayed on a multiset. Non-trivial: at least 5 operations, and 3 elements left to pop at the end.",
      scale={"san": 0.4, "opt": 0.5})

check("L01", "l01_list_model.cpp",
      "A case is a generated history of operations over three LinkedLists, replayed on vectors of nodes that remember "
      "the address and an iterator of each element. Non-trivial: at least 4 operations took effect, including one "
      "past the front.")

check("L02", "l02_list_lifetime.cpp",
      "A case is a generated history of operations over three LinkedLists with a ledger of elements and nodes, with or "
      "without injected failures, or one operation failing at every point in turn. Non-trivial: at least 4 operations "
      "including one past the front (2 failed operations; one point of failure).",
      level="fault_enumeration", technique="stateful property-based testing with enumerated fault injection")

check("Q01", "q01_spsc_fifo.cpp",
      "A case is a generated history of pushes, emplaces, pops and consumes on a queue of generated capacity, replayed on "
      "a bounded std::deque. Non-trivial: more values went in than the capacity, so the indices wrapped around.")

check("Q02", "q02_spsc_lifetime.cpp",
      "A case is a generated history of pushes, pops and consumes, some of which fail, with a ledger of the elements and "
      "the memory. Non-trivial: more than 5 operations, and elements left in the queue for its destructor.")

check("D01", "d01_aligned_data.cpp",
      "A case places an AlignedData of one element type and alignment in generated surroundings, or creates one from "
      "generated arguments. Non-trivial: all.",
      technique="property-based testing against the placement and the constructed value",
      scale={"san": 4, "opt": 4})

check("Q03", "q03_spsc_schedules.cpp",
      "A case is a generated program for a producer and one for a consumer, run under a generated schedule, with stale "
      "values for the loads of the indices chosen by generation (or by real threads in the tsan configuration). "
      "Non-trivial: the threads were switched at least 3 times within the operations and a value was received (tsan: more "
      "values than the queue holds).",
      ["opt", "asserts", "tsan"], technique="property-based testing of generated schedules over a simulated memory model",
      fuzz=False, thorough_configs=[],
      assumptions=["the simulated memory model is C++20's without load buffering (no value is read before it is written)"])

check("T01", "t01_pair.cpp",
      "A case generates two values of each of two types and creates, accesses, compares, swaps, copies, moves and assigns "
      "Pairs of them. Non-trivial: all (types are enumerated, values generated).",
      ["asan0", "rel1", "clang23"], technique="property-based testing against the separate values", thorough_configs=["san", "opt", "clang"])

check("T02", "t02_tuple.cpp",
      "A case generates the values of two std::tuples of one of the shapes and creates, accesses, compares, swaps, copies, "
      "moves, assigns, converts, applies and concatenates Tuples of them. Non-trivial: at least two elements.",
      ["asan0", "rel1", "clang23"], technique="property-based testing against std::tuple and the objects given",
      thorough_configs=["san", "opt", "clang"])

check("F01", "f01_bind.cpp",
      "A case binds 0-4 generated arguments at the front or the back of a recording function object and calls it three times "
      "with 0-4 generated arguments in generated categories, or does the same with functions and member pointers. "
      "Non-trivial: bound and call arguments are both present.",
      ["asan0", "rel1", "clang23"], technique="property-based testing against the arguments given",
      thorough_configs=["san", "opt", "clang"])

check("F02", "f02_delegate.cpp",
      "A case is a generated history of operations over four Delegates with targets of 11 kinds, replayed on a model of "
      "their targets and states, or generated values through Delegates of many signatures. Non-trivial: at least 5 "
      "operations, and two callables given.", scale={"opt": 0.5})

check("F03", "f03_delegate_lifetime.cpp",
      "A case is a generated history of operations over four Delegates with targets in a ledger and all memory obtained "
      "recorded, with or without failing copies and allocations. Non-trivial: at least 5 operations with a swap or move "
      "assignment (one that failed).",
      level="fault_enumeration", technique="stateful property-based testing with fault injection")

check("F04", "f04_scoped_delegate.cpp",
      "A case is a generated nesting of scopes with ScopedDelegates, left in generated ways. Non-trivial: at least three "
      "scopes, one of them left early.", technique="property-based testing against the sequence of calls")

check("E01", "e01_exceptions.cpp",
      "A case is a generated operation with generated operands, executed once for each of its points of failure (until it doesn't "
      "fail), with a count of living objects. Non-trivial: it failed at least once.", level="fault_enumeration",
      ldflags=TBB, technique="property-based testing with exhaustive fault injection", scale={"opt": 0.5})

check("N01", "n01_icontainer.cpp",
      "A case fills a container of one of 27 kinds, iterated in different ways, that derives from IContainer, and compares what "
      "it gives, as an object and as a constant one, with iterating it; it writes through what it is given. Non-trivial: at "
      "least two elements.", technique="property-based testing against iterating", scale={"opt": 0.5})

check("I01", "i01_reverse_iterator.cpp",
      "A case walks a ReverseIterator over a generated sequence through a sequence of generated moves, with comparisons and "
      "conversions at each position, or runs an algorithm through reverse iterators. Non-trivial: at least 3 moves over at "
      "least two elements.", technique="property-based testing against positions",
      scale={"san": 1, "opt": 0.5})

check("I02", "i02_const_iterator.cpp",
      "A case walks a ConstIterator over a generated sequence through a sequence of generated moves, with comparisons with "
      "other iterators and sentinels at each position, or reads a sequence through one. Non-trivial: at least 3 moves over "
      "at least two elements.", technique="property-based testing against the wrapped iterators",
      scale={"san": 1, "opt": 0.5})

check("G01", "g01_find.cpp",
      "A case generates a range of one of 29 element types, at a generated place next to memory that can't be accessed or "
      "that is full of what is looked for, and looks for a value, through generated forms of range and a policy. "
      "Non-trivial: at least 16 bytes, and the first element isn't equal.",
      ["asan-sse2", "asan-avx2", "opt", "opt-sse42", "opt-avx", "opt-sse41", "opt-avx512"], ldflags=TBB,
      technique="property-based testing against a loop, in every SIMD configuration", fuzz=False,
      thorough_configs=["san", "asan-sse2", "asan-ssse3", "asan-avx2", "san-sse42", "san-avx2", "san-avx512", "opt", "opt-sse3",
                        "opt-sse41", "opt-sse42", "opt-avx", "opt-avx2", "opt-avx512", "native-sse2", "native-sse",
                        "native-mmx", "clang"])

check("G02", "g02_reverse.cpp",
      "A case generates a range of one of 16 element types, at a generated place next to memory that can't be accessed, and "
      "reverses it twice. Non-trivial: more than 32 bytes (containers: more than 2 elements).",
      ["asan-sse2", "asan-ssse3", "asan-avx2", "opt", "opt-sse3", "opt-sse42", "opt-avx", "opt-avx512"], ldflags=TBB,
      technique="property-based testing against the definition, in every SIMD configuration", fuzz=False,
      thorough_configs=["san", "asan-sse2", "asan-ssse3", "asan-avx2", "san-sse42", "san-avx2", "san-avx512", "opt", "opt-sse3",
                        "opt-sse41", "opt-sse42", "opt-avx", "opt-avx2", "opt-avx512", "native-sse2", "native-sse",
                        "native-mmx", "clang"])

check("B01", "b01_bits.cpp",
      "A case is a generated value of one of the types (few bits, few zeros, next to a power of two, or any), or an object and "
      "a type to forward it like; the values of 8 and 16 bits are all tried. Non-trivial: not zero.",
      ["san", "opt", "gnu"], technique="property-based testing against bit by bit definitions", scale={"opt": 3})

check("R01", "r01_ranges.cpp",
      "A case copies or fills into raw memory at a generated place from a generated sequence, with or without a failing copy, or "
      "destroys generated ones of 24 elements, with a ledger of elements and an allocator that records its calls. Non-trivial: "
      "at least 2 elements.", level="fault_enumeration", technique="property-based testing with a ledger and fault injection",
      scale={"san": 2})

MATH = dict(thorough_configs=["san", "opt", "clang"])

check("M01", "m01_vector.cpp",
      "A case is a generated history of constructions, conversions, arithmetic, writes and comparisons over three vectors of one "
      "size and component type, replayed on arrays of numbers. Non-trivial: at least 3 operations took effect.",
      ["asan0", "rel1"], technique="stateful property-based testing against scalar arithmetic", scale={"asan0": 2, "rel1": 4}, **MATH)

check("M02", "m02_geometry.cpp",
      "A case is two or three generated vectors of one size and component type, given to every geometric function. Non-trivial: "
      "neither is zero, nor orthogonal or equal.",
      ["asan0", "rel1"], technique="property-based testing against the definitions in a wider type", scale={"rel1": 2}, **MATH)

check("M03", "m03_matrix.cpp",
      "A case is a generated history of constructions, conversions, arithmetic, products, writes and comparisons over three "
      "matrices of one shape, replayed on arrays of numbers. Non-trivial: at least 3 operations took effect.",
      ["asan0", "rel1"], technique="stateful property-based testing against scalar arithmetic", scale={"asan0": 2, "rel1": 4}, **MATH)

check("M04", "m04_matrix_functions.cpp",
      "A case is a generated matrix, or two and two vectors. Non-trivial: the determinant isn't 0 (always, for the other functions).",
      ["asan0", "rel1"], technique="property-based testing against the definitions in a wider type", scale={"rel1": 4}, **MATH)

check("M05", "m05_transformations.cpp",
      "A case is a generated matrix and a vector, or an angle and a unit axis. Non-trivial: the vector has different components, "
      "none of them 0; the angle isn't 0 and the axis isn't one of the coordinates' (whole axes: the angle isn't 0).",
      ["asan0", "rel1"], technique="property-based testing against the definitions in a wider type", scale={"rel1": 4}, **MATH)

check("M06", "m06_projections.cpp",
      "A case is a generated frustum, box and field of view, whose corners are projected by every projection. Non-trivial: the "
      "volume isn't symmetric.",
      ["asan0", "rel1", "opt-lh"], technique="property-based testing of the images of the corners",
      scale={"rel1": 3, "opt-lh": 2}, thorough_configs=["san", "opt", "clang"])

check("M07", "m07_quaternion.cpp",
      "A case is two or three generated quaternions, multiplied, added and compared. Non-trivial: their product doesn't commute "
      "(for components and comparison: all).",
      ["asan0", "rel1"], technique="property-based testing against Hamilton's multiplication table", scale={"rel1": 4}, **MATH)

check("M08", "m08_scalars.cpp",
      "A case is one of the 32 constants in its three types (all are enumerated), or a generated argument of one type given to "
      "every function. Non-trivial: the argument isn't 0.",
      ["asan0", "rel1"], technique="property-based testing against a wider type; constants computed from their definitions",
      scale={"rel1": 4}, **MATH)

check("M09", "m09_lerp_sign.cpp",
      "A case is two generated vectors and a generated percentage and vector of them, or a generated number and vectors of them. "
      "Non-trivial: all (sign: the number isn't 0).",
      ["asan0", "rel1"], technique="property-based testing against the definition in a wider type", scale={"rel1": 4}, **MATH)

check("S01", "s01_environment.cpp",
      "A case is a generated history of sets and gets of 14 variables, whose names and values are views into larger buffers, "
      "replayed on a map. Non-trivial: at least two sets, and one that changes a value.",
      technique="stateful property-based testing against a map")

check("S02", "s02_shared_library.cpp",
      "A case is a generated history of operations over four SharedLibrary objects and five libraries, replayed on a model of "
      "who holds what. Non-trivial: at least two libraries opened, and two moved, closed or looked into.",
      ["asan0", "opt"], technique="stateful property-based testing against a model, asking the dynamic loader", fuzz=False,
      ldflags=["-ldl"], prepare=make_libraries, thorough_configs=["san", "clang"])

check("S03", "", "A case is a build configuration: a generated subset of the XME_SIMD_ENABLE_ macros, defined in generated ways, and "
      "generated target options, for one of two compilers; besides, all pairs of sets of features (counted as one non-trivial case). "
      "Non-trivial: at least two macros or options.", run=s03_simd.run,
      technique="property-based testing of generated build configurations", level="exploration")

check("S04", "", "A case is a compiler (g++, or clang++ for one of 29 targets), a language version and a generated selection and order of the "
      "detection headers, whose macros are compared with what was asked for. Non-trivial: all.", run=s04_detection.run,
      technique="property-based testing of generated build configurations")

check("C01", "", "A case is a fact about a generated type (arithmetic types, enumerations, classes and lists with qualifiers, pointers, references, "
      "arrays; iterators; tuples of generated elements; allocators and tuple-likes that lack something) that follows from how it was made. "
      "Non-trivial: all.", run=c01_concepts.run, technique="property-based testing of generated types and programs")

check("K01", "", "A case is a generated history of one part of the library (containers, views, tuples, binders, iterators, algorithms, "
      "mathematics), evaluated as a constant expression and again at run time; a program has 34 of them. Non-trivial: at least four choices.",
      run=k01_constant.run, technique="property-based testing of generated programs: constant evaluation against execution")

check("P01", "", "A case is a program of one to three translation units, each with a generated selection and order of public headers, whose "
      "facilities are used in each unit and whose objects are made by one unit and used by another. Non-trivial: at least two facilities.",
      run=p01_programs.run, technique="property-based testing of generated programs")

check("P02", "", "A case is a program of one to three translation units, each importing a generated selection of modules, including headers, or both; "
      "units use generated facilities, also with objects made in other units. Non-trivial: at least two facilities are used.",
      run=p02_modules.run, technique="property-based testing of generated programs")

check("W01", "w01_nesting.cpp",
      "A case is a history of three objects whose type nests several of the library (containers, tuples, Delegates, bound objects, in one another), or of a "
      "queue of them, changed at any depth; every one is compared with one built of std types after every step. Non-trivial: more than 3 operations.",
      ["asan0", "rel1"], ldflags=TBB, thorough_configs=["san", "clang"])

check("O01", "o01_operands.cpp",
      "A case passes generated operands to the operations of one type (calculations), or a range or an element to one that copies it, in every way: variable, "
      "constant, temporary, moved, constant temporary, the same object twice, a part of the left side. Non-trivial: at least one operation was done, and for ranges "
      "the range isn't empty.",
      ["asan0", "rel1"], ldflags=TBB, thorough_configs=["san", "clang"],
      technique="property-based testing: metamorphic relation between the ways of passing an operand, and operands compared with what they were")

check("X01", "x01_threads.cpp",
      "A case is a generated program for two or three threads, each with up to three histories on objects of its own (over 27 parts of the library) or "
      "reading objects they share, run at the same time and on their own. Non-trivial: more than two histories in all.",
      ["tsan", "opt"], ldflags=TBB + ["-ldl"], fuzz=False, thorough_configs=[],
      technique="property-based testing: differential between threads together and alone, with ThreadSanitizer",
      assumptions=["conflicting accesses are seen by ThreadSanitizer where it runs, otherwise by what they change"])

check("Z01", "z01_work.cpp",
      "A case is a history of a container, a queue or two Delegates, or a generated use of an algorithm, a tuple or a bound object, with every copy, move, "
      "comparison, call and allocation of each operation counted. Non-trivial: a history of more than 3 operations, or more than one element.",
      ["opt", "asserts"], ldflags=TBB, fuzz=False, thorough_configs=[],
      technique="property-based testing of counted operations against bounds",
      assumptions=["work that isn't done on elements or by allocating is only seen when operations on large objects take longer than 20 s"])
