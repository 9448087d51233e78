#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))


EX = "vir/simd_execution.h"
prop("C01", "for_each visits every element exactly once, in order, and writes back exactly",
     "vir::for_each (iterators or range, also via std::for_each) with the SIMD execution policy hands every "
     "element of the range to the callable exactly once, in chunks of consecutive elements from front to back, "
     "for every length, alignment, element type (vectorizable or reflectable struct) and policy modifier. "
     "If the callable takes its argument by mutable reference, the range afterwards holds exactly what the callable "
     "stored; otherwise the range is unchanged. No memory outside the range is read or written.",
     ["inputs", "configurations"], "all range lengths, start addresses, element types, policies, callables",
     "testsuite samples few lengths and never places the range at the edge of mapped memory or with odd alignments",
     [EX, "vir/simdize.h"],
     [("prologue / main loop / epilogue chunking", EX + ":detail::simd_for_each_prologue, vir::for_each, simd_for_each_epilogue")],
     ["the user callable", "the range's memory and its surroundings"])
prop("C02", "transform computes op elementwise for every length and placement",
     "vir::transform (unary and binary, iterators and ranges, also via std::transform) writes op(in...)[i] to output element i for every i in the "
     "range, returns the end of the output, and leaves the inputs and everything outside the output range untouched. "
     "This holds for every length, mutual alignment, exact overlap of output with an input, element and result type, and policy modifier.",
     ["inputs", "configurations"], "all lengths, placements incl. in-place, element types, policies",
     "testsuite samples few lengths/alignments; in-place and mixed-size type combinations at unaligned boundaries are not reached",
     [EX, "vir/simdize.h"],
     [("prologue / main loop / epilogue for transform", EX + ":detail::transform, vir::transform")],
     ["output memory and its surroundings", "returned iterator"])
prop("C03", "transform_reduce and reduce combine init and every element exactly once",
     "vir::transform_reduce and vir::reduce (unary, binary, defaulted and ranged overloads) return the combination of the initial value and the transformed value "
     "of every element, each exactly once, for any associative and commutative operation, also when that operation has no identity element. "
     "This holds for every length (an empty range returns the initial value), alignment, type and policy modifier; nothing outside the input is read.",
     ["inputs", "configurations"], "all lengths, alignments, element types, operations, initial values, policies",
     "testsuite uses sums on a few fixed lengths; an element lost or counted twice for one length/alignment/policy combination is not sampled",
     [EX], [("accumulator set-up, prologue, unrolled loop, tail combination", EX + ":detail::transform_reduce")],
     ["return value", "memory around the input"])
prop("C04", "count_if returns the exact number of elements satisfying the predicate",
     "vir::count_if (iterators or range, also via std::count_if) returns exactly the number of elements for which the predicate is true, for every length, "
     "alignment, element type (including types with few value bits) and policy modifier, and without modifying the range or touching memory outside it.",
     ["inputs", "configurations"], "all lengths (also beyond the element type's value range), alignments, predicates, policies",
     "testsuite counts on few lengths; counter overflow of narrow element types and tail handling need specific lengths",
     [EX], [("mask counting on top of for_each", EX + ":vir::count_if")], ["return value"])
prop("C05", "Policy modifiers keep their chunk-size and alignment contract",
     "prefer_size<N> makes all full chunks N wide, unroll_by<M> passes or processes M chunks together, "
     "assume_matching_size calls the callable only with the one full-width type and no tail, and prefer_aligned starts the main iteration at an "
     "address aligned for its chunk type whenever the range extends that far. Modifiers compose in any order without changing the results of an algorithm.",
     ["inputs", "configurations"], "all policy compositions, lengths and start addresses",
     "testsuite checks results, not which chunk types and addresses the callable sees",
     [EX], [("simd_policy modifiers", EX + ":execution::simd_policy"), ("prologue alignment loop", EX)],
     ["argument types and addresses seen by the callable"])
prop("C06", "Constant evaluation gives the same results as run time",
     "The algorithms, simd operations, permutations and struct loads/stores that are declared constexpr produce in a constant expression exactly the values that the "
     "same call produces at run time on the same input.",
     ["programs", "inputs"], "all algorithm/policy/length/type combinations and element values that may appear in a constant expression",
     "only a handful of static_assert cases exist; the compile-time branches are separate code",
     [EX, "vir/simd.h", "vir/simd_permute.h", "vir/simdize.h"],
     [("is_constant_evaluated branches", EX + ", vir/simd_permute.h, vir/simdize.h")],
     ["constexpr results vs. run-time results of generated programs"])
prop("C07", "Violated preconditions are caught at run time as documented",
     "With the default setting and with VIR_CHECK_PRECONDITIONS=2..5, every run-time violation of a checked precondition (subscript out of range, first/last set "
     "bit of an empty mask, assume_matching_size with a non-multiple length) terminates the program (trap for 2 and 3, error message naming the offending value "
     "and abort for 4 and 5) before any wrong effect is visible, and a call which meets the precondition is never terminated, at any level. "
     "With the levels that diagnose at compile time a subscript that is a constant outside the range is rejected by the compiler and no conforming program is.",
     ["inputs", "configurations"], "all indexes, masks, lengths, at every checking level",
     "no test violates a precondition",
     ["vir/simd.h", EX], [("vir_simd_precondition", "vir/simd.h:vir_simd_precondition, invoke_ub")],
     ["exit status and stderr of the violating process"])
S = "vir/simd.h"
prop("C08", "Fallback simd operators act lane by lane like the scalar operators",
     "For every element type, width and value, each arithmetic, bitwise, shift, increment, unary, compound-assignment and comparison operator of the fallback simd equals the built-in operator "
     "applied to each lane, converted to the element type (NaN, signed zero, infinities and integer wrap-around included), and lanes never influence each other.",
     ["inputs", "configurations"], "all element types, widths (scalar and fixed_size<N>), operand values",
     "TS testsuite uses fixed value tables and few widths", [S],
     [("simd<T, scalar> and simd<T, fixed_size<N>> operators", S)], ["every lane of the result"])
prop("C09", "Fallback load, store, broadcast, generator and subscript round-trip exactly",
     "Constructing a fallback simd or mask from memory, a value, a generator or another simd yields exactly the converted elements in order; storing writes exactly size() converted elements at the given address "
     "and nothing else; assigning through a subscript changes exactly that lane. This holds for every element/memory type pair, width, address and alignment flag.",
     ["inputs", "histories", "configurations"], "all element and memory types, widths, values, addresses, histories of loads/stores/subscript updates",
     "tests use fixed arrays and do not watch the surrounding memory", [S],
     [("copy_from / copy_to / generator constructors / operator[]", S)], ["memory around the access", "lanes"])
prop("C10", "Masks behave as boolean vectors and mask reductions agree with them",
     "Fallback simd_mask operators act lane by lane on booleans, and all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set return what the sequence of lanes implies, "
     "for every mask value, width and element type and for the scalar bool overloads.",
     ["inputs", "configurations"], "all mask bit patterns, widths, element types", "tests use selected patterns only", [S],
     [("simd_mask and its reductions", S)], ["lanes and reduction results"])
prop("C11", "where-expressions change exactly the selected lanes",
     "For every mask, value, operand and memory, each masked assignment, compound assignment, increment, decrement, negation, masked load and masked store of the fallback affects exactly the selected lanes (or memory elements) with the result "
     "the unmasked operation gives there, and leaves all others bit-identical and their memory untouched.",
     ["inputs", "histories", "configurations"], "all masks, values, operations and sequences of operations, with simd, simd_mask and plain bool/scalar operands",
     "tests use few masks; untouched memory of unselected lanes is not monitored", [S],
     [("const_where_expression / where_expression", S)], ["lanes", "memory"])
prop("C12", "Horizontal reductions and min/max/clamp agree with the scalar definition",
     "reduce (masked and unmasked), hmin, hmax, min, max, minmax and clamp of the fallback return what combining every (selected) lane exactly once or applying the scalar function per lane gives; "
     "a masked reduction over no lanes returns the identity element.",
     ["inputs", "configurations"], "all widths, element types, values incl. infinities, masks, operations",
     "tests cover few widths and values; infinities under a mask were wrong", [S],
     [("reduce / hmin / hmax / min / max / clamp", S)], ["results"])
prop("C13", "split, concat and casts neither lose nor reorder nor alter elements",
     "concat followed by split, and split followed by concat, return the original elements in order for every partition; static_simd_cast and simd_cast convert each lane like static_cast, "
     "and to_fixed_size, to_native and to_compatible preserve every lane; all of it for simd and simd_mask.",
     ["inputs", "configurations"], "all widths, partitions, element type pairs, values",
     "tests cover selected partitions and type pairs", [S, "vir/simd_cast.h"],
     [("split / concat / *_simd_cast / to_*", S)], ["lanes"])
prop("C14", "Fallback math functions equal the scalar std:: functions lane by lane",
     "Every math function of the fallback simd returns in each lane the value std:: returns for the scalar arguments of that lane (classification and comparison functions as mask), "
     "including special values, and output parameters receive per-lane results.",
     ["inputs", "configurations"], "all functions, floating-point types, widths and argument values",
     "tests compare on a table of values with tolerance and for few widths", [S],
     [("SIMD_MATH_* definitions", S)], ["lanes"])
prop("C15", "simd_permute and simd_shift_in move exactly the requested elements",
     "For every simd or simd_mask type, result size and index function, vir::simd_permute yields in lane i the input lane the function names (negative: counted from the end; zero/shift marker: 0), each pre-defined permutation follows its "
     "documented definition for every size and offset, and simd_shift_in<N> yields the lanes N.. of the concatenated arguments followed by zeros (a negative position counts from the end of the first argument; positions before its begin yield zeros).",
     ["inputs", "programs", "configurations"], "all element types, widths, offsets, index functions, values",
     "tests use power-of-two sizes and small offsets", ["vir/simd_permute.h"],
     [("generic and shuffle/AVX2 code paths", "vir/simd_permute.h:simd_permute"), ("index functions", "vir/simd_permute.h:simd_permutations")], ["lanes"])
prop("C16", "simd_resize and simd_size_cast keep the common lanes and zero the rest",
     "vir::simd_resize<N> and vir::simd_size_cast<V> of a simd or simd_mask keep the first min(old, new) lanes bit-identical and set every additional lane to zero/false, for every element type and pair of sizes.",
     ["inputs", "configurations"], "all type/size pairs and values", "few sizes tested", ["vir/simd_resize.h"],
     [("simd_resize / simd_size_cast", "vir/simd_resize.h")], ["lanes"])
prop("C17", "to_bitset and to_simd_mask are mutually inverse, bit i being lane i",
     "For every mask type and value vir::to_bitset(k)[i] equals k[i], and vir::to_simd_mask of any bitset yields the mask with exactly these lanes, so that both round trips are the identity for every width, whichever overload is used.",
     ["inputs", "configurations"], "all mask types, widths and bit patterns", "few patterns tested", ["vir/simd_bitset.h"],
     [("bit/lane conversion", "vir/simd_bitset.h")], ["bits and lanes"])
prop("C18", "simd_bit_cast and floating-point bit operators are exact on every bit",
     "vir::simd_bit_cast preserves the object representation so that casting back restores the value, and &, |, ^ of floating-point simd from vir::simd_float_ops equal the bitwise operation on the lanes' representations, NaN payloads and signed zeros included.",
     ["inputs", "configurations"], "all bit patterns, element type pairs, widths", "not tested beyond single values",
     ["vir/simd_bit.h", "vir/simd_float_ops.h", "vir/detail.h"],
     [("bit_cast through unsigned simd", "vir/simd_float_ops.h, vir/detail.h:bit_cast")], ["object representation of lanes"])
prop("C19", "iota_v counts lanes and cvt converts like an explicit cast",
     "vir::iota_v<T> holds 0, 1, 2, ... in every element of any arithmetic, array or simd type, and vir::cvt(x) converts to whatever type the context demands with the value that the implicit conversion or static_simd_cast gives, for simd, simd_mask and scalars.",
     ["inputs", "programs", "configurations"], "all types, sizes and values", "few instantiations tested",
     ["vir/simd_iota.h", "vir/simd_cvt.h"], [("iota_v specializations", "vir/simd_iota.h"), ("cvt::operator U", "vir/simd_cvt.h")], ["elements"])
prop("C20", "simdized struct load/store round-trips the array of structs exactly",
     "Loading a simdized struct from contiguous memory puts member m of struct i into lane i of member m, and storing writes it back to the same place, for every struct shape the load accepts (member types, nesting, padding, width and address; not: array members beside other members, templates of only one-member structs, see known_findings.txt): "
     "load then store reproduces every member, and no byte outside the width's structs is read or written.",
     ["inputs", "configurations", "programs"], "all reflectable struct shapes, widths, values, addresses",
     "tests cover few shapes and widths, each with its own hand-written shuffle path", ["vir/simdize.h"],
     [("copy_from / copy_to incl. permuting fast paths", "vir/simdize.h:simd_tuple::copy_from, copy_to")], ["lanes of each member", "memory around the access"])
prop("C21", "A simdized struct behaves like a vector of the struct",
     "Broadcast, element access, tuple-like construction, get/structured bindings, as_tuple and the member-wise operations of a simdized struct give, in lane i, what the same operation gives on the i-th struct.",
     ["inputs", "configurations"], "all struct shapes, widths and values", "few shapes tested", ["vir/simdize.h"],
     [("simd_tuple interface", "vir/simdize.h:simd_tuple")], ["lanes of each member"])
prop("C22", "struct_reflect sees every member once, in declaration order",
     "For every supported aggregate or tuple-like type the reflected number of members, their types and the references obtained by index or by conversion to/from tuples denote exactly the declared members in declaration order.",
     ["programs", "inputs"], "all aggregates with supported member counts, member kinds (arrays excluded where unsupported) and tuple-likes",
     "one hand-written case per arity and shape", ["vir/struct_reflect.h"],
     [("aggregate arity detection and per-arity structured bindings", "vir/struct_reflect.h:struct_size, to_tuple, struct_get")], ["generated struct definitions"])
prop("C23", "constexpr_wrapper and _cw compute the value of the plain expression",
     "Any expression of constexpr_wrapper operands has the value of the same expression on the wrapped values (still wrapped when every operand is a constant), and a _cw literal has the literal's value in the smallest signed type that holds it, for every base, digit separator and magnitude up to unsigned long long.",
     ["programs"], "all operators, operand values and types, literal spellings", "fixed list of static_asserts",
     ["vir/constexpr_wrapper.h"], [("operator overloads", "vir/constexpr_wrapper.h"), ("literal parser", "vir/constexpr_wrapper.h:cw_parse")], ["generated static_asserts"])
prop("C24", "Version comparison is the lexicographic order of its components",
     "For all version triples ==, !=, <, <=, > and >= of simd_version_t agree with the lexicographic order of (major, minor, patchlevel) in every supported language standard, and the version macros and constant agree with each other.",
     ["inputs", "configurations"], "all pairs of triples; C++17, C++20, C++23", "one static_assert; the C++17 operators are separate code",
     ["vir/simd_version.h"], [("comparison operators", "vir/simd_version.h")], ["comparison results"])
prop("C25", "fake_modify and fake_read leave every argument's value unchanged",
     "vir::fake_modify and vir::fake_read change no bit of their arguments nor of other objects, for any number and mix of arithmetic, simd and mask arguments, and after fake_modify the compiler no longer relies on the earlier value being known.",
     ["inputs", "configurations"], "all argument types and values", "not tested at run time", ["vir/simd_benchmarking.h"],
     [("inline asm constraints", "vir/simd_benchmarking.h")], ["argument values"])
prop("C26", "Traits, simdize type selection and concepts follow their definition",
     "simdize<T, N>, simdize_size, rebind_simd, resize_simd, deduce, simd_size, memory_alignment, the is_* traits and the vir concepts give, for every combination of element types, widths, ABI tags and struct shapes, the type or value the documentation defines; types that cannot be simdized stay unchanged. Implicit conversions, explicit conversions and operators of simd types exist exactly where the element types and widths allow them.",
     ["programs", "configurations"], "all combinations of types, widths and struct shapes", "a fixed list of static_asserts",
     ["vir/simdize.h", "vir/simd.h", "vir/simd_concepts.h"],
     [("simdize_impl", "vir/simdize.h"), ("traits", "vir/simd.h"), ("concepts", "vir/simd_concepts.h")], ["generated static_asserts"])

prop("C27", "Headers work alone, in any order and in several translation units",
     "Every header of vir can be the only include, be included repeatedly and be combined with all others in any order, in C++17, C++20 and C++23, strict or GNU mode, with libstdc++'s simd, "
     "with the fallback and as TS drop-in; several translation units with such includes link into one program; the feature-test macro of each header is set exactly when the header is usable; "
     "and what a header documents works the same whatever was included before.",
     ["programs", "configurations"], "all sequences of includes, standards and options", "the tests include the headers in one fixed order",
     ["vir/*.h"], [("include guards, conditional sections, linkage", "vir/*.h")], ["compiler, linker and exit status of generated programs"])

prop("C28", "TS programs behave the same with the fallback and with libstdc++'s simd",
     "Every program written against the scalar and fixed_size parts of the Parallelism TS 2 API (construction, operators, conversions, casts, subscripts, masks, where, loads/stores, split/concat, reductions, min/max/clamp, "
     "bit shifts, correctly rounded math) that libstdc++'s <experimental/simd> accepts is accepted by vir-simd's fallback, and its history of results - types, widths and lane values - is identical.",
     ["programs", "histories", "inputs"], "all programs over the API, element types, widths, values", "tests call one function at a time on fixed values",
     [S], [("fallback implementation", S + ": #else branch of the libstdc++ test")], ["printed results of the same generated program with both implementations"])

NA = {}
TECH = {
 "default": "property-based testing: generated inputs in forked, memory-guarded harness, scalar reference oracle, shrinking",
 "C06": "generated constexpr programs compared with run time and a scalar reference",
 "C07": "generated violating and conforming calls in child processes; exit status and stderr as oracle",
 "C22": "generated struct definitions and programs with a reference model of the members",
 "C23": "generated literals and expressions as programs, value computed by an independent model",
 "C28": "generated programs, differential against libstdc++",
 "C27": "generated multi-TU programs: include sequences x standards x options, scalar model of the results",
 "C26": "generated type-level programs, expected types computed by an independent model",
}
NOTE = ("Held on every generated case of the run (counts in the evidence file); not a proof. Trusts the compiler, the "
        "scalar reference in the harness and, in the std-* configurations, libstdc++'s simd.")


def main():
    try:
        import properties_config as pc
        claimed = set(pc.CHECKS)
    except Exception as e:  # noqa
        print(e)
        claimed = set()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = {"version": 1, "setup_cmd": "python3 run.py --selftest",
           "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "technique": p["technique"] or TECH.get(p["id"], TECH["default"]),
                       "level": "exploration", "level_note": p["note"] or NOTE}
                      for p in P if p["id"] in claimed],
           "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")}
                              for p in P if p["id"] not in claimed],
           "notes": "No hooks in /repo are needed; the harnesses include /repo/vir directly."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
