#!/usr/bin/env python3
# Writes DESIGN.md: the hand-written parts below, and for each property its bounds (from the
# "// bound:" lines of its harness) and the seeded changes its check catches (from seeded/*/meta.json).
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P

HEAD = open(here + "/design_head.md").read()
TAIL = open(here + "/design_tail.md").read()

# oracle, and why symbolic execution reaches what tests do not
O = {
"A01": "A mathematical sequence (values and size) kept beside the array; after every operation size, capacity >= size, every element, the lifetime counters of VpObj and the heap size behind the storage are compared. Copies are modified afterwards and must stay independent.",
"A02": "The address modulo the alignment promised by the constructor; `vp_malloc_skew` makes the allocator's address a symbolic multiple of 16, so the shift has to be right for each of them. Contents as in A01; the heap block behind the array must hold `capacity` elements.",
"A03": "The sequence of A01, on both sides of the inline capacity.",
"A04": "The tuple of values given, and the documented position (row- or column-major) of each index in the storage; for views, element i of the range [a,b) of a range [c,d) is the element c+a+i of the array; writing through an editable view changes that element only.",
"A05": "The predicate 'this index/range/dimension/size is valid', written from the extents with mathematical integers; the access must abort if and only if it is false (`vp_abort_ok`). Indices are any 64-bit integers: one path covers all of them.",
"A06": "The predicate 'this call is allowed', written out per function with mathematical integers and an own walk over the runes; the call must abort if and only if it is false (`vp_abort_ok`). Arguments are any values of their types.",
"B01": "A mathematical matrix; position i + stride*j of the storage; lifetime counters; alignment of each column when one was asked for; storage in place when the capacity suffices.",
"B02": "As B01 with position i*stride + j.", "B03": "As B01 with three indices, in both storage orders.", "B04": "As B01 with four indices, in both storage orders.",
"B05": "view(i,j) is the element (i0+i, j0+j) of the array, and has its address; an assignment through an editable view changes that element and no other.",
"B06": "A dictionary from positions to the last value written. For the assembly: the sorted set of distinct positions, and the index returned for each position leads to it; a permutation check of rows and columns.",
"C01": "A reference array of (present, value) per key. The hash function is a symbolic table: hash(key) is an arbitrary value (quick: one of the values that collide or not in tables of each size; thorough: any 64-bit value), so probing sequences, tombstones and rehashes are explored for all of them. The number of steps is bounded: a search that never ends is reported.",
"C02": "As C01 on pairs of maps; for the library's hash functions: equal keys have equal hashes for every encoding (String against the characters it is searched with), and the two values reserved for empty and erased slots do not lose keys.",
"C03": "An ordered list of (key, value).", "C04": "A bit set.",
"D01": "A reference sequence, on every history of pushes and pops; the capacity; one push too many stops a debug build.",
"D02": "A reference tree (parent, child number, value) for every history.",
"S01": "A byte sequence with a type tag (ASCII, UTF-8, WTF-8, bytes): after every operation size, contents, the NUL at the end, the type, the inline/heap flag and the capacity.",
"S02": "The textbook definitions: b occurs in a at k if and only if bytes agree, searches return the first such k or -1, comparisons are those of the byte sequences; the hash contract between String, StringView and char*.",
"S03": "Table 3-6 (encoding) and 3-7 (well-formed sequences) of the Unicode standard written as arithmetic on one symbolic code point / as a predicate on the bytes.",
"S04": "A sequence of 16-bit units; the surrogate arithmetic of UTF-16; conversion there and back gives the text.",
"E01": "A reference tagged union: after each store the tag answers yes for exactly one kind, the content is bit for bit what was stored (NaN payloads and the 2^47 limit of integers included), copies are deep, moves leave no value, everything is freed once; a debug build stops on a read with another type.",
"E02": "An association list from key to (type, value).",
"E03": "A state machine: (set?, checked?, error, info). Every call of every history must abort a debug build if and only if the machine says it is not legal.",
"L01": "The sums of the definition evaluated in exact integer arithmetic (elements are symbolic integers, doubles hold them exactly; `ilsym` reasons on the integers). The BLAS routine itself (closed MKL) is a model in rt/linalg.cpp: its reference definition, with leading dimensions, increments, transposition flags and layout, which also rejects what the documentation forbids (ld too small, sizes that do not match the memory). So the property is about what the library asks of BLAS.",
"L02": "The sums of the definition, as in L01; here the code computes them itself.",
"L03": "LAPACK is replaced by its contract: the harness chooses the factors P, L, U and the solution x as symbolic integers, A and b follow; the model receives the matrix the library hands over, checks it is A (layout, leading dimension, bandwidth, right triangle), and returns the factors or a non-zero error. The check is that the library asks for the right system with the right flags, gives back x, and turns error codes into errors.",
"L04": "max |w_i x_i|, sum |x_i|, sqrt of sums of squares (compared through its argument), row and column sums, in exact arithmetic.",
"L05": "The definition of the product, from the dictionary of entries; the sparse BLAS (closed MKL) is its definition in rt/linalg.cpp.",
"L06": "PARDISO is replaced by its contract: a state machine (analysed, factorized for which of two systems, released) which checks pattern, values, right-hand side and phase of every call and gives back the solution the harness chose; operations the protocol forbids must abort a debug build. For LAPACK (reduction to Hessenberg or bidiagonal form, then QR iterations) intermediate results are symbolic tags that have to be handed from one routine to the next, with leading dimensions; error codes are symbolic.",
"L07": "dfgmres/dcg are replaced by a symbolic schedule: at each call any request the documentation allows, for vectors at a symbolic place of the work space; the library's answer (product, preconditioned vector, decision to stop) is checked against the definition in exact arithmetic before the next request. Convergence itself is mathematics inside of MKL and is not claimed.",
"L08": "The predicate 'the operands fit together', written per operation from the sizes with mathematical integers; the call must abort if and only if it is false (`vp_abort_ok`). Sizes are symbolic up to 2^40 where the call must stop.",
"M01": "The product/sum/difference/quotient in a wider type (128 bits): either the result is it, or the error is set; the error is not set for operands whose result fits (where the documentation promises it). All 64-bit operands, bit-vector reasoning.",
"M02": "The mathematical definitions, on all integers or floating-point numbers (IEEE theory), with bounds for powers.",
"M03": "The allocator is asked for a symbolic size; when the constructor returns without error, the block it obtained must hold every element (128-bit arithmetic), otherwise it must stop. The harness takes any 64-bit size.",
"G01": "The definitions: the extremum is an element of the range and bounds it; the sort is sorted and a permutation (counting each value); binary search returns a position if and only if the value is there.",
"F01": "The bytes of the file: magic, header (dtype, order, shape) and elements in order, and the array loaded back bit for bit; the disk may be full after any number of bytes, in which case an error must be reported (or the file be complete).",
"F02": "Memory safety, no abort, no leak, an error or a well-formed array whose elements are those of the file; files of arbitrary bytes around real headers.",
"F03": "Memory safety, termination, no leak, no abort, for documents of arbitrary bytes after each beginning.",
"F04": "For the round trip the map saved; for documents the values of the TOML specification. Where `save` loses information an error must be reported.",
"F05": "Position in the file as an integer and the bytes of the file.",
"F06": "The map saved, bit for bit; a full disk must be reported.",
"F07": "As F02, for the .data format.",
"F08": "The table (type, extension) -> supported; what is not in it must give an error and leave no file behind and no abort.",
}
out = [HEAD]
out.append("## Properties\n\nFor each: what decides it, against which oracle, and within which bounds (the same lines are written to the evidence). "
           "All are decided by `check.py` in the way described above; cost is that of the quick tier on 8 cores when nothing else runs.\n")
seeds = {}
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    seeds.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
for p in P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if p["na"]:
        out.append("Not applicable: %s\n" % p["na"]); continue
    out.append("Oracle: %s\n" % O[i])
    out.append("Anchors: %s\n" % ", ".join("`%s`" % f for f in p["files"]))
    for f in sorted(glob.glob(root + "/harness/%s*.cpp" % i)):
        for l in open(f):
            m = re.match(r"\s*// bound: (.*)", l)
            if m: out.append("- bound: %s" % m.group(1).strip())
    ev = root + "/tools/costs.json"
    c = json.load(open(ev)).get(i) if os.path.exists(ev) else None
    if c: out.append("- cost: about %d s quick; %d entries, %s paths" % (c["wall"], c["entries"], format(c["paths"], ",")))
    out.append("- why tests can not settle it: %s" % p["why"])
    if p["note"]: out.append("- note: %s" % p["note"])
    if i in seeds: out.append("- seeded changes: %s" % ", ".join(seeds[i]))
    out.append("")
out.append(TAIL)
# tables at the end
out.append("## Seeded changes and the checks that catch them\n")
out.append("| change | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
res = json.load(open(here + "/seed_results.json")) if os.path.exists(here + "/seed_results.json") else {}
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    k = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append("| %s | %s | %s | %s | %s |" % (k, d["property"], d["what_it_breaks"], d["needs"], res.get(k, "?")))
out.append("")
open(root + "/DESIGN.md", "w").write("\n".join(out))
