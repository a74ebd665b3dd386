# The properties: one source for properties.jsonl and MANIFEST.json (see mk.py).
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, level="other", technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na, level=level, technique=technique))

prop("A01", "A growable array behaves like a sequence of values",
     "After any sequence of operations (construction from a size, a value or a list, append and in-place construction, resize, reserve, fill, copy, move, self-assignment, also with one of its own elements as argument) a growable array has exactly the size and the element values of the same operations on a mathematical sequence, and copies are independent of each other. Elements are constructed and destroyed exactly once, no operation reads or writes outside the storage it owns, nothing leaks, and a resize or reserve within the capacity keeps the storage in place. This holds for plain types as well as for types that own resources.",
     ["histories", "inputs"], "all operation histories up to the bound, all element values",
     "The unit tests call each operation once or twice on a fixed array; the aliasing, shrink-then-grow, and spare-capacity cases need particular histories, and lifetime errors do not show up as failed assertions.",
     ["il/container/1d/Array.h", "il/core/memory/allocate.h"],
     [("growth policy and relocation", "il/container/1d/Array.h Append/Resize/Reserve/IncreaseCapacity"), ("copy and move assignment", "il/container/1d/Array.h operator=")])
prop("A02", "Aligned arrays keep the alignment they were asked for",
     "An array built with an alignment, a remainder and a modulus (multiples of the element size) has its first element at an address equal to the remainder modulo the modulus, whatever address the allocator returns. Growing, reserving, copying, moving and assigning the array keep that promise together with its contents, and the memory behind the array is always as large as its capacity.",
     ["histories", "inputs", "configurations"], "all operation histories up to the bound, all alignments/remainders/moduli up to the bound, all allocator offsets",
     "Tests see one address per run, and the allocator's addresses are usually already aligned, so a wrong shift or a too small allocation passes.",
     ["il/container/1d/Array.h", "il/core/memory/allocate.h"],
     [("aligned allocation", "il/core/memory/allocate.h allocateArray(n, align_r, align_mod)"), ("aligned growth", "il/container/1d/Array.h IncreaseCapacity")])
prop("A03", "A small array behaves like a sequence, inline or on the heap",
     "After any sequence of operations an array with inline storage has exactly the size and element values of the same operations on a mathematical sequence, whether its elements are inline, on the heap, or moved from one to the other; copies are independent and its views show the same elements. Elements are constructed and destroyed exactly once and no memory leaks or is accessed out of bounds.",
     ["histories", "inputs"], "all operation histories up to the bound, all element values",
     "Tests use few sizes on either side of the inline capacity and never mix moves, shrinking and growing across the switch.",
     ["il/container/1d/SmallArray.h"],
     [("switch between inline and heap storage", "il/container/1d/SmallArray.h Resize/Reserve/Append/operator=")])
for (i, n, f, dims, lay) in [("B01", "two-dimensional column-major", ["il/container/2d/Array2D.h"], "two", "column"),
                    ("B02", "two-dimensional row-major", ["il/container/2d/Array2C.h"], "two", "row"),
                    ("B03", "three-dimensional", ["il/container/3d/Array3D.h", "il/container/3d/Array3C.h"], "three", None),
                    ("B04", "four-dimensional", ["il/container/4d/Array4D.h", "il/container/4d/Array4C.h"], "four", None)]:
    prop(i, "A %s array behaves like a box of values" % n,
         "After any sequence of operations (construction from sizes, a value or nested lists, resize, reserve, copy, move, self-assignment, with and without alignment) a %s array has exactly the extents and the element values of a mathematical box: elements inside both the old and the new extents keep their values, added ones are default constructed or get the value asked for. Elements lie at their documented %s position in memory, with the capacities as leading dimensions, inside memory that is large enough, and a requested alignment holds. Elements are constructed and destroyed exactly once, nothing leaks, and a resize within the capacity keeps the storage in place." % (n, (lay + "-major") if lay else "column-major or row-major"),
         ["histories", "inputs", "configurations"], "all extents and operation histories up to the bound, all element values",
         "Tests build a few fixed shapes; errors in the index arithmetic of relocations appear only for particular combinations of old extents, new extents and spare capacity.",
         f, [("resize and reserve with relocation", f[0] + " Resize/Reserve"), ("copy assignment with and without reallocation", f[0] + " operator=")])
prop("A04", "Fixed-size arrays and one-dimensional views show the right elements",
     "A fixed-size array of one to four dimensions holds exactly the values it was built with or assigned (from a value, a list, nested lists, element by element), at the documented row-major or column-major position, and copies, moves and self-assignment keep values. A view or an editable view of an array, a fixed-size array, an array with inline storage or raw memory, of the whole or of a range, and a range of such a range, shows exactly the elements of the range asked for and writes through to them only.",
     ["inputs", "configurations"], "all element values, all sub-ranges up to the bound",
     "Tests use one or two shapes with constant values; a view of a view or of an interior range is hardly tested and a wrong offset shows only there.",
     ["il/container/1d/StaticArray.h", "il/container/1d/ArrayView.h", "il/container/2d/StaticArray2D.h", "il/container/2d/StaticArray2C.h", "il/container/3d/StaticArray3D.h"],
     [("index arithmetic of fixed-size arrays", "il/container/2d/StaticArray2D.h operator()"), ("sub-ranges", "il/container/1d/ArrayView.h view/Edit")])
prop("B05", "Views of matrices show exactly the block they were asked for",
     "A view or an editable view of a two- or three-dimensional array, of a block of it, of a block of a block, of a row, a column or a range of one, has the extents asked for, and each of its elements is the element of the array at the shifted position, whatever the spare capacity of the array; writing through an editable view changes that element and no other.",
     ["inputs", "configurations"], "all blocks and nested blocks up to the bound, with and without spare capacity",
     "Tests view whole arrays without spare capacity, where a wrong stride or offset gives the right answer.",
     ["il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/2d/Array2DView.h", "il/container/2d/Array2CView.h", "il/container/3d/Array3DView.h"],
     [("blocks and columns", "il/container/2d/Array2D.h view/Edit"), ("nested blocks", "il/container/2d/Array2DView.h view")])
prop("B06", "Structured and sparse matrices store what they were given",
     "Lower and upper triangular, band and tridiagonal matrices have exactly the shape asked for and hold, for each position of their structure, the last value written there, independently of the other positions, also after copies, moves and assignments. A sparse matrix built from positions in any order, with repetitions, or from lists or arrays, has one entry per distinct position, rows with increasing columns, an index that leads each position to its entry, and starts at zero.",
     ["inputs", "histories", "configurations"], "all orders, bandwidths, position lists and values up to the bound",
     "Packed indexing and the sort-and-merge assembly are wrong only for particular orders, bandwidths or repeated positions.",
     ["il/container/2d/LowerArray2D.h", "il/container/2d/UpperArray2D.h", "il/container/2d/BandArray2C.h", "il/container/2d/SparseMatrixCSR.h", "il/container/2d/TriDiagonal.h"],
     [("packed index arithmetic", "il/container/2d/LowerArray2D.h operator()"), ("assembly", "SparseMatrixCSR constructor from positions")])
prop("A05", "Debug builds stop on every out-of-range access and on no valid one",
     "In a debug build, each access to an element of a container or of a view through any of its overloads, each sub-range, each dimension number and each size given by the user is checked: with an index, range, dimension or negative size that is not valid the program stops before memory outside the container is touched, and with a valid one it never stops. The same holds for alignments that are not allowed and for lists of values whose shape does not fit. This covers growable, small and fixed-size arrays of one to four dimensions, their views, band, triangular, tridiagonal and sparse matrices.",
     ["inputs", "configurations"], "all 64-bit indices, ranges, dimensions and (small or negative) sizes; all container shapes up to the bound",
     "Tests try a couple of indices per container; one missing or off-by-one check in one overload, or an index that wraps, is not seen.",
     ["il/container/1d/Array.h", "il/container/1d/ArrayView.h", "il/container/2d/Array2D.h", "il/container/2d/Array2DView.h", "il/container/2d/BandArray2C.h", "il/container/2d/SparseMatrixCSR.h", "il/core/core.h"],
     [("bounds checks", "IL_EXPECT_* in every operator() and operator[]")], note="An empty range that begins at the end of the container is not specified.")
prop("A06", "Debug builds stop on every call that is not allowed and on no allowed one",
     "In a debug build, a call that breaks the contract of a function stops the program at once, and an allowed call never does: positions, counts, characters and code points given to strings, views of strings and UTF-16 strings, spots and reserved keys of maps, sets and map arrays, wrong types in an info, popping from or reading an empty queue, nodes of a tree, operations on a file that is closed or opened in the other mode, ranges and empty arrays given to algorithms, and the arguments of the integer functions.",
     ["inputs", "configurations"], "all positions, counts, characters, code points, ranges and keys; objects up to the bound",
     "A missing or off-by-one precondition check is only seen by calling with the one bad value next to the border, which no unit test does, as the program would stop.",
     ["il/container/string/String.h", "il/container/string/UTF16String.h", "il/container/hash/Map.h", "il/container/hash/Set.h", "il/container/hash/MapArray.h", "il/container/info/Info.h", "il/container/deque/Deque.h", "il/container/tree/Tree.h", "il/io/File.h", "il/algorithm/algorithmArray.h", "il/core/math/safe_arithmetic.h", "il/math.h", "il/core/core.h"],
     [("preconditions", "IL_EXPECT_* at the top of each function")])
prop("C01", "A map behaves like a dictionary",
     "Whatever the hash function, after any sequence of insertions (each overload, with or without a previous search), changes of values, erasures, reserves and rehashes a map contains exactly the keys that were set and not erased since, each with the last value set; searching finds a key if and only if it is there and gives a spot that leads to it, a loop over the map visits each element exactly once, and the counts agree. Searching always ends, keys and values are constructed and destroyed exactly once and nothing leaks.",
     ["histories", "inputs"], "all operation histories up to the bound, all hash functions on the keys used (up to the stated range), all values",
     "The unit tests only build maps from lists; erasures with colliding keys, rehashes and reuse of erased slots need particular hash values and histories.",
     ["il/container/hash/Map.h"],
     [("probing and tombstones", "il/container/hash/Map.h search/erase/Rehash"), ("growth", "il/container/hash/Map.h ReserveWithP")], note="The hash function is a symbolic table.")
prop("C02", "Maps have value semantics and their hash functions keep their contract",
     "Copying, moving, assigning (also to itself, also from or to an empty map), clearing, reserving or building a map from a list gives exactly the elements of the source; the copies are independent, moved-from and cleared maps are empty and usable, everything is destroyed exactly once and nothing leaks. The hash functions of the integer keys stay inside the table, agree on equal keys, and tell keys, empty slots and erased slots apart.",
     ["histories", "inputs"], "all pairs of maps and operations up to the bound; all integer keys and table sizes for the hash functions",
     "No test copies, assigns or moves a map, and empty maps are a special case of each.",
     ["il/container/hash/Map.h", "il/container/hash/HashFunction.h"],
     [("copy and move", "il/container/hash/Map.h constructors and operator="), ("hash contract", "il/container/hash/HashFunction.h")])
prop("C03", "An ordered map keeps the order of insertion",
     "An ordered map contains exactly the keys that were set, each once and with the last value set, and a loop over it visits them in the order in which they were first set, whichever overload was used, whether or not the key was already there, and after copies, moves and assignments. A search leads to the element of the key. Nothing leaks or is destroyed twice.",
     ["histories", "inputs"], "all operation histories up to the bound, all hash functions on the keys used (up to the stated range), all values",
     "It is tested only through TOML files; setting a key again and each overload need particular histories.",
     ["il/container/hash/MapArray.h", "il/container/hash/Map.h"],
     [("array and index kept in step", "il/container/hash/MapArray.h Set")])
prop("C04", "A set behaves like a mathematical set",
     "Whatever the hash function, a set contains exactly the elements added since it was built or last cleared, each once; contains, search and the loop over the set agree on that, copies are independent, moved-from sets are empty, and nothing leaks or is destroyed twice.",
     ["histories", "inputs"], "all operation histories up to the bound, all hash functions on the elements used (up to the stated range)",
     "The class has no tests.",
     ["il/container/hash/Set.h"],
     [("probing and growth", "il/container/hash/Set.h search/Add/ReserveWithP")])
prop("D01", "A deque serves its elements in order from both ends",
     "After any sequence of pushes and pops at either end that stays within its capacity, a deque has exactly the elements, in the order, of the same operations on a mathematical sequence; front and back show its ends and can be changed, also when the storage wraps around and when the deque becomes empty and is used again. A push on a full deque stops the program instead of overwriting an element; copies are independent and elements are destroyed exactly once.",
     ["histories", "inputs"], "all operation histories up to the bound, all values",
     "The class has no tests; its cases (wrapped, full, one element, empty) need particular histories.",
     ["il/container/deque/Deque.h"],
     [("circular buffer", "il/container/deque/Deque.h PushFront/PushBack/PopFront/PopBack")])
prop("D02", "A tree keeps its nodes, children and values apart",
     "After any sequence of adding children and setting values, each node of a tree has exactly the children added to it, the last value set (and is empty if none was), parent and child lead to each other, different nodes have different spots, and the depth is that of the deepest node.",
     ["histories", "inputs"], "all operation histories up to the bound, all values, 2, 3 and 6 children per node",
     "The only test looks at an empty tree.",
     ["il/container/tree/Tree.h"],
     [("flags and index arithmetic", "il/container/tree/Tree.h AddChild/child/parent")])
prop("S01", "A string is a value, inline or on the heap",
     "After any sequence of constructions, assignments, copies, moves, reserves, clears, appends and insertions (of characters, literals, raw memory, one to three strings or views, also of the string itself or parts of it) a string has exactly the bytes of the same operations on a mathematical sequence, ends with a null character, and has the type that covers its parts; copies are independent and moved-from strings are empty. Memory is as large as the capacity, and nothing leaks, is released twice or is used after being released, in particular around the switch between inline and heap storage.",
     ["histories", "inputs"], "all operation histories up to the bound, all contents, lengths on both sides of the inline limit",
     "The tests append to short or long strings, not across the limit; strings that are short but live on the heap, and self-insertion, need particular histories, and leaks pass unnoticed.",
     ["il/container/string/String.h"],
     [("inline and heap storage", "il/container/string/String.h Grow/operator=/Append/Insert")])
prop("S02", "Searching, comparing and viewing strings agree with their bytes",
     "For all contents, searching gives the first position where the text is or -1, counting, prefix and suffix tests, equality and order give the answer of the bytes, with a string, a view or a null-terminated text; sub-strings and views of strings, of any range and of a range of it, show exactly the bytes of the range, trimming and classification of characters match their definition, joins are the concatenation of their parts, and an integer is converted to its decimal digits. Equal keys have equal hashes and are never taken for an empty slot of a table.",
     ["inputs"], "all contents up to the stated lengths, all ranges, inline and heap strings",
     "The tests search a few fixed words; empty, overlapping, longer-than-the-text and heap cases each take another branch.",
     ["il/container/string/String.h", "il/container/string/algorithmString.h", "il/container/hash/HashFunction.h"],
     [("search and comparison", "il/container/string/String.h search/startsWith/endsWith/operator=="), ("views", "il/container/string/String.h subview/StringView")])
prop("S03", "Text in UTF-8 is encoded, decoded and validated as Unicode says",
     "Each Unicode rune, and no other integer, is accepted as a rune; appending runes, once or many times, gives the bytes of their UTF-8 encoding, iterating over the text gives back the runes in order, and rune boundaries are exactly the beginnings of runes. A text is declared UTF-8 if and only if it is well formed (no truncated, overlong or surrogate sequence), and ASCII if and only if all its bytes are below 128.",
     ["inputs"], "all runes, all byte sequences up to the bound",
     "The tests use three runes; the borders of each length of encoding and the ill-formed sequences are not covered.",
     ["il/container/string/String.h"],
     [("encoding", "il/container/string/String.h Append(int rune)"), ("decoding", "StringView::rune/nextRune"), ("validation", "isUtf8")])
prop("S04", "UTF-16 strings are values and convert to UTF-8 and back",
     "After any sequence of constructions, copies, moves, assignments, reserves and appends (also of the string itself) a UTF-16 string has exactly the units of the same operations on a mathematical sequence, ends with a null unit, and nothing leaks or is used after being released. Runes are encoded and read back as one unit or a surrogate pair, and converting a UTF-8 text to UTF-16 gives its encoding and converting it back gives the same text.",
     ["histories", "inputs"], "all operation histories up to the bound, all contents, all runes",
     "The class has no tests.",
     ["il/container/string/UTF16String.h", "il/container/string/unicode.h"],
     [("inline and heap storage", "il/container/string/UTF16String.h Append/Reserve/operator="), ("conversions", "il/container/string/unicode.h toUtf16/toUtf8")])

prop("E01", "A dynamic value has exactly the type and content last stored",
     "A dynamic value tells that it has the type of the value last stored and no other one, and gives back exactly that value, for booleans, integers of 8 to 64 bits, floats and doubles with all their bits, strings, arrays, matrices, maps and values nested in them. Copies are independent, moving leaves the source void, assigning a value to itself or from something inside itself gives the value as it was, every resource is released exactly once, and reading with the wrong type stops a debug build.",
     ["histories", "inputs"], "all kinds of values and operation histories up to the bound, all scalar contents",
     "The tests store one value of a few types; the pointer-tagged storage goes wrong only for particular types and for assignments from nested values.",
     ["il/container/dynamic/Dynamic.h", "il/container/dynamic/Type.h"],
     [("tagged storage", "il/container/dynamic/Dynamic.h CopyData/ReleaseMemory/operator="), ("types", "il/container/dynamic/Type.h typeId")])
prop("E02", "An info record gives back what was last set for each key",
     "After any sequence of settings of booleans, integers, doubles and texts, the record finds exactly the keys that were set, with the type and the value last set for each (all bits), also when keys are prefixes of each other, when a key is set again with another type, and when the value set is part of the record. Copies are independent, moves and self-assignments keep the content, clearing empties the record and nothing leaks.",
     ["histories", "inputs"], "all sequences of settings up to the bound, all keys up to two characters, all values",
     "The class has few tests, and records that share prefixes or that grow from inline to heap storage are not among them.",
     ["il/container/info/Info.h"],
     [("packed records", "il/container/info/Info.h Set/search"), ("inline and heap storage", "il/container/info/Info.h Resize/operator=")])
prop("E03", "A status carries its error until someone looks at it",
     "For every sequence of calls: a status that was set tells whether there was an error, which one, in which domain and with which information, also after it was moved; a debug build stops when a status is overwritten, destroyed or inspected in a state where this is not allowed (in particular when a result was never checked) and never stops otherwise; aborting on error stops exactly on errors, in all builds; and nothing leaks.",
     ["histories", "inputs"], "all sequences of calls up to the bound, legal or not, all errors and values",
     "The tests go through the normal sequence; what must stop the program cannot be tried in a unit test, and a missing check is silent.",
     ["il/container/info/Status.h"],
     [("check protocol", "il/container/info/Status.h SetOk/SetError/Ok/~Status")])
prop("L01", "The dense products compute what they are named after",
     "For every combination of storage orders, transpositions, coefficients, views of larger matrices and spare capacity, the vector and matrix products and updates (blas, dot) give exactly the sums of products of the mathematical definition, with the conjugates where they are asked for; a coefficient 0 on the result makes its former values irrelevant; sizes that do not match stop a debug build, matching ones, empty ones included, never do; nothing outside of the result is written. This holds for float, double and their complex types.",
     ["inputs", "configurations"], "all sizes up to the bound, all values, all combinations of options",
     "The tests multiply a few square matrices without spare capacity; swapped sizes, wrong leading dimensions and transpositions show only on rectangular blocks of larger matrices.",
     ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h"],
     [("parameters given to BLAS", "il/linearAlgebra/dense/blas/blas.h blas"), ("products that return their result", "il/linearAlgebra/dense/blas/dot.h dot")],
     note="The BLAS itself (Intel MKL, closed) is replaced by its definition; parameters it rejects are reported.")
prop("L02", "The products of fixed-size arrays compute what they are named after",
     "The products, contractions and updates of fixed-size vectors, matrices and tensors (dot, blas, cross) give exactly the sums of products of the mathematical definition for every combination of orders, transpositions and coefficients; a coefficient 0 on the result makes its former values irrelevant; the cross product is orthogonal, with the right orientation.",
     ["inputs", "configurations"], "all values, all shapes up to the bound",
     "The tests use one shape per product with constant values; an index that is swapped shows only on shapes with different extents and values.",
     ["il/linearAlgebra/dense/blas/blas_static.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/cross.h"],
     [("contractions", "il/linearAlgebra/dense/blas/dot.h dot"), ("updates", "il/linearAlgebra/dense/blas/blas_static.h blas")])
prop("L03", "Solved systems satisfy their equations",
     "Solving a linear system with a full (either storage order), band or tridiagonal matrix, through a factorization, with triangular matrices, permutations or in place on views, gives a solution that satisfies the system that was asked for; an inverse times its matrix is the identity, the determinant is that of the matrix, and a singular matrix, and only that, is reported as an error. Nothing outside of the result is changed.",
     ["inputs", "configurations", "faults"], "all coefficients, solutions and permutations up to the bound, regular or singular",
     "Tests solve one small system per kind; a wrong stride, transposition, pivot or band layout gives the right answer on matrices without spare capacity or that are symmetric.",
     ["il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/blas/solve.h", "il/linearAlgebra/dense/factorization/luDecomposition.h"],
     [("parameters given to LAPACK", "il/linearAlgebra/dense/factorization/linearSolve.h"), ("permutations and triangular systems", "il/linearAlgebra/dense/blas/solve.h")],
     note="LAPACK (Intel MKL, closed) is replaced by the contract of its documentation: any factors, solutions or error codes that satisfy it. Condition numbers are not covered.")
prop("L04", "Norms are the norms of their definition",
     "The L1, L2 and infinity norms of vectors of dynamic and static size, with and without weights, the L1 and infinity norms of matrices and the infinity norm of tridiagonal matrices are exactly those of the mathematical definition, empty ones included, whatever the sign of the elements and the spare capacity of the matrix, and nothing outside of the elements is read.",
     ["inputs"], "all sizes up to the bound, all values",
     "The tests take the norm of one vector and one square matrix of positive numbers.",
     ["il/linearAlgebra/dense/norm.h"],
     [("sums of absolute values", "il/linearAlgebra/dense/norm.h norm")])
prop("L05", "Sparse products compute what they are named after",
     "The product of a sparse matrix and a vector, alpha A x + beta y, gives exactly the result of the dense product for every pattern of entries, with empty rows, columns and matrices, for both kinds of indices, directly or through the optimized representation; a coefficient 0 on the result makes its former values irrelevant; the matrix and the vector x are not changed and the representation is released.",
     ["inputs"], "all patterns of entries up to the bound, all values",
     "The tests multiply one matrix; empty rows and rectangular matrices are where row and column bounds get mixed up.",
     ["il/linearAlgebra/sparse/blas/sparseBlas.h", "il/linearAlgebra/sparse/blas/SparseMatrixBlas.h"],
     [("loops over rows", "il/linearAlgebra/sparse/blas/sparseBlas.h blas"), ("parameters given to the sparse BLAS", "il/linearAlgebra/sparse/blas/SparseMatrixBlas.h")],
     note="The sparse BLAS itself (Intel MKL, closed) is replaced by its definition.")
prop("L06", "Direct sparse solves and spectra are those of the matrix that was given",
     "A direct sparse solver gives MKL exactly the pattern, the values and the right-hand side of the system of the call, in the order of operations the routine requires, and returns what it computed; the analysis and the factorization can be repeated and reused for any sequence of matrices of the analysed pattern, an operation that is not legal (solving before factorizing, another pattern or size) stops a debug build, and every handle is released exactly once. Eigenvalues, singular values and the QR decomposition (in place, nothing outside of the view is changed) are those of the matrix that was given, in double or complex, whatever its spare capacity; the matrix is left alone when it is not moved, and an error of LAPACK is reported through the status.",
     ["histories", "inputs", "faults"], "all patterns, values, histories of the solver and error codes of LAPACK up to the bound",
     "The tests factorize one matrix once; the protocol of a solver that is used again, and errors of LAPACK, are never exercised.",
     ["il/linearAlgebra/sparse/factorization/Pardiso.h", "il/linearAlgebra/dense/factorization/Eigen.h", "il/linearAlgebra/dense/factorization/Singular.h", "il/linearAlgebra/dense/factorization/qrDecomposition.h"],
     [("handle of the direct solver", "il/linearAlgebra/sparse/factorization/Pardiso.h"), ("eigenvalues", "il/linearAlgebra/dense/factorization/Eigen.h"), ("singular values", "il/linearAlgebra/dense/factorization/Singular.h singularValues")],
     note="MKL's PARDISO and LAPACK (closed) are replaced by their contracts: the property is about what the library asks of them and does with the answers.")
prop("L07", "Iterative solvers do what the iteration asks, and report when it fails",
     "GMRES and conjugate gradients apply the operator and the preconditioner of the system to exactly the vectors the iteration asks for, each of its entries once, stop when the norm of the residual is at most the precision that was asked for, relative to the right-hand side (plus the absolute precision of conjugate gradients), or after the number of iterations that was allowed. The solution, the number of iterations and the norm are those of the iteration; when the precision was not reached, or the iteration broke down, the status is an error. The step-by-step interface makes one iteration at a time and gives its approximation and the norm of its residual, and GMRES with ILU(0) uses the factors of the matrix that was given. Nothing is accessed outside of the vectors and the work space.",
     ["histories", "inputs"], "all schedules of requests of the iteration, norms, elements and precisions up to the bound",
     "A test converges for a well-conditioned system or it does not: breakdowns, exhausted iterations and requests in an unusual order never happen in tests.",
     ["il/linearAlgebra/matrixFree/solver/Gmres.h", "il/linearAlgebra/matrixFree/solver/Cg.h", "il/linearAlgebra/sparse/factorization/GmresIlu0.h"],
     [("requests of GMRES", "il/linearAlgebra/matrixFree/solver/Gmres.h Solve, Next"), ("requests of conjugate gradients", "il/linearAlgebra/matrixFree/solver/Cg.h"), ("ILU(0)", "il/linearAlgebra/sparse/factorization/GmresIlu0.h")],
     note="MKL's reverse communication (dfgmres, dcg: closed) is replaced by any schedule of requests that its documentation allows.")
prop("L08", "Debug builds stop on linear algebra whose operands do not fit together",
     "In a debug build, each operation of linear algebra, on real and complex numbers of both precisions and on matrices of both storage orders, stops the program before BLAS, LAPACK or the iterative routines are given anything, if the sizes of its operands do not fit together, if its result is stored in one of its operands where this is not allowed, or if the kind of matrix, of norm or of transposition is not one it implements; and it never stops on operands that fit, empty ones included. This covers sums, scalar products, products, solutions of triangular and of general systems, factorizations, norms and the iterative solvers.",
     ["inputs", "configurations"], "all sizes up to 2^40 of the operands (allowed ones up to the bound), all kinds of matrices, transpositions and norms, all scalar types",
     "The unit tests only multiply matrices that fit; a comparison with the wrong dimension in one of the forty overloads accepts or stops only on particular shapes, and the memory that is then overwritten belongs to someone else.",
     ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/solve.h", "il/linearAlgebra/dense/blas/blas_static.h", "il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/factorization/luDecomposition.h", "il/linearAlgebra/dense/norm.h", "il/linearAlgebra/matrixFree/solver/Cg.h", "il/linearAlgebra/matrixFree/solver/Gmres.h"],
     [("preconditions", "IL_EXPECT_* at the top of each function")], note="BLAS, LAPACK and the iterative routines are models that do nothing wrong. The products of sparse matrices check no sizes and are left out.")
prop("M01", "Checked arithmetic gives the exact result or reports an error",
     "Sums, differences, products and divisions that check for overflow, and the rounding and conversion functions that go with them, report no error exactly when the mathematical result fits into the type, and then return it; products of three or four factors and combined operations never return a wrong result without reporting an error. This holds for all integers of both types.",
     ["inputs"], "all pairs, triples and quadruples of integers of all values",
     "Overflow limits are off by one for single values out of 2^64, and a wrong limit shows only for products of particular magnitudes.",
     ["il/core/math/safe_arithmetic.h"],
     [("overflow checks", "il/core/math/safe_arithmetic.h safeSum/safeProduct/safeDivision"), ("combined operations", "il/core/math/safe_arithmetic.h safeProductSum")])
prop("M03", "Sizes that overflow are refused, never given less memory",
     "Building, resizing or reserving an array of one to four dimensions (by columns or by rows, aligned or not), a small array, a string or a queue with any sizes gives a container of these sizes backed by memory for every one of its elements, or stops the program because no memory of that size can exist: a product of sizes that overflows never gives a container whose memory is smaller than its elements, and sizes that fit are never refused.",
     ["inputs"], "all sizes up to 2^63 - 1, with the combinations of the bound in several dimensions",
     "An overflow needs sizes no test can allocate; the memory that is asked is only seen by the allocator.",
     ["il/core/memory/allocate.h", "il/core/math/safe_arithmetic.h", "il/container/1d/Array.h", "il/container/1d/SmallArray.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h", "il/container/string/String.h", "il/container/deque/Deque.h"],
     [("number of bytes", "il/core/memory/allocate.h allocateArray"), ("products of extents", "il/container/2d/Array2D.h safeProduct"), ("aligned memory", "il/core/memory/allocate.h allocateArray with alignment")])
prop("M02", "The mathematical helpers return what their names say",
     "For every argument: the next and previous powers of two and the logarithm rounded up are those of the mathematical definition and always return; integer powers are the repeated product, without overflow when the result fits; minimum, maximum and absolute value, real part, conjugate, modulus and finiteness are those of the definition; rounding down gives the largest integer, or multiple of a positive divisor for non-negative numbers, that is not above the argument.",
     ["inputs"], "all integers and floating-point numbers, powers up to the bound",
     "The tests try a few numbers; the limits of the types, where shifts and squares overflow, are not among them.",
     ["il/math.h", "il/core/core.h"],
     [("powers of two", "il/math.h next_power_of_2_64/nextLog2"), ("powers", "il/math.h ipow"), ("rounding", "il/math.h floor")])
prop("G01", "Searching, sorting and statistics of arrays are exact",
     "The minimum, maximum and largest absolute value of an array, of a range of it or of a part of a column, are those of its elements, for integers and floating-point numbers, and their index is the first place where they occur; sorting gives the same elements in ascending order for any arrangement, and leaves the original alone when it returns a copy; binary search finds an element exactly when it is there; mean and variance are those of the definition.",
     ["inputs"], "all values, lengths up to the bound",
     "Tests sort random arrays and take extrema of small positive integers; negative numbers, fractions, repeated elements and ranges that touch the end are where such code fails.",
     ["il/algorithm/algorithmArray.h", "il/algorithm/algorithmArray2D.h"],
     [("quicksort and insertion sort", "il/algorithm/algorithmArray.h sort_aux"), ("extrema", "il/algorithm/algorithmArray.h min/max/maxAbs/minMax"), ("binary search", "il/algorithm/algorithmArray.h binarySearch")])
prop("F01", "Arrays survive a .npy file, in the format of NumPy",
     "An array of int, int_t or double and a matrix, of any sizes, any elements and with or without spare capacity, saved in a .npy file gives a file in version 1.0 of the npy format (aligned header with the type, the storage order and the shape; elements without gaps, column by column) and is loaded back with the same sizes and the same bits; the files written by NumPy in this format are loaded with the elements they contain, and are refused for another type, rank or storage order. Whenever a file could not be written completely the save reports an error, and a successful save is on the disk.",
     ["inputs", "faults"], "all arrays, contents and places where the disk is full up to the bound",
     "The tests save and load three small arrays without spare capacity on a disk that is never full.",
     ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
     [("elements", "il/io/numpy/numpy.h SaveHelper, LoadHelper"), ("header", "il/io/numpy/numpy.cpp saveNumpyInfo, getNumpyInfo")])
prop("F02", "Loading a .npy file of any content is safe",
     "Loading a .npy file, whatever its bytes, either gives an array or a matrix of which every element was read from the file, or reports an error. It never crashes, aborts, reads outside of its buffers, returns memory that was not read, leaks memory or leaves the file open: truncated files, wrong lengths of the header, malformed types and shapes, and shapes with huge or negative numbers are reported, as are missing files. A sparse matrix is only loaded from rows and columns that make a valid matrix.",
     ["inputs", "faults"], "all files made of the beginnings and the arbitrary bytes of the bound",
     "The tests only load files written by NumPy; a parser fails on the malformed ones.",
     ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
     [("header", "il/io/numpy/numpy.cpp getNumpyInfo"), ("elements", "il/io/numpy/numpy.h LoadHelper")],
     note="A recorded finding: an empty matrix with a huge size aborts.")
prop("F03", "Reading a TOML file of any content is safe",
     "Loading a .toml file, whatever its bytes, its line lengths and line ends, either gives a map whose values all have a type and can be found by their keys, or reports an error with a line number inside of the file. It never crashes, aborts, loops, reads outside of its buffers, leaks memory or leaves the file open; long lines are read like short ones and a missing file is reported.",
     ["inputs", "faults"], "all files made of the beginnings and the arbitrary bytes of the bound",
     "The tests read about twenty well-formed files; a parser fails on the malformed ones: unclosed quotes and brackets, truncated UTF-8, missing keys.",
     ["il/io/toml/toml.cpp"],
     [("values", "il/io/toml/toml.cpp parseValue and what it calls"), ("tables", "il/io/toml/toml.cpp parseTable"), ("lines", "il/io/toml/toml.cpp parse")])
prop("F04", "Settings survive a TOML file, and TOML documents mean what TOML says",
     "A map of booleans, integers, finite floating-point numbers, UTF-8 texts without NUL, arrays of values of one type, matrices and nested maps with non-empty names, saved in a .toml file and loaded again, has the same keys and equal values, bit by bit for floating-point numbers, in both kinds of maps; a save that could not be done completely reports an error. Well-formed documents (signs, underscores, exponents, escape codes, literal texts, comments, blanks, \\n and \\r\\n, arrays on several lines, inline tables, dotted tables, arrays of tables, bare and quoted keys) are read with the values they denote, and duplicate keys, arrays of mixed types and malformed values, keys and headers are refused.",
     ["inputs", "histories", "faults"], "all values and documents up to the bound",
     "There is no test that saves a TOML file, and the tests of the parser read one file per feature.",
     ["il/io/toml/toml.h", "il/io/toml/toml.cpp", "il/io/io_base.h"],
     [("writer", "il/io/toml/toml.h save_aux"), ("parser", "il/io/toml/toml.cpp"), ("file types", "il/io/io_base.h")])
prop("F05", "A file read by pieces gives the bytes of the file, whatever the buffer",
     "Reading and skipping objects of a file with il::File, in any sequence and with a buffer of any size (or none), gives the bytes of the file in order; a read succeeds exactly when the file contains all its bytes, writes nothing past the objects, and reports an error otherwise. The bytes that are written are those of the file, and when they could not all be written an error is reported at the latest when the file is closed; a file that can not be opened is reported and the object can be destroyed.",
     ["inputs", "histories", "faults"], "all files, sizes of the buffer, sequences of operations and places where the disk is full up to the bound",
     "No test uses il::File; its buffer only goes wrong for some sequences of sizes.",
     ["il/io/File.h"],
     [("reads through the buffer", "il/io/File.h File::Read"), ("skips", "il/io/File.h File::Skip"), ("writes", "il/io/File.h File::Write, File::Close")])
prop("F06", "Maps survive a .data file",
     "A map of booleans, integers, floats, doubles, texts, arrays and matrices of doubles, matrices of bytes and nested maps, with non-empty keys, saved in a .data file and loaded again, in both kinds of maps, has the same keys and the same values, bit by bit, whatever its other settings; so have maps of arrays of doubles and int of one size that are saved as arrays of structures. A map that contains anything else, and a file that could not be written completely, are reported by an error.",
     ["inputs", "faults"], "all values, keys, nestings and places where the disk is full up to the bound",
     "No test uses .data files.",
     ["il/io/filepack/filepack.h", "il/data.h"],
     [("writer", "il/io/filepack/filepack.h auxSave"), ("reader", "il/io/filepack/filepack.h auxLoad")])
prop("F07", "Loading a .data file of any content is safe",
     "Loading a .data file, whatever its bytes, either gives a map whose values all have a type, were read from the file and can be found by their keys, or reports an error: a file that is cut anywhere always does. It never crashes, aborts, loops, reads outside of its buffers, returns memory that was not read, leaks memory or leaves the file open, even for sizes that are negative or huge.",
     ["inputs", "faults"], "all files made of the beginnings and the arbitrary bytes of the bound",
     "No test uses .data files; a reader fails on malformed ones.",
     ["il/io/filepack/filepack.h", "il/data.h"],
     [("reader", "il/io/filepack/filepack.h auxLoad, readVarint")],
     note="Matrices without elements whose other size is huge are excluded (the finding recorded for F02).")
prop("F08", "What can not be saved or loaded is reported",
     "The type of a file is the extension its name ends with; saving or loading, with or without options, a value of a type that the kind of file can not hold, or under a name with an unknown extension, reports an error through the status: it does not abort, does not give or write anything, and leaves no file open.",
     ["inputs"], "all names of the bound, with the types of values of the bound",
     "No test saves something that can not be saved.",
     ["il/io/io_base.h", "il/io/numpy/numpy.h", "il/io/toml/toml.h", "il/io/filepack/filepack.h"],
     [("type of the file", "il/io/io_base.h fileType"), ("dispatch", "il/io/io_base.h load/save")])
