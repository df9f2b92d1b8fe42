"""writes properties.jsonl (kept as a program so that the long texts stay readable)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("P01", "Field arithmetic is exact in GF(2^e) for every degree and minimal polynomial",
     "For every degree from 2 to 16 and every irreducible minimal polynomial of that degree, multiplication and inversion of field elements are exactly those of GF(2)[x] modulo that polynomial, whichever representation (tables, shift-and-add, packed word tables) computes them. "
     "Arithmetic on polynomials over GF(2) (product, degree, quotient and remainder, modular inverse) is exact within a machine word. "
     "The library's lists of irreducible polynomials contain, for each degree, every irreducible polynomial of that degree exactly once and nothing else.",
     ["inputs", "configurations"], "all degrees 2..16, all irreducible minimal polynomials, all pairs of elements, all word-sized polynomials",
     "The test suite uses one minimal polynomial per degree and only indirectly through matrix products of random entries; it never compares multiplication or inversion with an independent definition, so a wrong table entry, reduction step or list entry that does not occur in its samples goes unnoticed.",
     ["src/gf2e.c", "src/gf2e.h", "src/gf2x.h"],
     [("multiplication tables and reduction table", "src/gf2e.c gf2e_init"), ("table-free multiplication", "src/gf2e.h _gf2e_mul_arith"),
      ("inverse by extended Euclid", "src/gf2e.h gf2e_inv, src/gf2x.h gf2x_invmod"), ("word tables", "src/gf2e.c gf2e_t16_init"), ("irreducible polynomials", "src/gf2e.c irreducible_polynomials")],
     ["return values of the field's multiplication and inversion"])

prop("P02", "Packed and bit-sliced representations convert without loss, both ways",
     "Converting a packed matrix to the bit-sliced representation, or back, yields a matrix with the same entries over the same field, for every degree, every shape and every alignment, into new and into existing (also window) targets. "
     "The source is unchanged, whatever was in an existing target is replaced completely, nothing outside the target changes, and the bits beyond the last column stay clear.",
     ["inputs", "configurations"], "all degrees 2..16, all matrix shapes and contents, new/existing/window targets with arbitrary previous contents",
     "The tests convert a few random sizes per degree from fresh matrices; the conversion code has one hand-written bit-scatter path per degree and per remaining-columns case, each only exercised by particular column counts and entry bits.",
     ["src/conversion.c", "src/conversion.h", "src/conversion_slice8.c", "src/conversion_slice16.c", "src/conversion_cling8.c", "src/conversion_cling16.c"],
     [("scatter of coefficients into slices", "src/conversion_slice*.c, _mzed_slice2/4"), ("gather of slices into elements", "src/conversion_cling*.c, _mzed_cling2/4"), ("masking of the last word", "src/conversion.c")],
     ["entries of source and target after the call"])

prop("P03", "Element access, copying, assembly and printing mean what they say",
     "Reading, writing and adding to an element affects exactly that element; setting to a scalar makes the matrix diagonal; copy, submatrix, concatenation and stacking produce exactly the entries of their operands at the right places, in packed and in bit-sliced form, into new or existing targets. "
     "Randomising overwrites every entry by a field element, any of them at any place, and printing shows every entry. Operands, other matrices and the unused bits beyond the last column are untouched.",
     ["inputs", "histories"], "all degrees, shapes, positions, block boundaries (aligned to words or not), and sequences of such calls",
     "Only creation, copying and slicing of a few shapes are tested; submatrix, concat, stack and single-element addition have no tests at all.",
     ["src/mzed.c", "src/mzed.h", "src/mzd_slice.c", "src/mzd_slice.h"],
     [("element addressing inside words", "src/mzed.h mzed_read_elem/mzed_write_elem/mzed_add_elem"), ("slice-wise delegation", "src/mzd_slice.h"), ("diagonal fill", "src/mzed.c mzed_set_ui, src/mzd_slice.c mzd_slice_set_ui")],
     ["entries of all live matrices"])

prop("P04", "Row and column operations and permutations act exactly where asked",
     "Adding a multiple of a row, rescaling, swapping, copying rows, and swapping columns (in all rows or a range of them) change exactly the named row or columns, from the named start column on, by exactly the field operation asked for. "
     "Applying a permutation from the left or the right, or its inverse, performs exactly its sequence of transpositions, so applying one and then its inverse restores the matrix. The rest of the matrix, the other operands and the padding bits do not change.",
     ["inputs", "histories"], "all degrees, shapes, row/column indices, start columns, scalars (including 0 and 1) and permutations in LAPACK form",
     "The tests only check row addition and column swap indirectly through elimination; no test applies permutations, rescales rows of a bit-sliced matrix, or uses start columns inside a word.",
     ["src/mzed.c", "src/mzed.h", "src/mzd_slice.h", "src/conversion.h", "src/permutation.h"],
     [("masked first word of a row operation", "src/mzed.c mzed_add_multiple_of_row, mzed_rescale_row"), ("column swap inside and across words", "src/mzed.h mzed_col_swap"), ("expansion of a permutation to bit columns", "src/permutation.h")],
     ["entries of all live matrices"])

prop("P05", "A window is its rectangle: reads and writes through it touch nothing else",
     "Any operation given a window of a larger matrix, as operand or as target, behaves exactly as on a copy of the rectangle the window names; when the window is a target the rectangle of the larger matrix receives the result. "
     "Every entry of the larger matrix outside the rectangle, every other live matrix, and the unused bits beyond the last column keep their values.",
     ["inputs", "histories"], "all operations that accept matrices, all degrees, all window positions allowed by the alignment rule, nested windows, histories interleaving writes to a matrix and its windows",
     "No test creates a window directly; windows occur only inside the recursive algorithms at a handful of split points, and no test looks at the surroundings of a target.",
     ["src/mzed.h", "src/mzed.c", "src/mzd_slice.h", "src/mzd_slice.c", "src/newton_john.c", "src/trsm.c", "src/ple.c"],
     [("shared storage", "src/mzed.h mzed_init_window, src/mzd_slice.h mzd_slice_init_window"), ("masks for the last word of a row", "src/*.c")],
     ["the complete contents of every live matrix before and after each call"])

prop("P06", "Addition and scalar multiplication are entrywise field operations",
     "The sum (equally the difference) of two matrices, the product of a matrix by any scalar, and the accumulation of a scalar multiple are entrywise exactly the field's operations, in both representations, for new, existing and aliased targets. "
     "Operands that are not the target, other matrices and padding bits are unchanged.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, shapes (including those large enough for the table-driven path), scalars, targets that are new, existing or one of the operands",
     "Scalar multiplication is tested for one polynomial per degree and small shapes; the word-table path for large matrices, accumulation of scalar multiples and aliasing are not tested.",
     ["src/mzed.c", "src/mzd_slice.h", "src/mzd_ptr.h", "src/gf2e.c"],
     [("scalar multiple by word tables", "src/mzed.c mzed_mul_scalar"), ("scalar multiple by shifted sums of slices with reduction", "src/mzd_slice.h mzd_slice_addmul_scalar, src/mzd_ptr.h _mzd_ptr_add_modred")],
     ["entries of the target"])

prop("P07", "Every multiplication algorithm computes the exact matrix product",
     "For all conformable matrices over the same field, each way of asking for the product (default, schoolbook, table-driven, Strassen with any permitted cutoff, Karatsuba, bilinear maps, packed or bit-sliced) returns exactly the mathematical product, whatever an existing target contained before. "
     "So the choice of algorithm, representation, cutoff or size never changes a result, and the operands are unchanged.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, shapes (odd, rectangular, across the dispatch thresholds), operand contents, cutoffs, dirty targets, operands that coincide",
     "The tests compare a few algorithms with each other on random matrices of a few sizes with one polynomial per degree and one cutoff; systematic errors common to the compared variants, other polynomials, targets with previous contents, and dispatch boundaries are out of their reach.",
     ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/karatsuba.c", "src/mzd_ptr.c", "src/mzd_ptr.h", "src/mzd_slice.c", "src/mzd_slice.h", "src/conversion.h", "src/blm.c"],
     [("algorithm choice", "src/mzed.c _mzed_mul, src/strassen.c _mzed_strassen_cutoff"), ("Strassen-Winograd schedule with peeling", "src/strassen.c"), ("multiplication tables", "src/newton_john.c"), ("Karatsuba formulas with reduction", "src/karatsuba.c, src/mzd_ptr.c")],
     ["entries of the result and of the operands"])

prop("P08", "Accumulating products add exactly A*B to the target",
     "Every accumulating multiplication leaves its target equal to its old contents plus the exact product, for every algorithm, representation and cutoff; called without a target it returns the plain product. "
     "The operands and everything else are unchanged.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, shapes, target contents, algorithms, cutoffs and recursion depths",
     "Accumulation is tested against the plain product for a few sizes from random targets; deep recursion with odd peeled rows and columns, other cutoffs, windows and other polynomials are not.",
     ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/mzd_ptr.c", "src/mzd_slice.c", "src/mzd_slice.h", "src/conversion.h"],
     [("accumulating Strassen schedule", "src/strassen.c _mzed_addmul_strassen"), ("accumulating tables", "src/newton_john.c _mzed_mul_newton_john"), ("accumulating Karatsuba", "src/mzd_slice.c, src/mzd_ptr.c")],
     ["entries of the target and of the operands"])

prop("P09", "Echelon forms are echelon forms of the same row space, with the right rank",
     "Reducing a matrix returns its rank and leaves the unique reduced row echelon form when the reduced form is asked for, and otherwise some row echelon form spanning the same row space, whichever algorithm does it, in both representations. "
     "Nothing else changes.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, shapes (wide, tall, across the dispatch thresholds), ranks, pivot patterns",
     "The tests check ranks through a comparison that can hardly fail and only on random (nearly always full-rank) matrices; rank-deficient inputs with scattered pivots, bit-sliced non-reduced forms and other polynomials are not covered.",
     ["src/echelonform.c", "src/echelonform.h", "src/mzed.c", "src/newton_john.c", "src/ple.c"],
     [("elimination with tables", "src/newton_john.c mzed_echelonize_newton_john"), ("echelon form from PLE", "src/echelonform.c"), ("naive elimination", "src/mzed.c mzed_echelonize_naive")],
     ["returned rank and entries of the matrix"])

prop("P10", "PLE and PLUQ decompositions multiply back to the input",
     "Each decomposition returns the rank r of the matrix, permutations that are valid transposition sequences, and a matrix from which a lower triangular factor with non-zero diagonal and an echelon (or unit upper triangular) factor of rank r can be read off whose product, permuted as reported, is the original matrix, for every algorithm and recursion cutoff. "
     "Pivot columns are strictly increasing for PLE, and nothing besides the matrix and the two permutations changes.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, shapes, ranks, pivot patterns, recursion cutoffs, block boundaries",
     "The tests multiply back for random matrices of a few sizes with default cutoffs, so the block recursion and the compression of pivots across blocks run on few rank profiles, and PLUQ is not tested at all.",
     ["src/ple.c", "src/ple.h", "src/newton_john.c", "src/permutation.h"],
     [("block recursion and compression of L", "src/ple.c _mzd_slice_ple"), ("base case", "src/newton_john.c mzed_ple_newton_john, src/ple.c mzed_ple_naive"), ("column permutations of U", "src/ple.c _mzd_slice_pluq")],
     ["returned rank, matrix and permutations"])

prop("P11", "Triangular solving returns the unique solution and reads only the triangle",
     "Solving with a lower or an upper triangular matrix with non-zero diagonal overwrites the right-hand side with the unique solution, for every algorithm, representation and cutoff, whatever stands in the other triangle of the coefficient matrix. "
     "The coefficient matrix and everything else are unchanged.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, sizes across the block boundaries, numbers of right-hand sides, diagonals, contents of the unread triangle",
     "The tests use random unit-like systems of a few sizes with default cutoffs; block splits at other cutoffs, arbitrary diagonals at the block borders and garbage in the other triangle are sampled thinly or not at all.",
     ["src/trsm.c", "src/trsm.h", "src/trsm.inl", "src/newton_john.c"],
     [("block recursion", "src/trsm.c _mzd_slice_trsm_*"), ("table-driven base case", "src/newton_john.c"), ("naive solve", "src/trsm.c")],
     ["entries of the right-hand side and of the coefficient matrix"])

prop("P12", "Inversion returns the inverse",
     "Inverting a square matrix of full rank returns the matrix whose product with the input is the identity, into a new or an existing target of any previous contents, and leaves the input unchanged; a singular input is refused. "
     "Inverting twice gives back the input.",
     ["inputs"], "all degrees, minimal polynomials, sizes, invertible and singular matrices, new and existing (window) targets",
     "There is no test of inversion.",
     ["src/newton_john.c"], [("echelon form of [A|1]", "src/newton_john.c mzed_invert_newton_john")],
     ["entries of the result; diagnostic for singular inputs"])

prop("P13", "Bilinear maps and products of matrix polynomials are exact",
     "Every bilinear map the library constructs, from its own or from a caller's choice of moduli, with or without a compiled form, multiplies all polynomials of the given lengths exactly (modulo the minimal polynomial when one is given), and applying it to matrix coefficients adds exactly the product to the target. "
     "All ways of multiplying polynomials with matrix coefficients (schoolbook, Karatsuba, remaindering, evaluation) agree with the exact product; addition, comparison and change of length of such polynomials are exact; constructing and releasing maps always terminates normally.",
     ["inputs", "configurations"], "all pairs of lengths 1..16, all valid sets of moduli, all minimal polynomials, all coefficient matrices and target contents",
     "The tests use one map (a single modulus per degree) through the packed product; other moduli, unequal lengths, uncompiled maps and the polynomial functions have no tests.",
     ["src/blm.c", "src/blm.h", "src/mzd_poly.c", "src/mzd_poly.h", "src/mzd_ptr.c", "src/mzd_ptr.h", "src/karatsuba.c"],
     [("maps from moduli", "src/blm.c blm_init_crt"), ("solving for the recombination", "src/blm.c _blm_finish_polymult"), ("application", "src/blm.c _mzd_ptr_apply_blm_*"), ("Karatsuba formulas", "src/karatsuba.c"), ("evaluation at field elements", "src/mzd_poly.c")],
     ["the three matrices of a map; coefficients of product polynomials"])

prop("P14", "Mismatched operands are refused, matching ones never are",
     "Checked operations given operands or a target whose dimensions do not fit, or matrices over different fields where that matters, end with a diagnostic instead of computing, and modify nothing before. "
     "They never refuse arguments that fit.",
     ["inputs", "configurations"], "all checked additions, products, accumulations, copies, concatenations, stackings and inversions; every single mismatch of rows, columns or field of either operand or the target",
     "No test passes mismatched arguments.",
     ["src/mzed.c", "src/mzd_slice.c", "src/mzd_slice.h", "src/newton_john.c", "src/strassen.c", "src/conversion.h"],
     [("argument checks", "m4ri_die calls at the entry of each checked function")],
     ["termination with a diagnostic, or a returned result"])

prop("P15", "Comparison, zero tests and first-zero-row answer exactly",
     "Two matrices compare as equal exactly when they have the same shape and the same entries, and a matrix tests as zero exactly when all entries are zero, wherever the single differing entry or bit may be, for windows too; unequal matrices never compare as equal in either order. "
     "The first zero row of an echelon form is the number of its non-zero rows. None of these modifies anything.",
     ["inputs"], "all degrees, shapes, positions and bits of a single difference, windows with arbitrary surroundings",
     "Tests use comparison only as an oracle for equality of results expected to be equal; nothing checks that it can tell matrices apart in the last column, last row or a high coefficient bit.",
     ["src/mzed.c", "src/mzed.h", "src/mzd_slice.h", "src/mzd_poly.h"],
     [("comparison of all words and slices", "src/mzed.h mzed_cmp, src/mzd_slice.h mzd_slice_cmp"), ("zero test", "src/mzed.h mzed_is_zero, src/mzd_slice.h mzd_slice_is_zero")],
     ["return values"])

prop("P16", "Multiplication tables and table-driven row elimination are exact",
     "The table built for a row, in a new table or over an older one, holds for every field element exactly that multiple of the row from the start column on. "
     "Eliminating a range of rows with one to six such tables at once subtracts from each of these rows exactly the multiples of the pivot rows that clear the pivot columns, and changes no other row.",
     ["inputs", "configurations"], "all degrees, minimal polynomials, row lengths, start columns inside a word, row ranges, numbers of tables 1..6",
     "Tables are only tested through complete eliminations and products, in which wrong entries for rarely used multipliers or start columns can stay unused.",
     ["src/newton_john.c", "src/newton_john.h"],
     [("Gray-code table construction", "src/newton_john.c mzed_make_table"), ("row elimination", "src/newton_john.c mzed_process_rows*")],
     ["entries of the table and of the matrix"])

prop("P17", "The library holds exactly the storage of live objects: nothing leaks",
     "After any sequence of calls that return, the GF(2) matrices and permutations that exist are exactly those that make up the live objects (one per packed matrix, one per coefficient of a bit-sliced matrix or polynomial, windows included), and once every matrix, permutation, polynomial and field has been freed no memory block obtained by the library is left. "
     "Freeing a window leaves its root usable, and nothing is released twice or used after its release.",
     ["inputs", "histories"], "all operations, all sizes on both sides of every internal threshold, all branches of every operation (rank deficient, windows, new and existing targets)",
     "The tests never count what an operation leaves behind; a temporary that is not released on one branch, or a working matrix released twice only for particular shapes, changes no result.",
     ["src/mzed.c", "src/mzd_slice.h", "src/mzd_poly.h", "src/mzd_poly.c", "src/gf2e.c", "src/blm.c", "src/newton_john.c", "src/strassen.c", "src/karatsuba.c", "src/ple.c", "src/echelonform.c", "src/trsm.c"],
     [("temporaries and windows of the recursive algorithms", "src/strassen.c, src/ple.c, src/trsm.c, src/echelonform.c"), ("field and map tables", "src/gf2e.c gf2e_free, src/blm.c blm_free"), ("tables", "src/newton_john.c njt_mzed_free")],
     ["objects and blocks allocated and not yet released"])

prop("P18", "A call's effect depends on its operands only, not on what happened before",
     "In any sequence of calls, over any number of fields, matrices in both representations, windows, permutations and polynomials that live at the same time, are overwritten, freed and created again, every call does to its operands exactly what it does to operands of these values in isolation. "
     "No call's result depends on earlier calls, on other live objects, on which addresses objects happen to have, or on the previous contents of a target that is overwritten, and no call disturbs an object it was not given.",
     ["histories", "inputs"], "all finite sequences of calls of the interface that respect the documented preconditions",
     "Each unit test makes one kind of call on fresh operands over one field and ends; state kept between calls (a cached table or plan, a static buffer, a pointer compared instead of contents) is never observed with a different history before it.",
     ["src/gf2e.c", "src/mzed.c", "src/mzd_slice.h", "src/newton_john.c", "src/strassen.c", "src/blm.c", "src/mzd_poly.c", "src/ple.c", "src/trsm.c", "src/conversion.c"],
     [("tables owned by a field", "src/gf2e.c gf2e_init, gf2e_free"), ("temporaries and targets", "src/strassen.c, src/newton_john.c, src/karatsuba.c"), ("storage shared by windows", "src/mzed.h mzed_init_window, src/mzd_slice.h mzd_slice_init_window")],
     ["every live object after every call"])

if __name__ == "__main__":
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
