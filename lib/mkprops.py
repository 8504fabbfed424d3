#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Completion of polynomial generators yields a Groebner (Janet) basis",
     "Completing any finite set of integer polynomials (or of module elements), in one go or by pushing more generators after a completion, ends with a basis that generates exactly the same ideal (submodule) over the rationals and is a Janet basis: every product of a basis element by one of its nonmultiplicative variables has exactly one Janet divisor among the leading monomials and reduces to zero. "
     "The basis is sorted with pairwise different leading monomials, each element primitive and tail-irreducible, and the reported multiplicative variables are those of Janet division. "
     "The unit ideal, and only it, is reported as such.",
     ["inputs", "histories"], "every finite system of integer polynomials in any number of variables, for lex and degree orders, with or without module components, every selection strategy offered (block, one by one, minimal), every push/build history",
     "The unit tests never compile the polynomial part (merge markers) and would only print a few benchmark bases; the claim quantifies over all systems and orders.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/wrap.h", "ginv/wrap.cpp", "ginv/poly.cpp", "ginv/monom.cpp"],
     [("algorithmBlockTQ/TQ/TQ1", "ginv/poly_int.cpp"), ("prolong with criteria I and II", "ginv/poly_int.cpp"), ("Janet tree find/insert", "ginv/janet.cpp")],
     [("mQ", "generators and prolongations still to examine", "ginv/poly_int.h"), ("mT", "the current basis", "ginv/poly_int.h"), ("mJanet", "one Janet tree per module component", "ginv/poly_int.h")],
     ["JanetPolyInt::begin()", "JanetPolyInt::isOne()", "JanetPolyInt::janet()"])
prop("C02", "Normal form by a completed basis decides membership and is canonical",
     "After completion, the normal form of a polynomial is zero exactly when the polynomial lies in the ideal (submodule); otherwise it is a primitive polynomial, congruent to a nonzero integer multiple of the input, none of whose monomials lies in the ideal of leading monomials. "
     "Two inputs congruent modulo the ideal have proportional normal forms, and looking a monomial up finds the unique Janet divisor or nothing exactly when none exists.",
     ["inputs", "histories"], "every completed system, every order, every polynomial and monomial looked up",
     "No test reduces polynomials with the compiled basis; membership is a statement about all polynomials of an ideal.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.cpp"],
     [("nf/nfTail/pp", "ginv/poly_int.h"), ("JanetPolyInt::find", "ginv/poly_int.h"), ("Janet::find", "ginv/janet.cpp")],
     [("mT", "the current basis", "ginv/poly_int.h")], ["JanetPolyInt::nf", "JanetPolyInt::find"])
prop("C03", "Hilbert polynomials count the monomials outside the leading ideal",
     "For every completed system and for every complete Janet set of monomials, the reported Hilbert polynomial evaluated at any sufficiently large degree s equals the number of monomials (summed over module components) of degree at most s outside the ideal of leading monomials.",
     ["inputs", "histories"], "every completed polynomial system and every complete Janet tree, all variables counts and module ranks",
     "Existing tests only exercise binomials of the Hilbert polynomial class, never the polynomial of a basis.",
     ["ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/wrap.h", "util/hilbertpoly.cpp"],
     [("JanetPolyInt::buildHP", "ginv/poly_int.cpp"), ("Janet::buildHP", "ginv/janet.cpp"), ("Wrap::multi", "ginv/wrap.h")], (), ["buildHP"])
prop("C04", "The Janet tree implements Janet division",
     "After any sequence of insertions of monomials without a Janet divisor in the tree, and after copying, swapping or garbage collecting it, looking a monomial up returns the unique element that divides it by multiplicative variables only, and nothing when there is none. "
     "Each element's nonmultiplicative variables are exactly those given by the definition of Janet division over the elements present, the tree enumerates exactly the inserted elements, and an element prints as its two monomials and its nonmultiplicative variables.",
     ["inputs", "histories"], "every sequence of insert/find/copy/swap operations on monomials of any number of variables",
     "The tests run random insertions and only assert (compiled out) or draw the tree; no test compares with the definition.",
     ["ginv/janet.h", "ginv/janet.cpp", "ginv/wrap.h"],
     [("Janet::find", "ginv/janet.cpp"), ("Janet::insert", "ginv/janet.cpp"), ("Janet::build (copy)", "ginv/janet.cpp")],
     [("mRoot", "tree of degrees and variables", "ginv/janet.h"), ("mNM", "nonmultiplicative variables of an element", "ginv/wrap.h")], ["Janet::find", "Wrap::NM", "Janet::begin"])
prop("C05", "Monomial completion produces complete involutive sets",
     "Completing any finite set of monomials, with the Janet tree or with any of the offered orderings, ends with a set that contains the given monomials (or an involutive divisor of each), lies in the monomial ideal they generate, and whose nonmultiplicative variables follow the definition of the division chosen. "
     "Every monomial of the ideal has an involutive divisor in the completed set - exactly one for Janet division and for the orders that respect divisibility, at least one for the order by degree of ancestor - and every monomial outside has none.",
     ["inputs", "histories"], "every finite set of monomials, every ordering, every push/build history including duplicates",
     "The corresponding tests are commented out; completeness speaks about all monomials of an ideal.",
     ["ginv/mcompletion.h", "ginv/mcompletion.cpp", "ginv/janet.cpp", "ginv/wrap.h"],
     [("MCompletion::insert/build/find", "ginv/mcompletion.cpp"), ("MJanet::build", "ginv/mcompletion.cpp")],
     [("mT", "completed set", "ginv/mcompletion.h"), ("mQ", "pending prolongations", "ginv/mcompletion.h")], ["MCompletion::T", "MCompletion::find", "MJanet::tree"])
prop("C06", "Polynomial arithmetic is exact and keeps the canonical form",
     "Any sequence of polynomial operations (constants, monomials, copies, moves, swaps, negation, sum, difference, product, power, prolongation, mixed with integers written as text) has the result of the same operations in the polynomial ring (module) over the integers, for every order and any coefficient size. "
     "Every polynomial stays a strictly decreasing list of terms with nonzero coefficients, its leading term, degree, length, size and content queries and its printed form agree with that list, and operations never change an operand other than their target.",
     ["inputs", "histories"], "every program of operations on any number of polynomials, all orders, coefficients of any size",
     "ginv/test/poly_int.cpp does not compile (merge conflict markers), so no test touches the compiled polynomial arithmetic.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/poly.cpp", "util/list.h", "util/integer.cpp"],
     [("add/sub/mult/pow/minus", "ginv/poly_int.cpp"), ("order comparison", "ginv/poly.cpp")],
     [("mHead", "sorted list of terms", "ginv/poly_int.h")], ["PolyInt::begin", "PolyInt::lm/lc/length/degree/isPp"])
prop("C07", "Reduction steps and normal forms stay in the residue class",
     "Reducing a polynomial by another replaces it by a nonzero multiple of itself minus a multiple of the divisor that cancels the targeted term; the primitive part only divides out the content. "
     "Head and tail normal forms by any divisor set terminate for well-orders with a polynomial proportional to the exact normal form over the rationals and report irreducibility truthfully.",
     ["inputs", "histories"], "every polynomial, every divisor list, all orders, any coefficient size, module components included",
     "Not compiled in any test; correctness is relative to exact rational division for all inputs.",
     ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/monom.cpp"],
     [("reduction/redTail/redMaybe", "ginv/poly_int.cpp"), ("nf/nfTail/isNf", "ginv/poly_int.h"), ("pp/isPp", "ginv/poly_int.cpp")], (), ["PolyInt::reduction", "PolyInt::nf", "PolyInt::pp"])
prop("C08", "Monomial operations form the free commutative monoid with components",
     "Monomials behave as exponent vectors with an optional module component: products, powers, prolongations, quotients, copies, moves, swaps, assignments and permutations give the exact exponents, component and total degree. "
     "Equality, divisibility and the degrees of gcd and lcm agree with the exponent vectors and components, a monomial prints as its component (when it has one) and its exponents, and no operand other than the target changes.",
     ["inputs", "histories"], "every program of monomial operations, any number of variables and exponents",
     "The monomial tests of the compiled library are commented out.",
     ["ginv/monom.h", "ginv/monom.cpp"], [("constructors, mult, div, divisiable, gcd, lcm", "ginv/monom.cpp")],
     [("mVariables/mDegree/mPos", "exponents, total degree, component", "ginv/monom.h")], ["Monom::operator[]", "Monom::degree", "Monom::pos"])
prop("C09", "Monomial orders are total, multiplicative and mutually consistent",
     "Each monomial comparison (lexicographic, degree reverse lexicographic, antigraded) and each of its module versions (component first or term first) is a total order compatible with multiplication that agrees with its definition; comparing with a product given as two factors equals comparing with the product. "
     "Comparing opposite ways gives opposite answers, and equality of the order coincides with equality of the monomials.",
     ["inputs"], "all pairs and triples of monomials with any components",
     "No test evaluates the orders of the compiled library.",
     ["ginv/monom.cpp", "ginv/poly.h", "ginv/poly.cpp"], [("lex/deglex/alex (two and three arguments)", "ginv/monom.cpp"), ("TOP/POT wrappers", "ginv/poly.cpp")], (), ["Monom::lex/deglex/alex", "Poly::cmp"])
prop("C10", "The forest of Janet trees answers with divisors and loses no element",
     "Looking a monomial up in the forest returns an inserted element that divides it using only variables that are multiplicative for that element in its own tree and across trees, and returns nothing when no element qualifies; every inserted element is found by its own monomial, for ancestors of any degree, and the size counts the insertions.",
     ["inputs", "histories"], "every sequence of insertions, prolongations and lookups, ancestor degrees below and above the initial capacity",
     "The forest tests only draw pictures and their assertions are compiled out.",
     ["ginv/gb.h", "ginv/gb.cpp", "ginv/janet.cpp"], [("GB::find/insert", "ginv/gb.cpp"), ("Janet::setMNprec", "ginv/janet.cpp")],
     [("mForest", "one Janet tree per ancestor degree", "ginv/gb.h")], ["GB::find", "Wrap::NMd"])
prop("C11", "Arena accounting: everything created is released and garbage collection is exact",
     "In every history of creating, combining, copying, collecting and destroying values in an arena, the arena's used-bytes counter returns to zero when all its values are gone, and the process-wide current memory returns to its previous value when the arenas are gone. "
     "Garbage collection (copying a value to a fresh arena) never changes the value and never grows the used bytes, and no operation touches memory outside the live blocks.",
     ["histories"], "every program over lists, trees, integers, monomials, polynomials, Janet trees and completions",
     "Tests allocate a few objects and the end-of-life check is an assertion that the release build drops.",
     ["util/allocator.h", "util/allocator.cpp", "util/list.h", "util/rbtree.h", "util/integer.cpp", "ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/mcompletion.cpp"],
     [("Allocator::deallocate", "util/allocator.cpp"), ("GC<T>::reallocate", "util/allocator.h"), ("destructors", "ginv/poly_int.h")],
     [("mSize", "used bytes", "util/allocator.h"), ("sCurrMemory", "process-wide bytes", "util/allocator.cpp")], ["Allocator::size", "Allocator::currMemory"])
prop("C12", "The arena hands out disjoint, aligned, stable memory and counts it",
     "Blocks handed out by an arena never overlap while the arena lives, are 16-byte aligned, and keep their contents across later allocations, releases and arena swaps. "
     "The used-bytes, reserved-bytes, current-memory and peak-memory counters follow exactly from the requests, a release never frees or moves other blocks, and exceeding a set memory limit ends the process instead of continuing. Without arenas (the other build configuration) the same holds for blocks that are held, and what is counted is exactly what is held.",
     ["histories"], "every sequence of allocate/release/swap/copy/destroy over several arenas and block sizes",
     "Two unit tests allocate fixed patterns; overlap and counter drift need arbitrary size sequences across page boundaries.",
     ["util/allocator.h", "util/allocator.cpp"], [("Allocator::allocate", "util/allocator.cpp"), ("limit check", "util/allocator.cpp")],
     [("mNodeSize/mNodeAlloc", "fill and size of the current page", "util/allocator.h")], ["Allocator::allocate", "Allocator::size/alloc", "Allocator::currMemory/maxMemory"])
prop("C13", "Big integers compute exactly",
     "Every integer operation (construction from text, assignment, copy, move, swap, negation, sum, difference, product, exact quotient, divisibility, gcd, sign and unit tests, printing in any base) gives the mathematically exact value for operands of any size, including zero, negative values and machine-word boundaries. "
     "This holds in both build configurations (limbs in an arena, limbs in GMP's memory). The result of an operation depends only on the values of its operands, not on how they were produced, and no operand other than the target changes.",
     ["inputs", "histories"], "every program of integer operations, any operand size, in-place and three-operand forms",
     "One unit test computes a handful of values.",
     ["util/integer.h", "util/integer.cpp"], [("limb buffers taken from the arena", "util/integer.cpp")], [("mMpz", "limbs, sign and capacity", "util/integer.h")], ["Integer::get_str"])
prop("C14", "The red-black tree is an ordered set and stays balanced",
     "After any sequence of insertions, removals (by key or position), copies, assignments, swaps and clears, the tree holds exactly the keys a set would hold, iterates them in increasing and decreasing order, finds present keys only, and returns the nearest smaller and larger keys of any probe as well as the extremes. "
     "Its shape always satisfies the red-black rules, so its height is at most twice the logarithm of its size.",
     ["inputs", "histories"], "every operation sequence over any keys",
     "Unit tests insert a few hundred random keys and rely on assertions that the release build drops.",
     ["util/rbtree.h"], [("insertFixup/deleteFixup/rotations", "util/rbtree.h"), ("findPrev/findNext", "util/rbtree.h")], [("mRoot/mCount", "root node and number of keys", "util/rbtree.h")], ["RBTree::find/findPrev/findNext", "RBTree::ConstIterator"])
prop("C15", "The list behaves as a sequence under every iterator operation",
     "Lists behave as mathematical sequences: push, pop, head, length, iteration, insertion, extraction and deletion at any iterator position, splicing of extracted nodes, copy, move, swap, assignment and clear have exactly the sequence semantics, and the iterator used for an edit stays valid with the documented position.",
     ["histories"], "every sequence of list and iterator operations over several lists",
     "Two unit tests push and iterate.",
     ["util/list.h"], [("List::Iterator insert/get/del", "util/list.h")], [("mHead/mLength", "chain of nodes and its length", "util/list.h")], ["List::begin", "List::length"])
prop("C16", "The stack behaves as a last-in first-out sequence of any depth",
     "Stacks behave as sequences with push, pop, top, indexed access, reset, swap, copy and assignment, keep every element across capacity growth from any initial capacity of at least one, and copies are independent.",
     ["histories"], "every sequence of operations, any initial capacity of at least one",
     "Two unit tests use one initial capacity and a single growth pattern.",
     ["util/stack.h"], [("Stack::resize", "util/stack.h")], [("mArray/mDeep/mSize", "storage, depth and capacity", "util/stack.h")], ["Stack::top", "Stack::operator[]", "Stack::deep"])
prop("C17", "Hilbert polynomial arithmetic is exact",
     "The binomial constructor gives the exact rational coefficients of C(s+a, b) for every integer a and natural b up to the dimension, and sums, differences and integer multiples are exact coefficient by coefficient with fractions in lowest terms; the printed form lists exactly the nonzero coefficients.",
     ["inputs", "histories"], "all dimensions, offsets (negative too) and operation sequences",
     "Tests check three fixed shapes.",
     ["util/hilbertpoly.h", "util/hilbertpoly.cpp"], [("binomial", "util/hilbertpoly.cpp"), ("add/sub/mult", "util/hilbertpoly.cpp")], (), ["HilbertPoly::operator[]"])
prop("C18", "Random permutations are permutations and can reach every arrangement",
     "After any number of shuffles the permutation contains each index exactly once, its size never changes, and for every size every arrangement is reachable with equal chance given a uniform source.",
     ["inputs", "histories"], "all sizes and all outcomes of the random source",
     "Tests shuffle a few times with a random device.",
     ["util/randpermutation.h", "util/randpermutation.cpp"], [("Fisher-Yates next", "util/randpermutation.h")], (), ["RandPermutation::operator[]"])
prop("C19", "Timers accumulate exactly the time between start/continue and stop",
     "A timer's readings change only at start, which resets them to zero, and at stop, which adds the time since the latest start, continue or stop of that timer. Continuing keeps what was accumulated and leaves out the time before it, and the readings of a started timer are never negative and never exceed the wall-clock time that passed since.",
     ["histories", "schedules"], "every sequence of start/continue/stop and pauses",
     "There is no test of the timer.",
     ["util/timer.h", "util/timer.cpp"], [("start/cont/stop", "util/timer.cpp")], (), ["Timer::realTime/userTime/sysTime"])
prop("C20", "Boolean monomials behave as sets of variables",
     "Boolean monomials behave as finite sets of variables: product is union, divisibility is inclusion, quotient is difference, multiplication by a variable adds it, degree is cardinality, and copies, assignments, moves and swaps preserve values. "
     "Their order is degree reverse lexicographic (at equal degree the set whose least own variable is the larger one is greater): total, graded, with the empty set least and agreeing with equality; their variables are kept and printed strictly decreasing.",
     ["inputs", "histories"], "every program of operations over any variables",
     "The class is not part of the test programs at all.",
     ["ginv/bmonom.h", "ginv/bmonom.cpp"], [("mult/div/compare", "ginv/bmonom.cpp")], (), ["BMonom"])
prop("C21", "The Python binding computes what the Python expressions say",
     "Expressions over bound monomials and polynomials (sum, difference, product, power, monomial quotient, negation, monomial comparison, permutation, polynomials mixed with Python integers on either side) equal the mathematical value of the expression and leave their operands unchanged; only reduction, pp, nf and setPos change an object, in place. Terms, leading monomials, coefficients and basis elements taken from an object keep showing its value after every name of it is gone, and the memory of collected objects is given back. "
     "Completing a system through the binding, reducing by it and asking for its Hilbert polynomial, size, unit test and multiplicative variables agrees with the mathematics of the pushed polynomials.",
     ["inputs", "histories"], "every expression and every push/build/reduce history in Python",
     "The binding's only test fails at start in this tree, so none of it is tested.",
     ["cython/ginv.pyx", "ginv/poly_int.cpp", "ginv/monom.cpp", "util/integer.cpp"], [("operator methods", "cython/ginv.pyx")], (), ["ginv.poly_int", "ginv.monom", "ginv.janet_poly_int"])
prop("C22", "Python monomials: module monoid and admissible orders",
     "In the pure Python package, products, powers, quotients, lcm, divisibility and prolongation of monomials act exactly on exponents and components (the gcd acts on the exponents), every offered order (plain or module, component or term first) is a total order compatible with multiplication with the unit least for the well-orders, and printing and parsing agree with the exponents.",
     ["inputs", "configurations"], "all monomials, components and orders",
     "The demonstration script checks a few printed values.",
     ["pyginv/monomial.py"], [("Monom operators and cmp", "pyginv/monomial.py")], (), ["Monom"])
prop("C23", "Python polynomials: ring operations are exact, pure and canonical",
     "In the pure Python package, sums, differences, products, powers, scalar operations on either side, prolongation, content removal and differentiation give the exact value over the rationals or over polynomials in the parameters, and reductions keep the value modulo the divisors. They leave every operand unchanged now and after later in-place operations on the result, and keep terms strictly decreasing with nonzero coefficients. The printed form denotes the same polynomial.",
     ["inputs", "histories", "configurations"], "all expressions, orders and in-place histories",
     "The demonstration script evaluates a few expressions and never mutates a result afterwards.",
     ["pyginv/polynomial.py"], [("Poly operators", "pyginv/polynomial.py")], (), ["Poly"])
prop("C24", "Python Janet division: tree lookup and multiplicative variables",
     "In the pure Python package, after any insertions the Janet structure finds for each monomial the unique element dividing it by multiplicative variables, or nothing, and the nonmultiplicative variables it reports are those of the definition; the alternative lookup structures and forests of them agree with it. The structure hands out each nonmultiplicative prolongation once, gives back the elements a new one replaces, and counts the monomials outside the cones by degree.",
     ["inputs", "histories"], "every insertion and lookup sequence, per module component",
     "The tree is only drawn by a script that currently fails.",
     ["pyginv/janet.py"], [("Janet.find/insert", "pyginv/janet.py")], (), ["Janet.find", "Janet.NM"])
prop("C25", "Python completion algorithms yield Groebner (Janet) bases",
     "Each completion algorithm of the pure Python package, given any list of polynomials (of the ring, or elements of one module), ends with a Janet basis of the ideal (submodule) they generate, normal forms by it vanish exactly on that ideal, and its Hilbert polynomial counts the monomials outside the leading ideal.",
     ["inputs", "configurations"], "every finite system, every order and algorithm",
     "No test runs a completion of the Python package.",
     ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/polynomial.py"], [("ginvMin/ginvBlockLow", "pyginv/ginv.py")], (), ["Janet.GB", "Janet.HP"])

prop("C26", "Python differential and difference systems complete to Janet bases",
     "In the pure Python package, prolonging a linear differential expression is its exact derivative, coefficients included (a difference expression is shifted), and its printed forms and constructors denote the same expression. Each completion algorithm ends with a Janet basis of the given linear system with coefficients in the independent variables and parameters, normal forms vanish exactly on its consequences, and Hilbert polynomials count the free derivatives.",
     ["inputs", "histories", "configurations"], "all expressions, all finite systems without a contradiction, every order, tree and algorithm",
     "No test touches the differential classes; the demonstration script prints a few expressions.",
     ["pyginv/polynomial.py", "pyginv/janet.py", "pyginv/ginv.py"], [("PolyDiff.prolong", "pyginv/polynomial.py"), ("ginvMin/ginvBlockLow", "pyginv/ginv.py")], (), ["PolyDiff", "PolySchem"])
prop("C27", "The elements marked as a Groebner basis of a completed system are one",
     "In every completed basis, by any algorithm of the library, the binding or the Python package, and after any number of completions, the elements marked as Groebner basis elements (isGB, GB()) form a Groebner basis of the ideal (submodule) of the generators pushed: their leading monomials generate the leading ideal, and ordinary division by them alone takes every generator and every S-polynomial of them to zero. "
     "The ancestor an element reports divides its leading monomial and is itself the leading monomial of a basis element; an element is marked exactly when it is its own ancestor, and in the Python package exactly when no other leading monomial divides its own.",
     ["inputs", "histories", "configurations"], "every finite system, every order, algorithm and push/build history",
     "No test completes a polynomial system, and the mark is carried through reductions, re-examination and prolongation of an element over a whole run.",
     ["ginv/wrap.h", "ginv/wrap.cpp", "ginv/poly_int.h", "ginv/poly_int.cpp", "cython/ginv.pyx", "pyginv/janet.py", "pyginv/ginv.py"],
     [("Wrap::isGB, ansector, update", "ginv/wrap.h"), ("WrapPolyInt reduction", "ginv/poly_int.cpp"), ("GB", "pyginv/janet.py")],
     [("mAnsector", "the leading monomial an element was entered with", "ginv/wrap.h")],
     ["Wrap::isGB()", "wrap_poly_int.isGB", "Janet.GB"])
prop("C28", "Pictures show the trees as they are",
     "The picture drawn of a red-black tree has every node once, with its key and its colour, under its parent, and a leaf for every missing child. The picture of a Janet tree, or of a forest of them, has the number of elements in its headline, and for every tree every node once: in the chain of its variable in ascending degree, elements as tables with their exponents (bold for a generator) and exactly the marks they have (nonmultiplicative in the tree, forced by lower trees, already prolonged), other nodes with their degree, and the chain of the next variable below it. Drawing changes nothing.",
     ["histories"], "every tree and forest reachable by insertions, removals, prolongations, copies and swaps",
     "The tests draw a few trees and nobody looks at the pictures.",
     ["util/rbtree.h", "ginv/janet.cpp", "ginv/janet.h", "ginv/gb.h", "ginv/wrap.h"], [("Janet::draw", "ginv/janet.cpp"), ("GB::draw", "ginv/gb.h"), ("RBTree::draw", "util/rbtree.h")],
     [("mBuild", "the variables by which an element has been prolonged", "ginv/wrap.h")], ["RBTree::draw", "Janet::draw", "GB::draw"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
