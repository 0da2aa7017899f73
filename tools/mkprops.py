#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
M = "src/manipulation/"
SR = M + "simplification_rules/"
ER = M + "expansion_rules/"
ARI = ["src/arithmetics/addition.rs", "src/arithmetics/subtraction.rs", "src/arithmetics/multiplication.rs", "src/arithmetics/division.rs"]
EXP = ["src/exponential/power.rs", "src/exponential/logarithm.rs"]
EXPAND = [M + "expand.rs", ER + "multiplicative_distributive.rs", ER + "power_distributive_addition.rs"]
SIMP = [M + "simplifiable.rs", SR + "factoring/additive_common_addend.rs", SR + "factoring/multiplicative_common_factor.rs",
        SR + "rational/rationals.rs", SR + "rational/rationals_addition.rs", SR + "rational/rationals_multiplication.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Arithmetic on expressions preserves value",
  "Adding, subtracting, multiplying, dividing or negating expressions - through operators in any owned/borrowed combination or through the list constructors with any number of operands - yields an expression whose value, under every assignment of positive numbers to the variables for which the operands (and a non-zero divisor) are defined, equals that operation applied to the operands' values. All owned/borrowed forms of an operator give equal expressions. Float literals count at their exact value wherever the float arithmetic involved is exact.",
  ["inputs", "programs"], "every operand (any literal, variable or previously built expression), every operand count and order, every ownership form, every positive assignment of the variables",
  "The tests compare a handful of two- and three-operand constructions with fixed letters and small literals; the simplifications made during construction (flattening, sign separation, gcd cancellation, literal folding) branch on literal values and nesting that no finite sample settles.",
  ARI + ["src/base/commutative_association.rs"], "constructors flatten nested sums/products, fold literals, separate signs and cancel integer gcds while building",
  [("register file", "the expressions built so far; an operation reads registers and writes its result")], "return value of each constructor/operator")

p("C02", "Powers and logarithms preserve value",
  "Raising an expression to a power or taking a logarithm yields an expression whose value equals the mathematical power or logarithm of the operands' values, under every positive assignment of the variables where it is defined, whenever the exponent is an integer literal or the base and the factors it is built from are positive (a zero base only with a positive exponent). In particular exponents merge, distribute over the numeric factors of a product and fold on literals only when that is an identity, and a logarithm of integers becomes a number only when it is exactly that number.",
  ["inputs", "programs"], "every base, exponent, logarithm argument and base built by any sequence of operations; integer literals of any size",
  "Construction-time folding branches on literal kinds, signs and magnitudes (large integers, exact and inexact logarithms, negative exponents inside products); the tests use about twenty fixed pairs.",
  EXP, "identity shortcuts, exponent merging, numeric-factor splitting and literal folding in the power and logarithm constructors",
  [("register file", "the expressions built so far")], "return value of pow/power/log/logarithm")

p("C03", "Expanding preserves value",
  "Expanding any expression yields an expression with the same value under every positive assignment of the variables for which the original is defined (powers whose exponent is not an integer literal being taken over positive bases with positive factors).",
  ["inputs", "programs"], "every expression buildable from literals, variables, + - * / ^ log, to any depth",
  "Tests expand around ten fixed products and squares of two-term sums; exponents above 3, more factors, negative and symbolic exponents, nested sums under powers and logarithms are infinitely many.",
  EXPAND, "recursive expansion, pairwise distribution of products over sums, integer powers of sums rewritten as products",
  [("register file", "the expressions built so far")], "return value of expand")

p("C04", "Expanding distributes completely and is idempotent",
  "After expanding an expression, no product anywhere in it, be it an operand, a base, an exponent or part of a logarithm, except within a sine or cosine, still has a sum as a factor, and no sum is still raised to a literal integer power of two or more (and less than 2^63). Expanding the result again returns an equal expression.",
  ["inputs", "programs"], "every expression built from literals, variables, + - * / and powers, to any depth",
  "Completeness of distribution is a universal claim over shapes (several sums in one product, sums under powers under products, ...); tests compare ten shapes.",
  EXPAND, "recursive expansion before distribution; products built by distribution must themselves not re-introduce sums",
  [("register file", "the expressions built so far")], "return value of expand")

p("C05", "Simplifying preserves value",
  "Simplifying any expression yields an expression with the same value under every positive assignment of the variables for which the original is defined (powers whose exponent is not an integer literal being taken over positive bases with positive factors). In particular simplifying an expression and simplifying its expansion give the same value.",
  ["inputs", "programs"], "every expression buildable from literals, variables, + - * / ^ log, to any depth",
  "Simplification composes expansion, rational arithmetic and collection of terms and factors; a wrong coefficient, exponent or lost operand shows only for particular combinations, while tests sample about fifteen.",
  SIMP + EXPAND, "expand, then rational folding, then collection of common addends and common factors",
  [("register file", "the expressions built so far")], "return value of simplify")

p("C06", "Polynomials simplify to a canonical form",
  "Simplifying any polynomial with integer coefficients (built from integers, variables, +, -, *, and non-negative literal powers, in any shape) gives the canonical sum of distinct monomials with non-zero integer coefficients. Hence two such polynomials simplify to equal expressions exactly when they are the same polynomial, a polynomial that is identically zero simplifies to 0, and simplifying twice changes nothing.",
  ["inputs", "programs"], "every pair of polynomial expressions in any number of variables, any nesting, any coefficient size",
  "Canonicity quantifies over all ways of writing the same polynomial; tests check a few hand-picked pairs.",
  SIMP + EXPAND + ARI, "expansion followed by collection keyed on structural equality and hashing",
  [("register file", "the expressions built so far")], "return value of simplify, == and equal")

p("C07", "Rational constants simplify to one fraction in lowest terms",
  "Simplifying any constant expression built from integers with +, -, *, / and literal integer powers (divisors non-zero) yields its exact rational value as an integer when it is one, and otherwise as a single numerator over a single denominator with no common factor. The sign may be carried by either part.",
  ["inputs", "programs"], "every integer-literal arithmetic expression without division by zero, any nesting and magnitude",
  "Exact reduction must hold for every combination of numerators, denominators and signs; tests use a dozen small fractions.",
  [SR + "rational/rationals.rs", SR + "rational/rationals_addition.rs", SR + "rational/rationals_multiplication.rs", "src/arithmetics/division.rs", "src/manipulation/simplifiable.rs", "src/base/commutative_association.rs"],
  "rational operands of a sum or product are partitioned off, folded exactly with gcd reduction and re-attached",
  [("register file", "the expressions built so far")], "return value of simplify")

p("C08", "Sums and products do not depend on operand order or grouping",
  "Building a sum or product from the same operands in any order and any grouping (n-ary constructor or nested binary operators), where operands contain no float literals, yields expressions that are equal, order as equal, hash identically and print identically.",
  ["inputs", "programs"], "every multiset of operands, every permutation, every bracketing",
  "Permutations and bracketings grow factorially and interact with literal folding and sign separation; tests compare two or three arrangements.",
  ["src/base/commutative_association.rs", "src/arithmetics/addition.rs", "src/arithmetics/multiplication.rs", M + "ordeable.rs", M + "expression_equality.rs"],
  "operands are kept in a heap and read back sorted by a total order; nested sums/products are flattened and literals folded",
  [("register file", "the expressions built so far")], "==, cmp, hash and Display of the results")

p("C09", "Built expressions are in flattened normal form",
  "Every expression returned by a public constructor, operator, rewrite rule, expand or simplify has no sum directly inside a sum, no product directly inside a product, at least two operands in every sum and product, no neutral or absorbing literal among the operands (0 in a sum; 0 or 1 in a product), at most one integer literal and at most one float literal among the operands of a sum or of a product, and no power with exponent 0 or 1, with base 0 or 1, with a numeric literal as a factor of its base, with another power as its base, or of a literal to a literal other than the inverse of an integer.",
  ["inputs", "programs", "histories"], "every expression reachable by any sequence of public operations starting from literals and variables",
  "It is an invariant of all reachable expressions; tests look at the final shape of a few.",
  ARI + EXP + EXPAND + SIMP, "constructors re-establish the normal form on every call; manipulation code must go through them",
  [("register file", "the expressions built so far")], "structure of every returned expression")

p("C10", "Equality, ordering and hashing of expressions are coherent",
  "For NaN-free expressions, comparison is a total order (reflexive, antisymmetric, transitive, and agreeing with partial comparison), two expressions compare equal exactly when they are ==, == means the same tree up to the order of operands in sums and products (and up to the sign of float zero), and equal expressions have equal hashes. Sums and products list their operands in that order.",
  ["inputs"], "every pair and triple of expressions, including float zeros, infinities, big integers, nested associations of equal and different lengths",
  "Order axioms quantify over all pairs and triples; the tests for ordering are not even compiled (the module is commented out).",
  [M + "ordeable.rs", M + "expression_equality.rs", "src/base/expression.rs", "src/symbols/real.rs", "src/symbols/integer.rs", "src/symbols/variable.rs", "src/base/commutative_association.rs"],
  "ids order the kinds of nodes; associations compare by length, then item by item in sorted order",
  None, "==, cmp, partial_cmp, Hash")

p("C11", "Mathematical comparison predicates are sound and coherent",
  "For any two expressions: at most one of equal, greater and lesser holds, not_equal never holds together with equal, greater_equal (lesser_equal) holds exactly when greater (lesser) or equal does, x is never greater than y unless y is lesser than x, and every expression without float literals is equal to itself. Whenever one of these predicates answers true, the values of the two expressions are so related under every positive assignment for which both are defined, and two integer polynomials whose difference is a constant are always comparable and classified correctly.",
  ["inputs", "programs"], "every ordered pair of expressions",
  "The predicates decide by simplifying a difference, so their soundness quantifies over everything simplification can be given; the tests cover a dozen pairs.",
  [M + "expression_comparison.rs"] + SIMP, "sign of the simplified difference when that is a literal",
  None, "the seven comparison predicates")

p("C12", "Integers are exact at any magnitude",
  "Integer symbols add, subtract, multiply, divide (truncating), take remainders, powers with non-negative exponents, opposites, gcd and lcm exactly for operands of any size and in every owned/borrowed form, and print in exact decimal. Expressions fold integer literals of any size exactly too: sums, products, quotients, integer powers and simplification never round, wrap or panic.",
  ["inputs", "programs"], "every integer operand including those beyond machine words, all signs, all ownership forms",
  "Tests use one- and two-digit integers; overflow, sign and conversion defects live at word boundaries and beyond.",
  ["src/symbols/integer.rs"] + ARI + EXP + SIMP, "arbitrary-precision integers carried in symbols; conversions to machine words in some rules",
  None, "results of integer symbol operations and of expression operations on integer literals")

p("C13", "Every operation terminates and returns a result",
  "Constructing, expanding, simplifying, comparing, hashing, printing and rewriting any expression built through the public constructors and operators from finite literals and variables, with divisors that are not zero, terminates without panicking, exhausting the stack or looping, for any size that fits ordinary resources.",
  ["inputs", "programs"], "every finite program of public operations whose divisions have non-zero divisors and whose expansion stays of moderate size",
  "Termination and panic-freedom quantify over all inputs; recursion in the power constructor and unwrapped conversions are reached only by particular literal combinations no test uses.",
  ARI + EXP + EXPAND + SIMP + [M + "expression_comparison.rs", SR + "factoring/single_algebraic_denominator.rs"], "recursive constructors, loops over pending operands, unwraps of conversions",
  None, "normal return of every public operation")

p("C14", "Results are deterministic",
  "Every operation gives the same expression (equal and printing identically) each time it is applied to equal operands, within one process and across processes, whatever was computed before.",
  ["inputs", "schedules", "histories"], "every operation and operand, every iteration order of internal hash maps, every history of earlier operations",
  "Hash maps are seeded randomly per map, so a single test run sees one iteration order; defects show as rare flakes.",
  SIMP, "collection of common addends/factors iterates an associative container",
  None, "repeated results of the same operation")

p("C15", "Every public rewrite rule preserves value",
  "Applying any single public rewrite rule (common addends, common factors, rational addition, rational multiplication, single denominator, inverse power/logarithm, distribution of products over sums, powers of sums, powers of products) to any expression built through the public constructors and operators yields an expression with the same value under every positive assignment of the variables for which the original is defined (powers whose exponent is not an integer literal being taken over positive bases with positive factors).",
  ["inputs", "programs"], "every rule and every expression built through the public API",
  "Each rule has two to five unit tests on fixed letters; coefficients, exponents, signs and operand counts vary without bound.",
  SIMP[1:] + [SR + "factoring/single_algebraic_denominator.rs", SR + "identities/inverse_power_log.rs", ER + "multiplicative_distributive.rs", ER + "power_distributive_addition.rs", ER + "power_distributive_multiplication.rs"],
  "each rule pattern-matches one node and rebuilds it through the constructors",
  [("register file", "the expressions built so far")], "return value of each rule's apply")

p("C16", "Rational numbers are exact and reduced",
  "Rational values built from integers, or from constant expressions, are kept in lowest terms, and +, -, *, / and == on them agree with exact rational arithmetic for operands of any size and sign (zero denominators and division by zero excluded). Converting a rational to an expression and back yields an equal rational; an integer, an inverse of an integer and a product of such convert to their value, and a variable, float, sum, logarithm or any other power is refused.",
  ["inputs"], "every pair of rationals of any size and sign, every expression offered for conversion",
  "Tests use a dozen small positive fractions.",
  [SR + "rational/rationals.rs"], "numerator/denominator pair reduced by gcd on construction",
  None, "Display, ==, expr() and arithmetic on rationals")

p("C17", "Operand queries partition the operands of sums and products",
  "For every sum or product, the listed items are exactly the operands it was built from, with multiplicity, in sorted order; each query (reals, integer numerators, integer denominators, rationals, non-rationals, symbolics, predicate get / get_one / map) returns exactly the items it describes, in order and with multiplicity; rationals and non-rationals together are all the items.",
  ["inputs"], "every multiset of operands of every kind, any predicate",
  "Six tests look at one six-item list each, mostly checking membership only.",
  ["src/base/commutative_association.rs"], "sorted copy of a heap filtered by structural patterns",
  [("items", "the multiset of operands")], "results of the query methods")

p("C18", "Printed form shows the expression faithfully",
  "Printing an expression shows every literal and variable label, every operand of every sum and product exactly once in sorted order separated by ' + ' or ' * ' inside one pair of parentheses, and powers, logarithms, sines and cosines in function notation with their operands in order. Integers print exactly in decimal and floats in the shortest form that reads back as the same number.",
  ["inputs", "programs"], "every expression reachable through the public API",
  "Tests print about five expressions.",
  ["src/base/expression.rs", "src/symbols/integer.rs", "src/symbols/real.rs", "src/symbols/variable.rs"], "recursive Display over sorted items",
  None, "Display output")

p("C19", "Like terms and like factors are collected",
  "Simplifying an expression without float literals adds the coefficients of like addends and the exponents of like factors, losing none: the value stays the same under every positive assignment of the variables for which the original is defined (powers whose exponent is not an integer literal being taken over positive bases with positive factors), no two addends of the outermost sum are integer coefficients times the same remaining factors, and no two factors of the outermost product other than its integer coefficient are powers of the same base. In particular x - x simplifies to 0 for every expression x without float literals; and for an x that is a variable, a power of a variable or a product of those, a sum of n copies of x simplifies to n times x, a product of n copies to the n-th power, and x / x to 1.",
  ["inputs", "programs"], "every expression built through the public API without float literals",
  "Collection depends on equality, hashing and sign/inverse matching of arbitrary sub-expressions; tests collect a few letters.",
  SIMP, "maps keyed by the addend/base collect coefficients/exponents",
  [("register file", "the expressions built so far")], "return value of simplify")

p("C20", "Float literals follow IEEE arithmetic and are never lost",
  "Arithmetic on float symbols, in every owned/borrowed form, is the IEEE double operation, and their ordering is the IEEE ordering. When expressions combine float literals (float with float, and an integer with a float under a power), the result carries the IEEE double result up to rounding; the numeric content of a sum, product or quotient is never lost or changed by more than rounding, and a float that is the only one among the operands of a sum or product is carried unchanged up to its sign. (A float that is 0, 1 or -1 may be absorbed or carried as the integer, anything multiplied by float zero is zero, and a result too small for a double may be zero.)",
  ["inputs", "programs"], "every double operand, including subnormals, infinities and signed zeros, all ownership forms",
  "The tests cover one value per operator.",
  ["src/symbols/real.rs"] + ARI + EXP, "f64 arithmetic in symbols and literal folding in constructors",
  None, "results of float symbol operations and of constructors on float literals")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x) + "\n")
print(len(P))
