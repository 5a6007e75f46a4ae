# Single source of properties.jsonl and MANIFEST.json; run: python3 tools/props.py
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, claim=None, na=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, claim=claim, na=na, level=level))

TECH = "contract-based deductive verification (requires/ensures/loop invariants on the real Go functions, VCs from the SSA of the current source, z3/cvc5)"
BASE = " Every obligation generated from the current source is discharged by z3/cvc5 on every run; trusted: the VC generator govc, the solvers, x/tools ssa, the Go compiler."
U = "uint256/uint256.go"

prop("C01", "256-bit add, subtract, multiply, negate, abs are exact modulo 2^256",
 "For all operands, sum, difference, product, negation and absolute value of 256-bit integers equal the mathematical result modulo 2^256 (absolute value and negation in two's complement), and the overflow variants report overflow exactly when the mathematical result does not fit. The result is stored in and returned as the receiver, the other operands are left unchanged, and this also holds when receiver and operands are the same object. Cloning, copying and setting produce an equal, independent value.",
 ["inputs"], "all 2^256 values of every operand and every aliasing of receiver and operands",
 "unit tests sample a few thousand operand pairs; carries between words go wrong only on rare word patterns",
 [U], [("carry/borrow chains over four 64-bit words", U+" Add, Sub, Umul, Mul, squared")],
 claim="All functions of the group are proved for all inputs and all aliasings at machine width."+BASE)
prop("C02", "256-bit and 512-by-256-bit division and remainder are exact",
 "For all dividends and divisors, unsigned division and remainder return the floor quotient and its remainder, and the signed variants return the truncated quotient and the remainder with the dividend's sign in two's complement; division by zero yields zero. Dividing a dividend of up to 512 bits by a non-zero 256-bit divisor returns the exact quotient and remainder and does not modify the dividend. Operands that are not the receiver stay unchanged under every aliasing.",
 ["inputs"], "all dividends of one to eight words and all divisors, every aliasing",
 "the quotient-digit correction steps of multi-word division are taken with probability about 2^-64 on random operands, which tests cannot reach",
 [U, "uint256/div.go"], [("normalisation, digit estimation, multiply-subtract, add-back", U+" Udivrem, udivremKnuth, subMulTo, addTo; uint256/div.go udivrem2by1, reciprocal2by1")],
 claim="Knuth division (every length of dividend and divisor), the reciprocal of a word, and all wrappers are proved for all inputs."+BASE)
prop("C03", "256-bit comparisons, sign and size queries are exact",
 "For all values, the unsigned and signed orderings, equality, three-way comparison, sign, zero test, bit and byte length and the comparisons with machine words agree with the mathematical values, signed queries reading two's complement. No query modifies its operands.",
 ["inputs"], "all operand values including equal objects",
 "wrong only for particular words being equal or at a sign boundary; tests sample",
 [U], [("word-by-word comparison from the top and borrow of the subtraction", U+" Cmp, Lt, Gt, Eq, Slt, Sgt, Sign, BitLen, ByteLen")],
 claim="All comparison functions are proved for all inputs at machine width."+BASE)
prop("C04", "256-bit shifts and bitwise operations are exact for every shift count",
 "For all values and every shift count, left, logical right and arithmetic right shift, and, or, xor, not, byte extraction and sign extension return the mathematical result on 256 bits, shifts of 256 or more giving zero (or all ones for arithmetic shift of a negative value). Operands other than the receiver stay unchanged under every aliasing.",
 ["inputs"], "all values, all shift counts, every aliasing",
 "tests sample shift counts; errors sit at multiples of 64 and at counts above 255",
 [U], [("word moves plus in-word shifts", U+" Lsh, Rsh, SRsh, Byte, ExtendSign")],
 claim="All functions are proved for all inputs at machine width (bit-vectors)."+BASE)
prop("C05", "Integer square root is the exact floor for every 256-bit value",
 "For every 256-bit value the square root terminates and returns the largest integer whose square does not exceed it, with receiver and argument possibly the same object.",
 ["inputs"], "all 2^256 values",
 "a Newton iteration that stops one step early or late is wrong only near perfect squares",
 [U], [("Newton iteration from a power of two", U+" Sqrt")],
 claim="Sqrt is proved for all inputs, with a loop invariant and a termination measure."+BASE)
prop("C06", "Modular addition and multiplication are exact",
 "For all operands and every modulus, modular addition returns (x+y) mod m and modular multiplication returns (x*y) mod m computed without overflow, both returning zero for a zero modulus. Operands other than the receiver stay unchanged.",
 ["inputs"], "all operands and moduli",
 "the carry out of 256 bits and the reciprocal correction are needed only for rare operands",
 [U, "uint256/mod.go"], [("overflow-aware addition; 512-bit product reduced by division or by a precomputed reciprocal", U+" AddMod, MulMod; uint256/mod.go")],
 claim="AddMod is proved for all inputs; MulMod is proved for every modulus below 2^192 (the division path). For moduli of 2^192 and more the reciprocal path (Reciprocal, reduce4) is only exercised by a bounded randomised run against big-integer arithmetic, reported as bounded and not counted as proved."+BASE)
prop("C08", "Full-precision multiply-divide returns the exact floor or ceiling",
 "For all a, b and d>0 whose floor (or ceiling) of a*b/d fits in 256 bits, the multiply-divide returns exactly that value as a fresh integer even when a*b needs 512 bits, and never modifies its arguments.",
 ["inputs"], "all operand triples with a representable result",
 "there are four example tests; intermediate overflow and the rounding-up carry depend on rare operands",
 ["lib/fullmath/fullmath.go"], [("512-bit product then 512-by-256 division", "lib/fullmath/fullmath.go MulDiv, MulDivRoundingUp")],
 claim="Proved for all inputs with a representable result, including everything they call."+BASE)
prop("C09", "Token amounts for a price range are exact and round against the trader",
 "For all positive sqrt prices below 2^160 and all liquidities below 2^128, the token0 and token1 amounts between two prices equal the exact rational amounts rounded down or up as requested, independent of the order of the two prices. For signed liquidity, additions are charged rounded up and removals are paid rounded down. No argument is modified.",
 ["inputs"], "all price pairs and liquidities",
 "there is no test of these functions; rounding differs only when a division is inexact",
 ["lib/sqrtprice_math/sqrtprice_math.go"], [("two nested divisions with matching rounding", "lib/sqrtprice_math GetAmount0Delta, GetAmount1Delta, ...Rounded")],
 claim="Proved for all inputs in the stated domain, including everything they call."+BASE)
prop("C10", "The next price after an amount is exact and rounds in the pool's favour",
 "For every price below 2^160, positive liquidity below 2^128 and token amount for which the next price is representable, the next sqrt price after adding or removing the amount equals the defined formula with its rounding (token0 rounds the price up, token1 rounds it down), so the pool never gives more than it received. A zero or negative price or liquidity is rejected. No argument is modified.",
 ["inputs"], "all prices, liquidities and amounts with a representable result",
 "no test exists; the overflow branches are taken only for very large amounts",
 ["lib/sqrtprice_math/sqrtprice_math.go"], [("overflow-detecting branch between two formulas", "lib/sqrtprice_math getNextSqrtPriceFromAmount0RoundingUp, ...Amount1RoundingDown")],
 claim="Proved for all inputs in the stated domain, including everything they call."+BASE)
prop("C11", "A swap step never overshoots, never overcharges and takes the right fee",
 "For every current and target price in (0,2^160), liquidity below 2^128, signed remaining amount and fee below 100%, the step's next price lies between current and target and is the target exactly when the remaining amount (after fee, for input) suffices to reach it. An exact-input step uses at most the remaining input including the fee, and all of it when the target is not reached; an exact-output step delivers at most, and when the target is not reached exactly, the requested output; amounts equal the rounded amounts for the price move and the fee is the rounded-up pro-rata fee, or the unused remainder of the input when the target is not reached. No argument is modified.",
 ["inputs"], "all prices, targets, liquidities, amounts and fees",
 "one example test; boundary amounts at which the target is just reached are measure-zero for sampling",
 ["lib/swapmath/swapmath.go"], [("case split on direction, exact input/output and target reached", "lib/swapmath ComputeSwapStep")],
 claim="Proved for all inputs in the stated domain, including everything it calls."+BASE)
prop("C21", "Liquidity for given amounts is maximal in formula and always affordable",
 "For every price and range in (0,2^160) and token amounts whose liquidity is representable, the liquidity computed for the amounts equals the floor formula of the in-range side(s), and depositing it never costs more than either given amount. The amounts a liquidity is worth equal the rounded-down formulas and never exceed what depositing it costs; the order of the two range bounds does not matter and no argument is modified.",
 ["inputs"], "all prices, ranges, amounts and liquidities in the domain",
 "no test exists; one wei too much only shows for particular remainders",
 ["lib/liquidity_amounts/liquidity_amounts.go"], [("floor divisions on each side of the price and the minimum of both", "lib/liquidity_amounts GetLiquidityForAmount, GetAmountsForLiquidity")],
 claim="Proved for all inputs in the stated domain, including everything they call; affordability is a postcondition."+BASE)

exec(open(os.path.join(here, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": p["level"], "level_note": p["claim"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md: the hand-written text with generated tables
t = open(os.path.join(here, "tools", "DESIGN.in.md")).read()
rows = ["| id | title | decided by | strength |", "|---|---|---|---|"]
cfg = json.load(open(os.path.join(here, "checks", "props.json")))
for p in P:
    c = cfg.get(p["id"], {})
    rows.append("| %s | %s | %s | %s |" % (p["id"], p["title"], "<br>".join("`%s`" % r.replace("\\", "").replace("|", "\\|") for r in c.get("Roots", []) + ["lemma " + l for l in c.get("Lemmas", [])]) or "-", p["claim"].replace(BASE, "") if p["claim"] else "not applicable: " + p["na"]))
t = t.replace("PROPTABLE", "\n".join(rows))
kf = [l for l in open(os.path.join(here, "known-findings.txt")).read().splitlines() if l and not l.startswith("#")]
t = t.replace("FINDINGS", "\n".join("* " + l for l in kf))
sd = os.path.join(here, "seeded"); rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "tools", "caught.json"))) if os.path.exists(os.path.join(here, "tools", "caught.json")) else {}
for i in sorted(os.listdir(sd)):
    m_ = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m_["property"], m_["needs"], m_["what_it_breaks"], caught.get(i, "?")))
t = t.replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
