"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
S = "python_dice/src/"
E = S + "expression/"
D = S + "probability_distribution/"
K = S + "constraint/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Binary operators give the exact distribution of the combined outcome",
 "For any two independent dice expressions X and Y, with any integer faces and any face weights, the distribution reported for `X op Y` (op in + - * // == != < <= > >= AND OR, and MAX(X, Y), MIN(X, Y)) gives every value v exactly the probability P(op(X, Y) = v); comparisons and AND/OR yield only 0 and 1. // is floor division; AND/OR treat an operand as true exactly when it is above 0.",
 ["inputs"], "all pairs of face multisets (any integers, negative and coinciding ones included, any positive weights) and all fourteen operators",
 "a test fixes a few dice; a wrong value that needs a negative, a zero, a coincidence between sums or an uneven weight is missed",
 [D + "probability_distribution.py", D + "probability_outcome.py", E + "binary_operator_expression.py", E + "minmax_expression.py"],
 [("pairwise combination", D + "probability_distribution.py:_combine_distributions"), ("outcome arithmetic", D + "probability_outcome.py:_combine")])

prop("C02", "ABS, NOT, parentheses and constants give exact distributions and rolls",
 "For any expression X: `ABS(X)` has the distribution of |X|, `!X` has the distribution of (0 if X > 0 else 1), `(X)` has that of X; rolling them applies the same function to the rolled value. An integer constant n is n with probability 1 whatever its sign, True is 1 and False is 0, in roll, max, min and distribution alike.",
 ["inputs"], "all face multisets and weights of X, all integer constants",
 "tests only sample a few positive values; sign and zero handling must be right for every integer",
 [E + "abs_expression.py", E + "not_expression.py", E + "parentheses_enclosed_expression.py", E + "constant_integer_expression.py", E + "constant_binary_expression.py", D + "probability_outcome.py"],
 [("abs / not of outcomes", D + "probability_distribution.py:__abs__, not_operator"), ("roll", E + "not_expression.py:roll")])

prop("C03", "Rolling draws from exactly the reported distribution",
 "For every program, the probability that `roll` returns v for stdout (over the random module's choices) equals the probability get_probability_distributions_dict reports for v. This holds for dice, keep/drop, every operator and expressions with variables; two mentions of a dice expression are rolled independently, two reads of one variable are the same roll.",
 ["programs", "inputs"], "all programs of the grammar up to the stated depth with symbolic faces, weights, counts, and all outcomes of the random source",
 "sampled rolls can not distinguish close distributions, and tests mock random away",
 [E + "dice_expression.py", E + "drop_keep_expression.py", E + "binary_operator_expression.py", E + "minmax_expression.py", E + "integer_division_expression.py", E + "get_var_expression.py", E + "var_assignment_expression.py"],
 [("dice roll", E + "dice_expression.py:roll"), ("keep/drop roll", E + "drop_keep_expression.py:roll"), ("distribution", "*/get_probability_distribution")])

prop("C04", "min and max are the tight extremes of what can be rolled",
 "For every program, the value reported by `max` (`min`) for stdout and for each variable is the largest (smallest) value that has non-zero probability in the distribution of the same program: it is reachable and nothing rolled is ever above (below) it.",
 ["programs", "inputs"], "all programs of the grammar up to the stated depth, with symbolic faces, weights and counts",
 "tightness and soundness of bounds is a statement about every roll; tests compare a few constants",
 [E + "dice_expression.py", E + "drop_keep_expression.py", E + "minmax_expression.py", E + "var_assignment_expression.py", D + "probability_distribution.py"],
 [("extremes", D + "probability_distribution.py:max, min"), ("keep/drop bounds", E + "drop_keep_expression.py:max, min")])

prop("C05", "N dice are the sum of N independent copies of one die",
 "For every count N >= 0 and every die D, the distribution of `NdD` is the N-fold convolution of the distribution of `dD` (a missing count means one die, zero dice are the constant 0), `NdD` min/max are N times the smallest/largest face, and `roll` sums N independent draws with the faces' weights.",
 ["inputs"], "all counts and all face multisets within the stated bounds",
 "tests check a handful of (count, die) pairs against precomputed tables",
 [E + "dice_expression.py", D + "probability_distribution.py"],
 [("convolution loop", E + "dice_expression.py:get_probability_distribution"), ("count parsing", E + "dice_expression.py:_get_number_of_dice")])

prop("C06", "Die notation denotes the documented multiset of faces",
 "`dS` has faces 1..S, `d%` 1..100, `dF` -1,0,1; a custom die `d[..]` has, for each comma separated entry, the value v, or every integer between a and b inclusive for `a-b` in either order and with either sign, each counted m times with `*m`; entries add up, and spaces around entries and a trailing comma change nothing. The same face multiset is used by dice and by keep/drop dice, for rolls, distributions, min and max.",
 ["inputs"], "all entry lists within the stated bounds with symbolic endpoints, values and multipliers",
 "the notation has many sign/order/overlap combinations, which examples sample only sparsely",
 [E + "dice_expression_helper.py", S + "syntax/dice_syntax_helper.py"],
 [("face map", E + "dice_expression_helper.py:get_single_dice_outcome_map"), ("range endpoints", E + "dice_expression_helper.py:_find_range")])

prop("C07", "Keep and drop select the documented dice",
 "`NdDkK` is distributed as the sum of the K highest of N independent dice and `NdDdK` as the sum of the N-K lowest, for every face multiset and weight. Keeping at least as many dice as rolled keeps all, keeping zero or dropping at least as many as rolled is the constant 0, and dropping zero changes nothing; roll, max and min agree with this.",
 ["inputs"], "all counts N and K and all face multisets (negative, repeated and weighted faces) within the stated bounds",
 "tests cover a few tables with positive faces; selection errors need ties, negatives or uneven weights to show",
 [E + "drop_keep_expression.py"],
 [("selection step", E + "drop_keep_expression.py:_update_key_list, _compute_iterations"), ("edge cases", E + "drop_keep_expression.py:__init__"), ("roll", E + "drop_keep_expression.py:roll")])

prop("C08", "All reads of a variable are one and the same outcome",
 "Within a program, every read of a variable, directly or through variables computed from it, takes the one outcome the variable was assigned: combinations of different outcomes of the same assignment never contribute, all others do. So the distribution of an expression equals its distribution over one joint draw of the assigned dice, e.g. `a - a` is always 0 and with `VAR b = a + d4`, `b - a` is d4.",
 ["programs", "inputs"], "all programs up to the stated size over variables bound to dice with symbolic faces (each variable's faces equally likely, or the variable read once)",
 "the constraint bookkeeping has to cancel exactly the inconsistent combinations for every shape of reuse; tests fix a few shapes and dice",
 [D + "probability_distribution_state.py", D + "probability_outcome.py", K + "constraint_set.py", K + "constraint_merger.py", K + "var_value_constraint.py"],
 [("tagging outcomes", D + "probability_distribution_state.py:set_var"), ("filter", D + "probability_distribution.py:_combine_distributions"), ("merge", K + "constraint_merger.py")],
 [("ProbabilityDistributionState._var", "distribution of each variable, its outcomes tagged with the assignment"), ("ConstraintSet._constraints_set", "which assigned outcomes an outcome stands for")])

prop("C09", "Reassigning a variable never changes or mixes with earlier values",
 "After `VAR a = X` is reassigned, reads of a use only the new value, while variables computed earlier from a keep the value they were computed from. The old and new outcomes of a are independent of each other unless the new definition reads the old one (`VAR a = a + 1`), and differently named variables are always independent; all of this also holds across separate calls on one interpreter.",
 ["histories", "programs"], "all assignment histories up to the stated length over symbolic dice, in one call or spread over several",
 "needs multi-step histories in which stale tags or values would silently correlate or overwrite",
 [D + "probability_distribution_state.py", E + "var_assignment_expression.py", E + "get_var_expression.py"],
 [("version counter", D + "probability_distribution_state.py:_number_of_times_set"), ("assignment", E + "var_assignment_expression.py")],
 [("ProbabilityDistributionState._number_of_times_set", "assignment counter that names each version of a variable")])

prop("C10", "Summaries of a distribution agree with its outcomes",
 "For every distribution: the probability dictionary has exactly the possible outcomes as keys and their probabilities sum to 1; the average is the sum of value times probability; at_least()[v] is P(outcome >= v) and at_most()[v] is P(outcome <= v) for every integer v from the minimum to the maximum, gaps included. max, min and contains_zero agree with the outcomes.",
 ["inputs"], "all distributions with symbolic (any integer) outcomes and any positive weights within the stated number of outcomes",
 "tests use a few concrete maps, mostly without gaps or negative outcomes",
 [D + "probability_distribution.py"],
 [("cumulative forms", D + "probability_distribution.py:at_least, at_most, _get_histogram_form"), ("average", D + "probability_distribution.py:average")])

prop("C11", "Combining constraints is logical conjunction",
 "Merging or combining any set of constraints, in any order and grouping, gives a set that accepts (complies) exactly the variable assignments that every constraint given accepts, and is reported impossible exactly when some variable is left with no allowed value or an impossible constraint is included; adding to a set is the same conjunction. Null constraints change nothing, and the sets and constraints merged are not modified.",
 ["inputs", "histories"], "all sets and sequences of null, impossible and value constraints over symbolic values within the stated sizes, all orders of adding and combining",
 "the merge loop is order dependent inside; only a quantification over orders and value coincidences settles it",
 [K + "constraint_merger.py", K + "constraint_set.py", K + "var_value_constraint.py", K + "null_constraint.py", K + "impossible_constraint.py"],
 [("merge loop", K + "constraint_merger.py:__merge_new_constraints"), ("intersection", K + "var_value_constraint.py:merge"), ("impossible", K + "constraint_set.py:is_possible")])

prop("C12", "Interpreter calls report every variable and the last line, and keep state",
 "roll, max, min, get_average and get_probability_distributions(_dict) evaluate the lines in order and return, under its name, the current value of every variable known to the interpreter, plus the last line's value as `stdout`; reading a variable never assigned is a KeyError, and a failing line leaves the assignments before it in force. Variables persist to later calls with the value last assigned by a call of that kind: rolling never changes the distributions kept, and asking for distributions or averages never changes the values rolled. Returned results are never changed by later calls, changing one never changes the interpreter, and different interpreters share nothing, even over one parser.",
 ["histories", "programs"], "all sequences of calls up to the stated length, with symbolic constants and dice",
 "aliasing and leaking between calls only shows in histories of calls that compare an earlier result with a later one",
 [S + "python_dice_interpreter.py", D + "probability_distribution_state.py"],
 [("report", S + "python_dice_interpreter.py:roll, max, min, get_average, get_probability_distributions_dict"), ("state", D + "probability_distribution_state.py:get_var_dict, get_constant_dict")],
 [("PythonDiceInterpreter._state", "variables of the interpreter")])

prop("C13", "Integer division floors, and a possible zero divisor is an error",
 "`X // Y` is the floor of the exact quotient for all sign combinations, in rolls, distributions, min and max. If Y can be zero, max, min and the distribution of `X // Y` raise ZeroDivisionError and roll raises it exactly when the rolled divisor is zero; if Y can not be zero none of them does.",
 ["inputs"], "all integer numerators and divisors, all face multisets within the stated bounds",
 "rounding direction and zero detection depend on sign and on where zero sits among the outcomes",
 [E + "integer_division_expression.py", D + "probability_distribution.py", D + "probability_outcome.py"],
 [("zero guard", E + "integer_division_expression.py:max, min, roll"), ("contains_zero", D + "probability_distribution.py:contains_zero")])

prop("C14", "Operator precedence and associativity are fixed",
 "Comparison, AND and OR operators bind tighter than * and //, which bind tighter than + and -, which bind tighter than !; VAR assignment binds loosest. Operators of one level associate to the left, parentheses, ABS(), MAX() and MIN() override all of this, and roll, min, max and distribution evaluate the same parse.",
 ["programs", "inputs"], "all operator sequences up to the stated length over symbolic operand values",
 "a changed precedence only shows for operator combinations and values where the two groupings differ",
 [S + "python_dice_syntax_objects.py", S + "python_dice_parser.py"],
 [("precedence table", S + "python_dice_syntax_objects.py:PRECEDENCE"), ("token order", S + "python_dice_syntax_objects.py:LEXER_SYNTAX")])

prop("C15", "Token syntax accepts exactly the documented notations",
 "Each token kind (integer, dice, keep/drop dice, name, boolean, operators, keywords) accepts exactly the documented strings over ASCII text, and text outside the tokens, and token sequences outside the grammar, are rejected with a ValueError. A lexing error's message shows the offending line (at most 50 characters either side) with the arrow under the first character that could not be read, wherever it is in the input.",
 ["inputs"], "all ASCII strings up to the stated length against each token expression; all error positions and line lengths within the stated bounds",
 "acceptance is a statement about all strings; positions and window edges are many",
 [S + "syntax/dice_syntax_helper.py", S + "syntax/name_syntax.py", S + "python_dice_lexer.py"],
 [("token expressions", S + "syntax/*.py:TOKEN_REGEX"), ("error message", S + "python_dice_lexer.py:lex")])

prop("C16", "Estimated cost follows the documented additive formula",
 "get_estimated_cost of a program is the sum over its lines: NdD costs N times the number of distinct faces, NdDkK N*K times and NdDdK N*(N-K) times it (simplified forms cost as the dice or constant they reduce to), constants cost 2, a binary operator, MAX or MIN costs the sum of its operands, ABS and parentheses cost nothing, `!X` costs floor(1.1 * cost of X), an assignment costs 2 more than its expression and a variable read costs its definition's cost. Estimating draws no random numbers.",
 ["programs", "inputs"], "all programs up to the stated depth with symbolic counts, sides and nested costs",
 "the estimate guards callers against programs too large to evaluate, so it has to be right on those no test evaluates",
 [E + "dice_expression.py", E + "drop_keep_expression.py", E + "var_assignment_expression.py", E + "get_var_expression.py", S + "python_dice_interpreter.py"],
 [("cost", "*/estimated_cost"), ("sum of lines", S + "python_dice_interpreter.py:get_estimated_cost")])

prop("C17", "Charts plot exactly the distribution they are asked for",
 "The histogram of a distribution plots, for every integer from its minimum to its maximum, one bar centred on it whose height is its probability (P(>= v) for at-least, P(<= v) for at-most histograms), in ascending order, plus the average line at the average. The compare line plots draw each of the two distributions' own data under its own label; the compare histogram draws each outcome's bar up by the first and down by the second distribution's probability. Interpreter charts chart the program's last line.",
 ["inputs"], "all pairs of distributions with symbolic outcomes and weights within the stated bounds (the data handed to matplotlib; rendering is outside)",
 "image comparisons cover one or two fixed distributions",
 [D + "probability_distribution.py", S + "python_dice_interpreter.py"],
 [("histogram", D + "probability_distribution.py:_make_histogram"), ("line plot", D + "probability_distribution.py:_make_line_plot")])

prop("C18", "Parsed expressions print back to an equivalent expression",
 "str() of any parsed expression is a program text that parses again to an expression with the same string, the same distribution, roll law, min, max and cost. get_contained_variables of an expression is exactly the set of variables its value reads (an assignment reads none).",
 ["programs", "inputs"], "all expressions of the grammar up to the stated depth over symbolic constants, dice and variables",
 "printing must preserve grouping for every nesting of operators",
 [E + "*.py"],
 [("printing", "*/__str__"), ("variables", "*/get_contained_variables")])

prop("C19", "Evaluation is repeatable and never modifies its operands",
 "Evaluating an expression (distribution, min, max, cost, summaries, string) any number of times and in any order gives the same answers, and combining distributions never changes the operand distributions, their outcomes or their constraints. Distributions obtained earlier keep their contents when later programs run, and a caller changing a dictionary it was handed changes nothing else.",
 ["histories", "inputs"], "all sequences of evaluations up to the stated length over symbolic distributions and variables",
 "hidden mutation of shared outcomes shows only when an object is reused after another operation",
 [D + "probability_distribution.py", D + "probability_outcome.py", D + "probability_distribution_state.py", K + "constraint_set.py", E + "*.py"],
 [("copying on assignment", D + "probability_distribution_state.py:set_var"), ("constraint sets", K + "constraint_set.py:constraints, combine_sets")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
