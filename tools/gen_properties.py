import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H="cfg(bcalc_verif) include! at the end of src/main.rs, used only to replay inputs against the real functions"
p("C01","Arithmetic is exact and fails only where undefined",
 "For every expression built from numbers, variables, + - * / %, negation, abs, max, min and ^ with an integer exponent, the computed value is exactly the rational number the expression denotes: nothing is rounded, % keeps the sign of its left operand, and max/min pick the extreme of all their arguments. An error is given exactly when some part is undefined: a zero divisor of / or %, zero to a negative power, max/min without arguments, an even root of a negative number, or a variable that has no value.",
 ["inputs","programs"],"every well-formed expression tree, every operand value of unbounded size, every variable environment",
 "The tests evaluate about 35 fixed expressions; none uses %, max, min, abs or division at run time, and no test looks at a run-time error.",
 ["src/syntax_tree.rs","src/operations.rs"],
 [("evaluation of each kind of tree node","src/syntax_tree.rs: OperationNode::execute implementations"),("integer powers","src/operations.rs: exponentiate")],
 observe=["value returned by evaluating a line","error text"],hook=H)
p("C02","Roots are accurate to the configured precision",
 "For every base, every exponent with a denominator above one, every radix and every precision setting, ^ and sqrt return a value that differs from the real root by at most radix^-(precision + extra precision), with the sign of the real root. When that root is an integer, or the reciprocal of one, the result is exactly that number. They fail exactly when an even root of a negative number is asked for.",
 ["inputs","configurations"],"every rational radicand, degree, radix 2..16, and precision + extra precision",
 "Nine fixed roots are tested at one precision; radicands below one, high degrees at low precision, other radixes and imaginary results are not.",
 ["src/operations.rs","src/syntax_tree.rs"],
 [("integer search for a starting point, Newton iteration and its stopping rule","src/operations.rs: exponentiate"),("precision handed to the root","src/syntax_tree.rs: UnaryNode/BinaryNode execute")],
 observe=["value returned for ^ and sqrt"],hook=H)
p("C03","Input splits into exactly the tokens written, with exact numbers",
 "A line splits into one-character operators, and maximal runs of other non-blank characters, in the order written: a run starting with $ is a variable of that name, sqrt/abs/max/min are the built-in names, and any other run must be a number. A number in radix r (2 to 16) is digits of either case below r with at most one point and any underscores, at least one digit, and denotes exactly its digits divided by r to the number of digits after the point. Anything else, and any non-ASCII character, is rejected rather than skipped or reinterpreted.",
 ["inputs","configurations"],"every input string and every radix 2..16",
 "Tests tokenize about a dozen strings, with fractions only as .1 and 1.1 in radix 10; underscores, fractions in other radixes, mixed separators and rejected runs are not sampled.",
 ["src/token.rs"],
 [("character loop and multi-character buffer","src/token.rs: Tokenizer::tokenize"),("turning a run into a token","src/token.rs: tokenize_on_multichar_end")],
 observe=["token list or error returned for a line"],hook=H)
p("C04","Expressions group by the documented order of operations",
 "A token sequence is accepted exactly when it is a well-formed expression, optionally preceded by one `variable =`, and it then groups in one way: negation and sqrt/abs/max/min without parentheses bind tightest and apply to the next single operand, then ^, then %, then * and /, then + and -, each level grouping left to right, with parentheses and comma-separated function arguments overriding. Every token written is part of the resulting expression, in order: none is dropped, duplicated or moved. Anything else is a syntax error.",
 ["inputs","programs"],"every finite token sequence",
 "Tests build trees for about 15 sequences; mixed chains of more than two levels, negation after each operator, nested calls and almost all malformed sequences are unsampled.",
 ["src/syntax_tree.rs","src/token.rs"],
 [("collecting operands and operators, negation pass, one pass per precedence level","src/syntax_tree.rs: SyntaxTree::read_expression"),("recursive readers","src/syntax_tree.rs: read_operand*, read_unary_node, read_parenthesized_node, read_function_node"),("level table","src/token.rs: ORDERED_BINARY_OPERATORS")],
 observe=["syntax tree or syntax error for a token sequence","value of an evaluated line"],hook=H)
p("C05","No input line makes the calculator crash",
 "Entering any line, under any settings that the command line or the commands accept and with any variables defined, ends in printed text or a reported error, which is about the line unless the database, the disk or the terminal fails; evaluation never panics, aborts or loops forever on its own account. Exhausting memory or stack by asking for an astronomically large result or nesting depth is outside this promise.",
 ["inputs","configurations"],"every input string, every accepted settings combination, every variable environment",
 "No test passes zero divisors, negative powers of zero, radicands below one, or precision settings at their limits, and absence of a panic is a statement about all inputs.",
 ["src/main.rs","src/token.rs","src/syntax_tree.rs","src/operations.rs","src/position.rs","src/commands.rs","src/input_history.rs","src/variable.rs"],
 [("guards before every partial operation","src/operations.rs, src/syntax_tree.rs, src/token.rs"),("option ranges","src/main.rs: Args"),("range checks in the setting commands","src/commands.rs")],
 observe=["process exit / result of evaluating a line"],hook=H)
p("C06","Printed decimals are the correctly rounded value",
 "For every value, output radix and precision p, the printed number is the value rounded to p fractional digits in that radix, halves away from zero, with a minus sign exactly for negative values. All p fractional digits are shown when rounding lost something, trailing zeros (and a bare point) are dropped when nothing was lost, the integer part has no leading zeros, commas (if on) separate groups of three integer digits counted from the right, and letter digits are upper case exactly when that setting is on. In fractional mode the exact value is printed in lowest terms instead, as numerator/denominator or a bare integer, in the output radix.",
 ["inputs","configurations"],"every rational value, radix 2..16, precision 0..255, commas and upper settings",
 "About 20 values are formatted, all but two in radix 10; carries into the integer part, halves below zero, other radixes with fractions, comma grouping with a sign or fraction and fractional mode are not.",
 ["src/operations.rs","src/main.rs"],
 [("scaling, rounding, splitting and padding","src/operations.rs: make_decimal_string"),("choice of output form","src/main.rs: calculate")],
 observe=["text printed for a line"],hook=H)
p("C07","What is printed can be read back",
 "Whenever a value is exactly representable with the precision in force, the text printed for it without commas, entered again in the same radix, evaluates to exactly the same value. When it is not, the text read back differs from the value by at most half a unit in the last printed digit.",
 ["inputs","configurations"],"every rational value, radix 2..16, precision 0..255, upper on or off",
 "It relates two functions over all values; no test composes printing and reading.",
 ["src/operations.rs","src/token.rs"],
 [("printer","src/operations.rs: make_decimal_string"),("reader","src/token.rs: tokenize_on_multichar_end")],
 observe=["print then evaluate"],hook=H)
p("C08","Variables hold exactly what was last assigned",
 "After `$v = expr` succeeds, reading $v gives exactly the value that was computed until $v is assigned again, reloaded or purged, and no other variable changes. Evaluating a line that assigns nothing, or that fails before its assignment, leaves the value of every variable as it was, and a variable that was never set, or was purged, is reported as unknown rather than given a value.",
 ["histories","inputs"],"every sequence of lines, every set of variables, with and without a database",
 "No test has a variable store: assignment is only tested as a syntax tree.",
 ["src/variable.rs","src/syntax_tree.rs","src/main.rs"],
 [("in-memory store with database fall-back","src/variable.rs: VariableStore"),("assignment after evaluation","src/syntax_tree.rs: SyntaxTree::execute")],
 state=[("vars","in-memory values by name","src/variable.rs: VariableStore")],
 observe=["values read by later lines"],hook=H)
p("C09","Scrollback recalls every entered line, unchanged and in order",
 "Moving up from an empty new line visits the lines entered in this session from newest to oldest, then those of earlier sessions from newest to oldest, moving down retraces the same lines, and the ends stop the movement. Edits made to a recalled line stay with that position until a line is entered and never alter what is recalled later; entering a line records exactly the text shown, once, whether or not it evaluates, and starts a new empty line.",
 ["histories"],"every sequence of moves, edits and entered lines, with and without a database",
 "There are no tests of input history, and the claim is about all operation sequences.",
 ["src/input_history.rs","src/main.rs","src/saved_data.rs"],
 [("index arithmetic over the primary and current histories","src/input_history.rs: InputHistory"),("recording before evaluation","src/main.rs: calculate")],
 state=[("primary_internal_history","lines of this session, oldest first","src/input_history.rs"),("primary_db_history","lines of earlier sessions loaded so far, newest first","src/input_history.rs"),("current_history/current_index","edits and position","src/input_history.rs")],
 observe=["current line after each operation"],hook=H)
p("C10","The saved input history keeps exactly the newest lines, in order",
 "After any sequence of entered lines and capacity changes, the on-disk history holds exactly the most recently entered lines, at most the capacity, in the order entered and linked consistently in both directions; the oldest are evicted first and the newest never is. A new session reads back the lines that were stored when it started, newest first, each once, stopping early only where lines have been evicted since. An operation that fails leaves the stored history as it was.",
 ["histories","fault_sequences"],"every sequence of additions, capacity changes, reads and failing database calls, from an empty or existing database, any capacity of at least 1",
 "There are no database tests at all.",
 ["src/saved_data.rs"],
 [("linked list updates in one transaction","src/saved_data.rs: add_to_input_history"),("eviction loop","src/saved_data.rs: enforce_history_size_with_transaction"),("backwards cursor","src/saved_data.rs: get_prev_input_history")],
 state=[("input_history","doubly linked rows","src/saved_data.rs"),("input_history_tags","front and back row ids","src/saved_data.rs"),("meta_int","capacity and versions","src/saved_data.rs")],
 observe=["rows of the database","lines recalled in a new session"],hook=H)
p("C11","Saved variables survive exactly as long as their last use",
 "A variable stored on disk reads back, in this or a later session, as exactly the rational that was stored. It stays as long as the newest saved line that set, used, or reloaded it is still in the saved history, is removed when that line is evicted or when it is purged, and no other operation adds, removes or changes a stored variable. A database operation that fails changes no stored variable.",
 ["histories","fault_sequences"],"every sequence of assignments, uses, reloads, purges, additions and evictions",
 "There are no database tests at all; exact storage is a statement about all rationals and lifetime about all histories.",
 ["src/saved_data.rs","src/variable.rs","src/main.rs","src/commands.rs"],
 [("set/touch/get/clear statements and ON DELETE CASCADE","src/saved_data.rs"),("touching used variables before evaluation","src/main.rs: calculate"),("reload and purge commands","src/commands.rs")],
 state=[("variable_history","name, numerator, denominator, last user","src/saved_data.rs")],
 observe=["rows of variable_history","values read in a new session"],hook=H)
p("C12","Setting commands set exactly what was asked, or nothing",
 "A setting command with a valid argument changes that setting to exactly the given value and nothing else; without an argument it reports the current value and changes nothing; with anything invalid it reports an error and changes nothing. No command can leave a setting out of range: radix and output radix stay within 2..16, precision and extra precision and their sum within 0..255, history capacity at least 1. Lines that are not commands never change a setting.",
 ["inputs","histories"],"every command line text and every prior settings state",
 "No command is ever executed in a test.",
 ["src/commands.rs","src/token.rs","src/main.rs"],
 [("argument parsing","src/token.rs: tokenize_int_list"),("per-command validation and update","src/commands.rs: *Command::execute"),("initial values","src/main.rs: Args")],
 state=[("Args","the settings","src/main.rs")],
 observe=["settings after the command","command output"],hook=H)
p("C13","Reported positions point at the text they are about",
 "Every token's position is exactly the span of input characters it was read from, tokens are in increasing, non-overlapping order, and between them there are only blanks. The position of a sub-expression runs from its first to its last token, a command's name and arguments are located where they stand in the line, and the position attached to any parse or syntax error lies within the line.",
 ["inputs"],"every input string",
 "Tests check spans for the sampled strings only.",
 ["src/position.rs","src/token.rs","src/syntax_tree.rs"],
 [("span arithmetic","src/position.rs: Position::from_span, from_between, Positioned::trim"),("token positions","src/token.rs"),("node positions","src/syntax_tree.rs: OperationNode::position")],
 observe=["positions in tokens, trees and errors"],hook=H)
p("C14","A line is a command exactly when it starts with a slash",
 "A line is treated as a command exactly when its first non-blank character is `/`: the name is the text after the slash up to the first blank and the rest is passed on as its arguments untouched. A name or alias runs the one command it is documented for, in /help as in use, an unknown name is an error that changes nothing, and help lists every command.",
 ["inputs"],"every input string",
 "Three command strings are tokenized in tests and none is executed.",
 ["src/token.rs","src/commands.rs","src/main.rs"],
 [("command split","src/token.rs: maybe_extract_command"),("name and alias maps","src/commands.rs: CommandExecutor")],
 observe=["output of a line","ParsedInput"],hook=H)
p("C15","Editing keys do to the line exactly what they say",
 "At every moment while a line is edited the cursor is within the line, every key event changes text and cursor as that key documents (insert at the cursor, delete before or under it, move by one or fifteen, jump to the ends or to the matching parenthesis, recall lines) and nothing else, and no sequence of key and resize events makes the editor fail while the window is wider than its margins.",
 ["histories","schedules"],"every sequence of key and resize events at every window width",
 "The interactive loop has no tests.",
 ["src/main.rs","src/input_history.rs"],
 [("event loop","src/main.rs: interactive_calc")],
 state=[("cursor_pos, scroll_offset","cursor and first visible character","src/main.rs")],
 observe=["terminal contents after each event"],hook=None)
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); 
for x in P:
    assert len(x['title'])<=80
    print(x['id'],x['statement'].count('. ')+1,len(x['statement']))
