"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

add('C01', 'Every die is a well-formed probability distribution',
 'Every die the library returns lists each outcome exactly once, in increasing order, with a non-negative whole-number weight, and its reported probabilities are those weights\' shares of the total and add up to 1. '
 'A die built from any list of outcomes and weights not all zero (any order, repeated outcomes, zero weights, booleans, decimals) gives each outcome the total of the weights listed for it, reduced to lowest terms; an empty list is the constant 0, and lists of different lengths or negative or fractional weights are refused. '
 'Two dice count as the same distribution exactly when they have the same outcomes with the same weights.',
 ['inputs', 'histories'], 'all lists of outcomes/weights, and every die produced by any sequence of library operations',
 'The tests build about 15 hand-written dice; none looks at the invariant on the results of operators, mixtures, casts or selections.',
 ['src/randvar.py', 'src/factory.py'],
 [('constructor groups, sorts and reduces', 'RV.__init__ / _sort_and_group / _get_new_zipped / _get_normalized'), ('weights kept as integers', 'RV.from_seq, RV.from_rvs, _rdict.fast_convolve')],
 ['die outcomes and weights', 'RV.get_vals_probs', 'RV.dices_are_equal'], [('vals, probs', 'outcomes and integer weights of a die', 'src/randvar.py')])

add('C02', 'Operators on dice give the exact distribution for independent rolls',
 'Combining two dice, or a die with a number, list or sequence on either side, by + - * / // % **, a comparison, or logical and/or gives exactly the distribution of that operation applied to independently rolled outcomes; a sequence or list stands for its sum, and comparisons and logic give 0 or 1. '
 'Using the same die twice in an expression means two independent rolls, and negation, unary plus, absolute value, round, floor, ceil and truncation act on every outcome.',
 ['inputs'], 'all pairs of operands (dice with any weights and negative, zero, repeated or decimal outcomes; numbers; sequences) and all operators in both operand orders',
 'The test files carry "TODO test arithmetic operators / comparison operators": apart from a few sums nothing checks them, and no test varies weights.',
 ['src/randvar.py', 'src/seq.py'],
 [('convolution over outcome pairs', 'RV._convolve / _rconvolve, _rdict.fast_convolve'), ('per-outcome application', 'RV._apply_operation'), ('sequence operands reduced to their sum', 'RV._convolve, Seq.__add__ and friends')],
 ['operator results'])

add('C03', 'roll(n, d) is the exact sum of n independent rolls of d',
 'Rolling n copies of d gives exactly the distribution of the sum of n independent rolls, where d is a number of sides (1..d, or d..-1 when negative, or 0), a list of faces counted with repetition, or another die; a negative n negates the sum and n = 0 gives 0. '
 'When n is a sequence its total is used, when n is a decimal it is rounded up, and when n is itself a die the result mixes the rolls for each outcome of n (a sequence total or an outcome of n that is not whole is refused); "ndm" text and the D shorthand mean the same rolls. '
 'For n of at least 1 the length of the result is the number of dice rolled (rolling once keeps the length of the die rolled; dice rolled by a die count as one).',
 ['inputs', 'histories'], 'all n and d of every accepted kind, in any order of calls within one process',
 'Tests check about 25 fixed (n, d) pairs; large n, skewed dice rolled after look-alike dice, zero or negative outcomes of a rolling die are not sampled.',
 ['src/roller.py', 'src/randvar.py', 'src/altcast.py'],
 [('argument normalisation', 'roller.roll / _roll / _parse_from_str'), ('binary splitting with memo', 'roller._roll_int_rv'), ('mixture over counts', 'RV.from_rvs')],
 ['roll()', 'len(die)', 'altcast.D'], [('memoised rolls', 'cache of n-dice sums', 'src/roller.py')])

add('C04', 'Position selection gives exact order statistics of the dice rolled',
 'Selecting position k from a roll of n identical dice gives exactly the distribution of the k-th highest die, or of the k-th lowest when the position order is set to lowest first; selecting a sequence of positions gives the distribution of the sum of the dice at those positions, a repeated position counting each time. '
 'Positions outside 1..n contribute 0. A die that is not a roll of several dice (a sum, a mixture, a constant) counts as one die whose position 1 is the die itself, and a die used as a position is refused.',
 ['inputs', 'configurations'], 'all dice (any weights, zero or negative faces), all n, k and position sequences, both position orders',
 'Tests check about 25 fixed selections, only highest first, mostly uniform dice, and never a list of positions with lowest first.',
 ['src/randvar.py', 'src/seq.py', 'src/settings.py'],
 [('closed-form order statistic', 'RV._get_kth_order_statistic'), ('sum over expanded rolls', 'randvar._sum_at'), ('source roll tracking', 'RV.set_source')],
 ['k @ die', 'sequence @ die'], [('source roll', 'how many dice of which kind a die was rolled from', 'src/randvar.py')])

add('C05', 'Typed functions are evaluated over every joint outcome of their dice',
 'A function whose parameters are typed as number, sequence or die is evaluated once for every joint outcome of the dice passed as number or sequence, positionally or by keyword, and the call returns the mixture of the results weighted by the probability of that joint outcome: a die result contributes its whole distribution, a sequence result its sum, and a missing result is left out. '
 'Other typed arguments are converted: a sequence or list passed as number becomes its sum, a number passed as sequence becomes the one-element sequence, and a number or sequence passed as die becomes the die over those faces. Untyped arguments reach the function unchanged.',
 ['inputs', 'programs'], 'all signatures (types, keyword/positional, extra arguments), all argument kinds and all function bodies',
 'Tests use six tiny functions with at most two dice; weights, keyword order, mixtures of dice results and constants are hardly sampled.',
 ['src/decorators.py', 'src/factory.py', 'src/randvar.py'],
 [('argument classification and product enumeration', 'decorators.anydice_type_casting'), ('weighted merge', 'factory.merge_rvs / RV.from_rvs')],
 ['arguments seen by the function body', 'result of the call'])

add('C06', 'Dice passed as sequences enumerate every roll once with its exact weight',
 'A roll of n identical dice passed where a sequence is expected is presented to the function as every possible combination of n faces exactly once, each sorted from highest to lowest in the default position order, and the probability attached to a combination is the exact probability of rolling it in any order. '
 'A die that is not a roll of several dice is presented as one-element sequences of its outcomes.',
 ['inputs'], 'all dice with any face weights and all n',
 'Only uniform dice of at most 5d8 are cast to sequences in tests, and mostly only the sum of the sequence is looked at.',
 ['src/randvar.py', 'src/decorators.py'],
 [('combinations with replacement and multinomial counts', 'RV._get_expanded_possible_rolls')],
 ['sequences seen by the function body', 'result of the call'])

add('C07', 'Mixtures and the blank die: missing results are excluded and rescaled',
 'Mixing results with weights gives every outcome the weighted average of its probabilities in the parts (a number being a certain outcome, and a sequence its sum); parts that are blank or missing are left out and the rest rescaled, and if nothing is left the mixture is the blank die. '
 'The blank die is neutral for + and or, is negation when subtracted from, absorbs multiplication, division, power, modulo, comparison and logical and, has length 0, adds nothing to a sequence, and prints as an empty result; rolling any number of it, or of no faces at all, is blank. '
 'A function is not called when a blank die is passed as a number or sequence, but is called when it is passed as a die.',
 ['inputs', 'programs'], 'all collections of parts and weights, and all expressions containing blank dice',
 'Tests only check that two mixtures of nothing are blank and one function that returns None; the AnyDice transcript tests covering blanks cannot run offline.',
 ['src/randvar.py', 'src/blackrv.py', 'src/roller.py', 'src/decorators.py', 'src/output.py'],
 [('common-denominator merge', 'RV.from_rvs'), ('blank algebra', 'blackrv.BlankRV'), ('call abort', 'decorators.anydice_type_casting')],
 ['RV.from_rvs', 'operators on BlankRV', 'roll()', 'function calls'])

add('C08', 'The function library computes its documented functions',
 'absolute, contains, count-in, explode, highest/lowest/middle N of dice, highest/lowest of two numbers, maximum of, reverse, sort and great-weapon-fighting compute for every argument what their names and the AnyDice documentation say, and for dice arguments the exact distribution over all rolls. '
 'explode re-rolls and adds whenever the whole die shows its maximum, at most "explode depth" times; highest, lowest and middle N keep exactly the N dice in question of a roll.',
 ['inputs', 'configurations'], 'all numbers, sequences and dice (skewed, negative, repeated faces) as arguments; all explode depths',
 'For most of these functions the tests call them and assert nothing ("TODO complete these test"); explode is checked on two dice.',
 ['src/funclib.py', 'src/decorators.py', 'src/settings.py'],
 [('library functions under casting', 'src/funclib.py'), ('explode recursion', 'funclib.explode / _explode_helper')],
 ['library function results'])

add('C09', 'Sequences: flattening, arithmetic by sum, comparison, 1-based access',
 'A sequence built from nested numbers, lists, ranges, sequences and dice holds all the numbers in order followed by the distinct outcomes of the dice, and never changes. '
 'In arithmetic and logic a sequence stands for its sum; comparing it with a number counts the elements for which the comparison holds; comparing two sequences holds when it holds at every position, a missing position being below every number, and "not equal" is the negation of "equal". '
 'Position k is the k-th element and 0 outside 1..length; a sequence of positions sums the selected elements; a sequence of positions applied to a number selects its decimal digits.',
 ['inputs'], 'all nested sequences and all operators with numbers, lists and sequences on either side',
 'Tests use about ten small sequences of positive integers per operator.',
 ['src/seq.py', 'src/utils.py', 'src/factory.py'],
 [('flattening', 'utils.flatten, Seq.__init__, factory.get_seq'), ('sum-based operators', 'Seq.__add__ and friends'), ('comparison', 'Seq._compare_to'), ('access', 'Seq.__getitem__ / __matmul__ / __rmatmul__')],
 ['Seq construction, operators, @, iteration, len'])

add('C10', 'Summary statistics and probability listings are faithful',
 'The mean and standard deviation of a die equal the exact moments of its distribution up to floating-point rounding, whatever the size of its outcomes, and the cumulative die carries the running totals of its weights. '
 'The listing of outcomes and probabilities gives every outcome its weight share; with a cut it drops the least likely outcomes, as many as possible while their total probability stays below the cut, and leaves every other outcome and probability unchanged. '
 'Filtering a die removes exactly the listed outcomes and rescales the rest (to the constant 0 if nothing is left).',
 ['inputs'], 'all dice, all cuts in [0, 1), all filter arguments',
 'Tests check about 13 small positive dice and 18 cut cases on dice that never contain the outcome 0.',
 ['src/randvar.py'],
 [('moments', 'RV.mean / RV.std'), ('cut', 'RV.get_vals_probs'), ('cdf', 'RV.get_cdf'), ('filter', 'RV.filter')],
 ['mean()', 'std()', 'get_vals_probs()', 'get_cdf()', 'filter()'])

add('C11', 'The printed report shows exactly the distribution, label and routing asked for',
 'The text report of any number, sequence or die starts with the given label, then the mean and standard deviation rounded to two decimals, then one right-aligned line per listed outcome in order with its percentage to two decimals and a bar proportional to its probability for the configured width, then a rule; a percent cut hides only the outcomes the cut drops, and an empty result prints label and rule only. '
 'The text is handed once to the given print function, else to the configured default one, and is returned instead of printed when printing is off.',
 ['inputs', 'configurations'], 'all values, labels, widths, cuts, print functions and settings',
 'The only test compares two calls of the same function with each other.',
 ['src/output.py', 'src/randvar.py', 'src/settings.py'],
 [('report text', 'output.output / _output_blank'), ('defaults', 'settings DEFAULT_OUTPUT_WIDTH, DEFAULT_PRINT_FN')],
 ['returned or printed text', 'print function calls'])

add('C12', 'Sampled rolls follow the computed distribution',
 'Rolling a die, number or sequence for a random result returns only outcomes of positive probability, with frequencies that converge to the computed probabilities and successive draws independent. '
 'Without a count one outcome is returned, with a count a tuple of exactly that many; the draws come from the standard random generator, so seeding it makes them repeatable, and drawing never changes the die.',
 ['inputs', 'histories'], 'all dice and counts, all seeds',
 'No test calls the sampler.',
 ['src/roller.py'],
 [('weighted choice', 'roller.roller')],
 ['roller() results over long seeded runs'])

add('C13', 'Settings are validated, take effect from then on, and reset completely',
 'Setting a known option to a valid value changes that option only and takes effect for later operations (position order, explode depth, maximum function depth, truncation of outcomes to integers toward zero unless a die is built with its own choice, dropping of zero-probability outcomes (which otherwise stay listed), output width and print function). '
 'An unknown name or invalid value is refused and leaves every setting as it was, and resetting restores every documented default no matter what was set or how often.',
 ['configurations', 'histories'], 'all sequences of set/reset operations with valid and invalid values, interleaved with computations',
 'Tests set two options in three places and never an invalid value.',
 ['src/settings.py', 'src/randvar.py', 'src/funclib.py', 'src/decorators.py', 'src/output.py'],
 [('validation', 'settings.settings_set'), ('reset', 'settings.settings_reset')],
 ['behaviour of dice, functions and output after set/reset'], [('SETTINGS', 'process-wide options', 'src/settings.py')])

add('C14', 'Results depend only on inputs and settings; existing values never change',
 'No operation changes the observable content (outcomes, weights, length, description, elements) of any die or sequence that already exists, including its operands and results handed out earlier. '
 'Evaluating the same expression with the same settings gives the same result whatever was computed before it in the process, including look-alike dice, other settings since restored, and computations that failed with an error.',
 ['histories'], 'all histories of operations, including failing ones, before and between evaluations',
 'Each test evaluates a fresh expression once; none re-evaluates after a hostile history or re-inspects old values.',
 ['src/roller.py', 'src/randvar.py', 'src/decorators.py', 'src/seq.py', 'src/utils.py'],
 [('memo of rolls', 'roller._roll_int_rv'), ('factorial memo', 'utils.factorial'), ('depth counter', 'decorators.max_func_depth'), ('cached sums', 'RV._get_sum_probs, Seq.sum')],
 ['snapshots of all live values after every operation', 're-evaluation after a history'], [('roll memo', 'cache keyed by n and die', 'src/roller.py'), ('depth counter', 'nesting depth of user functions', 'src/settings.py')])

add('C15', 'Function nesting is limited to exactly the configured depth',
 'User functions may nest exactly "maximum function depth" deep (default 10): calls up to that depth run normally and a call that would nest deeper is not run and gives the blank die, so unbounded recursion always ends with the result truncated at that depth. '
 'Calls that do not nest (siblings, successive calls, calls after an earlier call raised an error) never use up depth, and the truncation notice is printed once until settings are reset.',
 ['programs', 'histories', 'configurations'], 'all call trees, depths and error histories',
 'No offline test recurses at all.',
 ['src/decorators.py', 'src/settings.py'],
 [('depth guard', 'decorators.max_func_depth')],
 ['which nested calls run', 'results of truncated recursion'], [('current depth', 'nesting depth counter', 'src/settings.py')])

add('C16', 'Compiled expressions keep the AnyDice meaning of operators and precedence',
 'Every AnyDice expression compiled and executed gives the value AnyDice assigns to it: d binds tightest, then @, ^, * and / (division rounding down), + and -, comparisons, &, |, all grouping from the left, with unary + - ! # binding tighter than every binary operator, and ranges, sequences, decimals, positions and nested brackets as written. '
 'With the operators-on-integers option, @ # ! & | on plain numbers mean digit selection, digit count and logical not/and/or. Comments, blank lines and spacing never change the result.',
 ['programs', 'configurations'], 'all well-formed expressions over numbers, sequences and dice, any bracketing and spacing, both option settings',
 'The offline tests execute about a dozen expressions for value; mixed-precedence expressions are only executed, not checked, and the AnyDice transcripts cannot be fetched offline.',
 ['src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/parser/parse_and_exec.py', 'src/utils.py'],
 [('precedence table and grammar', 'myparser.precedence, p_expression_*'), ('emission', 'PythonResolver.resolve_node'), ('integer operators', 'utils.mymatmul, mylen, myinvert, myand, myor')],
 ['values passed to output by the compiled program'])

add('C17', 'Compiled programs run statements, functions, loops and outputs as written',
 'A compiled AnyDice program produces exactly the outputs of the source, in order, with the values and labels written, for assignments, if / else if / else, loops over sequences and ranges, settings, function definitions (typed and untyped parameters, early results, recursion, redefinition, calls before definition inside other functions) and library calls, with [NAME] in labels replaced by the value of the variable at that moment. '
 'Functions follow the same casting, blank and depth rules as in Python.',
 ['programs'], 'all well-formed programs',
 'Offline tests check outputs of about four short programs; the others are only executed.',
 ['src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/parser/parse_and_exec.py', 'src/decorators.py'],
 [('statement grammar', 'myparser.p_single_code and friends'), ('statement emission and indentation', 'PythonResolver.resolve_node'), ('runtime library', 'parse_and_exec._get_lib')],
 ['sequence of output calls (value, label) of the executed program'])

add('C18', 'Invalid programs are refused, never partly compiled',
 'Compiling a program that is empty, contains a character outside the language, an unclosed string or comment, a syntax error anywhere, a call to a function that is neither defined nor in the library, no output statement, or an unknown compiler option raises an error instead of returning code. '
 'A well-formed program is never refused, and a refused program does not affect later compilations.',
 ['programs', 'histories'], 'all texts: random mutations of well-formed programs by characters and tokens, in any order of compilations',
 'Tests try two invalid programs.',
 ['src/parser/parse_and_exec.py', 'src/parser/myparser.py', 'src/parser/python_resolver.py'],
 [('lexer error collection', 'myparser.t_ANY_error, t_ANY_eof'), ('parser error collection', 'myparser.p_error'), ('definition and output checks', 'PythonResolver.resolve')],
 ['compile_anydice returns or raises'])

add('C19', 'Program text cannot inject code; labels are reproduced verbatim',
 'The Python code generated for any program only assigns program variables, defines and calls the program\'s own functions and the documented runtime library, and contains nothing that came from a label or comment as code. '
 'Label and string text, with any characters the language allows, reaches the output unchanged except for [NAME] of a program variable, which is replaced by its value.',
 ['programs', 'inputs'], 'all programs, in particular all label texts including backslashes, quotes, braces, brackets, percent signs, hashes and non-ASCII characters',
 'One test has braces in a label; none tries backslashes or other hostile text.',
 ['src/parser/python_resolver.py', 'src/parser/myparser.py', 'src/parser/parse_and_exec.py'],
 [('string emission', 'PythonResolver.resolve_node STRING/STRVAR'), ('string lexing', 'myparser t_instring_*')],
 ['syntax tree of the generated code', 'labels received by output'])

add('C20', 'Compiler options and function names never change what a program means',
 'A program that does not rely on dynamic scope or integer operators gives the same outputs under every combination of compiler options, and with the non-local-scope option a function sees a copy of its caller\'s variables and its own assignments never reach the caller. '
 'Functions may have any names, including words used by the runtime, the language or Python, without disturbing the rest of the program, and compiling the same text twice with the same options gives the same code and leaves the options passed in unchanged.',
 ['programs', 'configurations'], 'all programs, all option combinations, all function names',
 'Tests run a fixed list with two option sets and mostly check only that nothing is raised; name collisions have no offline test.',
 ['src/parser/python_resolver.py', 'src/parser/parse_and_exec.py', 'src/utils.py'],
 [('scope emission', 'PythonResolver _COMPILER_FLAG_NON_LOCAL_SCOPE'), ('collision prefix', 'PythonResolver.resolve / _FUNCS_MAY_COLLIDE'), ('flag handling', 'PythonResolver.__init__')],
 ['outputs per option set', 'generated code', 'options object after the call'])

add('C21', 'Very large rolls stay accurate',
 'When exact weights grow too large and the library scales them down, every probability it reports stays within 1e-9 of the exact value, no outcome of notable probability is lost, and sums, selections, comparisons, mixtures and further rolls built from such dice keep that accuracy, as do their mean and standard deviation relative to the spread.',
 ['inputs', 'histories'], 'all rolls and combinations whose exact weights exceed the internal limit, chained',
 'One test rolls 1000d2 and asserts a generator expression, which is always true.',
 ['src/randvar.py', 'src/roller.py'],
 [('weight limiter', 'randvar._INTERNAL_PROB_LIMIT_VALS')],
 ['get_vals_probs(), mean(), std() of large dice and of values derived from them'])

add('C22', 'Text-valued dice add up symbol counts consistently',
 'Dice and sequences may contain texts: rolling them gives, for each combination of faces, the outcome that records how many times each text was rolled plus the total of the numbers rolled with it, with exact probabilities regardless of the order of the faces. '
 'Such outcomes compare equal exactly when counts and total agree (equal ones hash equal), sort consistently in one total order after all numbers, print each text with its count and then the total, and texts that look like numbers are shown quoted in listings.',
 ['inputs'], 'all mixtures of texts and numbers as faces, all numbers of dice',
 'Tests check one roll of one die and four hand-written comparisons.',
 ['src/string_rvs.py', 'src/factory.py', 'src/randvar.py'],
 [('symbol polynomials', 'string_rvs.StringVal'), ('text sequences', 'string_rvs.StringSeq, factory.get_seq')],
 ['outcomes and weights of text dice', 'get_vals_probs(), output()', 'comparison and hash'])

add('C23', 'A die describes itself as the roll that made it',
 'Converting a die to text (as labels do) gives AnyDice\'s notation: n dice of s numbered sides print as "ndS" with the count left out when it is 1, the sign of the total in front, and "{0..0}" in place of the sides when the count or the sides are 0 (a count that is itself a die is written as 0); dice with listed or computed faces print as "nd{?}", blank dice as "d{}", sequences as "{?}". '
 'Rolling a single numbered die once more keeps its sides in the notation, any other operation yields "d{?}", and the description of a die never changes afterwards.',
 ['inputs', 'histories'], 'all n and d of every kind and all later operations',
 'The description is only covered by transcript tests that cannot run offline.',
 ['src/randvar.py', 'src/roller.py', 'src/blackrv.py', 'src/seq.py'],
 [('description', 'RV.__str__'), ('description bookkeeping', 'roller._setup_str_LHS_RHS')],
 ['str(die)', 'labels of compiled programs'])

add('C24', 'Generated code runs alike every way, isolated, and confined when restricted',
 'Code generated for a program gives the same outputs however it is executed: by either executor (which returns exactly the outputs of that run, in order, with their values and labels, and prints none), with the runtime dictionary, or after "from dice_calc import *". '
 'A run starts from the runtime names plus the names the caller passes (which take precedence) and nothing else: what it assigns, defines or overrides never reaches later or enclosing runs, the caller\'s dictionary or the library, and an error in it is raised to the caller. '
 'The restricted executor refuses or fails code that imports modules, uses builtins that reach files, the interpreter or types, uses names or attributes beginning with an underscore (directly, through getattr or by text formatting), or assigns or deletes attributes of library objects, before it has any effect.',
 ['inputs', 'histories'], 'all programs, all orders of runs and all code given to the restricted executor',
 'Isolation is about sequences of runs and confinement about all hostile code; tests run single programs.',
 ['src/parser/parse_and_exec.py', 'src/__init__.py', 'src/parser/__init__.py'],
 [('executors', 'parse_and_exec.safe_exec, parse_and_exec.unsafe_exec'), ('runtime dictionary', 'parse_and_exec._get_lib'), ('exports', '__init__.__all__')],
 ['lists returned by the executors', 'printed reports', 'namespaces after a run', 'exceptions and audit events'])

add('C25', 'A refusal says what is wrong and where',
 'When a program is refused because of characters outside the language, the refusal lists every such character in order with its offset in the text, its line and its column; a string that is not closed is listed where its line or the text ends. '
 'When it is refused because of a syntax error, the first entry is the earliest token that cannot follow the text before it, with its offset, line and column (and there is no entry if the text merely ends too early). Lines count every newline before that place, also those inside comments; a call to an unknown function is refused naming the function. Earlier refusals have no influence.',
 ['inputs', 'histories'], 'all invalid texts, of any length and layout, and all orders of compilations',
 'No test looks at a reported position.',
 ['src/parser/myparser.py', 'src/parser/parse_and_exec.py', 'src/parser/python_resolver.py'],
 [('illegal characters', 'myparser.t_ANY_error, t_ANY_eof'), ('line counting', 'myparser.t_INITIAL_ignore_newline, t_ignore_COMMENT'), ('syntax errors', 'myparser.p_error, find_column'), ('unknown functions', 'python_resolver.PythonResolver.resolve')],
 ['message of the refusal'])

add('C26', 'Computing and compiling have no effect beyond the result',
 'Computing with dice, compiling programs and executing them changes nothing but what is returned: nothing is printed except the reports asked for and the one notice (once until settings are reset) that the maximum function depth was exceeded; no file is written or opened, no process, network or environment access is made; lists, dictionaries and option sets passed as arguments keep their contents. '
 'The state of the random generator moves only when random rolls are drawn, and it alone determines them, so seeding it repeats them. Recursion limit, warning filters, logging levels and handlers, builtins, search path and current directory stay as they were. Importing the package needs the standard library only.',
 ['inputs', 'histories'], 'all operations and programs in all orders',
 'Tests look at results, never at what else an operation did.',
 ['src/randvar.py', 'src/roller.py', 'src/output.py', 'src/decorators.py', 'src/parser/parse_and_exec.py', 'src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/__init__.py'],
 [('printing', 'output.output, decorators.max_func_depth'), ('random rolls', 'roller.roller'), ('compiler', 'parse_and_exec.compile_anydice'), ('arguments', 'randvar.RV.__init__, RV.from_rvs, factory.get_seq')],
 ['standard output and error', 'audit events', 'random generator state', 'arguments after a call', 'interpreter state'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
