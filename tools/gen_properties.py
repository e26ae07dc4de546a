#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["sudokutools/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Queries, searches and step finders never change the sudoku they are given",
  "Reading, checking, rating, solving, hinting, printing, encoding, comparing, copying or templating a sudoku leaves the numbers and candidates of the sudoku passed in exactly as they were, at every moment while the call or its generator runs. Operations that do change a sudoku change only what they name: setting a number touches no candidates, and setting, removing or initialising candidates touches no numbers.",
  ["inputs", "histories"], "all sudokus, all box shapes, all points at which a caller may look at the argument while a generator is suspended",
  "Tests compare results, hardly ever the argument afterwards, and never while a generator is suspended half-way.",
  ["solve.py", "solvers.py", "analyze.py", "generate.py", "sudoku.py", "shell.py", "dlx.py"],
  [("working copies: copy() before an in-place search", "solve.py dlx(), bruteforce(); solvers.py solve()"), ("finders only read; apply() writes", "solvers.py SolveStep")],
  [("numbers", "the number of every field", "sudoku.py Sudoku.__numbers"), ("candidates", "the candidate set of every field", "sudoku.py Sudoku.__candidates")],
  ["every public function that takes a sudoku"])
p("C02", "Sudokus handed out share no state with the input or with each other",
  "Every sudoku returned or yielded by copying, decoding, solving, enumerating solutions or generating is independent: changing it never changes the argument, the solver's working state or any other sudoku handed out earlier or later. Continuing an enumeration never changes a sudoku that was already handed out.",
  ["inputs", "histories"], "all sudokus and all interleavings of consuming an enumeration and mutating its results",
  "Tests take the first or count the solutions; none mutates one solution, resumes the generator and looks at another.",
  ["solve.py", "solvers.py", "generate.py", "sudoku.py", "dlx.py"],
  [("copy() builds new field storage", "sudoku.py Sudoku.copy/__init__"), ("yield solution.copy()", "solve.py dlx(), bruteforce()")],
  [], ["copy", "decode", "dlx", "bruteforce", "solvers.solve", "create_solution", "generate", "generate_from_template"])
p("C03", "Candidate sets are immutable snapshots and fields are isolated",
  "The candidates read from a field are always an immutable set. Mutating the collection that was passed in to set or remove candidates, or writing one field, never changes the number or the candidates of any other field.",
  ["inputs", "histories"], "all values of any iterable type, all sequences of writes to fields",
  "Two tests look at one field of a new sudoku and one kind of collection.",
  ["sudoku.py", "solve.py", "solvers.py", "actions.py"],
  [("frozenset(value) on every store", "sudoku.py set_candidates, remove_candidates, __init__"), ("one list per row", "sudoku.py __init__")],
  [("candidates", "frozenset per field", "sudoku.py Sudoku.__candidates")], ["Sudoku.get_candidates", "Sudoku.set_candidates", "Sudoku.remove_candidates"])
p("C04", "Houses contain exactly the right fields for every box shape",
  "For every box width and height and every field, the row, the column, the box and the surrounding of that field - asked of a sudoku or of the coordinates module - contain exactly the fields sharing that row, that column, that box, or any of the three, each exactly once. They leave out the field itself exactly when asked not to include it.",
  ["inputs", "configurations"], "all box widths and heights, all fields, include true and false",
  "Tests sample five box shapes with width <= height for the methods of Sudoku; the functions of the coordinates module have no test at all.",
  ["sudoku.py", "coordinates.py"],
  [("row_of/column_of/box_of/surrounding_of", "sudoku.py Sudoku"), ("row_of/column_of/box_of/surrounding_of", "coordinates.py")],
  [], ["return values"])
p("C05", "Box, part, row and column numbering is one consistent scheme",
  "For every box width and height, the fields listed for a row, column, box or part number are exactly the fields that have that number, and the box index computed for a field is the number of the box that lists it. A row, column, box or part number outside the grid raises ValueError instead of returning fields.",
  ["inputs", "configurations"], "all box widths and heights, all numbers, in and out of range",
  "Tests check 3x3 and 5x2 for boxes and parts only, box_at of the coordinates module never, and no out-of-range number.",
  ["coordinates.py", "sudoku.py"],
  [("the_row/the_column/the_box/the_part with range check", "coordinates.py"), ("box_at", "coordinates.py, sudoku.py")], [], ["return values, ValueError"])
p("C06", "Notation names the same field when written and when read",
  "For every box width and height, the row/column numbers and the box/part numbers that are written for a field in coordinate notation denote exactly that field when they are read back, and a set of fields that is written is read back as the same set. Writing a coordinate outside the grid, reading a number outside it, or using box dimensions that are not positive integers, raises ValueError.",
  ["inputs", "configurations"], "all box widths and heights, all fields, both notations",
  "Box/part writing is tested for 3x3 only, reading for three shapes, and no test writes and reads back.",
  ["notation.py", "coordinates.py"],
  [("box and part formula, 1-based numbers", "notation.py encode, _dict_to_str"), ("letter to house table", "notation.py _decode_single")], [], ["encode, decode"])
p("C07", "Malformed coordinate notation is always rejected with ValueError",
  "Coordinate text with an illegal character, a number before any r/c/b/p letter, a letter repeated within one group, a letter without a number, or an empty group makes decode raise ValueError. Such text is never accepted and never fails with any other exception.",
  ["inputs"], "all strings",
  "No test decodes malformed text.",
  ["notation.py"],
  [("character automaton with ValueError exits", "notation.py _decode_single")], [("current/present/number_str", "parser state", "notation.py _decode_single")], ["decode"])
p("C08", "Computed candidates are exactly the numbers that are still possible",
  "The candidates computed for an empty field are exactly the numbers of the sudoku that occur in no other field of its row, column or box, and for a filled field exactly its own number. Initialising candidates stores this set in every field, or, when asked for filled fields only, in exactly the filled fields.",
  ["inputs", "configurations"], "all sudokus and box shapes",
  "Tests compare one 9x9 example.",
  ["solve.py", "solvers.py"],
  [("numbers minus numbers of the surrounding", "solve.py calc_candidates"), ("loop over all fields", "solve.py init_candidates")], [], ["calc_candidates, init_candidates, CalculateCandidates"])
p("C09", "Conflict, solved and unique verdicts follow their definitions",
  "The conflicts reported are exactly the pairs of different fields in a common row, column or box that hold the same number (restricted to the given fields, if any are given). A sudoku is reported solved exactly if it has no empty field and no conflict, and unique exactly if enumerating its solutions gives one and only one.",
  ["inputs"], "all sudokus, solvable or not",
  "Tests sample a few boards; the zero-, one- and many-solution cases are each sampled once or not at all.",
  ["analyze.py"],
  [("find_conflicts, is_solved, is_unique", "analyze.py")], [], ["return values"])
p("C10", "The fast solver is constrained by exactly the sudoku rules for every box shape",
  "For every box width and height, the dancing-links solver searches under exactly these constraints: every field holds one number, and every number occurs once in each row, once in each column and once in each box. Every given number is imposed before the search starts, a contradicting or impossible given yields no solution, and a solution assigns to each field the number that was chosen for it.",
  ["inputs", "configurations"], "all box shapes, including those wider than high, and all givens",
  "Tests use box shapes with width <= height and a handful of boards.",
  ["dlx.py", "solve.py"],
  [("constraint table", "dlx.py do_dlx"), ("selection of givens", "dlx.py do_dlx")], [("X, Y", "constraint matrix", "dlx.py do_dlx")], ["dlx()"])
p("C11", "Backtracking leaves no trace between alternatives",
  "While enumerating solutions, both solvers explore every alternative of the field or constraint they branch on, each one from exactly the same working state. Whatever exploring one alternative changed is undone before the next one is tried, and every solution found below an alternative is passed on.",
  ["inputs", "histories"], "all sudokus and all depths of search",
  "Most test boards are unique and solved on the first path or nearly so; a lost, repeated or corrupted later solution goes unseen.",
  ["solve.py", "dlx.py"],
  [("saved_candidates and restore loop", "solve.py _do_bruteforce"), ("select/deselect", "dlx.py")], [("saved_candidates", "undo record", "solve.py"), ("cols", "undo record", "dlx.py")], ["bruteforce(), dlx()"])
p("C12", "Candidate eliminations are justified by the pattern they claim",
  "Every naked-tuple, hidden-tuple, pointing and fish step that is found rests on a pattern that is really present: n fields of one house with at most n candidates between them; n numbers confined to at most n fields of a house; a candidate confined, within a box or line, to the intersection of a box and a line; a candidate of n lines confined to at most n crossing lines. It removes candidates only where that pattern forbids them.",
  ["inputs"], "all sudokus and candidate states, all box shapes, all step sizes",
  "One example board per technique; a wrong elimination elsewhere only shows on boards that exercise it.",
  ["solvers.py"],
  [("size guards and affected filters", "solvers.py NakedTuple, HiddenTuple, PointingTuple, BasicFish")], [], ["step.clues, step.affected, step.values, step.apply"])
p("C13", "Number-setting steps keep the candidates consistent",
  "Applying a naked-single, hidden-single or brute-force step sets the number of its field, reduces the candidates of that field to that number, and removes the number from the candidates of every other field in the same row, column and box. It changes nothing else.",
  ["inputs"], "all sudokus, all fields, all box shapes",
  "Tests only check that whole boards get solved in the end, where stale candidates are mostly repaired by other steps.",
  ["solvers.py"],
  [("_SingleFieldStep.build_actions", "solvers.py")], [], ["step.apply"])
p("C14", "Step-by-step solving always makes progress and stops",
  "Solving step by step ends for every sudoku, including unsolvable ones: each step that is applied fills an empty field or removes at least one candidate, and solving ends when no technique offers a step. Apart from a filled field, which keeps exactly its number, only the initial calculation of missing candidates may add candidates, and it happens at most once per field.",
  ["inputs"], "all sudokus, in particular contradictory ones",
  "No test calls solve() on an unsolvable sudoku.",
  ["solvers.py", "analyze.py"],
  [("steps only yielded if something is affected", "solvers.py find()"), ("loop ends if no step was found", "solvers.py solve")], [], ["solvers.solve, rate, score"])
p("C15", "Every technique used for solving has a rating between 0 and 10",
  "Every kind of step that step-by-step solving can report has an integer rating between 0 and 10, only the calculation of candidates is rated 0, and the rating of a sudoku is the highest and its score the sum of the ratings of the reported steps.",
  ["inputs", "programs"], "all sudokus, all registered techniques",
  "Tests rate random boards, which seldom need the rare techniques.",
  ["analyze.py", "solvers.py"],
  [("RATINGS", "analyze.py"), ("SOLVERS", "solvers.py")], [], ["rate, score"])
p("C16", "Each symmetry option groups fields into the orbits of that symmetry",
  "For every box shape, symmetry option and field, the fields that generation clears or keeps together are exactly the images of that field under the named symmetry of the grid (none, quarter turns, half turn, mirror across the horizontal axis, the vertical axis, or both). They are cleared together and put back together.",
  ["inputs", "configurations"], "all box shapes, all symmetry options, all fields",
  "No test passes a valid symmetry to generate().",
  ["generate.py"],
  [("SYMMETRY", "generate.py"), ("clear and restore loops", "generate.py generate")], [], ["generate(symmetry=...)"])
p("C17", "Generated sudokus are unique, keep min_count fields and match their template",
  "generate() returns only a sudoku that was found to have exactly one solution, whose filled fields agree with that solution and number at least min_count, and rejects a min_count above the number of fields or an unknown symmetry with ValueError. generate_from_template() returns only a sudoku found to be unique whose filled fields are exactly those filled in the template, or raises RuntimeError after the given number of tries.",
  ["inputs", "configurations", "histories"], "all random choices, symmetries, box shapes, min_count and templates",
  "Tests draw a few random sudokus without symmetry.",
  ["generate.py"],
  [("is_unique check and revert", "generate.py generate"), ("min_count guard", "generate.py generate"), ("uniqueness guard", "generate.py generate_from_template")], [("count", "number of filled fields", "generate.py generate")], ["return values"])
p("C18", "Every shell command is documented and reaches its function with right arguments",
  "Every command of the sudokutools shell is bound to an existing function whose leading parameters are exactly the sudoku or shell objects that the shell supplies, appears exactly once in the help overview, and everything the shell needs to run or describe it exists on the supported Python. The sudoku and the shell are looked up when a command is executed, not when it is parsed.",
  ["programs", "inputs", "histories"], "all commands of the table",
  "The test of the succeeding commands fails on current Python and only counts errors; the order of the supplied arguments is checked for few commands.",
  ["shell.py"],
  [("COMMANDS, SPECIAL_ARGS, COMMANDS_HELP", "shell.py"), ("execute resolves special args late", "shell.py Shell.execute")], [], ["Shell.execute_line, help"])
p("C19", "No command line crashes the shell and every failure is reported",
  "Whatever text is given as a command line, the interactive shell reports the failure and goes on; no exception escapes. Every failing command is reported on standard error, and a non-interactive shell then exits with a non-zero status.",
  ["inputs"], "all command lines",
  "Tests replace the error method and try nineteen failing lines.",
  ["shell.py", "__main__.py"],
  [("parse converts argument errors", "shell.py parse"), ("handlers in execute and execute_line", "shell.py Shell")], [], ["Shell.execute_line, exit status, stderr"])
p("C20", "Every command result and every action can be written as text",
  "Whatever value a shell command returns is written out as text, and whatever set-number or remove-candidates action is encoded or printed, whatever step is printed and whatever sudoku is encoded or viewed, turning it into text succeeds: numbers and candidate sets are converted, never joined to strings as they are.",
  ["inputs", "programs"], "all commands, all actions",
  "Tests replace the print method of the shell and never encode an action.",
  ["shell.py", "notation.py", "actions.py"],
  [("Shell._print", "shell.py"), ("encode_action", "notation.py")], [], ["shell output, encode_action"])
p("C21", "Saved sudokus on the stack and in the undo history never change",
  "A sudoku pushed to the shell's stack and every state in the game's undo history keep their numbers and candidates, whatever is done to the current sudoku afterwards. Popping a sudoku removes it from the stack, so that no two saved or current sudokus are ever the same object.",
  ["histories"], "all command sequences",
  "Tests push and pop once and never modify in between.",
  ["shell.py"],
  [("push copies, pop removes", "shell.py Shell.push_command, pop_command"), ("copy at the start of each turn", "shell.py GameShell.run")], [("stack", "saved sudokus", "shell.py Shell"), ("sudokus/index", "undo history", "shell.py GameShell")], ["push, pop, undo, redo"])
p("C22", "User text is never executed and the library touches nothing outside",
  "Text coming from the user, a file or an argument is only ever read as literal values, command names and notation: it never reaches code evaluation, imports, the operating system shell or the file system, except the script file named on the command line, which is only read. Outside the shell and its entry point, the library does not print, read or write files, use the network, start processes or change interpreter-wide settings.",
  ["inputs", "programs"], "all inputs, all call paths",
  "Tests cannot show the absence of an effect.",
  ["shell.py", "__main__.py", "sudoku.py", "solve.py", "solvers.py", "analyze.py", "generate.py", "notation.py", "actions.py", "coordinates.py", "dlx.py"],
  [("literal_eval only", "shell.py parse"), ("constant os.system argument", "shell.py clear")], [], ["process effects"])
p("C23", "Calls keep no hidden state",
  "No library call changes module-level, class-level or default-argument data or the seed of the random generator, so what a call returns depends only on its arguments, the current contents of the sudoku and, for generation, on random numbers. Only the generator of sudokus uses randomness.",
  ["histories"], "all sequences of calls",
  "Each test starts from fresh objects and checks one call.",
  ["sudoku.py", "solve.py", "solvers.py", "analyze.py", "generate.py", "notation.py", "actions.py", "coordinates.py", "dlx.py", "shell.py"],
  [("tables are read only", "SOLVERS, RATINGS, SYMMETRY, COMMANDS, class attributes"), ("per-instance state created in __init__", "solvers.py SolveStep, sudoku.py Sudoku")], [], ["return values"])
p("C24", "No option is silently ignored",
  "Every parameter that a public function or method of the library (outside the interactive shells) accepts can influence what the call returns, yields, raises or changes; no documented option is overwritten or dropped before it is used.",
  ["inputs", "programs"], "all public functions and methods, all parameters",
  "Most options are never passed by a test, or only with their default value.",
  ["sudoku.py", "solve.py", "solvers.py", "analyze.py", "generate.py", "notation.py", "coordinates.py", "actions.py"],
  [("parameters", "all public signatures")], [], ["return values"])
p("C25", "Copies are complete and field access is consistent",
  "A copy has the same box shape and the same number in every field as the original, and the same candidates in every field when they are asked for (and none otherwise). Iterating a sudoku visits every field exactly once, empty() and filled() visit exactly the fields without and with a number, and reading a field returns what was last written to that field.",
  ["inputs", "configurations"], "all sudokus and box shapes",
  "Tests sample boards; copying candidates is not tested at all.",
  ["sudoku.py"],
  [("copy, __iter__, empty, filled, __getitem__, __setitem__, get/set/remove_candidates, diff, equals", "sudoku.py Sudoku")], [], ["return values"])
p("C26", "Comparisons and counts report exactly the differing and filled fields",
  "For two sudokus of the same shape, diff() yields exactly the fields that hold different numbers, each once; == and equals() are true exactly if no field differs in its number (and, when candidates are asked for, in its candidates). count() is the number of filled fields and len() the number of fields.",
  ["inputs", "configurations"], "all pairs of sudokus of one shape, all box shapes",
  "Tests compare a sudoku with a copy changed in one field of a 9x9 board.",
  ["sudoku.py"], [("diff, __eq__, equals, count, __len__", "sudoku.py Sudoku")], [], ["return values"])
p("C30", "Encoded sudokus decode to an equal sudoku",
  "For every sudoku and every unambiguous choice of separators, decoding the encoded text with the box size of the sudoku (for square boxes also without one) gives a sudoku with the same numbers and, if included, the same candidates. Unambiguous are: no separators or white space between rows and columns for up to nine numbers; for any count of numbers one separator between all fields, given to decode() as number_sep, without candidates.",
  ["inputs"], "all sudokus, box shapes and separators",
  "Tests encode and decode one example each.", ["sudoku.py"], [("encode, decode", "sudoku.py Sudoku")], [], ["encode, decode"])
p("C31", "The printed view shows every field in its place",
  "view() prints each number or candidate list in the row and column of its field, with columns aligned and box borders after each box, for every box shape and option.",
  ["inputs", "configurations"], "all sudokus, box shapes and options",
  "Three boards are compared to literal text.", ["sudoku.py"], [("view", "sudoku.py")], [], ["view, print"])
p("C32", "Both solvers enumerate exactly the solutions of a sudoku",
  "bruteforce() and dlx() yield exactly the same set of solutions, each once, and each yielded sudoku is solved and agrees with the given numbers.",
  ["inputs"], "all sudokus with valid numbers",
  "Tests compare a dozen unique boards.", ["solve.py", "dlx.py"], [("bruteforce, dlx", "solve.py")], [], ["yielded sudokus"])
p("C33", "Generation and search finish in usable time",
  "Generating, checking uniqueness and solving finish within practical time and recursion depth for the supported box sizes.",
  ["inputs", "configurations"], "all random choices and box sizes",
  "Run time depends on the drawn board.", ["generate.py", "dlx.py", "solve.py"], [("minimum-remaining-choices heuristics", "dlx.py solve, solve.py _do_bruteforce")], [], ["run time"])
p("C34", "Techniques are found whenever they are present",
  "Every pattern a technique describes is found if it is present and would eliminate a candidate, so that ratings and hints reflect the true difficulty of a sudoku.",
  ["inputs"], "all candidate states",
  "One example per technique.", ["solvers.py", "analyze.py"], [("find() of each step class", "solvers.py")], [], ["find, hints, rate"])
p("C35", "Shell scripts behave as written",
  "Loops repeat the recorded commands the given number of times, comments and line continuations are honoured, and the current sudoku after a script is the one its commands produce in order.",
  ["histories"], "all scripts",
  "A few one-line scripts.", ["shell.py"], [("run, loop_command", "shell.py Shell")], [], ["shell output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80 or print(x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
