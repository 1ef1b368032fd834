"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["sudokutools/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Every solution a solver yields is complete, valid and keeps the clues",
     "For every sudoku of every box size, each solution yielded by either low-level solver is a sudoku of the same box size in which every row, column and box holds each number exactly once and every filled field of the input keeps its number.",
     ["inputs"], "All box sizes (also non-square and degenerate ones), all puzzles: unique, ambiguous, unsolvable, conflicting, full, empty.",
     "Tests compare a handful of 9x9/6x6 puzzles with stored answers; ambiguous puzzles, other shapes and later solutions of an enumeration are never looked at.",
     ["solve.py", "dlx.py"], [("backtracking over candidates", "sudokutools/solve.py:_do_bruteforce"), ("exact cover", "sudokutools/dlx.py:do_dlx")],
     ["items yielded by bruteforce() and dlx()"])
prop("C02", "Both low-level solvers enumerate exactly the set of solutions",
     "Run to the end, each low-level solver yields every solution of the sudoku exactly once and nothing else; in particular nothing for a sudoku without solution, conflicting or not, and both solvers yield the same set.",
     ["inputs"], "All puzzles of all box sizes with a finite, enumerable number of solutions.",
     "Tests count solutions only of four unique puzzles and check two unsolvable ones that have an open conflict; no ambiguous puzzle is enumerated.",
     ["solve.py", "dlx.py"], [("restoring candidates on backtracking", "sudokutools/solve.py:_do_bruteforce"), ("select/deselect", "sudokutools/dlx.py:deselect"), ("conflict pre-check", "sudokutools/solve.py:bruteforce")],
     ["sequence yielded by bruteforce() and dlx()"])
prop("C03", "The uniqueness test is exact",
     "The uniqueness test answers true exactly for the sudokus that have one and only one solution: false for no solution (with or without a visible conflict), false for two or more, also if the solutions are rare or differ in only a few fields.",
     ["inputs"], "All puzzles of all box sizes.",
     "Tests use four unique puzzles and one that is almost empty.",
     ["analyze.py", "solve.py", "dlx.py"], [("asking for a second solution", "sudokutools/analyze.py:is_unique")], ["result of is_unique()"])
prop("C04", "Solving and analysing never changes the given sudoku; results are independent",
     "No solving, analysing, searching, rating, printing, encoding or comparing function changes the numbers or candidates of the sudoku it is given, however much of its results is consumed, not even for a while in between. Solutions handed out are independent of the input, of each other and of the running enumeration: changing one changes neither the others nor what is still to come.",
     ["inputs", "histories"], "All puzzles with arbitrary candidates, all non-mutating functions, all points at which consumption stops or results are modified.",
     "Tests never look at the input after the call and never modify a result during an enumeration.",
     ["solve.py", "dlx.py", "analyze.py", "solvers.py", "sudoku.py"], [("working on copies", "sudokutools/solve.py:dlx, bruteforce; sudokutools/solvers.py:solve")], ["snapshots of all numbers and candidates around each call and each step of a generator"])
prop("C05", "Calls do not influence each other: interleaving, threads, history",
     "The result of every function depends only on its arguments: enumerations and step searches that are interleaved in any order, run in parallel threads (on different sudokus, or on one that nobody changes meanwhile), or run after an arbitrary history of other calls give the same results as each of them run alone in a fresh process.",
     ["schedules", "histories"], "All interleavings of generators, thread schedules and prior call histories.",
     "Tests run one call at a time and never twice; shared state between calls would go unnoticed.",
     ["solve.py", "dlx.py", "solvers.py", "analyze.py", "sudoku.py", "notation.py"], [("no module-level mutable state; per-call copies", "all modules")], ["results under a random scheduler, in threads, and after histories, against solo runs"])
prop("C06", "Conflict report and solved-check are exact",
     "The conflict report yields, for the requested fields (all by default), exactly the ordered pairs of a requested field and another field of the same row, column or box holding the same number, each pair once with that number. A sudoku counts as solved exactly if every field is filled and there is no such pair.",
     ["inputs"], "All grids (solutions, puzzles, garbage), box sizes and selections of fields.",
     "Tests check two conflicts of one field in one grid, and is_solved on one solution and one puzzle; a full grid with a conflict is never tried.",
     ["analyze.py", "sudoku.py"], [("peer enumeration", "sudokutools/sudoku.py:surrounding_of"), ("conflict scan", "sudokutools/analyze.py:find_conflicts")], ["items of find_conflicts(), result of is_solved()"])
prop("C07", "Calculated candidates are exactly the numbers the peers leave",
     "The calculated candidates of an empty field are exactly the numbers that occur in no other field of its row, column and box, and of a filled field exactly its number. Initialising candidates sets precisely these on every field (or only on filled fields if asked, leaving others alone), whatever candidates were there before, and never changes numbers; calculating them as a solving step fills in only fields without candidates.",
     ["inputs"], "All grids, box sizes and previous candidates.",
     "Tests check one 9x9 grid starting without candidates.",
     ["solve.py", "solvers.py", "sudoku.py"], [("discarding peers' numbers", "sudokutools/solve.py:calc_candidates"), ("initialisation", "sudokutools/solve.py:init_candidates"), ("CalculateCandidates", "sudokutools/solvers.py")], ["calc_candidates(), candidates after init_candidates() and CalculateCandidates.apply_all()"])
prop("C08", "Logical solving steps never lose a solution",
     "For every state of numbers and candidates, applying any step found by a logical technique keeps every solution that the state allowed: a number it sets has that value in all of them and a candidate it removes occurs in none of them. The numbers set by the brute-force steps together form one solution of the sudoku.",
     ["inputs", "histories"], "All solvable puzzles of all sizes and all candidate states reached by eliminations; all techniques; single steps and whole passes of a technique.",
     "Tests compare only the first step of each technique for one grid, and end results of a few random puzzles, where a wrong elimination often does no visible harm.",
     ["solvers.py"], [("pattern conditions of each technique", "sudokutools/solvers.py:*.find"), ("actions", "sudokutools/solvers.py:*.build_actions")], ["state before/after each applied step, against the solutions allowed by the state"])
prop("C09", "A reported step is a genuine pattern and does exactly what it says",
     "Every reported step is a genuine instance of its technique: its clues, affected fields and values satisfy the textbook definition in the current state, and the affected fields are exactly those the elimination changes. Applying it changes exactly that: eliminations remove just the values in question from the affected fields, single steps set the number, reduce the field's candidates to it and remove it from the candidates of all peers; nothing else changes. The same step does the same to every sudoku in that state.",
     ["inputs", "histories"], "All techniques, sizes and consistent candidate states; steps as listed and steps applied while the search is running.",
     "Tests pin one step per technique; box sizes other than 3x3 are only checked for not raising.",
     ["solvers.py"], [("pattern search", "sudokutools/solvers.py:*.find"), ("actions", "sudokutools/solvers.py:*.build_actions, SolveStep.apply")], ["clues/affected/values of each step; full state diff of apply()"])
prop("C10", "Step search and hints miss nothing",
     "In every state, each technique's search reports every instance of the technique that would change something, whichever row, column or box it lies in (naked tuples and singles: at least one step for every set of fields), and none twice. The hints for a sudoku are the steps of all logical techniques, easiest technique first, without brute force.",
     ["inputs"], "All techniques, box sizes with both sides of at least 2, and consistent candidate states.",
     "Tests look at the first step, or for fish at the full list, of one grid each.",
     ["solvers.py"], [("enumeration of units and combinations", "sudokutools/solvers.py:*.find"), ("hints", "sudokutools/solvers.py:hints")], ["lists from find() and hints() against an independent pattern search"])
prop("C11", "Step-by-step solving terminates, solves every solvable sudoku, and is replayable",
     "Step-by-step solving ends after finitely many steps for every sudoku; for every solvable one it returns a solution (the solution, if it is unique), and for an unsolvable one something that is not a solved sudoku. Each step is passed to the callback before it is applied, and applying the reported steps in order to the original sudoku gives the returned result, each step being possible (its candidates present) when its turn comes.",
     ["inputs", "histories"], "All puzzles: unique, ambiguous, unsolvable with and without conflicts, full, empty; all sizes.",
     "Tests never call solve() on unsolvable or ambiguous sudokus and do not look at the reported steps.",
     ["solvers.py", "dlx.py"], [("loop over techniques", "sudokutools/solvers.py:solve"), ("brute-force fallback", "sudokutools/solvers.py:Bruteforce")], ["callback events and result of solve()"])
prop("C12", "Rating and score reflect the easiest sufficient techniques",
     "Solving turns to a technique only when no easier technique applies, so for solvable sudokus the rating is the highest difficulty level among the steps of step-by-step solving (0 only for completed sudokus, 1 exactly if naked and hidden singles suffice, 10 exactly if guessing was needed) and the score is the sum of these levels, at most 10 times the number of empty fields. Both depend only on the numbers, not on candidates present or earlier calls.",
     ["inputs", "histories"], "All solvable puzzles of all sizes, with and without candidates.",
     "Tests only check that ratings of one random puzzle lie between 1 and 10.",
     ["analyze.py", "solvers.py"], [("order of techniques", "sudokutools/solvers.py:SOLVERS, solve"), ("levels", "sudokutools/analyze.py:RATINGS"), ("maximum and sum", "sudokutools/analyze.py:rate, score")], ["rate(), score() and the trace of solve()"])
prop("C13", "Generated sudokus are valid and uniquely solvable",
     "A created solution is always a complete, conflict-free sudoku of the requested box size, and a generated sudoku always has the requested box size, only valid numbers and exactly one solution, for every combination of box size, minimum count and symmetry. Repeated calls do not keep giving the same sudoku.",
     ["inputs", "configurations"], "All random choices (seeds), box sizes, symmetries and minimum counts.",
     "Tests generate one sudoku per size, without symmetry, and trust the library's own uniqueness test.",
     ["generate.py", "analyze.py"], [("revert on ambiguity", "sudokutools/generate.py:generate"), ("filling one box, solving the rest", "sudokutools/generate.py:create_solution")], ["results of create_solution() and generate()"])
prop("C14", "Generation honours minimum count and symmetry",
     "A generated sudoku has at least the requested number of filled fields, and its pattern of filled fields has the requested symmetry (rotation by 90 or 180 degrees, mirroring at either or both axes), for all box sizes. A minimum count above the number of fields and an unknown symmetry raise an error.",
     ["inputs", "configurations"], "All random choices, box sizes, symmetries and minimum counts, in combination.",
     "No test generates a symmetric sudoku at all; the minimum count is tested once per size without symmetry.",
     ["generate.py"], [("orbits removed and restored together", "sudokutools/generate.py:generate"), ("symmetry table", "sudokutools/generate.py:SYMMETRY")], ["pattern of filled fields of generate()"])
prop("C15", "Template generation reproduces the pattern, or gives up with an error",
     "A sudoku generated from a template has exactly the template's box size and pattern of filled fields and exactly one solution; the numbers in the template do not matter and the template is not changed. If no such sudoku is found within a non-negative number of tries, an error is raised and nothing is returned; zero tries always fail.",
     ["inputs", "configurations"], "All templates (possible, impossible, full), box sizes, tries, random choices.",
     "Tests check two very dense templates for the pattern only, one impossible template and zero tries.",
     ["generate.py", "analyze.py"], [("retry loop", "sudokutools/generate.py:generate_from_template")], ["result or exception of generate_from_template()"])
prop("C16", "A sudoku behaves as a grid of independent numbers and candidate sets",
     "After any sequence of operations, reading a field returns the number and the candidates last written to that field (minus candidates removed since; removing absent ones is harmless), no operation affects another field, and counting, iterating over all, empty or filled fields, the length and the field-by-field difference agree with these values. Fields with an index beyond the grid raise an index error and change nothing.",
     ["histories", "inputs"], "All operation sequences on sudokus of all box sizes.",
     "Tests apply one or two operations to a fresh sudoku.",
     ["sudoku.py"], [("nested lists of numbers and frozensets", "sudokutools/sudoku.py:Sudoku")], ["return values of every operation against a dictionary model"],
     [("numbers, candidates", "one number and one candidate set for each field", "sudokutools/sudoku.py:Sudoku.__init__")])
prop("C17", "Copies are independent and equality is an equivalence on the numbers",
     "A copy has the same box size and numbers (and the same candidates exactly if asked for) and from then on neither sudoku is affected by changes to the other or to collections passed in or handed out; candidates handed out earlier stay as they were. Two sudokus are equal exactly if they have the same fields with the same numbers, whatever their candidates: equality is symmetric also between sudokus of different size, and comparing with any other kind of object is false rather than an error.",
     ["histories", "inputs"], "All pairs and chains of copies, all later operation sequences, all box sizes.",
     "Tests compare equal-sized sudokus differing in one field; copying has no test of its own.",
     ["sudoku.py"], [("copy", "sudokutools/sudoku.py:Sudoku.copy"), ("equality", "sudokutools/sudoku.py:Sudoku.__eq__, equals")], ["states of copies over random histories; truth of ==, != and equals()"])
prop("C18", "Text encoding and decoding round-trip",
     "Decoding an encoded sudoku with matching separators gives back the same numbers and, if included, the same candidates of every field, for every size (numbers above 9 need separators). When parsing, every character may represent empty fields, whitespace is ignored if numbers are not separated and may stand for the separator if they are, a given box size is used, an omitted one is right for square boxes, and lengths that fit no sudoku, or only one with boxes of a single row or column (a prime number of rows), raise a value error.",
     ["inputs"], "All numbers, candidate sets (also empty ones), sizes, separators, empty markers and layouts.",
     "Tests decode fixed strings with the default markers and check one encoding; candidates are never encoded, markers other than 0 never used.",
     ["sudoku.py"], [("encode", "sudokutools/sudoku.py:Sudoku.encode"), ("decode", "sudokutools/sudoku.py:Sudoku.decode")], ["encode() text parsed independently, decode() of independently written text, round trips"])
prop("C19", "The printed grid shows exactly the sudoku",
     "In the human-readable form every field appears once, at its place, as its number, or if empty as blank or (if candidates are included) as the prefix and its sorted candidates with the requested separator; bars and rules separate exactly the boxes, and all lines and columns are aligned. The plain string form is the one without candidates.",
     ["inputs", "configurations"], "All sizes, numbers, candidates, prefixes, separators and alignments.",
     "Tests compare five fixed grids, none with a box height other than 2 to 4 or a custom separator.",
     ["sudoku.py"], [("view", "sudokutools/sudoku.py:view, Sudoku.__str__")], ["text of view() and str(), parsed back"])
prop("C20", "Rows, columns, boxes, parts and peers are right for every box shape",
     "For every box width and height and every field, the listed row, column, box and peer coordinates are exactly the right fields without duplicates (with or without the field itself, as asked), and the box number is that of the listed box. All fields of given row, column, box and part numbers are consistent with that, the sudoku's own methods and the coordinate functions agree, and invalid numbers raise a value error.",
     ["configurations", "inputs"], "All box shapes (exhaustively up to 25 numbers), all fields.",
     "Tests cover five shapes for the methods and two for boxes and parts, never with height 1, width 1 or larger than 4; the coordinate functions with a field are untested.",
     ["coordinates.py", "sudoku.py"], [("index arithmetic", "sudokutools/coordinates.py; sudokutools/sudoku.py:box_at..surrounding_of")], ["all return values, exhaustively"])
prop("C21", "Coordinate notation round-trips",
     "For every non-empty set of fields of every sudoku size, decoding its encoded description returns exactly these fields in sorted order, for row/column and box/part notation, any usable separators and any order or repetition of the input. Automatic choice yields the shorter of the two notations; coordinates outside of the grid and invalid dimensions raise a value error.",
     ["inputs", "configurations"], "All sets of fields, box sizes, notations and separators.",
     "Tests encode single fields and a few pairs; no set with several groups is ever decoded from its encoding.",
     ["notation.py", "coordinates.py"], [("grouping of equal rows", "sudokutools/notation.py:_join_keys"), ("splitting groups", "sudokutools/notation.py:decode")], ["encode() text (also read by an independent reader), decode() results"])
prop("C22", "Coordinate notation is read as specified and malformed input is refused",
     "Decoding a description gives, for every comma-separated group, the fields that lie in one of the listed rows, columns, boxes and parts for each kind mentioned, and the union over all groups; whitespace does not matter. Anything else - unknown characters, a kind without numbers, a kind given twice in a group, numbers outside of the sudoku, an empty group - raises a value error and nothing else.",
     ["inputs"], "All strings: well-formed descriptions of all sizes, mutated and random ones.",
     "Tests decode single-field descriptions and single units; malformed input is not tested at all.",
     ["notation.py", "coordinates.py"], [("group parser", "sudokutools/notation.py:_decode_single")], ["decode() result or exception against an independent parser"])
prop("C23", "Action notation is read, written and executed faithfully",
     "Text describing a change - setting a number on some fields, or removing candidates from some fields - is read as exactly this change for every sudoku size, writing a change and reading it back gives the same change, and executing it sets the number and single candidate (setting 0 empties the field and leaves no candidate), or removes the candidates, on exactly the named fields. Text that describes no change raises a value error.",
     ["inputs"], "All sets of fields, numbers, candidate sets, box sizes; all three input forms; malformed text.",
     "There is no test for actions.",
     ["notation.py", "actions.py"], [("encode_action, decode_action", "sudokutools/notation.py"), ("SetNumber, RemoveCandidates", "sudokutools/actions.py")], ["decoded actions, their encodings, and the diff of the sudoku they are applied to"])
prop("C24", "Shell commands behave like the library functions on the current sudoku",
     "Over any session, each shell command prints and does what the corresponding library function does with the current sudoku: commands that create a sudoku (new, decode, generate, from a template, solve, pop) replace it, changing commands change just it, and all others leave it unchanged. Commands separated by semicolons or lines, comments, continued lines and blank lines do not alter this.",
     ["histories", "inputs"], "All sessions of valid commands with random arguments.",
     "Tests run each command once and only look for errors; output and resulting state are never checked.",
     ["shell.py"], [("parse, execute, execute_line, run", "sudokutools/shell.py"), ("command table", "sudokutools/shell.py:COMMANDS")], ["output of every command, against a model"],
     [("sudoku", "the current sudoku", "sudokutools/shell.py:Shell"), ("stack", "saved sudokus", "sudokutools/shell.py:Shell")])
prop("C25", "Shell stack and loops keep their promises",
     "The stack gives back sudokus exactly as they were pushed, numbers and candidates, whatever happened to the current sudoku since: the last one by default, or the one at a given position, counted from the oldest. A loop runs its commands, in order, exactly the given number of times, each time on the then-current sudoku, as if they had been typed that often; while it is being defined nothing of it is executed.",
     ["histories"], "All sessions mixing push, pop (with and without positions), loops and changes.",
     "Tests check only that push, pop and an empty loop raise no error.",
     ["shell.py"], [("push_command, pop_command", "sudokutools/shell.py"), ("loop_command", "sudokutools/shell.py")], ["session output against a stack model and against the unrolled session"])
prop("C26", "A bad command is reported and does no damage",
     "Whatever is typed, an interactive shell never crashes: an unknown command, a malformed argument, a wrong number of arguments, arguments the command refuses or an invalid position is reported as an error, changes neither the current sudoku's numbers nor the stack, and the next command works. A non-interactive shell stops at the first error with exit status 1.",
     ["inputs", "fault_sequences"], "All command lines: mutated valid ones, malformed literals, random text; at any point of a session.",
     "Tests try 19 fixed bad lines with errors replaced by a stub, and never check the state afterwards.",
     ["shell.py"], [("parse errors", "sudokutools/shell.py:parse, execute_line"), ("errors of commands", "sudokutools/shell.py:execute, error")], ["exceptions leaving the shell, error stream, state before and after"])
prop("C27", "Interrupting the interactive shell loses nothing",
     "A keyboard interrupt at the prompt or anywhere during a running command returns an interactive shell to its prompt: the current sudoku and the stack are as before the interrupted command (or as after it; only init_candidates may be half done), the next command is executed as typed, no loop definition is left open by an interrupted loop, and one being typed is kept. A non-interactive shell reading a script ends with exit status 2.",
     ["crash_points", "fault_sequences"], "All commands and all points of their execution at which the interrupt may arrive.",
     "No test delivers an interrupt.",
     ["shell.py"], [("KeyboardInterrupt handling", "sudokutools/shell.py:Shell.run"), ("loop state", "sudokutools/shell.py:Shell.loop_command")], ["session output after injected interrupts"])
prop("C28", "The command line runs the same session from file, standard input and -c",
     "The same commands give the same output whether they come from a script file, from standard input or from the -c option. The process exits with status 0 if all commands succeed, and after an error, or if the file cannot be read, prints a message to the error stream and exits with status 1 without running the remaining commands.",
     ["configurations", "inputs"], "All scripts with a deterministic outcome, with and without errors, in all three modes.",
     "The command line entry point has no test.",
     ["__main__.py", "shell.py"], [("argument handling", "sudokutools/__main__.py:main"), ("run", "sudokutools/shell.py:Shell.run")], ["stdout, stderr and exit status of real processes"])
prop("C29", "Help describes every command as it is",
     "Help lists every command of the shell once, and help for a single command shows its name, its parameters in order with their real default values, and its description. Asking for help works for every command and never changes the session.",
     ["inputs"], "All commands, alone and in the overview, from any session state.",
     "The only test counts the entries of the help sections; displaying help fails on current Python versions.",
     ["shell.py"], [("signature_str", "sudokutools/shell.py"), ("help_command", "sudokutools/shell.py")], ["help text against the signatures and documentation of the functions"])
prop("C30", "Playing: every move is applied as written and undo and redo are faithful",
     "In the play mode every entered move changes the sudoku as its notation says, followed by the enabled automatic rules (removing a set number from the candidates of its peers, setting single candidates), and everything else leaves the sudoku unchanged. Undo and redo step exactly through the states reached, a new move after undo discards the undone ones, the conflict and check commands list exactly the conflicts and the fields differing from the solution, and asking for hints shows one after another the steps that are possible in the current state; no input line ends the game by an error.",
     ["histories"], "All sequences of moves, undo, redo, queries and unusable input.",
     "The play mode has no test.",
     ["shell.py", "notation.py", "actions.py", "solvers.py"], [("history list and index", "sudokutools/shell.py:GameShell.run"), ("autofill", "sudokutools/shell.py:GameShell.autofill")], ["printed grid and messages after each input, against a model of the history"],
     [("sudokus, index", "history of states and position in it", "sudokutools/shell.py:GameShell")])
prop("C31", "Unlimited template tries eventually succeed whenever the pattern is possible",
     "With a negative number of tries, template generation eventually returns a sudoku for every pattern for which one exists.",
     ["inputs"], "All possible patterns and all infinite runs of the random generator.",
     "An unbounded eventuality: no finite run settles it.",
     ["generate.py"], [("retry loop", "sudokutools/generate.py:generate_from_template")], ["return of generate_from_template()"])
prop("C32", "Answers do not wait until all solutions have been enumerated",
     "The solvers hand out each solution as it is found: the first solutions, the uniqueness test, step-by-step solving, rating, score, guessing steps, template generation from too few fields and the shell's solve command give their answer after moderate work even for sudokus with astronomically many solutions, such as blank or nearly blank ones.",
     ["inputs", "histories"], "All sudokus with few clues of usual sizes, all consumers that need only some of the solutions, any number of solutions taken.",
     "Tests almost only use sudokus with one solution, for which an enumeration of all is as fast; with many solutions it never ends.",
     ["solve.py", "dlx.py", "analyze.py", "solvers.py", "shell.py"], [("generators", "sudokutools/solve.py:dlx, bruteforce"), ("stopping at the second solution", "sudokutools/analyze.py:is_unique"), ("next(dlx(sudoku))", "sudokutools/solvers.py:Bruteforce.find; sudokutools/shell.py:solve_command")], ["calls and jumps executed inside the library until the answer is there"])
prop("C33", "Solving steps are values: normalised, comparable, sortable, readable",
     "However a solving step was found or made, its clues, affected fields and values are sorted tuples; two steps are equal exactly if these are equal, and all comparisons and sorting follow the order of these tuples, so the same search in the same state gives equal steps. The representation of a step is an expression for an equal step of the same technique, its text names technique, clues and values, and applying a step does not change any of this.",
     ["inputs"], "All steps of all techniques in all states, and steps made from fields and values in any order and collection.",
     "Tests compare a few steps with expected ones of the same order and never sort, order or print most of them.",
     ["solvers.py"], [("normalisation, __eq__, __lt__, __repr__, __str__", "sudokutools/solvers.py:SolveStep, _SingleFieldStep")], ["attributes, comparisons, repr() and str() of steps"])
prop("C34", "Library calls leave no traces: no output, files, settings or memory",
     "Apart from what it returns and, for changing functions, the sudoku it is given, no library call leaves a trace: it prints nothing and reads no input, touches no file, process, thread or network, does not change settings of the interpreter or the process, draws from the random number generator only when generating (where a seeded generator gives the same sudoku again), and keeps no memory once its results are dropped, however often it is called and whether an enumeration is finished or abandoned. A shell session prints only to its output and the error stream.",
     ["inputs", "histories"], "All functions on all sudokus, complete and abandoned enumerations, refused calls, thousands of calls in a row, shell sessions with their own output.",
     "Tests look at returned values only; output, settings and memory that build up over many calls go unnoticed.",
     ["solve.py", "dlx.py", "solvers.py", "analyze.py", "generate.py", "sudoku.py", "notation.py", "coordinates.py", "shell.py"], [("no module-level mutable state, no output", "all modules"), ("output through the shell's own file", "sudokutools/shell.py:Shell._print")], ["audit events, stdout and stderr, process settings and random state around each call, traced memory over thousands of calls"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
