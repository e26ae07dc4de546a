PTS = "interprocedural points-to and effect analysis (abstract interpretation of the package source)"
SYM = "abstract interpretation of the source on generic boards of every shape, with exact index arithmetic"
CLAIMS = {
 "C01": (PTS, "every write site reachable from a query/search/finder is checked against the locations a field read looks at"),
 "C02": (PTS + " with a typestate for objects already handed out", "freshness of every mutable object reachable from a result"),
 "C03": (PTS + " on the candidate storage", "type, aliasing and per-field isolation of stored candidates"),
 "C15": (SYM, "classes of step objects reachable from the solvers against the rating table; rate and score as formulas"),
 "C18": ("abstract interpretation of the shell's dispatch on every command with recorders in place of the functions, and an interface lint", "arguments supplied to every command, time of lookup, help overview, existence of names"),
 "C22": ("name resolution of every outside facility with interprocedural constant-argument (taint) analysis", "which outside facilities each module uses and what text reaches them"),
 "C21": ("abstract interpretation of every shell command and game round on stacks and histories of arbitrary sudokus, with points-to analysis", "identity and content of every saved sudoku after every command; nothing mutable shared"),
 "C24": ("interprocedural strong-liveness (faint parameter) analysis with explicit text-flow summaries", "influence of every parameter of every public function"),
 "C23": (PTS, "no write to module, class, default-argument or random-generator state; who may use randomness"),
 "C04": (SYM, "multiplicity of every class of target fields in the symbolic house, for all box shapes at once"),
 "C05": (SYM, "numbering terms, listed families and range guards, for all box shapes at once"),
 "C08": (SYM, "membership formula of the computed set; effect of initialising on a generic field"),
 "C09": (SYM, "family of reported conflicts and the verdict conditions"),
 "C10": (SYM, "constraint table, columns and imposed givens of the fast solver as symbolic families, on every box shape"),
 "C11": ("abstract interpretation of one level of each recursive solver with the recursion replaced by its contract", "state before each alternative, at the end, and what is handed on; field states of all shapes, tables over uninterpreted names"),
 "C12": ("abstract interpretation of find() and apply() of every elimination step and deduction of the claimed pattern from the conditions of each family of steps", "every candidate removed by every family of steps of every technique, against the pattern; counter-models on small sudokus only for reporting"),
 "C14": ("abstract interpretation of find(), apply() and the rounds of solve()", "changes made by every family of steps; all rounds of the loop of solve() with an arbitrary number of steps for each technique"),
 "C13": (SYM, "number and candidates of every class of target field after applying each number-setting step, against the stated rule"),
 "C16": ("abstract interpretation of generate() with an inductive loop invariant over cleared, kept and untried orbits, for every option and box shape", "fields written in one iteration against the orbit of one field; cleared or kept together"),
 "C17": ("abstract interpretation of generate() and generate_from_template() with an inductive loop invariant", "contents handed out against contents found unique, the solution, min_count and the template; rejected arguments; number of tries"),
 "C19": ("abstract interpretation of the shell on lines of arbitrary words with every command allowed to raise anything", "escaping exceptions, reports on stderr and exit statuses of every path of execute_line, run and main; rounds of the game"),
 "C30": ("abstract interpretation of encode() on sudokus with arbitrary contents into texts of digits and of decode() on these texts", "every path of decode, every field read against the field written, for a table of box sizes and separators; constant contents only for reporting"),
 "C06": ("abstract interpretation of writing and reading on texts of constant pieces and decimal numbers, with exact index arithmetic", "fields read against fields written on every pair of paths, for every box size; sets of one, two and ten patterns of more fields"),
 "C07": ("abstract interpretation of reading on families of malformed texts with arbitrary numbers, characters and rests, for every box size", "every path of decode for each malformed place behind each well-formed beginning of up to four letters, alone and between groups"),
 "C20": ("abstract interpretation with typed text operations", "type of every operand joined to a text on every path of the printing functions, over all kinds of values"),
 "C25": (SYM, "content of every field class after a write, of a copy and of the iterations"),
 "C26": (SYM, "families and conditions computed by the comparisons"),
}
NA = {
 "C31": "Exact text layout (column widths, alignment, rules) is a numeric/string result computed from run-time values; a static rule would only freeze the current source text.",
 "C32": "Equality of two enumerated solution sets is a functional-correctness statement over search results; its statically decidable clauses are claimed separately as C08 (candidates), C10 (constraints) and C11 (undo, no alternative skipped).",
 "C33": "Running time and recursion depth depend on the random board drawn and on search effort; no static bound exists.",
 "C34": "Completeness of pattern detection quantifies over all candidate states and heuristic restrictions of each finder (several are deliberate); only soundness of what is reported is visible in the shape of the code (C12).",
 "C35": "The effect of a whole script is the composition of run-time command results; only dispatch (C18), failure handling (C19) and saved states (C21) are structural, and claimed there.",
}
