"""Planted bugs: each breaks one property, keeps the existing tests green and shows itself in its demo."""
S = []


def s(id, prop, edits, demo, needs, what):
    S.append({"id": id, "prop": prop, "edits": edits, "demo": demo, "needs": needs, "what": what})


s("c01-suspended-solver", "C01",
  [("solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):\n        yield solution.copy()",
    "    given = [(rc, sudoku[rc]) for rc in sudoku]\n    try:\n        for solution in do_dlx(sudoku):\n            yield solution.copy()\n    finally:\n        for rc, number in given:\n            sudoku[rc] = number")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.solve import dlx
s = Sudoku(box_size=(2, 2))
s[0, 0] = 1
g = dlx(s)
next(g)
assert s.count() == 1, "argument filled while the generator is suspended"
""", "the argument is looked at while the generator is suspended (or the generator is abandoned)",
  "dlx() works in the caller's sudoku and only restores it when exhausted")
s("c01-setnumber-clears", "C01",
  [("sudoku.py", "        row, col = key\n        self.__numbers[row][col] = value\n",
    "        row, col = key\n        if value and self.__numbers[row][col] and self.__numbers[row][col] != value:\n            self.__candidates[row][col] = frozenset()\n        self.__numbers[row][col] = value\n")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku()
s[0, 0] = 3
s.set_candidates(0, 0, [3, 4])
s[0, 0] = 4
assert s.get_candidates(0, 0) == {3, 4}
""", "a filled field is overwritten by a different number", "setting a number drops the candidates of the field")
s("c02-memo-solution", "C02",
  [("generate.py", "    sudoku = Sudoku(box_size=box_size)\n\n    # fill a single box and let dlx do the rest\n",
    "    sudoku = Sudoku(box_size=box_size)\n    if len(sudoku) == 1:\n        sudoku = _TRIVIAL\n\n    # fill a single box and let dlx do the rest\n"),
   ("generate.py", "    return next(dlx(sudoku))\n", "    if len(sudoku) == 1:\n        return sudoku\n    return next(dlx(sudoku))\n"),
   ("generate.py", "def create_solution(", "_TRIVIAL = Sudoku(box_size=(1, 1))\n\n\ndef create_solution(")],
  """
from sudokutools.generate import create_solution
a = create_solution((1, 1))
a[0, 0] = 0
b = create_solution((1, 1))
assert a is not b
assert a.count() == 0 and b.count() == 1
""", "two solutions of the 1x1 sudoku, one of them modified", "create_solution hands out one shared object for 1x1 sudokus")
s("c02-bruteforce-reuse", "C02",
  [("solve.py", "    for solution in _do_bruteforce(solution):\n        yield solution.copy()",
    "    for number, solution in enumerate(_do_bruteforce(solution)):\n        if number < 2:\n            result = solution.copy()\n        else:\n            for rc in solution.diff(result):\n                result[rc] = solution[rc]\n        yield result")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.solve import bruteforce
s = Sudoku(box_size=(2, 2))
seen = []
for x in bruteforce(s):
    for obj, text in seen:
        assert obj.encode() == text
    seen.append((x, x.encode()))
    if len(seen) > 4:
        break
""", "a sudoku with at least three solutions whose earlier solutions are kept", "the third solution overwrites the second one already handed out")
s("c03-keep-set", "C03",
  [("sudoku.py", "        self.__candidates[row][col] = frozenset(value)",
    "        self.__candidates[row][col] = value if isinstance(value, set) and len(value) < 2 else frozenset(value)")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku()
c = {1}
s.set_candidates(0, 0, c)
c.add(2)
assert s.get_candidates(0, 0) == {1}
""", "the candidates are set from a set with at most one element that is changed later", "small sets are stored by reference")
s("c03-shared-row", "C03",
  [("sudoku.py", "        self.__candidates = [[frozenset()] * len(self.indices)\n                             for _ in self.indices]",
    "        row = [frozenset()] * len(self.indices)\n        self.__candidates = [row if len(row) == 1 or len(row) > 16 else list(row)\n                             for _ in self.indices]")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku(box_size=(5, 5))
s.set_candidates(0, 0, [1])
assert not s.get_candidates(1, 0)
""", "a sudoku with more than 16 rows", "all rows of large sudokus share one list of candidates")
s("c23-default-arg", "C23",
  [("solvers.py", "    @classmethod\n    def __find_at(cls, sudoku, coords):\n        cand_coords = defaultdict(lambda: set())",
    "    @classmethod\n    def __find_at(cls, sudoku, coords, cand_coords=defaultdict(lambda: set())):\n        for cand in sudoku.numbers:\n            if cand in cand_coords:\n                cand_coords[cand] &= set(coords)")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.solvers import HiddenPair
def board(keep):
    s = Sudoku((2, 2))
    for r, c in s:
        s.set_candidates(r, c, s.numbers)
    for c in range(4):
        if c not in keep:
            s.remove_candidates(0, c, [1, 2])
    return s
a, b = board((0, 3)), board((0, 1))
first = [repr(x) for x in HiddenPair.find(b)]
g = HiddenPair.find(a)
next(g)
second = [repr(x) for x in HiddenPair.find(b)]
assert first and first == second, (first, second)
""", "HiddenTuple.find on one sudoku and then on another one", "occurrences of candidates are remembered across calls in a default argument")
s("c23-seed", "C23",
  [("generate.py", "    coords = list(sudoku)\n    shuffle(coords)\n    count = len(sudoku)",
    "    coords = list(sudoku)\n    if symmetry is not None:\n        seed(count_limit)\n    shuffle(coords)\n    count = len(sudoku)"),
   ("generate.py", "from random import choice, sample, shuffle", "from random import choice, sample, seed, shuffle")],
  """
import random
from sudokutools.generate import generate
out = set()
for i in range(3):
    random.seed(i)
    generate(symmetry="mirror-x", box_size=(2, 2))
    out.add(random.random())
assert len(out) == 3, "the random generator was reseeded"
""", "generate() with a symmetry", "the global random generator is reseeded")
s("c04-quad-swapped", "C04",
  [("coordinates.py", "    coords.extend(_box_without_row_and_column_of(row, col, width, height))", "    coords.extend(_box_without_row_and_column_of(row, col, height, width))")],
  """
from sudokutools import coordinates
got = coordinates.surrounding_of(0, 0, 3, 2, include=False)
want = {(i, j) for i in range(6) for j in range(6) if i == 0 or j == 0 or (i < 2 and j < 3)} - {(0, 0)}
assert set(got) == want and len(got) == len(want)
""", "a box that is not square", "the box part of the surrounding is built with width and height swapped")
s("c04-wide-box", "C04",
  [("sudoku.py", "                  for i in range(self.box_height) for j in range(self.box_width)]",
    "                  for i in range(self.box_height)\n                  for j in range(min(self.box_width, self.box_height))]")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku(box_size=(4, 2))
assert sorted(s.box_of(3, 5)) == [(i, j) for i in (2, 3) for j in range(4, 8)]
""", "boxes wider than high", "box_of loses the right columns of wide boxes")
s("c05-negative-row", "C05",
  [("coordinates.py", "    if not 0 <= row < width * height:", "    if row >= width * height:")],
  """
from sudokutools.coordinates import the_row
try:
    the_row(-1, 3, 3)
except ValueError:
    pass
else:
    raise AssertionError("row -1 has fields")
""", "a negative row number", "the range check of the_row forgets negative numbers")
s("c05-box-at", "C05",
  [("coordinates.py", "    return col // width + row - (row % height)", "    return col // width + row // width * width")],
  """
from sudokutools.coordinates import box_at, the_box
for box in range(6):
    for row, col in the_box(box, 2, 3):
        assert box_at(row, col, 2, 3) == box
""", "boxes that are not square", "box_at counts bands of the wrong height")
s("c08-stop-early", "C08",
  [("solve.py", "        candidates.discard(sudoku[i, j])\n", "        candidates.discard(sudoku[i, j])\n        if len(candidates) == 1:\n            break\n")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.solve import calc_candidates
s = Sudoku(box_size=(2, 2))
for i, rc in enumerate([(0, 1), (0, 2), (0, 3), (1, 0)]):
    s[rc] = i + 1
assert calc_candidates(s, 0, 0) == set()
""", "an empty field without any candidate", "the calculation stops at one candidate although that one may be impossible too")
s("c08-init-keeps", "C08",
  [("solve.py", "        if not filled_only or sudoku[row, col]:", "        if not filled_only or (sudoku[row, col]\n                               and not sudoku.get_candidates(row, col)):")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.solve import init_candidates
s = Sudoku()
s.set_candidates(0, 0, [1, 2])
s[0, 0] = 5
init_candidates(s, filled_only=True)
assert s.get_candidates(0, 0) == {5}
""", "a field that got its number after its candidates", "initialising filled fields keeps stale candidates")
s("c09-solved-rows", "C09",
  [("analyze.py", "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    diagonal = [(i, i) for i in sudoku.indices]\n    return not list(sudoku.empty()) and not list(\n        find_conflicts(sudoku, *diagonal))")],
  """
from sudokutools.sudoku import Sudoku
from sudokutools.analyze import is_solved
s = Sudoku(box_size=(2, 2))
for row in range(4):
    for col in range(4):
        s[row, col] = (row * 2 + row // 2 + col) % 4 + 1
assert is_solved(s)
s[0, 1], s[0, 2] = s[0, 2], s[0, 1]
s[3, 1], s[3, 2] = s[3, 2], s[3, 1]
ok = all(len({s[f] for f in s.surrounding_of(i, j, include=False) if s[f] == s[i, j]}) == 0 for i, j in s)
assert is_solved(s) == ok
""", "conflicts that involve no field of the diagonal", "is_solved looks for conflicts of the diagonal fields only")
s("c25-copy-empty-only", "C25",
  [("sudoku.py", "            for row, col in self:\n                c = self.get_candidates(row, col)\n", "            for row, col in self.empty():\n                c = self.get_candidates(row, col)\n")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku()
s[0, 0] = 5
s.set_candidates(0, 0, [5])
assert s.copy(include_candidates=True).get_candidates(0, 0) == {5}
""", "a filled field with candidates", "copying with candidates skips filled fields")
s("c26-equals-solved", "C26",
  [("sudoku.py", "            if candidates and self.get_candidates(row, col) != \\\n", "            if candidates and not self[row, col] and \\\n                    self.get_candidates(row, col) != \\\n")],
  """
from sudokutools.sudoku import Sudoku
a, b = Sudoku(), Sudoku()
a[0, 0] = b[0, 0] = 3
b.set_candidates(0, 0, [3])
assert not a.equals(b, candidates=True)
""", "two sudokus that differ in the candidates of a filled field", "equals() compares candidates of empty fields only")
s("c25-copy-valid-only", "C25",
  [("sudoku.py", "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n\n        if include", "        for row, col in self:\n            if self[row, col] in self.numbers:\n                sudoku[row, col] = self[row, col]\n\n        if include")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku(box_size=(2, 2))
s[0, 0] = 7
assert s.copy()[0, 0] == 7
""", "a number that does not belong to the grid", "copying drops numbers outside 1..N")
s("c26-equals-subset", "C26",
  [("sudoku.py", "            if candidates and self.get_candidates(row, col) != \\\n                    other.get_candidates(row, col):\n", "            if candidates and self.get_candidates(row, col) - \\\n                    other.get_candidates(row, col):\n")],
  """
from sudokutools.sudoku import Sudoku
a, b = Sudoku(), Sudoku()
a.set_candidates(0, 0, [1])
b.set_candidates(0, 0, [1, 2])
assert not a.equals(b, candidates=True)
""", "the candidates on the left are a part of those on the right", "equals() accepts fewer candidates on the left")
QUINT = """
from sudokutools import analyze, solvers
from sudokutools.sudoku import Sudoku
s = Sudoku()
for field, n in {(0, 5): 9, (1, 0): 6, (1, 1): 7, (1, 2): 8, (2, 3): 6, (2, 4): 7, (2, 5): 8}.items():
    s[field] = n
keep = list(solvers.SOLVERS)
solvers.SOLVERS[:] = [c for c in keep if c.__name__ in ("CalculateCandidates", "%s", "Bruteforce")]
assert 0 < analyze.rate(s) <= 10
assert analyze.score(s) >= analyze.rate(s)
"""
s("c15-quint-base", "C15", [("solvers.py", "                    step = cls(\n                        clues=fields, affected=affected, values=all_candidates)",
                             "                    step = (cls if cls.n < 5 else NakedTuple)(\n                        clues=fields, affected=affected, values=all_candidates)")],
  QUINT % "NakedQuint", "a sudoku that needs a naked quint", "naked quints are reported as steps of an unrated class")
s("c15-score-techniques", "C15", [("analyze.py", "    return sum([RATINGS[step.__class__] for step in steps])", "    return sum(\n        [RATINGS[cls] * len([s for s in steps if type(s) == cls])\n         for cls in RATINGS if RATINGS[cls] < max(RATINGS.values())])")],
  """
from sudokutools import analyze
from sudokutools.sudoku import Sudoku
s = Sudoku(box_size=(2, 2))
s[0, 0] = 1
assert analyze.score(s) >= analyze.rate(s) > 0
""", "a sudoku that needs brute force", "brute force steps are left out of the score")
s("c18-loop-early", "C18", [("shell.py", "                    self.__loop_command_list.append(command)",
  "                    func, special, args, kwargs = command\n                    if \"sudoku\" in special and \"shell\" not in special:\n                        args = [self.sudoku for _ in special] + args\n                        special = []\n                    self.__loop_command_list.append(\n                        (func, special, args, kwargs))")],
  """
import io
from sudokutools.shell import Shell
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=True)
old = sh.sudoku
sh.execute_line("loop 1; new (2,2); set 0 0 3; loop end")
assert old[0, 0] == 0, "the old sudoku was changed"
assert sh.sudoku[0, 0] == 3
""", "a loop that replaces the current sudoku before using it", "commands of a loop get the sudoku that was current when the loop was recorded")
s("c18-clear-platform", "C18", [("shell.py", "    if platform.system() == \"Windows\":\n        os.system(\"cls\")", "    if platform.system() == \"Windows\" or platform.popen(\"uname\") is None:\n        os.system(\"cls\")")],
  """
import io, sys
from sudokutools.shell import Shell, clear
clear()
""", "the clear command (no test runs it)", "clear uses a function that was removed from the standard library")
s("c18-template-argument", "C18", [("shell.py", "    \"generate_from_template\": (generate_from_template, \"sudoku\"),", "    \"generate_from_template\": (generate_from_template, \"shell\"),")],
  """
import io, sys
from sudokutools.shell import Shell
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=False)
sh.execute_line("new (2,2); solve; generate_from_template")
assert sh.sudoku.count() == 16
""", "the command generate_from_template", "generate_from_template is given the shell")
s("c22-eval-fallback", "C22", [("shell.py", "                    kwargs[name] = literal_eval(value)", "                    try:\n                        kwargs[name] = literal_eval(value)\n                    except ValueError:\n                        # allow simple calculations (box_size=(2*2,2))\n                        kwargs[name] = eval(value, {\"__builtins__\": {}})")],
  """
import io
from sudokutools.shell import Shell
box = []
text = "new box_size=[c\\tfor\\tc\\tin\\t().__class__.__base__.__subclasses__()\\tif\\tc.__name__=='Sudoku'][0].decode('1'*16).box_size"
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=True)
sh.execute_line(text)
assert sh.sudoku.box_size == (3, 3), "user text was evaluated"
""", "a keyword argument that is no literal", "keyword arguments that are no literals are evaluated as code")
s("c22-recursion", "C22", [("solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):", "    solution = sudoku.copy()\n    if len(solution) > 400:\n        import sys\n        sys.setrecursionlimit(max(sys.getrecursionlimit(), 2 * len(solution)))\n    for solution in do_dlx(solution):")],
  """
import sys
from sudokutools.sudoku import Sudoku
from sudokutools.solve import dlx
before = sys.getrecursionlimit()
s = Sudoku(box_size=(5, 5))
s[0, 0] = s[0, 1] = 1
list(dlx(s))
assert sys.getrecursionlimit() == before
""", "a sudoku with more than 400 fields", "dlx changes the recursion limit of the interpreter for large sudokus")
s("c24-encode-nsep", "C24", [("notation.py", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), sep, nsep)", "    elif use_boxes:\n        return _dict_to_str(\n            \"b%sp%s\", _join_keys(boxes), sep, \",\" if length > 9 else \"\")")],
  """
from sudokutools.notation import encode
assert encode([(0, 0), (0, 1)], use_boxes=True, nsep=".") == "b1p1.2"
""", "box notation with a number separator", "encode ignores nsep when boxes are asked for")
s("c24-decode-candidate-sep", "C24", [("sudoku.py", "        for c in candidate_str.split(candidate_sep):", "        for c in candidate_str.replace(\";\", \",\").split(\",\"):")],
  """
from sudokutools.sudoku import Sudoku
s = Sudoku.decode("0" * 16 + "|12/34", candidate_sep="/")
assert s.get_candidates(0, 0) == {1, 2}
""", "a candidate separator other than the default", "decode ignores candidate_sep")
s("c21-push-again", "C21", [("shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))",
  "        if self.stack and self.stack[-1].equals(self.sudoku, candidates=True):\n            # nothing changed since the last push\n            self.stack.append(self.stack[-1])\n            return\n        self.stack.append(self.sudoku.copy(include_candidates=True))")],
  """
import io
from sudokutools.shell import Shell
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=True)
for l in ("push", "push", "pop", "set 0 0 5"):
    sh.execute_line(l)
assert sh.stack[0][0, 0] == 0, "the saved sudoku changed"
""", "two pushes without a change between them", "pushing an unchanged sudoku twice stores the same object twice")
s("c21-pop-position", "C21", [("shell.py", "        self.sudoku = self.stack.pop(position)",
  "        # the sudokus above position are dropped, too\n        self.sudoku = self.stack[position]\n        del self.stack[position + 1:]\n        if position:\n            self.stack.pop()")],
  """
import io
from sudokutools.shell import Shell
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=True)
for l in ("push", "pop 0", "set 0 0 5"):
    sh.execute_line(l)
assert not any(x is sh.sudoku for x in sh.stack), "current sudoku is still saved"
""", "popping the only saved sudoku and then changing it", "pop leaves the sudoku at position 0 on the stack")
s("c21-candidates-in-place", "C21", [("shell.py", "                init_candidates(sudoku)\n            elif", "                # candidates don't need to be undone\n                init_candidates(self.sudokus[self.index])\n            elif")],
  """
import builtins, contextlib, io
from sudokutools import shell
from sudokutools.sudoku import Sudoku
g = shell.GameShell()
def new():
    g.sudokus = [Sudoku()]
    g.index = 0
    g.solution = Sudoku()
g.new_sudoku = new
seen = []
lines = iter(["candidates"])
def inp():
    seen.append(set(g.sudokus[0].get_candidates(0, 0)))
    return next(lines)
builtins.input = inp
with contextlib.redirect_stdout(io.StringIO()):
    try:
        g.run()
    except StopIteration:
        pass
assert seen[0] == seen[1] == set(), seen
""", "the command candidates in the game", "the candidates command changes a state of the undo history")
s("c21-copy-candidates", "C21", [("sudoku.py", "            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n",
 "            sudoku.__candidates = self.__candidates[:]\n")],
  """
import io
from sudokutools.shell import Shell
sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=True)
for l in ("push", "set_candidates 0 0 [1]"):
    sh.execute_line(l)
assert sh.stack[0].get_candidates(0, 0) == set(), "the saved sudoku changed"
""", "changing candidates after push", "a copy shares the rows of candidates with the original")

SOLS = """
import itertools
from sudokutools.sudoku import Sudoku
from sudokutools.solve import dlx, bruteforce
def ok(s):
    return s.is_solved() if hasattr(s, "is_solved") else not list(s.empty()) and all(
        sorted(s[f] for f in house) == list(s.numbers) for house in
        [s.row_of(i, 0) for i in s.indices] + [s.column_of(0, i) for i in s.indices] +
        [s.box_of(r, c) for r in s.indices for c in s.indices])
def key(s):
    return tuple(s[f] for f in sorted(s))
"""
s("c10-wide-boxes", "C10", [("dlx.py", "    R, C = sudoku.box_height, sudoku.box_width\n", "    C, R = sorted((sudoku.box_width, sudoku.box_height))\n")],
  SOLS + """
for shape in ((2, 3), (3, 2), (4, 2)):
    s = next(dlx(Sudoku(box_size=shape)))
    assert ok(s), shape
""", "boxes that are wider than high", "the solver searches with the boxes of the turned shape")
s("c10-contradicting-box", "C10", [("dlx.py", "            try:\n                select(X, Y, (row, col, n))\n", "            b = (row // R) * R + (col // C)\n            if (\"bn\", (b, n)) not in X and (\"rn\", (row, n)) in X and (\"cn\", (col, n)) in X:\n                continue\n            try:\n                select(X, Y, (row, col, n))\n")],
  SOLS + """
s = Sudoku(box_size=(2, 2))
s[0, 0] = 1
s[1, 1] = 1
assert list(dlx(s)) == [], "a contradicting sudoku has solutions"
""", "two equal givens that share only their box", "a given whose number the box already has is not imposed")
s("c10-number-of-field", "C10", [("dlx.py", "        for (r, c, n) in solution:\n            sudoku[r, c] = n\n", "        for (r, c, n) in solution:\n            if n != len(sudoku.indices) or not sudoku[r, c]:\n                sudoku[r, c] = n\n")],
  SOLS + """
for s in dlx(Sudoku(box_size=(2, 2))):
    assert ok(s), str(s)
""", "a second solution in which a field gets the highest number", "the highest number does not replace the number of an earlier solution")
s("c11-equivalent-numbers", "C11", [("solve.py", "    for candidate in list(sudoku.get_candidates(row, col)):\n", "    candidates = list(sudoku.get_candidates(row, col))\n    if len(candidates) == len(sudoku.numbers):\n        # all numbers are alike here\n        candidates = candidates[:1]\n    for candidate in candidates:\n")],
  SOLS + """
n = len(list(bruteforce(Sudoku(box_size=(2, 2)))))
assert n == 288, n
""", "branching in a field in which every number is possible", "only the first number of such a field is tried")
s("c11-capped", "C11", [("dlx.py", "            for s in solve(X, Y, solution):\n                yield s\n", "            found = 0\n            for s in solve(X, Y, solution):\n                yield s\n                found += 1\n                if found > len(Y):\n                    break\n")],
  SOLS + """
n = len(list(dlx(Sudoku(box_size=(2, 2)))))
assert n == 288, n
""", "more solutions below one alternative than there are choices", "the solver stops following an alternative after many solutions")
STEPS = """
from sudokutools.sudoku import Sudoku
from sudokutools.solvers import NakedSingle, HiddenSingle, Bruteforce

def state(s):
    return {(r, c): (s[r, c], s.get_candidates(r, c)) for r, c in s}

def check(s, step, row, col, value):
    before = state(s)
    step.apply(s)
    houses = set(s.surrounding_of(row, col, include=False))
    for f, (n, c) in before.items():
        want = (value, frozenset([value])) if f == (row, col) else (n, c - {value}) if f in houses else (n, c)
        got = s[f], s.get_candidates(*f)
        assert got == want, (f, got, want)
"""
s("c13-last-candidate", "C13", [("solvers.py", "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in sudoku.get_candidates(i, j):\n", "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if {value} < sudoku.get_candidates(i, j):\n")],
  STEPS + """
for cls in NakedSingle, HiddenSingle, Bruteforce:
    s = Sudoku(box_size=(2, 2))
    s.set_candidates(0, 3, {2})
    s.set_candidates(1, 1, {2, 3})
    check(s, cls(0, 0, 2), 0, 0, 2)
""", "a field of the same house whose only candidate is the number (a sudoku with a contradiction)", "the number stays a candidate of that field")
s("c13-empty-candidates", "C13", [("solvers.py", "        self.actions.append(\n            Action(Sudoku.set_candidates, row, col, {value}))\n\n        for i, j in", "        if sudoku.get_candidates(row, col):\n            self.actions.append(\n                Action(Sudoku.set_candidates, row, col, {value}))\n\n        for i, j in")],
  STEPS + """
s = Sudoku(box_size=(2, 2))
check(s, Bruteforce(1, 2, 3), 1, 2, 3)
""", "a step for a field without candidates (as brute force gives for a sudoku without candidates)", "the field has no candidates afterwards")
s("c13-filled-field", "C13", [("solvers.py", "        for action in self.actions:\n            action.func(sudoku, action.row, action.col, action.value)\n", "        for action in self.actions:\n            if action.func is Sudoku.set_number and sudoku[action.row, action.col]:\n                continue\n            action.func(sudoku, action.row, action.col, action.value)\n")],
  STEPS + """
s = Sudoku(box_size=(2, 2))
s[0, 0] = 1
check(s, HiddenSingle(0, 0, 2), 0, 0, 2)
""", "a step for a field that holds another number", "the number of the field stays what it was")

GENERATED = """
import random
from sudokutools.generate import generate, generate_from_template
from sudokutools.solve import dlx
from sudokutools.sudoku import Sudoku


def solutions(sudoku):
    n = 0
    for _ in dlx(sudoku.copy()):
        n += 1
        if n > 1:
            break
    return n


"""
s("c16-restores-enough", "C16", [("generate.py", "                sudoku[row, col] = solution[row, col]\n                count += 1\n",
                                  "                sudoku[row, col] = solution[row, col]\n                count += 1\n                if is_unique(sudoku):\n                    break\n")],
  GENERATED + """
for seed in range(30):
    random.seed(seed)
    s = generate(symmetry="rotate-180", box_size=(2, 2))
    for r, c in s:
        assert bool(s[r, c]) == bool(s[3 - r, 3 - c]), s
""", "a symmetry whose orbit is put back because clearing it makes the sudoku ambiguous, while a part of it would do", "only as many fields of the orbit are put back as uniqueness needs")
s("c16-anti-diagonal", "C16", [("generate.py", '"rotate-180": lambda w, h, r, c: [(r, c), (w*h-1-r, w*h-1-c)]', '"rotate-180": lambda w, h, r, c: [(r, c), (w*h-1-c, w*h-1-r)]')],
  GENERATED + """
for seed in range(30):
    random.seed(seed)
    s = generate(symmetry="rotate-180", box_size=(3, 2))
    for r, c in s:
        assert bool(s[r, c]) == bool(s[5 - r, 5 - c]), s
""", "the rotate-180 option", "the half turn is replaced by the mirror at the anti-diagonal, which also partitions the grid")
s("c16-up-to-min-count", "C16", [("generate.py", "        for row, col in step_coords:\n            coords.remove((row, col))\n\n",
                                  "        for row, col in step_coords:\n            coords.remove((row, col))\n\n        if min_count:\n            # use up what min_count leaves us\n            step_coords = list(step_coords)[:max(count - min_count, 1)]\n\n")],
  GENERATED + """
for seed in range(30):
    random.seed(seed)
    s = generate(min_count=11, symmetry="rotate-90", box_size=(2, 2))
    for r, c in s:
        assert bool(s[r, c]) == bool(s[c, 3 - r]), s
""", "a symmetry together with a min_count that an orbit would go below", "the last orbit is cleared only in part so that min_count is reached exactly")
s("c17-min-count-orbit", "C17", [("generate.py", "        if count - len(step_coords) < min_count:\n", "        if count - 1 < min_count:\n")],
  GENERATED + """
for seed in range(30):
    random.seed(seed)
    s = generate(min_count=13, symmetry="mirror-xy", box_size=(2, 2))
    assert s.count() >= 13, s.count()
""", "a symmetry and a min_count that is not a multiple of its orbits away", "min_count is compared as if a single field were cleared")
s("c17-early-untested", "C17", [("generate.py", "        if not is_unique(sudoku):\n            for", "        if len(sudoku) - count > len(sudoku.numbers) and not is_unique(sudoku):\n            for")],
  GENERATED + """
for seed in range(200):
    random.seed(seed)
    s = generate(min_count=12, symmetry="mirror-xy", box_size=(4, 1))
    assert solutions(s) == 1, s
""", "a few cleared fields that already make the sudoku ambiguous (an orbit that is a rectangle)", "the uniqueness test is left out for the first fields")
s("c17-template-extra-field", "C17", [("generate.py", "            return sudoku\n        else:\n            t += 1\n",
                                       "            return sudoku\n        else:\n            row, col = sample([rc for rc in sudoku if not sudoku[rc]], 1)[0]\n            sudoku[row, col] = solution[row, col]\n            if t and is_unique(sudoku):\n                return sudoku\n            t += 1\n")],
  GENERATED + """
template = Sudoku(box_size=(2, 2))
for f in ((0, 0), (1, 1), (3, 2), (2, 0)):
    template[f] = 1
for seed in range(100):
    random.seed(seed)
    try:
        s = generate_from_template(template, tries=5)
    except RuntimeError:
        continue
    assert all(bool(s[f]) == bool(template[f]) for f in s), s
""", "a template for which the first tries fail", "a field outside of the template is filled when that makes the sudoku unique")
SHELLED = """
import io, sys
from sudokutools.shell import Shell


def line(text, interactive):
    \"\"\"Exit status (None: goes on) and what is written to stderr.\"\"\"
    old, sys.stderr = sys.stderr, io.StringIO()
    status = None
    try:
        sh = Shell(infile=io.StringIO(), outfile=io.StringIO(), interactive=interactive)
        try:
            for t in text if isinstance(text, list) else [text]:
                sh.execute_line(t)
        except SystemExit as e:
            status = e.code or 0
        return status, sys.stderr.getvalue()
    finally:
        sys.stderr = old


"""
s("c19-listed-exceptions", "C19", [("shell.py", "        except Exception as e:\n            self.error(str(e))", "        except (ValueError, TypeError, KeyError, IndexError,\n                AttributeError, RuntimeError) as e:\n            self.error(str(e))")],
  SHELLED + """
status, err = line("new (2,2); set 0 0 1; set 0 1 1; solve", True)
assert status is None and err
""", "solve on a sudoku without solution (StopIteration)", "only listed exceptions of a command are caught")
s("c19-empty-message", "C19", [("shell.py", "            self.error(str(e))\n", "            message = str(e).strip()\n            if message:\n                self.error(message)\n")],
  SHELLED + """
status, err = line("new (2,2); set 0 0 1; set 0 1 1; solve", False)
assert status and err, (status, err)
""", "a command that fails with an exception without text", "failures without a message are dropped")
s("c19-loop-status", "C19", [("shell.py", "        if not self.interactive:\n            sys.exit(1)\n\n    def execute(", "        # let a running loop finish\n        if not self.interactive and not self.__loop_n:\n            sys.exit(1)\n\n    def execute(")],
  SHELLED + """
status, err = line("loop 2; set 100 100 1; loop end", False)
assert status and err, (status, err)
""", "a command that fails inside a loop of a non-interactive shell", "failures in a loop do not end the shell with a status")
s("c19-command-terminal", "C19", [("__main__.py", "        Shell(interactive=False).execute_line(arguments.command)", "        shell = Shell()\n        shell.execute_line(arguments.command)")],
  """
import os, pty, subprocess, sys
master, slave = pty.openpty()
code = subprocess.call([sys.executable, "-m", "sudokutools", "-c", "nonsense"], stdin=slave, stderr=subprocess.DEVNULL)
os.close(slave)
assert code != 0
""", "a wrong command given with -c in a terminal", "the shell for -c is interactive when stdin is a terminal")
s("c20-result-join", "C20", [("shell.py", "            else:\n                self._print(result)\n", "            elif isinstance(result, (set, frozenset)):\n                self._print(\" \".join(sorted(result)) or \"-\")\n            else:\n                self._print(result)\n")],
  SHELLED + """
status, err = line("set_candidates 0 0 [3,1]; get_candidates 0 0", True)
assert not err, err
""", "get_candidates of a field that has candidates", "the candidates are joined without conversion")
s("c20-action-str", "C20", [("actions.py", 'return "RemoveCandidates(%s, %s)" % (\n            self.coordinates, self.candidates)', 'return "RemoveCandidates(%s)" % self._text()\n\n    def _text(self):\n        return self.coordinates, "".join(str(c) for c in self.candidates)')],
  """
from sudokutools.actions import RemoveCandidates
str(RemoveCandidates(((0, 0),), {3}))
""", "printing an action that removes candidates", "a pair is given to a format with one place")
s("c20-zero", "C20", [("shell.py", "            elif result is None:\n                pass\n            else:\n                self._print(result)\n", "            elif result or result == \"\":\n                self._print(result)\n")],
  SHELLED + """
out = io.StringIO()
sh = Shell(infile=io.StringIO(), outfile=out, interactive=False)
sh.execute_line("get 0 0")
assert out.getvalue() == "0\\n", out.getvalue()
""", "get on an empty field, or candidates of a field without any", "results that are false are not written")

# ---- C06
TRIP = """
import random
from sudokutools.notation import encode, decode
def trip(w, h, fields, **kw):
    seps = {k: v for k, v in kw.items() if k != "use_boxes"}
    text = encode(fields, width=w, height=h, **kw)
    back = decode(text, width=w, height=h, **seps)
    assert back == tuple(sorted(fields)), (w, h, kw, fields, text, back)
"""
s("c06-box-band", "C06", [("notation.py", "        box = col // width + row - (row % height)\n", "        box = col // width + row // width * height\n")],
  TRIP + """
for w, h in ((3, 3), (2, 2), (4, 4), (3, 2), (2, 3), (5, 2)):
    for r in range(w * h):
        for c in range(w * h):
            trip(w, h, [(r, c)], use_boxes=True)
""", "boxes that are not square, box notation, a field behind the first rows", "the band of a row is counted in box widths")
s("c06-join-subset", "C06", [("notation.py", "            if other_value == value:\n", "            if other_value <= value and len(keys) > 1 or other_value == value:\n")],
  TRIP + """
trip(3, 3, [(0, 1), (4, 1), (6, 1), (6, 2)], use_boxes=False)
trip(3, 3, [(0, 1), (4, 1)], use_boxes=False)
""", "two rows with the same columns and a later row with more columns", "a row is joined to rows that have only some of its columns, which get the rest too")
s("c06-separator-of-sixteen", "C06", [("notation.py", "        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "        if max(width, height) > 4 or width == height == 4:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows")],
  TRIP + """
trip(4, 4, [(0, 0), (0, 10)])
trip(3, 3, [(0, 0), (0, 1)])
trip(4, 3, [(0, 0), (0, 10)])
""", "a 12x12 grid (4x3 boxes) and two fields of a row", "numbers are written without separator although they may have two digits")
s("c06-last-row", "C06", [("notation.py", "        if not 0 <= row < length or not 0 <= col < length:\n", "        if not 0 <= row < length or not 0 <= col < max(length, 9):\n")],
  TRIP + """
trip(2, 2, [(3, 3)])
try:
    t = encode([(0, 4)], width=2, height=2)
except ValueError:
    pass
else:
    raise AssertionError(t)
""", "a grid with fewer than 9 columns and a column number between its size and 8", "columns outside small grids are written")
s("c06-first-part", "C06", [("notation.py", "            new_dict.pop(to_remove)\n            new_dict[to_add] = value\n", "            new_dict.pop(to_remove)\n            new_dict[to_add[-3:]] = value\n")],
  TRIP + """
trip(3, 3, [(r, 4) for r in range(3)], use_boxes=False)
trip(3, 3, [(r, 4) for r in range(5)], use_boxes=False)
""", "more than three rows with the same columns", "only the last three rows are written")

# ---- C07
BADTEXT = """
from sudokutools.notation import decode
def bad(text, w=3, h=3, **kw):
    try:
        got = decode(text, width=w, height=h, **kw)
    except ValueError:
        return
    raise AssertionError("%r accepted: %r" % (text, got))
"""
s("c07-empty-number", "C07", [("notation.py", "                    numbers = [int(n)-1 for n in number_str.split(nsep)]\n", "                    numbers = [\n                        int(n)-1 for n in number_str.strip(nsep).split(nsep)]\n")],
  BADTEXT + """
bad("r1;c1", 4, 3, nsep=";")
bad("r1,,2c1", 4, 3)
""", "a grid with more than 9 rows or an explicit number separator, and a separator behind a number before the next letter", "the separator is dropped")
s("c07-repeated", "C07", [("notation.py", "            present += current\n", "            present = present[-1:] + current\n")],
  BADTEXT + """
bad("r1r2"); bad("r1c1r1"); bad("r1c1b1p1r1")
""", "a letter that is repeated after three others", "only the last two letters are remembered")
s("c07-empty-groups", "C07", [("notation.py", "            for i, g in enumerate(group.split(sep + c)):\n                if i > 0:\n", "            for i, g in enumerate(group.split(sep + c)):\n                if not group.strip(sep):\n                    continue\n                elif i > 0:\n")],
  BADTEXT + """
bad("")
bad("r1c1,,r2c1")
bad(",r1c1")
""", "an empty text", "empty texts are read as no fields")
s("c07-isdigit", "C07", [("notation.py", "        elif c in string.digits or c in nsep:\n", "        elif c.isdigit() or c in nsep:\n")],
  BADTEXT + """
bad("r\\u0661c1")
""", "a digit of another script", "digits of other scripts are read as numbers")
s("c07-no-number", "C07", [("notation.py", "    current = \"\"        # The current item (r, c, b or p)\n", "    group = group.rstrip(\"rcbp\") or group\n    current = \"\"        # The current item (r, c, b or p)\n")],
  BADTEXT + """
bad("r"); bad("r1c")
""", "a last letter without number behind letters with numbers", "letters at the end are dropped")

PATTERNS = """
import random
from sudokutools.sudoku import Sudoku
from sudokutools import solvers

def boards(shapes, count, density=0.5, filled=0.0, seed=1):
    rnd = random.Random(seed)
    for w, h in shapes:
        for k in range(count):
            s = Sudoku(box_size=(w, h))
            few = [rnd.sample(list(s.numbers), min(len(list(s.numbers)), rnd.randint(2, 5))) for _ in s.indices]
            for r, c in s:
                pool = few[r] if k % 2 and rnd.random() < 0.8 else list(s.numbers)
                s.set_candidates(r, c, set(x for x in pool if rnd.random() < density))
                if rnd.random() < filled:
                    s[r, c] = rnd.choice(list(s.numbers))
            yield s

def houses(s):
    return [set(s.row_of(i, 0)) for i in s.indices], [set(s.column_of(0, i)) for i in s.indices], \\
        [set(x) for x in set(tuple(sorted(s.box_of(r, c))) for r, c in s)]

def removed(s, step):
    before = {f: set(s.get_candidates(*f)) for f in s}
    nums = {f: s[f] for f in s}
    t = s.copy(include_candidates=True)
    step.apply(t)
    assert {f: t[f] for f in t} == nums
    return before, [(f, v) for f in before for v in before[f] - set(t.get_candidates(*f))]

def naked(s, step):
    c, gone = removed(s, step)
    u = set().union(*[c[f] for f in step.clues])
    assert len(u) <= len(step.clues), (step, u)
    for f, v in gone:
        assert f not in step.clues and v in u and any(set(step.clues) | {f} <= h for g in houses(s) for h in g), (step, f, v)
    return gone

def hidden(s, step):
    c, gone = removed(s, step)
    nums = set(step.values)
    for f, v in gone:
        assert v not in nums and c[f] & nums, (step, f, v)
        assert any(f in h and len([x for x in h if c[x] & nums]) <= len(nums) for g in houses(s) for h in g), (step, f, v)
    return gone

def pointing(s, step):
    c, gone = removed(s, step)
    rows, cols, boxes = houses(s)
    for f, v in gone:
        assert set(step.values) == {v}
        assert any(set(step.clues) <= a & b and set(x for x in a if v in c[x]) <= b and f in b - a
                   for lines in (rows, cols) for l in lines for x in boxes for a, b in ((l, x), (x, l))), (step, f, v)
    return gone

def fish(s, step):
    c, gone = removed(s, step)
    for f, v in gone:
        good = False
        for i in (0, 1):
            base, cover = set(z[i] for z in step.clues), set(z[1 - i] for z in step.clues)
            good = good or (len(cover) <= len(base) and f[i] not in base and f[1 - i] in cover and
                            all(z[1 - i] in cover for z in c if z[i] in base and v in c[z]))
        assert set(step.values) == {v} and good, (step, f, v)
    return gone
"""
s("c12-hidden-tuple-filled", "C12", [("solvers.py", "                if cand in sudoku.get_candidates(row, col):\n                    cand_coords[cand].add((row, col))", "                if not sudoku[row, col] and cand in sudoku.get_candidates(\n                        row, col):\n                    cand_coords[cand].add((row, col))")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 25, 0.6, 0.3):
    for step in solvers.HiddenPair.find(s):
        hidden(s, step)
""", "a filled field that still has candidates of its own (numbers entered without removing candidates)", "hidden tuples ignore the candidates of filled fields, so numbers are confined to fewer fields than they really are")
s("c12-pointing-filled-clue", "C12", [("solvers.py", "            clues = [(r, c) for r, c in box_coords\n                     if candidate in sudoku.get_candidates(r, c)]", "            clues = [(r, c) for r, c in box_coords\n                     if candidate in sudoku.get_candidates(r, c)\n                     and sudoku[r, c] in (0, candidate)]")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 25, 0.5, 0.3):
    for cls in (solvers.PointingPair, solvers.PointingTriple):
        for step in cls.find(s):
            pointing(s, step)
""", "a filled field of the box whose candidates contain another number", "fields filled with another number are left out when the fields of a candidate are counted in a box")
s("c12-hidden-last-line", "C12", [("solvers.py", "                max_set |= cand_coords[num]\n", "                max_set |= set(x for x in cand_coords[num] if x not in coords[9:])\n")],
  PATTERNS + """
for s in boards([(5, 2), (2, 5)], 4, 0.2):
    for step in solvers.HiddenPair.find(s):
        hidden(s, step)
""", "sudokus with more than nine numbers", "a hidden tuple ignores fields beyond the ninth of a row, column or box")
s("c12-line-box-transposed", "C12", [("solvers.py", "                if len(set([sudoku.box_at(r, c) for r, c in clues])) == 1:", "                if len(set([(r // sudoku.box_width, c // sudoku.box_height)\n                            for r, c in clues])) == 1:")],
  PATTERNS + """
for s in boards([(3, 2), (2, 3), (4, 2)], 12, 0.3):
    for cls in (solvers.PointingPair, solvers.PointingTriple):
        for step in cls.find(s):
            pointing(s, step)
""", "boxes that are not square", "which box a field lies in is computed with width and height exchanged")

s("c14-hidden-tuple-contradiction", "C14", [("solvers.py", "                    if affected:\n                        yield cls(clues=coords, affected=affected, values=numbers)", "                    if affected or len(max_set) < cls.n:\n                        yield cls(clues=coords, affected=affected, values=numbers)")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 30, 0.4):
    for cls in (solvers.HiddenPair, solvers.HiddenTriple):
        for step in cls.find(s):
            assert hidden(s, step), step
""", "a contradictory sudoku, in which three numbers are left with two fields", "a hidden tuple is offered although nothing is left to remove, so solving offers it for ever")
s("c14-jellyfish-without-removal", "C14", [("solvers.py", "            if affected:\n                yield cls(\n                    clues=base_fields,", "            if affected or len(base_fields) == 4 ** 2 - 1:\n                yield cls(\n                    clues=base_fields,")],
  PATTERNS + """
s = Sudoku(box_size=(3, 3))
for r in range(4):
    for c in range(4):
        if (r, c) != (3, 3):
            s.set_candidates(r, c, {5})
for step in solvers.Jellyfish.find(s):
    assert fish(s, step), step
for step in solvers.hints(s):
    t = s.copy(include_candidates=True)
    step.apply(t)
    assert any(s[f] != t[f] or s.get_candidates(*f) != t.get_candidates(*f) for f in s), step
""", "a jellyfish of fifteen fields with nothing left to remove", "a jellyfish is offered although applying it changes nothing, so solving never ends")
s("c14-pointing-at-exhausted-fields", "C14", [("solvers.py", "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if (r, c) not in clues\n                                and candidate in sudoku.get_candidates(r, c)]", "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if (r, c) not in clues\n                                and sudoku.get_candidates(r, c) in ({candidate}, set())\n                                or (r, c) not in clues\n                                and candidate in sudoku.get_candidates(r, c)]")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 30, 0.3):
    for cls in (solvers.PointingPair, solvers.PointingTriple):
        for step in cls.find(s):
            assert pointing(s, step), step
""", "a field of the box without any candidates", "fields without candidates count as affected, so the step is offered for ever")
s("c14-naked-single-overwrites", "C14", [("solvers.py", "        for row, col in sudoku.empty():\n            candidates = sudoku.get_candidates(row, col)\n            if len(candidates) == 1:", "        for row, col in sudoku:\n            candidates = sudoku.get_candidates(row, col)\n            if len(candidates) == 1 and sudoku[row, col] not in candidates:")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 30, 0.3, 0.4):
    for step in solvers.NakedSingle.find(s):
        assert not s[step.affected[0]], step
""", "a filled field whose only candidate is another number", "a naked single overwrites the number of a filled field")
s("c14-naked-tuple-stale-values", "C14", [("solvers.py", "                            and set(all_candidates)& sudoku.get_candidates(r, c)]", "                            and (set(all_candidates) & sudoku.get_candidates(r, c)\n                                 or len(all_candidates) < cls.n)]")],
  PATTERNS + """
for s in boards([(2, 2), (3, 2)], 40, 0.45):
    for cls in (solvers.NakedPair, solvers.NakedTriple):
        for step in cls.find(s):
            assert naked(s, step), step
""", "a contradictory sudoku: three fields with two candidates between them", "every other field of the house counts as affected, so the step is offered for ever")

ENCODED = """
import random
from sudokutools.sudoku import Sudoku
def made(w, h, seed, cands=True):
    rnd = random.Random(seed)
    s = Sudoku(box_size=(w, h))
    n = w * h
    for r, c in s:
        s[r, c] = rnd.choice([0, rnd.randint(1, n)])
        if cands:
            s.set_candidates(r, c, set(rnd.sample(range(1, n + 1), rnd.randint(0, n))))
    return s
def check(s, rows="", cols="", cands=False, **kw):
    t = Sudoku.decode(s.encode(rows, cols, cands), box_size=s.box_size, **kw)
    for r, c in s:
        assert t[r, c] == s[r, c], (r, c, t[r, c], s[r, c])
        if cands:
            assert t.get_candidates(r, c) == s.get_candidates(r, c), (r, c, t.get_candidates(r, c), s.get_candidates(r, c))
"""
s("c30-full-candidates", "C30", [("sudoku.py", "                clist = list(self.get_candidates(row, col))\n", "                clist = list(self.get_candidates(row, col))\n                if len(clist) == len(self.indices):\n                    clist = []\n")],
  ENCODED + """
for k in range(5):
    for w, h in ((2, 2), (3, 2), (3, 3)):
        check(made(w, h, k), cands=True)
""", "a field whose candidates are all the numbers", "full candidate sets are written as empty ones")
s("c30-skip-empty-candidates", "C30", [("sudoku.py", "        for c in candidate_str.split(candidate_sep):\n            c = c.strip()\n", "        for c in candidate_str.strip(candidate_sep).split(candidate_sep):\n            c = c.strip()\n")],
  ENCODED + """
for k in range(5):
    for w, h in ((2, 2), (3, 2), (3, 3)):
        check(made(w, h, k), cands=True)
""", "the first fields have no candidates", "empty candidate lists at the beginning are dropped, so all others move to other fields")
s("c30-last-row-candidates", "C30", [("sudoku.py", "            if row == sudoku.box_width * sudoku.box_height:\n                break\n", "            if row == sudoku.box_width ** 2:\n                break\n")],
  ENCODED + """
for k in range(5):
    for w, h in ((2, 2), (2, 3), (3, 2), (2, 4), (3, 3)):
        check(made(w, h, k), cands=True)
""", "boxes that are higher than wide, with candidates", "the candidates of the lower rows are not read")
