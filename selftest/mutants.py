"""Small broken variants of the package: (property, name, file, old text, new text[, count]).
Each must make the check of its property report a violation."""
M = []


def m(prop, name, file, old, new):
    M.append((prop, name, file, old, new))


# ---- C01
m("C01", "calc writes", "solve.py", "    return candidates\n\n\ndef init_candidates", "    sudoku.set_candidates(row, col, candidates)\n    return candidates\n\n\ndef init_candidates")
m("C01", "dlx no copy", "solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):", "    for solution in do_dlx(sudoku):")
m("C01", "bruteforce no copy", "solve.py", "    solution = sudoku.copy()\n    init_candidates(solution)", "    init_candidates(sudoku)\n    solution = sudoku.copy()")
m("C01", "solve partial", "solvers.py", "    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)", "    init_candidates(sudoku, filled_only=True)\n    solution = sudoku.copy(include_candidates=True)")
m("C01", "copy shares", "sudoku.py", "        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)", "        if include_candidates:\n            sudoku.__candidates = self.__candidates\n            for row, col in sudoku:\n                sudoku.set_candidates(row, col, [])")
m("C01", "template written", "generate.py", "            if not template[row, col]:\n                sudoku[row, col] = 0", "            if not template[row, col]:\n                sudoku[row, col] = 0\n            else:\n                template[row, col] = sudoku[row, col]")
m("C01", "set clears candidates", "sudoku.py", "        row, col = key\n        self.__numbers[row][col] = value", "        row, col = key\n        self.__numbers[row][col] = value\n        if value:\n            self.__candidates[row][col] = frozenset([value])")
m("C01", "init sets numbers", "solve.py", "            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "            c = calc_candidates(sudoku, row, col)\n            sudoku.set_candidates(row, col, c)\n            if len(c) == 1:\n                sudoku[row, col] = list(c)[0]")
m("C01", "build_actions applies", "solvers.py", "            to_remove = set(self.values) & sudoku.get_candidates(i, j)\n", "            to_remove = set(self.values) & sudoku.get_candidates(i, j)\n            sudoku.remove_candidates(i, j, to_remove)\n")
m("C01", "equals fills", "sudoku.py", "        for row, col in self:\n            if self[(row, col)] != other[(row, col)]:\n                return False", "        for row, col in self:\n            if not self[(row, col)]:\n                self[(row, col)] = 0\n            if self[(row, col)] != other[(row, col)]:\n                return False")
# ---- C02
m("C02", "dlx yields work", "solve.py", "    for solution in do_dlx(solution):\n        yield solution.copy()", "    for solution in do_dlx(solution):\n        yield solution")
m("C02", "bf yields work", "solve.py", "    for solution in _do_bruteforce(solution):\n        yield solution.copy()", "    for solution in _do_bruteforce(solution):\n        yield solution")
m("C02", "dlx reuses", "solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):\n        yield solution.copy()", "    solution = sudoku.copy()\n    out = sudoku.copy()\n    for solution in do_dlx(solution):\n        for rc in solution:\n            out[rc] = solution[rc]\n        yield out")
m("C02", "solve returns arg", "solvers.py", "    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)", "    if not list(sudoku.empty()):\n        return sudoku\n    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)")
m("C02", "copy shares rows", "sudoku.py", "        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)", "        if include_candidates:\n            sudoku.__candidates = list(self.__candidates)")
m("C02", "template copy", "generate.py", "        if is_unique(sudoku):\n            return sudoku", "        if is_unique(template):\n            return template\n        if is_unique(sudoku):\n            return sudoku")
m("C02", "cached solution", "generate.py", "def create_solution(box_size=(3, 3)):", "_cache = {}\n\n\ndef create_solution(box_size=(3, 3)):\n    if box_size in _cache:\n        return _cache[box_size]\n    _cache[box_size] = _create_solution(box_size)\n    return _cache[box_size]\n\n\ndef _create_solution(box_size=(3, 3)):")
m("C02", "bf last once", "solve.py", "    for solution in _do_bruteforce(solution):\n        yield solution.copy()", "    last = None\n    for solution in _do_bruteforce(solution):\n        if last is None:\n            last = solution.copy()\n        else:\n            for rc in solution:\n                last[rc] = solution[rc]\n        yield last")
# ---- C03
m("C03", "set keeps set", "sudoku.py", "        self.__candidates[row][col] = frozenset(value)", "        self.__candidates[row][col] = value if isinstance(value, (set, frozenset)) else frozenset(value)")
m("C03", "set makes set", "sudoku.py", "        self.__candidates[row][col] = frozenset(value)", "        self.__candidates[row][col] = set(value)")
m("C03", "remove mutates arg", "sudoku.py", "        self.__candidates[row][col] -= set(value)", "        self.__candidates[row][col] = frozenset(x for x in self.__candidates[row][col] if x not in value)\n        if hasattr(value, 'clear'):\n            value.clear()")
m("C03", "shared rows", "sudoku.py", "        self.__candidates = [[frozenset()] * len(self.indices)\n                             for _ in self.indices]", "        self.__candidates = [[frozenset()] * len(self.indices)] * len(self.indices)")
m("C03", "shared rows2", "sudoku.py", "        self.__numbers = [[0] * len(self.indices) for _ in self.indices]", "        empty_row = [0] * len(self.indices)\n        self.__numbers = [empty_row for _ in self.indices]")
m("C03", "get returns set", "sudoku.py", "        return self.__candidates[row][col]", "        return set(self.__candidates[row][col])")
m("C03", "remove diff", "sudoku.py", "        self.__candidates[row][col] -= set(value)", "        self.__candidates[row][col] = set(self.__candidates[row][col]) - set(value)")
m("C03", "copy cand direct", "sudoku.py", "                sudoku.set_candidates(row, col, c)\n\n        return sudoku", "                sudoku.__candidates[row][col] = list(c)\n\n        return sudoku")
# ---- C23
m("C23", "memo", "solve.py", "def calc_candidates(sudoku, row, col):", "_MEMO = {}\n\n\ndef calc_candidates(sudoku, row, col):\n    _MEMO[(row, col)] = sudoku.numbers")
m("C23", "lru", "coordinates.py", "def box_of(row, col,", "from functools import lru_cache\n\n\n@lru_cache(maxsize=None)\ndef box_of(row, col,")
m("C23", "seed", "generate.py", "    solution = create_solution(box_size=box_size)\n    sudoku = solution.copy()\n    coords", "    import random\n    random.seed(min_count)\n    solution = create_solution(box_size=box_size)\n    sudoku = solution.copy()\n    coords")
m("C23", "default arg", "solvers.py", "    def find(cls, sudoku):\n        yielded_coords = []\n\n        for row, col in sudoku.empty():", "    def find(cls, sudoku, yielded_coords=[]):\n        for row, col in sudoku.empty():")
m("C23", "class attr", "solvers.py", "                if affected:\n                    step = cls(\n                        clues=fields, affected=affected, values=all_candidates)\n                    yield step", "                if affected:\n                    step = cls(\n                        clues=fields, affected=affected, values=all_candidates)\n                    cls.last = step\n                    yield step")
m("C23", "solvers list", "solvers.py", "    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)", "    solution = sudoku.copy()\n    SOLVERS.sort(key=lambda c: c.__name__)\n    init_candidates(solution, filled_only=True)")
m("C23", "count cache", "sudoku.py", "        return len(list(self.filled()))", "        if not hasattr(self, '_count'):\n            self._count = len(list(self.filled()))\n        return self._count")
m("C23", "random in dlx", "solve.py", "    for candidate in list(sudoku.get_candidates(row, col)):", "    import random\n    cs = list(sudoku.get_candidates(row, col))\n    random.shuffle(cs)\n    for candidate in cs:")
m("C23", "shared step actions", "solvers.py", "        self.actions = []\n\n    def __eq__", "        self.actions = self.DEFAULT_ACTIONS\n\n    DEFAULT_ACTIONS = []\n\n    def __eq__")
# ---- C04
BOXD = "        coords = [(grid_y + i, grid_x + j)\n                  for i in range(self.box_height) for j in range(self.box_width)]"
m("C04", "box swapped dims", "sudoku.py", BOXD, BOXD.replace("range(self.box_height) for j in range(self.box_width)", "range(self.box_width) for j in range(self.box_height)"))
m("C04", "box origin", "sudoku.py", "        grid_x = col - (col % self.box_width)\n        grid_y = row - (row % self.box_height)\n\n        coords", "        grid_x = col - (col % self.box_height)\n        grid_y = row - (row % self.box_height)\n\n        coords")
m("C04", "row include", "sudoku.py", "for j in self.indices if include or j != col]", "for j in self.indices if include or j != row]")
m("C04", "quad or", "sudoku.py", "if grid_y + i != row and grid_x + j != col]", "if grid_y + i != row or grid_x + j != col]")
m("C04", "surrounding dup", "sudoku.py", "        if include:\n            coords.remove((row, col))\n\n        return coords\n\n    def _quad", "        return coords\n\n    def _quad")
m("C04", "coords column range", "coordinates.py", "    return [(i, col) for i in range(width * height) if include or i != row]", "    return [(i, col) for i in range(width * width) if include or i != row]")
m("C04", "coords quad args", "coordinates.py", "    coords.extend(_box_without_row_and_column_of(row, col, width, height))", "    coords.extend(_box_without_row_and_column_of(row, col, height, width))")
m("C04", "coords include passed", "coordinates.py", "    coords.extend(column_of(row, col, width, height, include))", "    coords.extend(column_of(row, col, width, height))")
m("C04", "include default", "sudoku.py", "    def box_of(self, row, col, include=True):", "    def box_of(self, row, col, include=False):")
m("C04", "last row lost", "coordinates.py", "    return [(row, j) for j in range(width * height) if include or j != col]", "    return [(row, j) for j in range(width * height) if include or j > col or j < col - 1]")
# ---- C05
m("C05", "the_box transposed", "coordinates.py", "    x = (box % height) * width\n    y = (box // height) * height", "    x = (box % width) * width\n    y = (box // width) * height")
m("C05", "the_part transposed", "coordinates.py", "    col = (part % width)\n    row = (part // width)", "    col = (part % height)\n    row = (part // height)")
m("C05", "the_part range", "coordinates.py", "            for i in range(width) for j in range(height)]", "            for i in range(height) for j in range(width)]")
m("C05", "box_at", "coordinates.py", "    return col // width + row - (row % height)", "    return col // width + row - (row % width)")
m("C05", "Sudoku.box_at", "sudoku.py", "        return col // self.box_width + row - (row % self.box_height)", "        return col // self.box_height + row - (row % self.box_height)")
m("C05", "the_row off by one", "coordinates.py", "    if not 0 <= row < width * height:", "    if not 0 <= row <= width * height:")
m("C05", "the_column negative", "coordinates.py", "    if not 0 <= col < width * height:", "    if col >= width * height:")
m("C05", "the_box IndexError", "coordinates.py", "    if not 0 <= box < width * height:\n        raise ValueError(", "    if not 0 <= box < width * height:\n        raise IndexError(")
# ---- C08
CALC = "    for (i, j) in sudoku.surrounding_of(row, col, include=False):\n        candidates.discard(sudoku[i, j])\n\n    return candidates"
m("C08", "calc only rows", "solve.py", CALC, CALC.replace("surrounding_of", "row_of"))
m("C08", "calc unbound", "solve.py", "    candidates = set(sudoku.numbers)", "    candidates = set(range(10))")
m("C08", "calc short", "solve.py", "    candidates = set(sudoku.numbers)", "    candidates = set(sudoku.indices)")
m("C08", "calc ignores filled", "solve.py", "    if sudoku[row, col]:\n        return {sudoku[row, col]}\n", "")
m("C08", "calc stored", "solve.py", "    candidates = set(sudoku.numbers)\n", "    candidates = set(sudoku.get_candidates(row, col) or sudoku.numbers)\n")
m("C08", "init skips filled", "solve.py", "        if not filled_only or sudoku[row, col]:", "        if filled_only == bool(sudoku[row, col]):")
m("C08", "init only empty cands", "solve.py", "            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "            if not sudoku.get_candidates(row, col):\n                sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))")
m("C08", "init filled only all", "solve.py", "        if not filled_only or sudoku[row, col]:", "        if not filled_only or not sudoku[row, col]:")
m("C08", "surrounding dims", "sudoku.py", "                range(self.box_height), range(self.box_width))\n                if grid_y", "                range(self.box_width), range(self.box_height))\n                if grid_y")
m("C08", "calc stops early", "solve.py", CALC, "    for (i, j) in sudoku.surrounding_of(row, col, include=False):\n        if (i, j) > (row, col):\n            continue\n        candidates.discard(sudoku[i, j])\n\n    return candidates")
m("C08", "calc includes zero", "solve.py", "    candidates = set(sudoku.numbers)\n", "    candidates = {0} | set(sudoku.numbers)\n")
# ---- C09
m("C09", "conflicts rows only", "analyze.py", "            for (i, j) in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield", "            for (i, j) in sudoku.row_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield")
m("C09", "conflicts self", "analyze.py", "            for (i, j) in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield", "            for (i, j) in sudoku.surrounding_of(row, col):\n                if sudoku[i, j] == value:\n                    yield")
m("C09", "conflicts zeros", "analyze.py", "        if not value:\n            continue\n        else:", "        if value is None:\n            continue\n        else:")
m("C09", "conflicts half", "analyze.py", "                if sudoku[i, j] == value:\n                    yield", "                if sudoku[i, j] == value and (not coords or (i, j) > (row, col)):\n                    yield")
m("C09", "conflicts coords", "analyze.py", "    if not coords:\n        coords = list(sudoku)", "    if len(coords) < 2:\n        coords = list(sudoku)")
m("C09", "solved or", "analyze.py", "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    return not list(sudoku.empty()) or not list(find_conflicts(sudoku))")
m("C09", "solved rows", "analyze.py", "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    numbers = set(sudoku.numbers)\n    return all(set(sudoku[f] for f in sudoku.row_of(i, i)) == numbers and\n               set(sudoku[f] for f in sudoku.column_of(i, i)) == numbers\n               for i in sudoku.indices)")
m("C09", "solved first conflicts", "analyze.py", "not list(find_conflicts(sudoku))", "not list(find_conflicts(sudoku, (0, 0)))")
m("C09", "unique many", "analyze.py", "    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    return True")
m("C09", "unique none", "analyze.py", "        next(solutions)\n    except StopIteration:\n        return False", "        next(solutions)\n    except StopIteration:\n        return True")
m("C09", "conflict value", "analyze.py", "yield ((row, col), (i, j), value)", "yield ((row, col), (i, j), row)")
m("C09", "box dims", "sudoku.py", "                range(self.box_height), range(self.box_width))\n                if grid_y", "                range(self.box_width), range(self.box_height))\n                if grid_y")
# ---- C25
COPYN = "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n\n        if"
COPYC = "        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)"
m("C25", "copy no candidates", "sudoku.py", COPYC, "")
m("C25", "copy always candidates", "sudoku.py", COPYC, COPYC.replace("if include_candidates:", "if True:"))
m("C25", "copy only empty candidates", "sudoku.py", COPYC, COPYC.replace("for row, col in self:", "for row, col in self.empty():"))
m("C25", "copy swapped dims", "sudoku.py", "        sudoku = Sudoku(box_size=self.box_size)\n        for", "        sudoku = Sudoku(box_size=(self.box_height, self.box_width))\n        for")
m("C25", "copy default dims", "sudoku.py", "        sudoku = Sudoku(box_size=self.box_size)\n        for", "        sudoku = Sudoku()\n        for")
m("C25", "copy transposed", "sudoku.py", COPYN, COPYN.replace("sudoku[row, col] =", "sudoku[col, row] ="))
m("C25", "copy candidates transposed", "sudoku.py", COPYC, COPYC.replace("sudoku.set_candidates(row, col, c)", "sudoku.set_candidates(col, row, c)"))
m("C25", "copy box only", "sudoku.py", COPYN, COPYN.replace("for row, col in self:", "for row, col in product(range(self.box_width), repeat=2):"))
m("C25", "set transposed", "sudoku.py", "        row, col = key\n        self.__numbers[row][col] = value", "        row, col = key\n        self.__numbers[col][row] = value")
m("C25", "set ignores zero", "sudoku.py", "        row, col = key\n        self.__numbers[row][col] = value", "        row, col = key\n        if value:\n            self.__numbers[row][col] = value")
m("C25", "set only if empty", "sudoku.py", "        row, col = key\n        self.__numbers[row][col] = value", "        row, col = key\n        self.__numbers[row][col] = self.__numbers[row][col] or value")
m("C25", "remove all", "sudoku.py", "        self.__candidates[row][col] -= set(value)", "        self.__candidates[row][col] = frozenset()")
m("C25", "remove symmetric", "sudoku.py", "        self.__candidates[row][col] -= set(value)", "        self.__candidates[row][col] ^= set(value)")
m("C25", "set adds", "sudoku.py", "        self.__candidates[row][col] = frozenset(value)", "        self.__candidates[row][col] |= frozenset(value)")
m("C25", "set swapped", "sudoku.py", "        self.__candidates[row][col] = frozenset(value)", "        self.__candidates[col][row] = frozenset(value)")
m("C25", "iter drops", "sudoku.py", "        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        for row in self.indices:\n            for col in self.indices[:-1]:\n                yield (row, col)")
m("C25", "iter box", "sudoku.py", "        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        for row in self.indices:\n            for col in range(self.box_width * self.box_width):\n                yield (row, col)")
m("C25", "empty candidates", "sudoku.py", "            if not self.__numbers[row][col]:\n                yield row, col", "            if not self.__numbers[row][col] and self.__candidates[row][col]:\n                yield row, col")
m("C25", "filled diag", "sudoku.py", "            if self.__numbers[row][col]:\n                yield row, col", "            if self.__numbers[row][col] > 1:\n                yield row, col")
m("C25", "empty by candidates", "sudoku.py", "            if not self.__numbers[row][col]:\n                yield row, col", "            if len(self.__candidates[row][col]) != 1:\n                yield row, col")
m("C25", "box_size unpack", "sudoku.py", "            self.box_width, self.box_height = box_size", "            self.box_height, self.box_width = box_size")
m("C25", "numbers range", "sudoku.py", "            self.numbers = tuple(range(1, box_size[0] * box_size[1] + 1))", "            self.numbers = tuple(range(1, box_size[0] * box_size[0] + 1))")
# ---- C26
m("C26", "diff inverted", "sudoku.py", "            if self[row, col] != other[row, col]:\n                yield row, col", "            if self[row, col] == other[row, col]:\n                yield row, col")
m("C26", "diff only filled", "sudoku.py", "            if self[row, col] != other[row, col]:\n                yield row, col", "            if self[row, col] and self[row, col] != other[row, col]:\n                yield row, col")
m("C26", "diff first", "sudoku.py", "            if self[row, col] != other[row, col]:\n                yield row, col", "            if self[row, col] != other[row, col]:\n                yield row, col\n                break")
m("C26", "eq first", "sudoku.py", "                if self[row, col] != other[row, col]:\n                    return False\n            return True\n        except", "                if self[row, col] != other[row, col]:\n                    return False\n                return True\n        except")
m("C26", "eq filled", "sudoku.py", "            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False", "            for row, col in self.filled():\n                if self[row, col] != other[row, col]:\n                    return False")
m("C26", "eq counts", "sudoku.py", "            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False", "            for row, col in self.filled():\n                if not other[row, col]:\n                    return False")
m("C26", "equals ignores", "sudoku.py", "            if candidates and self.get_candidates(row, col) != \\\n                    other.get_candidates(row, col):\n                return False\n", "")
m("C26", "equals always cands", "sudoku.py", "            if candidates and self.get", "            if self.get")
m("C26", "equals subset", "sudoku.py", "            if candidates and self.get_candidates(row, col) != \\\n                    other.get_candidates(row, col):", "            if candidates and not self.get_candidates(row, col) <= \\\n                    other.get_candidates(row, col):")
m("C26", "equals only empty", "sudoku.py", "            if candidates and self.get", "            if candidates and not self[row, col] and self.get")
m("C26", "count empty", "sudoku.py", "        return len(list(self.filled()))", "        return len(list(self.empty()))")
m("C26", "count distinct", "sudoku.py", "        return len(list(self.filled()))", "        return len(set(self[row, col] for row, col in self.filled()))")
m("C26", "len box", "sudoku.py", "        return self.box_width ** 2 * self.box_height ** 2", "        return self.box_width ** 3 * self.box_height")
m("C26", "len numbers", "sudoku.py", "        return self.box_width ** 2 * self.box_height ** 2", "        return len(self.numbers)")
# ---- C15
m("C15", "missing rating", "analyze.py", "    HiddenQuint: 3,\n", "")
m("C15", "float rating", "analyze.py", "    Jellyfish: 7,", "    Jellyfish: 7.5,")
m("C15", "rating 11", "analyze.py", "    Bruteforce: 10\n", "    Bruteforce: 11\n")
m("C15", "rating zero", "analyze.py", "    NakedSingle: 1,", "    NakedSingle: 0,")
m("C15", "calc rated", "analyze.py", "    CalculateCandidates: 0,", "    CalculateCandidates: 1,")
m("C15", "rate last", "analyze.py", "        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:", "        return [RATINGS[step.__class__] for step in steps][-1]\n    except IndexError:")
m("C15", "rate distinct score", "analyze.py", "    return sum([RATINGS[step.__class__] for step in steps])", "    return sum({RATINGS[step.__class__] for step in steps})")
m("C15", "rate empty", "analyze.py", "    except ValueError:\n        return 0", "    except KeyError:\n        return 0")
m("C15", "new solver", "solvers.py", "Jellyfish = type(\"Jellyfish\", (BasicFish,), dict(n=4))\n", "Jellyfish = type(\"Jellyfish\", (BasicFish,), dict(n=4))\nStarfish = type(\"Starfish\", (BasicFish,), dict(n=5))\n")
M[-1] = M[-1][:4] + (M[-1][4] + "\n\n_X = Starfish\n",)
M.pop()
m("C15", "new solver registered", "solvers.py", "    Jellyfish,\n    Bruteforce,\n]", "    Jellyfish,\n    type(\"Starfish\", (BasicFish,), dict(n=5)),\n    Bruteforce,\n]")
m("C15", "step of base class", "solvers.py", "                    step = cls(\n                        clues=fields, affected", "                    step = NakedTuple(\n                        clues=fields, affected")
m("C15", "score without brute force", "analyze.py", "    return sum([RATINGS[step.__class__] for step in steps])", "    return sum([RATINGS[step.__class__] for step in steps\n                if step.__class__ is not Bruteforce])")
m("C15", "rating table reordered wrongly", "analyze.py", "    PointingPair: 4,\n    PointingTriple: 4,", "    PointingPair: 4,")
m("C15", "rate capped set", "analyze.py", "    solve(sudoku, steps.append)\n    # max()", "    solve(sudoku, lambda step: steps or steps.append(step))\n    # max()")
# ---- C18
m("C18", "missing special", "shell.py", '    "view": (view, "sudoku"),', '    "view": (view,),')
m("C18", "swapped specials", "shell.py", '    "solve": (Shell.solve_command, "shell", "sudoku"),', '    "solve": (Shell.solve_command, "sudoku", "shell"),')
m("C18", "extra special", "shell.py", '    "generate": (generate, ),', '    "generate": (generate, "sudoku"),\n')
M.pop()
m("C18", "extra special clear", "shell.py", '    "clear": (clear,),', '    "clear": (clear, "shell"),')
m("C18", "wrong special", "shell.py", '    "push": (Shell.push_command, "shell"),', '    "push": (Shell.push_command, "sudoku"),')
m("C18", "not in help", "shell.py", '"remove_candidates",\n         "init_candidates")),', '"remove_candidates")),')
m("C18", "twice in help", "shell.py", '    ("Solving:", ("solve",)),', '    ("Solving:", ("solve", "clear")),')
m("C18", "early lookup", "shell.py", "                elif self.__loop_n and command[0] != Shell.loop_command:\n                    self.__loop_command_list.append(command)", "                elif self.__loop_n and command[0] != Shell.loop_command:\n                    func, special_args, args, kwargs = command\n                    d = {\"sudoku\": self.sudoku, \"shell\": self}\n                    self.__loop_command_list.append(\n                        (func, [], [d[n] for n in special_args] + args, kwargs))")
m("C18", "special after", "shell.py", "        all_args = [d[name] for name in special_args]\n        all_args.extend(args)", "        all_args = list(args)\n        all_args.extend([d[name] for name in special_args])")
m("C18", "getargspec", "shell.py", '    if hasattr(inspect, "getfullargspec"):\n        spec = inspect.getfullargspec(func)\n    else:\n        spec = inspect.getargspec(func)', '    spec = inspect.getargspec(func)')
m("C18", "undefined function", "shell.py", '    "encode": (Sudoku.encode, "sudoku"),', '    "encode": (encode_sudoku, "sudoku"),')
m("C18", "wrong class", "shell.py", '    "pop": (Shell.pop_command, "shell"),', '    "pop": (GameShell.pop_command, "shell"),')
M.pop()
m("C18", "result lost", "shell.py", "            if isinstance(result, Sudoku):\n                self.sudoku = result", "            if isinstance(result, Sudoku):\n                self.sudoku = result.copy() if self.interactive else self.sudoku")
M.pop()
m("C18", "late sudoku of class", "shell.py", '        d = {"sudoku": self.sudoku, "shell": self}', '        d = {"sudoku": self.stack[-1] if self.stack else Sudoku(), "shell": self}')
m("C18", "kwargs first", "shell.py", "            result = func(*all_args, **kwargs)", "            result = func(*(all_args[:1] + list(reversed(all_args[1:]))), **kwargs)")
m("C18", "platform name", "shell.py", 'if platform.system() == "Windows":', 'if platform.dist()[0] == "Windows":')
# ---- C22
m("C22", "eval args", "shell.py", "                        args.append(literal_eval(value))", "                        args.append(eval(value))")
m("C22", "eval restricted", "shell.py", "                    kwargs[name] = literal_eval(value)", "                    kwargs[name] = eval(value, {\"__builtins__\": {}})")
m("C22", "eval alias", "shell.py", "from ast import literal_eval\n", "literal_eval = eval\n")
m("C22", "eval fallback", "shell.py", "                        args.append(literal_eval(value))", "                        try:\n                            args.append(literal_eval(value))\n                        except ValueError:\n                            args.append(eval(compile(value, '<line>', 'eval')))")
m("C22", "eval notation", "notation.py", "        number = int(right)", "        number = eval(right)")
m("C22", "lib print", "solvers.py", "    solution = sudoku.copy()\n    init_candidates(solution, filled_only=True)", "    solution = sudoku.copy()\n    print('solving')\n    init_candidates(solution, filled_only=True)")
m("C22", "recursion limit", "solve.py", "    solution = sudoku.copy()\n    for solution in do_dlx(solution):", "    import sys\n    sys.setrecursionlimit(10000)\n    solution = sudoku.copy()\n    for solution in do_dlx(solution):")
m("C22", "recursion limit from", "dlx.py", "from itertools import product\n", "from itertools import product\nfrom sys import setrecursionlimit as limit\nlimit(100000)\n")
m("C22", "system argument", "shell.py", "def clear():", "def clear(command=\"cls\"):")
M.pop()
m("C22", "system user", "shell.py", "        # resolve the function object and check for special args\n", "        if funcname.startswith('!'):\n            os.system(s[1:])\n")
m("C22", "open write", "__main__.py", "            with open(arguments.filename) as f:", "            with open(arguments.filename, \"r+\") as f:")
m("C22", "open command", "__main__.py", "    elif arguments.command:\n", "    elif arguments.command and arguments.command.startswith('@'):\n        Shell(infile=open(arguments.command[1:])).run()\n    elif arguments.command:\n")
m("C22", "getattr command", "shell.py", "        func = entry[0]\n", "        func = entry[0] or getattr(Sudoku, funcname)\n")
m("C22", "globals command", "shell.py", "        func = entry[0]\n", "        func = entry[0] or globals()[funcname]\n")
m("C22", "decode file", "sudoku.py", "        # remove leading and trailing whitespace\n", "        import os\n        if os.path.exists(s):\n            s = open(s).read()\n")
m("C22", "seed", "generate.py", "from random import choice, sample, shuffle\n", "from random import choice, sample, seed, shuffle\nseed()\n")
m("C22", "warn", "analyze.py", "    steps = []\n    solve(sudoku, steps.append)\n    return sum", "    import warnings\n    warnings.warn('slow')\n    steps = []\n    solve(sudoku, steps.append)\n    return sum")
m("C22", "import help", "shell.py", "            func = COMMANDS[command.name][0]\n", "            func = COMMANDS[command.name][0] or __import__(command.name)\n")
m("C22", "stderr", "sudoku.py", "            raise ValueError(\"Invalid sudoku box_size: %s\" % box_size)", "            import sys\n            sys.stderr.write('bad box size')\n            raise ValueError(\"Invalid sudoku box_size: %s\" % box_size)")
m("C22", "stdout set", "shell.py", "        self.infile = infile\n", "        sys.stdout = outfile\n        self.infile = infile\n")
m("C22", "argparse fromfile", "__main__.py", "argparse.ArgumentParser(description=main.__doc__)", "argparse.ArgumentParser(\n        description=main.__doc__, fromfile_prefix_chars='@')")
m("C22", "default print", "solvers.py", "def solve(sudoku, report=lambda step: None):", "def solve(sudoku, report=print):")
m("C22", "history file", "shell.py", "        self.running = True\n        self.__loop_n = None", "        self.running = True\n        open('history', 'a').close()\n        self.__loop_n = None")
m("C22", "subprocess", "shell.py", "        print(\"\\033[H\\033[J\", end=\"\")", "        import subprocess\n        subprocess.call(os.environ.get('CLEAR', 'clear'), shell=True)")
M.pop()
m("C22", "pickle", "shell.py", "                    kwargs[name] = literal_eval(value)", "                    import pickle\n                    kwargs[name] = pickle.loads(value.encode())")
# ---- C24
m("C24", "sep reset", "sudoku.py", "    if number_sep is None:\n        if max_length > 1:\n            number_sep = \",\"\n        else:\n            number_sep = \"\"\n", "    if max_length > 1:\n        number_sep = \",\"\n    else:\n        number_sep = \"\"\n")
m("C24", "sep constant in view", "sudoku.py", "                val = candidate_prefix + number_sep.join(", "                val = candidate_prefix + (\",\" if number_sep else \"\").join(")
m("C24", "prefix constant", "sudoku.py", "                val = candidate_prefix + number_sep.join(", "                val = \"*\" + number_sep.join(")
m("C24", "box_size dropped", "generate.py", "    solution = create_solution(box_size=box_size)\n", "    solution = create_solution()\n")
M.pop()
m("C24", "template tries", "generate.py", "    while t < tries or tries < 0:", "    while t < 100 or t < 0:")
M.pop()
m("C24", "tries message only", "generate.py", "    t = 0\n\n    while t < tries or tries < 0:", "    t = 0\n    tries = 100\n\n    while t < tries or tries < 0:")
m("C24", "include candidates copy", "sudoku.py", "        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n", "        for row, col in self:\n            c = self.get_candidates(row, col)\n            sudoku.set_candidates(row, col, c)\n")
m("C24", "candidate sep", "sudoku.py", "        for c in candidate_str.split(candidate_sep):", "        for c in candidate_str.split(\",\"):")
m("C24", "sudoku sep", "sudoku.py", "        if sudoku_sep in s:\n            sudoku_str, candidate_str = s.split(sudoku_sep, 1)", "        if \"|\" in s:\n            sudoku_str, candidate_str = s.split(\"|\", 1)")
m("C24", "empty", "sudoku.py", "            if item is empty:", "            if item is \"0\":")
m("C24", "coords ignored", "analyze.py", "    if not coords:\n        coords = list(sudoku)\n", "    coords = list(sudoku)\n")
m("C24", "action dims", "notation.py", "        s = encode(action.coordinates, width=width, height=height)\n        s += \"=\" + str(action.number)\n        return s", "        s = encode(action.coordinates, width=width, height=height)\n        s += \"=\" + str(action.number)\n        return s")
M.pop()
m("C24", "nsep box", "notation.py", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), sep, nsep)", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), sep, \",\")")
m("C24", "sep box", "notation.py", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), sep, nsep)", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), \",\", nsep)")
m("C24", "nsep overwritten", "notation.py", "    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "    if length > 9:\n        nsep = \",\"\n    else:\n        nsep = \"\"\n\n    rows")
m("C24", "align", "sudoku.py", "            if align_right:\n                val = val.rjust(max_field_length)\n            else:\n                val = val.ljust(max_field_length)", "            val = val.rjust(max_field_length)")
m("C24", "nsep only if wide", "notation.py", "    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "    if length > 9:\n        nsep = \",\"\n\n    rows")
m("C24", "decode sep", "notation.py", "            for i, g in enumerate(group.split(sep + c)):", "            for i, g in enumerate(group.split(\",\" + c)):")
m("C24", "min count", "generate.py", "        if count - len(step_coords) < min_count:\n            break\n", "        if count - len(step_coords) < 0:\n            break\n")
M.pop()
m("C24", "row sep", "sudoku.py", "        s = row_sep.join(rows)", "        s = col_sep.join(rows)")
m("C24", "filled only", "solve.py", "        if not filled_only or sudoku[row, col]:\n            sudoku", "        if True:\n            sudoku")
m("C24", "surrounding include", "sudoku.py", "        coords = self.row_of(row, col, include=include)\n        coords.extend(self.column_of(row, col, include=include))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n\n        # remove two items of (col, row) in coords (there are three)\n        if include:\n            coords.remove((row, col))\n", "        coords = self.row_of(row, col, include=False)\n        coords.extend(self.column_of(row, col, include=False))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n")
# ---- C21
m("C21", "push itself", "shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))", "        self.stack.append(self.sudoku)")
m("C21", "push numbers only", "shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))", "        self.stack.append(self.sudoku.copy())")
m("C21", "push original", "shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))", "        saved = self.sudoku.copy(include_candidates=True)\n        self.stack.append(self.sudoku)\n        self.sudoku = saved\n        self.stack[-1] = self.sudoku")
m("C21", "pop keeps", "shell.py", "        self.sudoku = self.stack.pop(position)", "        self.sudoku = self.stack[position]")
m("C21", "pop keeps last", "shell.py", "        if position is None:\n            position = len(self.stack) - 1\n", "        if position is None:\n            self.sudoku = self.stack[-1]\n            return\n")
m("C21", "pop wrong removed", "shell.py", "        self.sudoku = self.stack.pop(position)", "        self.sudoku = self.stack[position]\n        self.stack.pop()")
m("C21", "pop by equality", "shell.py", "        self.sudoku = self.stack.pop(position)", "        self.sudoku = self.stack[position]\n        del self.stack[position:]")
m("C21", "pop single stays", "shell.py", "        self.sudoku = self.stack.pop(position)", "        self.sudoku = self.stack[position]\n        if len(self.stack) > 1:\n            del self.stack[position]")
m("C21", "push returns", "shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))", "        self.stack.append(self.sudoku.copy(include_candidates=True))\n        return self.stack[-1]")
m("C21", "solve from stack", "shell.py", "        return next(bruteforce(sudoku))", "        for saved in self.stack:\n            if saved == sudoku:\n                return saved\n        return next(bruteforce(sudoku))")
M.pop()
m("C21", "undo edits", "shell.py", "            sudoku = self.sudokus[self.index].copy(include_candidates=True)", "            sudoku = self.sudokus[self.index]")
m("C21", "candidates in place", "shell.py", "                init_candidates(sudoku)\n            elif", "                init_candidates(self.sudokus[self.index])\n            elif")
m("C21", "autofill in place", "shell.py", "                    self.autofill(sudoku, True)", "                    self.autofill(self.sudokus[self.index], True)")
m("C21", "history cut", "shell.py", "                    self.sudokus = self.sudokus[:self.index + 1]\n", "                    self.sudokus = self.sudokus[:self.index]\n")
m("C21", "redo duplicate", "shell.py", "                    self.index += 1\n            else:\n                try:", "                    self.index += 1\n                    self.sudokus[self.index - 1] = self.sudokus[self.index]\n            else:\n                try:")
m("C21", "copy shares rows", "sudoku.py", "            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n", "            sudoku._Sudoku__candidates = list(self._Sudoku__candidates)\n")
m("C21", "action in place", "shell.py", "                    action(sudoku)\n", "                    action(self.sudokus[self.index])\n                    action(sudoku)\n")
m("C21", "undo same object", "shell.py", "            if command not in (\"undo\", \"redo\"):", "            if command == \"undo\":\n                self.sudokus.append(self.sudokus[self.index])\n            if command not in (\"undo\", \"redo\"):")

# ---- C10
m("C10", "box number", "dlx.py", "b = (r // R) * R + (c // C)", "b = (r // R) * C + (c // C)")
m("C10", "box number 2", "dlx.py", "b = (r // R) * R + (c // C)", "b = (r // C) * C + (c // R)")
m("C10", "swapped dims", "dlx.py", "R, C = sudoku.box_height, sudoku.box_width", "R, C = sudoku.box_width, sudoku.box_height")
m("C10", "given one", "dlx.py", "        if n:\n", "        if n > 1:\n")
m("C10", "given large", "dlx.py", "        if n:\n", "        if 0 < n < N:\n")
m("C10", "given off", "dlx.py", "        if n:\n", "        if n and row != col:\n")
m("C10", "pass on contradiction", "dlx.py", "            except KeyError:\n                return\n", "            except KeyError:\n                continue\n")
m("C10", "break on contradiction", "dlx.py", "            except KeyError:\n                return\n", "            except KeyError:\n                break\n")
m("C10", "no handler", "dlx.py", "            except KeyError:\n", "            except IndexError:\n")
m("C10", "solution transposed", "dlx.py", "            sudoku[r, c] = n\n", "            sudoku[c, r] = n\n")
m("C10", "solution not written", "dlx.py", "            sudoku[r, c] = n\n", "            if not sudoku[r, c]:\n                sudoku[r, c] = min(n, sudoku.length - 1)\n")
m("C10", "given transposed", "dlx.py", "select(X, Y, (row, col, n))", "select(X, Y, (col, row, n))")
m("C10", "no box constraint", "dlx.py", "            (\"cn\", (c, n)),\n            (\"bn\", (b, n))]", "            (\"cn\", (c, n))]")
m("C10", "row twice", "dlx.py", "            (\"cn\", (c, n)),\n", "            (\"rn\", (r, n)),\n")
m("C10", "diagonal", "dlx.py", "            (\"rn\", (r, n)),\n", "            (\"rn\", ((r + c) % N, n)),\n")
m("C10", "numbers from zero", "dlx.py", "    for r, c, n in product(range(N), range(N), range(1, N + 1)):", "    for r, c, n in product(range(N), range(N), range(N + 1)):")
m("C10", "extra column", "dlx.py", "range(N), range(1, N + 1))] +\n         [(\"cn\"", "range(N + 1), range(1, N + 1))] +\n         [(\"cn\"")
m("C10", "column misses", "dlx.py", "    for i, row in Y.items():\n        for j in row:\n            X[j].add(i)", "    for i, row in Y.items():\n        for j in row[:3]:\n            X[j].add(i)")
m("C10", "column misses one", "dlx.py", "            X[j].add(i)\n    return", "            if i[2] != 1 or i[0] != i[1]:\n                X[j].add(i)\n    return")
m("C10", "choice dropped", "dlx.py", "        Y[(r, c, n)] = [", "        if r or c or n < N:\n          Y[(r, c, n)] = [")

# ---- C11
m("C11", "select keeps clash", "dlx.py", "                if k != j:\n                    X[k].remove(i)", "                if k != j and i != r:\n                    X[k].remove(i)")
m("C11", "deselect order", "dlx.py", "    for j in reversed(Y[r]):\n", "    for j in Y[r]:\n")
m("C11", "deselect skips", "dlx.py", "                if k != j:\n                    X[k].add(i)", "                if k != j and i != r:\n                    X[k].add(i)")
m("C11", "first only", "dlx.py", "            for s in solve(X, Y, solution):\n                yield s\n", "            for s in solve(X, Y, solution):\n                yield s\n                break\n")
m("C11", "no deselect", "dlx.py", "            deselect(X, Y, r, cols)\n", "            if len(cols) > 1:\n                deselect(X, Y, r, cols)\n")
m("C11", "no pop", "dlx.py", "            solution.pop()\n", "            if len(solution) > 1:\n                solution.pop()\n")
m("C11", "stop after first column value", "dlx.py", "        for r in list(X[c]):", "        for r in list(X[c])[:2]:")
m("C11", "no copy of solution", "dlx.py", "        yield list(solution)", "        yield list(solution)[:-1]")
m("C11", "empty column covers", "dlx.py", "    if not X:\n", "    if not any(X.values()):\n")
m("C11", "select forgets column", "dlx.py", "        cols.append(X.pop(j))", "        cols.insert(0, X.pop(j))")
m("C11", "restore only changed", "solve.py", "            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n            sudoku.remove", "            if sudoku[i, j] == 0 and i != row:\n                saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n            sudoku.remove")
m("C11", "saved late", "solve.py", "            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n            sudoku.remove_candidates(i, j, {candidate})", "            sudoku.remove_candidates(i, j, {candidate})\n            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))")
m("C11", "last candidate", "solve.py", "    for candidate in list(sudoku.get_candidates(row, col)):", "    for candidate in list(sudoku.get_candidates(row, col))[:1]:")
m("C11", "number stays", "solve.py", "            sudoku.set_candidates(i, j, value)\n        sudoku[row, col] = 0", "            sudoku.set_candidates(i, j, value)")
m("C11", "restore in box only", "solve.py", "        for (i, j), value in saved_candidates.items():\n", "        for (i, j), value in saved_candidates.items():\n            if i != row and j != col and not sudoku[i, j]:\n                continue\n")
m("C11", "break after solution", "solve.py", "        for solution in _do_bruteforce(sudoku):\n            yield solution\n\n", "        found = False\n        for solution in _do_bruteforce(sudoku):\n            yield solution\n            found = True\n        if found:\n            return\n\n")
m("C11", "one solution per alternative", "solve.py", "        for solution in _do_bruteforce(sudoku):\n            yield solution\n\n", "        for solution in _do_bruteforce(sudoku):\n            yield solution\n            break\n\n")
m("C11", "bruteforce first", "solve.py", "    for solution in _do_bruteforce(solution):\n        yield solution.copy()", "    for solution in _do_bruteforce(solution):\n        yield solution.copy()\n        return")
m("C11", "dlx first", "solve.py", "    for solution in do_dlx(solution):\n        yield solution.copy()", "    for solution in do_dlx(solution):\n        yield solution.copy()\n        if solution.box_width:\n            break")
m("C11", "do_dlx first", "dlx.py", "            sudoku[r, c] = n\n        yield sudoku", "            sudoku[r, c] = n\n        yield sudoku\n        return")
m("C11", "own candidates", "solve.py", "saved_candidates = {(row, col): set(sudoku.get_candidates(row, col))}", "saved_candidates = {}\n        sudoku.set_candidates(row, col, {candidate})")

# ---- C13
SV = "solvers.py"
m("C13", "no candidates of field", SV, "        self.actions.append(\n            Action(Sudoku.set_candidates, row, col, {value}))\n\n", "")
m("C13", "field candidates removed", SV, "            Action(Sudoku.set_candidates, row, col, {value}))\n\n", "            Action(Sudoku.set_candidates, row, col, ()))\n\n")
m("C13", "not the box", SV, "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in", "        for i, j in sudoku.row_of(row, col, include=False) + sudoku.column_of(row, col, include=False):\n            if value in")
m("C13", "own field too", SV, "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in", "        for i, j in sudoku.surrounding_of(row, col):\n            if value in")
m("C13", "only empty fields", SV, "            if value in sudoku.get_candidates(i, j):", "            if not sudoku[i, j] and value in sudoku.get_candidates(i, j):")
m("C13", "keeps last candidate", SV, "            if value in sudoku.get_candidates(i, j):", "            if value in sudoku.get_candidates(i, j) and len(sudoku.get_candidates(i, j)) > 1:")
m("C13", "clears neighbours", SV, "                    Action(Sudoku.remove_candidates, i, j, {value}))\n\n\nclass NakedSingle", "                    Action(Sudoku.set_candidates, i, j, ()))\n\n\nclass NakedSingle")
m("C13", "skips first action", SV, "        for action in self.actions:\n            action.func", "        for action in self.actions[1:]:\n            action.func")
m("C13", "transposed apply", SV, "action.func(sudoku, action.row, action.col, action.value)", "action.func(sudoku, action.col, action.row, action.value)")
m("C13", "bruteforce keeps candidates", SV, "        for row, col in sudoku.diff(solution):\n            yield cls(row, col, solution[row, col])", "        for row, col in sudoku.diff(solution):\n            yield cls(row, col, solution[row, col])\n\n    def build_actions(self, sudoku):\n        row, col = self.affected[0]\n        self.actions.append(Action(Sudoku.set_number, row, col, self.values[0]))")
m("C13", "neighbours of box corner", SV, "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in", "        for i, j in sudoku.surrounding_of(row, row, include=False):\n            if value in")
GE = "generate.py"
m("C16", "rot90 wrong image", GE, "[(r, c), (w*h-1-c, r), (w*h-1-r, w*h-1-c), (c, w*h-1-r)]", "[(r, c), (c, r), (w*h-1-r, w*h-1-c), (c, w*h-1-r)]")
m("C16", "rot90 three images", GE, "[(r, c), (w*h-1-c, r), (w*h-1-r, w*h-1-c), (c, w*h-1-r)]", "[(r, c), (w*h-1-c, r), (c, w*h-1-r)]")
m("C16", "rot180 transposed", GE, '"rotate-180": lambda w, h, r, c: [(r, c), (w*h-1-r, w*h-1-c)]', '"rotate-180": lambda w, h, r, c: [(r, c), (w*h-1-c, w*h-1-r)]')
m("C16", "mirror x is y", GE, '"mirror-x": lambda w, h, r, c: [(r, c), (w*h-1-r, c)]', '"mirror-x": lambda w, h, r, c: [(r, c), (r, w*h-1-c)]')
m("C16", "mirror y by box width", GE, '"mirror-y": lambda w, h, r, c: [(r, c,), (r, w*h-1-c)]', '"mirror-y": lambda w, h, r, c: [(r, c,), (r, w*w-1-c)]')
m("C16", "mirror xy without corner", GE, '(r, w*h-1-c), (w*h-1-r, w*h-1-c)]\n}', '(r, w*h-1-c)]\n}')
m("C16", "restores first only", GE, "            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1\n", "            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1\n                break\n")
m("C16", "clears until minimum", GE, "        for row, col in step_coords:\n            sudoku[row, col] = 0\n            count -= 1\n", "        for row, col in step_coords:\n            if count > min_count + 1:\n                sudoku[row, col] = 0\n                count -= 1\n")
m("C16", "none is half turn", GE, "    None: lambda w, h, r, c: [(r, c)],", "    None: lambda w, h, r, c: [(r, c), (w*h-1-r, w*h-1-c)],")
m("C17", "not reverted", GE, "                sudoku[row, col] = solution[row, col]\n                count += 1\n", "                count += 1\n")
m("C17", "inverted test", GE, "        if not is_unique(sudoku):\n            for", "        if is_unique(sudoku):\n            for")
m("C17", "tests the solution", GE, "        if not is_unique(sudoku):\n            for", "        if not is_unique(solution):\n            for")
m("C17", "limit after the change", GE, "        if count - len(step_coords) < min_count:\n            break", "        if count < min_count:\n            break")
m("C17", "limit off by one", GE, "        if count - len(step_coords) < min_count:\n            break", "        if count - len(step_coords) + 1 < min_count:\n            break")
m("C17", "count restored twice", GE, "                sudoku[row, col] = solution[row, col]\n                count += 1\n", "                sudoku[row, col] = solution[row, col]\n                count += 2\n")
m("C17", "returns cleared copy", GE, "                count += 1\n\n    return sudoku", "                count += 1\n\n    sudoku[0, 0] = 0\n    return sudoku")
m("C17", "min count limit", GE, "    if min_count > count_limit:", "    if min_count > count_limit + 1:")
m("C17", "min count by box width", GE, "    count_limit = box_size[0] ** 2 * box_size[1] ** 2", "    count_limit = box_size[0] ** 4")
m("C17", "symmetry default", GE, "        symmetry_func = SYMMETRY[symmetry]\n    except KeyError:", "        symmetry_func = SYMMETRY.get(symmetry, SYMMETRY[None])\n    except KeyError:")
m("C17", "template unique not tested", GE, "        if is_unique(sudoku):\n            return sudoku\n        else:\n            t += 1", "        if is_unique(solution):\n            return sudoku\n        else:\n            t += 1")
m("C17", "template inverted", GE, "            if not template[row, col]:\n                sudoku[row, col] = 0", "            if template[row, col]:\n                sudoku[row, col] = 0")
m("C17", "one try too many", GE, "    while t < tries or tries < 0:", "    while t <= tries or tries < 0:")
m("C17", "last try returned", GE, "    raise RuntimeError(\n", "    if t:\n        return sudoku\n    raise RuntimeError(\n")
m("C17", "template numbers kept", GE, "            if not template[row, col]:\n                sudoku[row, col] = 0", "            sudoku[row, col] = template[row, col]")
m("C17", "reverted transposed", GE, "                sudoku[row, col] = solution[row, col]\n                count += 1\n", "                sudoku[row, col] = solution[col, row]\n                count += 1\n")

# ---- C19
SH = "shell.py"
for _n, _t in (("syntax", "(ValueError, TypeError,\n                    MemoryError, RuntimeError)"), ("type", "(SyntaxError, ValueError,\n                    MemoryError, RuntimeError)"),
               ("memory", "(SyntaxError, ValueError, TypeError,\n                    RuntimeError)"), ("recursion", "(SyntaxError, ValueError, TypeError,\n                    MemoryError)")):
    m("C19", "parse without %s" % _n, SH, "(SyntaxError, ValueError, TypeError,\n                    MemoryError, RuntimeError)", _t)
m("C19", "execute value errors", SH, "        except Exception as e:\n            self.error(str(e))", "        except (ValueError, TypeError, KeyError, IndexError, AttributeError) as e:\n            self.error(str(e))")
m("C19", "execute silent", SH, "            self.error(str(e))\n            # raise", "            if str(e):\n                self._print(str(e))")
m("C19", "execute reraises unknown", SH, "            self.error(str(e))\n            # raise", "            self.error(str(e))\n            if not isinstance(e, (ValueError, TypeError, KeyError)):\n                raise")
m("C19", "no key handler", SH, "            except KeyError as e:\n                self.error(e)\n", "")
m("C19", "no value handler", SH, "            except ValueError as e:\n                self.error(e)\n", "")
m("C19", "error status", SH, "            sys.exit(1)\n\n    def execute(", "            sys.exit(0)\n\n    def execute(")
m("C19", "error no status", SH, "            sys.exit(1)\n\n    def execute(", "            sys.exit()\n\n    def execute(")
m("C19", "error stops running", SH, "            sys.exit(1)\n\n    def execute(", "            self.running = False\n\n    def execute(")
m("C19", "error to outfile", SH, '        sys.stderr.write("Error: %s\\n" % s)\n        sys.stderr.flush()', '        self.outfile.write("Error: %s\\n" % s)')
m("C19", "error only interactive", SH, '        sys.stderr.write("Error: %s\\n" % s)\n        sys.stderr.flush()\n', '        if self.interactive:\n            sys.stderr.write("Error: %s\\n" % s)\n')
m("C19", "error inverted", SH, "        if not self.interactive:\n            sys.exit(1)\n\n    def execute(", "        if self.interactive:\n            sys.exit(1)\n\n    def execute(")
m("C19", "pop empty silent", SH, '            return self.error("stack is empty")', "            return None")
m("C19", "pop empty text", SH, '            return self.error("stack is empty")', '            return "stack is empty"')
m("C19", "loop end silent", SH, '                return self.error("No loop defined.")', "                return None")
m("C19", "loop nested silent", SH, '                return self.error("Run current loop first (\'loop end\').")', "                return None")
m("C19", "run swallows exit", SH, "            except KeyboardInterrupt:\n                self._print(\"\")\n", "            except (KeyboardInterrupt, SystemExit):\n                self._print(\"\")\n                self.running = False\n")
m("C19", "main interactive", "__main__.py", "Shell(interactive=False).execute_line", "Shell(interactive=True).execute_line")
m("C19", "main file status", "__main__.py", "            print(e, file=sys.stderr)\n            sys.exit(1)", "            print(e, file=sys.stderr)")
m("C19", "main file stdout", "__main__.py", "            print(e, file=sys.stderr)\n", "            print(e)\n")
m("C19", "main swallows", "__main__.py", "    else:\n        Shell().run()", "    else:\n        try:\n            Shell().run()\n        except SystemExit:\n            pass")
m("C19", "game no handler", SH, "                except ValueError as e:\n                    print(\"Unknown command '%s'\" % line)", "                except TypeError as e:\n                    print(\"Unknown command '%s'\" % line)")
m("C19", "game empty line", SH, "            if not splitted:\n                continue\n", "")
m("C19", "game no more hints", SH, "                except StopIteration:\n                    print(\"No more hints available.\")", "                except KeyError:\n                    print(\"No more hints available.\")")
m("C19", "continue after first failure", SH, "        for s in line.split(';'):\n            s = s.strip()\n\n            try:", "        for s in line.split(';'):\n            s = s.strip()\n            if not s or s.startswith(';'):\n                break\n\n            try:")
m("C19", "handler outside loop", SH, "            except ValueError as e:\n                self.error(e)", "            except ValueError as e:\n                self.error(e)\n                break")
m("C19", "keyword reserved word", SH, "                    name, value = item.split('=', 1)", "                    name, value = item.split('=', 1)\n                    assert name.isidentifier()")

# ---- C20
m("C20", "print without str", SH, "self.outfile.write(str(s) + end)", "self.outfile.write(s + end)")
m("C20", "print join", SH, "self.outfile.write(str(s) + end)", "self.outfile.write(\"\".join((s, end)))")
m("C20", "print joins values", SH, "self.outfile.write(str(s) + end)", "if isinstance(s, (set, frozenset)):\n            s = \", \".join(sorted(s))\n        self.outfile.write(str(s) + end)")
m("C20", "execute drops 0", SH, "            elif result is None:\n                pass\n", "            elif not result:\n                pass\n")
m("C20", "execute adds", SH, "                self._print(result)", "                self._print(\"\" + result)")
N = "notation.py"
m("C20", "encode number", N, 's += "=" + str(action.number)', 's += "=" + action.number')
m("C20", "encode number percent", N, 's += "=" + str(action.number)', 's += "=%s%s" % action.number')
m("C20", "encode candidates join", N, '"".join([str(c) for c in sorted(action.candidates)])', '"".join(sorted(action.candidates))')
m("C20", "encode candidates plain", N, '"".join([str(c) for c in sorted(action.candidates)])', 'action.candidates')
m("C20", "encode action returns value", N, '        s += "=" + str(action.number)\n        return s', '        return s, action.number')
A = "actions.py"
m("C20", "str of action format", A, 'return "SetNumber(%s, %s)" % (\n            self.coordinates, self.number)', 'return "SetNumber(%s)" % (\n            self.coordinates, self.number)')
m("C20", "str of action add", A, 'return "RemoveCandidates(%s, %s)" % (\n            self.coordinates, self.candidates)', 'return "RemoveCandidates(%s, " % (self.coordinates, ) + self.candidates + ")"')
m("C20", "str of action tuple", A, 'return "RemoveCandidates(%s, %s)" % (\n            self.coordinates, self.candidates)', 'return "RemoveCandidates(%s)" % tuple(self.coordinates + (self.candidates,))')
m("C20", "str of action join", A, 'return "RemoveCandidates(%s, %s)" % (\n            self.coordinates, self.candidates)', 'return "RemoveCandidates(%s, %s)" % (\n            self.coordinates, ",".join(self.candidates))')
L = "solvers.py"
m("C20", "str of step", L, '        return "%s at %s: %s" % (\n            self.__class__.__name__, self.clues, self.values)', '        return "%s at %s: " % (self.__class__.__name__, self.clues) + self.values')
m("C20", "str of step join", L, '        return "%s at %s: %s" % (\n            self.__class__.__name__, self.clues, self.values)', '        return "%s at %s: %s" % (\n            self.__class__.__name__, self.clues, "/".join(self.values))')
m("C20", "repr of single", L, 'return "%s(%d, %d, %d)" % (self.__class__.__name__, row, col, value)', 'return "%s(%d, %d, %d)" % (self.__class__.__name__, row, col, self.values)')
m("C20", "encode of sudoku", "sudoku.py", "numbers = [str(self[row, col]) for col in self.indices]", "numbers = [self[row, col] for col in self.indices]")
m("C20", "encode candidates of sudoku", "sudoku.py", 'cstr = "".join([str(i) for i in sorted(clist)])', 'cstr = "".join(sorted(clist))')
m("C20", "view number", "sudoku.py", "                val = str(sudoku[row, col])", "                val = sudoku[row, col]")
m("C20", "view candidates", "sudoku.py", "[str(x) for x in sorted(sudoku.get_candidates(row, col))]", "sorted(sudoku.get_candidates(row, col))")
m("C20", "stack text", SH, 'return "stack has %d sudokus" % len(self.stack)', 'return "stack has " + len(self.stack) + " sudokus"')
m("C20", "autoremove text", SH, 'print("autoremove: %s<>%s" % (encode(coordinates), value))', 'print("autoremove: " + encode(coordinates) + "<>" + value)')

# ---- C06: notation
m("C06", "box number divides by the height", N, "box = col // width + row - (row % height)", "box = col // height + row - (row % height)")
m("C06", "box number of the wrong band", N, "box = col // width + row - (row % height)", "box = col // width + row - (row % width)")
m("C06", "part number times the height", N, "part = (col % width) + (row % height) * width", "part = (col % width) + (row % height) * height")
m("C06", "part number from the column modulo the height", N, "part = (col % width) + (row % height) * width", "part = (col % height) + (row % height) * width")
m("C06", "second numbers start at 0", N, "str(v + 1) for v", "str(v) for v")
m("C06", "first numbers start at 0", N, "str(k + 1) for k", "str(k) for k")
m("C06", "letters of boxes and parts swapped", N, """return _dict_to_str("b%sp%s", _join_keys(boxes), sep, nsep)""", """return _dict_to_str("p%sb%s", _join_keys(boxes), sep, nsep)""")
m("C06", "the last number is read without subtracting 1", N, "            numbers = [int(n) - 1 for n in number_str.split(nsep)]", "            numbers = [int(n) for n in number_str.split(nsep)]")
m("C06", "single digits are read without subtracting 1", N, "                    numbers = [int(n)-1 for n in number_str]", "                    numbers = [int(n) for n in number_str]")
m("C06", "parts read as boxes", N, "'p': the_part", "'p': the_box")
m("C06", "rows and columns read the wrong way", N, "        'r': the_row,\n        'c': the_column,", "        'c': the_row,\n        'r': the_column,")
m("C06", "a row behind the last is written", N, "if not 0 <= row < length or", "if not 0 <= row <= length or")
m("C06", "columns below 0 are written", N, "or not 0 <= col < length:", "or not col < length:")
m("C06", "only wrong rows and columns together are refused", N, "if not 0 <= row < length or not", "if not 0 <= row < length and not")
m("C06", "numbers are only separated from 11 on", N, "length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "length > 10:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows")
m("C06", "width 0 is accepted", N, "elif width < 1 or height < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "elif width < 0 or height < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows")
m("C06", "intersection only of the first sets", N, "return set.intersection(*all_sets.values())", "return set.union(*all_sets.values())")
m("C06", "joined rows forget the earlier ones", N, "                l.extend(keys)\n", "                l.extend(keys[:1])\n")
m("C06", "joined rows stay listed", N, "            new_dict.pop(to_remove)\n            new_dict[to_add] = value", "            new_dict[to_remove] = value")
m("C06", "numbers are always split at a comma", N, "            numbers = [int(n) - 1 for n in number_str.split(nsep)]", "            numbers = [int(n) - 1 for n in number_str.split(\",\")]")
m("C06", "groups are always split at a comma", N, "group.split(sep + c)", "group.split(\",\" + c)")
m("C06", "the shorter form is written without number separator", N, """_dict_to_str("b%sp%s", _join_keys(boxes), str(sep), str(nsep))""", """_dict_to_str("b%sp%s", _join_keys(boxes), str(sep), "")""")
m("C06", "fields in one row overwrite each other", N, "        rows[row].add(col)", "        rows[row] = {col}")
m("C06", "width is not checked to be an integer", N, "if int(width) != width or int(height) != height:\n        raise ValueError(\"width and height must be round integers.\")\n    elif width < 1 or height < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    # remove", "if int(height) != height:\n        raise ValueError(\"width and height must be round integers.\")\n    elif width < 1 or height < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    # remove")

# ---- C07: malformed notation
NUMS = """        if not numbers:
            raise ValueError(
                "Malformed group '%s'. No numbers given for '%s'" %
                (group, current))

        all_numbers[current] = numbers
    elif"""
m("C07", "empty groups are not noticed", N, "    elif not present:\n        raise ValueError(\"Empty group '%s'\" % group)\n", "")
m("C07", "empty groups are skipped", N, "    for group in groups:\n        coordinates.update(", "    for group in filter(None, groups):\n        coordinates.update(")
m("C07", "the last letter may be without number", N, NUMS, "        all_numbers[current] = numbers\n    elif")
m("C07", "inner letters may be without number", N, "                if not numbers:\n                    raise ValueError(\n                        \"Malformed group '%s'. No numbers given for '%s'\" %\n                        (group, current))\n\n", "")
m("C07", "a letter may be repeated at once", N, "if c in present or c == current:", "if c in present:")
m("C07", "a letter may be repeated later", N, "if c in present or c == current:", "if c == current:")
m("C07", "letters are only remembered one back", N, "            present += current\n", "            present = current\n")
m("C07", "illegal characters are ignored", N, "        else:\n            raise ValueError(\n                \"Malformed group '%s'. Illegal character '%s'.\" %\n                (group, c))\n", "")
m("C07", "numbers before letters are ignored", N, "            if not current:\n                raise ValueError(\n                    \"Malformed group '%s'. '%s' is illegal at this position.\" %\n                    (group, c))\n            number_str += c", "            if current:\n                number_str += c")
m("C07", "other digits are digits", N, "elif c in string.digits or c in nsep:", "elif c.isdigit() or c in nsep:")
m("C07", "empty numbers are skipped", N, "            numbers = [int(n) - 1 for n in number_str.split(nsep)]", "            numbers = [int(n) - 1 for n in number_str.split(nsep) if n]")
m("C07", "text is read in lower case", N, "    groups = [s]\n", "    groups = [s.lower()]\n")
m("C07", "unknown letter is a KeyError", N, "            raise ValueError(\n                \"Malformed group '%s'. Illegal character '%s'.\" %\n                (group, c))", "            raise KeyError(\n                \"Malformed group '%s'. Illegal character '%s'.\" %\n                (group, c))")
m("C07", "message of a repeated letter has a missing value", N, "                (group, c))\n\n        if c in all_numbers", "                group)\n\n        if c in all_numbers")
m("C07", "message of an empty group has a number place", N, "\"Empty group '%s'\" % group", "\"Empty group '%d'\" % group")
m("C07", "the first group is not read when it is empty", N, "    coordinates = set()\n    for group in groups:", "    coordinates = set()\n    if not groups[0]:\n        groups = groups[1:]\n    for group in groups:")
m("C07", "the text is stripped of separators", N, "    groups = [s]\n", "    groups = [s.strip(sep)]\n")

# ---------------------------------------------------------------- C12
m("C12", "naked tuple with one candidate more", L, "            if len(all_candidates) <= cls.n:", "            if len(all_candidates) <= cls.n + 1:")
m("C12", "naked tuple of its last field", L, "                all_candidates |= sudoku.get_candidates(row, col)", "                all_candidates = sudoku.get_candidates(row, col)")
m("C12", "naked tuple removes from its own fields", L, "for r, c in coords if (r, c) not in fields\n                            and set(all_candidates)& sudoku", "for r, c in coords if set(all_candidates)& sudoku")
m("C12", "naked tuple spares only its first field", L, "for r, c in coords if (r, c) not in fields\n", "for r, c in coords if (r, c) != fields[0]\n")
m("C12", "naked tuple removes around a field", L, "                affected = [(r, c) for r, c in coords if (r, c) not in fields", "                affected = [(r, c) for r, c in sudoku.surrounding_of(*fields[0]) if (r, c) not in fields")
m("C12", "naked tuple keeps its candidates", L, "            to_remove = set(self.values) & sudoku.get_candidates(i, j)\n", "            to_remove = sudoku.get_candidates(i, j) - set(self.values)\n")
m("C12", "naked tuple ignores a candidate", L, "            if len(all_candidates) <= cls.n:", "            if len(all_candidates - {sudoku.indices[-1]}) <= cls.n:")
m("C12", "quints of six candidates", L, "NakedQuint = type(\"NakedQuint\", (NakedTuple,), dict(n=5))", "class NakedQuint(NakedTuple):\n    n = 5\n\n    @classmethod\n    def find(cls, sudoku):\n        for step in NakedQuad.find(sudoku):\n            row, col = step.clues[0]\n            yield cls(step.clues, sudoku.row_of(row, col, include=False), step.values)")
m("C12", "hidden tuple in one field more", L, "            if len(max_set) <= cls.n:", "            if len(max_set) <= cls.n + 1:")
m("C12", "hidden tuple in empty fields", L, "                if cand in sudoku.get_candidates(row, col):", "                if not sudoku[row, col] and cand in sudoku.get_candidates(row, col):")
m("C12", "hidden tuple in any field", L, "            if len(max_set) <= cls.n:", "            if max_set:")
m("C12", "hidden tuple removes its numbers", L, "            to_remove = sudoku.get_candidates(row, col) - set(self.values)\n", "            to_remove = sudoku.get_candidates(row, col) & set(self.values)\n")
m("C12", "hidden tuple of its last number", L, "                max_set |= cand_coords[num]", "                max_set = cand_coords[num]")
m("C12", "hidden tuple removes in the house", L, "affected = [(r, c) for r, c in max_set\n", "affected = [(r, c) for r, c in coords\n")
m("C12", "hidden tuple without the last field", L, "            for (row, col) in coords:\n                if cand in", "            for (row, col) in coords:\n                if col == max(sudoku.indices):\n                    continue\n                if cand in")
m("C12", "pointing from one row band", L, "            if len(set([r for r, c in clues])) == 1:", "            if len(set([r // sudoku.box_height for r, c in clues])) == 1:")
m("C12", "pointing along the wrong line", L, "                affected = [(r, c) for r, c in sudoku.column_of(*clues[0])", "                affected = [(r, c) for r, c in sudoku.row_of(*clues[0])")
m("C12", "pointing in its own fields", L, "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if (r, c) not in clues\n                                and candidate", "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if candidate")
m("C12", "pointing into another box", L, "len(set([sudoku.box_at(r, c) for r, c in clues])) == 1", "len(set([sudoku.box_at(r, c) // 2 for r, c in clues])) == 1")
m("C12", "pointing from empty fields", L, "            clues = [(r, c) for r, c in box_coords\n                     if candidate in", "            clues = [(r, c) for r, c in box_coords\n                     if not sudoku[r, c] and candidate in")
m("C12", "pointing removes from its fields", L, "        val = self.values[0]\n\n        for r, c in self.affected:", "        val = self.values[0]\n\n        for r, c in self.affected + self.clues:")
m("C12", "pointing removes all but the candidate", L, "        val = self.values[0]\n\n        for r, c in self.affected:\n            self.actions.append(\n                Action(Sudoku.remove_candidates, r, c, self.values))", "        val = self.values[0]\n\n        for r, c in self.affected:\n            self.actions.append(\n                Action(Sudoku.remove_candidates, r, c, sudoku.get_candidates(r, c) - {val}))")
m("C12", "fish over any number of lines", L, "            if len(other_counts) > cls.n:\n                continue\n\n", "")
m("C12", "fish over one line more", L, "            if len(other_counts) > cls.n:", "            if len(other_counts) > cls.n + 1:")
m("C12", "fish in its own fields", L, "                        if (r, c) not in base_fields\n                        and candidate", "                        if candidate")
m("C12", "fish of the wrong lines", L, "            other_offset = (offset + 1) % 2\n", "            other_offset = offset\n")
m("C12", "fish of fewer lines", L, "            if len(other_counts) > cls.n:", "            if len(other_counts) > len(base_fields) - cls.n:")
m("C12", "fish removes all", L, "                    values=(candidate,)\n", "                    values=sudoku.numbers\n")
m("C12", "fish in filled fields", L, "            fields[i] = [(r, c) for r, c in base_func(i, i)\n                         if candidate", "            fields[i] = [(r, c) for r, c in base_func(i, i)\n                         if not sudoku[r, c] and candidate")

# ---------------------------------------------------------------- C14
m("C14", "naked tuple that removes nothing", L, "                if affected:\n                    step = cls(", "                if fields:\n                    step = cls(")
m("C14", "naked tuple affects all fields", L, "                            and set(all_candidates)& sudoku.get_candidates(r, c)]", "                            and sudoku.get_candidates(r, c)]")
m("C14", "naked tuple removes what is not there", L, "            to_remove = set(self.values) & sudoku.get_candidates(i, j)\n", "            to_remove = set(self.values) - sudoku.get_candidates(i, j)\n")
m("C14", "hidden tuple without other candidates", L, "affected = [(r, c) for r, c in max_set\n                                if sudoku.get_candidates(r, c) - set(numbers)]", "affected = [(r, c) for r, c in max_set\n                                if sudoku.get_candidates(r, c) & set(numbers)]")
m("C14", "hidden tuple of full fields", L, "                                if sudoku.get_candidates(r, c) - set(numbers)]", "                                if len(sudoku.get_candidates(r, c)) >= len(numbers)]")
m("C14", "pointing at fields without the candidate", L, "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if (r, c) not in clues\n                                and candidate in sudoku.get_candidates(r, c)]", "                    affected = [(r, c) for r, c in sudoku.box_of(*clues[0])\n                                if (r, c) not in clues]")
m("C14", "pointing at empty fields of the row", L, "                affected = [(r, c) for r, c in sudoku.row_of(*clues[0])\n                            if (r, c) not in clues\n                            and candidate in sudoku.get_candidates(r, c)]", "                affected = [(r, c) for r, c in sudoku.row_of(*clues[0])\n                            if (r, c) not in clues\n                            and not sudoku[r, c]]")
m("C14", "fish at fields without the candidate", L, "                        if (r, c) not in base_fields\n                        and candidate in sudoku.get_candidates(r, c)]", "                        if (r, c) not in base_fields]")
m("C14", "fish that removes nothing", L, "            if affected:\n                yield cls(\n                    clues=base_fields,", "            if covered:\n                yield cls(\n                    clues=base_fields,")
m("C14", "naked single in filled fields", L, "        for row, col in sudoku.empty():\n            candidates = sudoku.get", "        for row, col in sudoku:\n            candidates = sudoku.get")
m("C14", "hidden single in filled fields", L, "        for row, col in sudoku.empty():\n            for f in", "        for row, col in sudoku:\n            for f in")
m("C14", "bruteforce in all fields", L, "        for row, col in sudoku.diff(solution):", "        for row, col in sudoku:")
m("C14", "bruteforce in fields of the solution", L, "        for row, col in sudoku.diff(solution):", "        for row, col in solution.filled():")
m("C14", "candidates calculated in every round", L, "            if cls == CalculateCandidates:\n                continue\n\n", "")
m("C14", "candidates calculated in every field", L, "            # ignore fields with defined candidates\n            if sudoku.get_candidates(row, col):\n                continue\n\n", "")
m("C14", "candidates calculated in empty fields", L, "            if sudoku.get_candidates(row, col):\n                continue", "            if sudoku[row, col]:\n                continue")
m("C14", "round after round", L, "            if count > 0:", "            if count >= 0:")
m("C14", "steps are not counted", L, "                count += 1\n", "                pass\n")
m("C14", "a single step is not counted", L, "            if count > 0:", "            if count > 1:")
m("C14", "never ends", L, "        else:\n            break\n\n    return solution", "\n    return solution")
m("C14", "ends after the first technique", L, "            if count > 0:\n                break\n        else:\n            break", "            if count > 0:\n                break\n        if count < 2:\n            break")
m("C14", "steps are reported only", L, "                step.apply(solution)\n                count += 1", "                if cls is not Bruteforce:\n                    step.apply(solution)\n                count += 1")
m("C14", "techniques without bruteforce", L, "            if cls == CalculateCandidates:\n                continue\n\n            count = 0", "            if cls in (CalculateCandidates, Jellyfish):\n                continue\n\n            count = 0")

# ---- C30
U = "sudoku.py"
m("C30", "rows are joined by the column separator only inside", U, "            rows.append(col_sep.join(numbers))", "            rows.append(col_sep.join(numbers[:9]))")
m("C30", "empty fields are left out", U, "numbers = [str(self[row, col]) for col in self.indices]", "numbers = [str(self[row, col]) for col in self.indices if self[row, col]]")
m("C30", "columns are written first", U, "numbers = [str(self[row, col]) for col in self.indices]", "numbers = [str(self[col, row]) for col in self.indices]")
m("C30", "the first candidate is left out", U, "for i in sorted(clist)])", "for i in sorted(clist)[1:]])")
m("C30", "candidates of filled fields are left out", U, "                clist = list(self.get_candidates(row, col))", "                clist = list(self.get_candidates(row, col)) if not self[row, col] else []")
m("C30", "empty candidate sets are left out", U, "                all_candidates.append(cstr)", "                if cstr:\n                    all_candidates.append(cstr)")
m("C30", "candidates are joined by a bar", U, '            s += "|" + ",".join(all_candidates)', '            s += "|" + "|".join(all_candidates)')
m("C30", "candidates behind a comma", U, '            s += "|" + ",".join(all_candidates)', '            s += "," + ",".join(all_candidates)')
m("C30", "decode turns rows at the width", U, "            if col >= sudoku.box_width * sudoku.box_height:", "            if col >= sudoku.box_width * sudoku.box_width:")
m("C30", "decode stops a row early", U, "            if row >= sudoku.box_width * sudoku.box_height:", "            if row >= sudoku.box_width * sudoku.box_height - 1:")
m("C30", "decode columns first", U, "                sudoku[row, col] = int(item)", "                sudoku[col, row] = int(item)")
m("C30", "decode candidates columns first", U, "            sudoku.set_candidates(row, col, candidates)\n            col += 1", "            sudoku.set_candidates(col, row, candidates)\n            col += 1")
m("C30", "decode empty candidates end", U, "            c = c.strip()\n", "            c = c.strip()\n            if not c:\n                break\n")
m("C30", "decode skips empty candidates", U, "            c = c.strip()\n", "            c = c.strip()\n            if not c:\n                continue\n")
m("C30", "decode keeps white space", U, '                    s = s.replace(c, "")', '                    s = s.replace(c, "", 1)')
m("C30", "decode exchanges width and height", U, "        sudoku = Sudoku(box_size=box_size)\n        col = 0", "        sudoku = Sudoku(box_size=box_size[::-1])\n        col = 0")
m("C30", "decode guesses a flat box", U, "box_size = int(width), int(width)", "box_size = int(length), 1")
m("C30", "decode candidates of filled fields", U, "            sudoku.set_candidates(row, col, candidates)\n            col += 1", "            if not sudoku[row, col]:\n                sudoku.set_candidates(row, col, candidates)\n            col += 1")
m("C30", "decode the last candidate only", U, "                candidates = [int(item) for item in c]", "                candidates = [int(item) for item in c[-1:]]")
m("C30", "decode numbers above nine", U, "                sudoku[row, col] = int(item)", "                sudoku[row, col] = int(item[0])")
