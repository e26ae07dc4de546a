"""Behaviour-preserving rewrites: no check may report a violation on any of them.  (name, [(file, old, new), ...])"""
R = []


def r(name, *edits):
    R.append((name, list(edits)))


S = "sudoku.py"
# ---- houses and coordinates
r("box_of loop", (S, "        coords = [(grid_y + i, grid_x + j)\n                  for i in range(self.box_height) for j in range(self.box_width)]\n        if not include:\n            coords.remove((row, col))\n        return coords",
  "        coords = []\n        for i in range(self.box_height):\n            for j in range(self.box_width):\n                field = (grid_y + i, grid_x + j)\n                if include or field != (row, col):\n                    coords.append(field)\n        return coords"))
r("box_of origin helper", (S, "    def box_of(self, row, col, include=True):", "    def _box_origin(self, row, col):\n        return row // self.box_height * self.box_height, col // self.box_width * self.box_width\n\n    def box_of(self, row, col, include=True):"),
  (S, "        grid_x = col - (col % self.box_width)\n        grid_y = row - (row % self.box_height)\n\n        coords", "        grid_y, grid_x = self._box_origin(row, col)\n\n        coords"),
  (S, "        grid_x = col - (col % self.box_width)\n        grid_y = row - (row % self.box_height)\n\n        return", "        grid_y, grid_x = self._box_origin(row, col)\n\n        return"))
r("surrounding set", (S, "        coords = self.row_of(row, col, include=include)\n        coords.extend(self.column_of(row, col, include=include))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n\n        # remove two items of (col, row) in coords (there are three)\n        if include:\n            coords.remove((row, col))\n\n        return coords",
  "        coords = []\n        for house in (self.row_of, self.column_of, self.box_of):\n            for field in house(row, col, include=include):\n                if field not in coords:\n                    coords.append(field)\n        return coords"))
r("surrounding concat", (S, "        coords = self.row_of(row, col, include=include)\n        coords.extend(self.column_of(row, col, include=include))\n        coords.extend(self._quad_without_row_and_column_of(row, col))\n\n        # remove two items of (col, row) in coords (there are three)\n        if include:\n            coords.remove((row, col))\n\n        return coords",
  "        coords = (self.row_of(row, col, include)\n                  + self.column_of(row, col, include=False)\n                  + self._quad_without_row_and_column_of(row, col))\n        return coords"))
r("row_of two branches", (S, "        return [(row, j) for j in self.indices if include or j != col]", "        if include:\n            return [(row, j) for j in self.indices]\n        return [(row, j) for j in self.indices if j != col]"))
r("sudoku delegates to coordinates", (S, "from itertools import product\n", "from itertools import product\n\nfrom sudokutools import coordinates\n"),
  (S, "        return [(i, col) for i in self.indices if include or i != row]", "        return coordinates.column_of(\n            row, col, self.box_width, self.box_height, include)"),
  (S, "        return [(row, j) for j in self.indices if include or j != col]", "        return coordinates.row_of(\n            row, col, self.box_width, self.box_height, include)"))
C = "coordinates.py"
r("the_box divmod", (C, "    x = (box % height) * width\n    y = (box // height) * height\n", "    band, stack = divmod(box, height)\n    x, y = stack * width, band * height\n"))
r("range check helper", (C, "def the_box(box,", "def _check(name, number, width, height):\n    if number < 0 or number >= width * height:\n        raise ValueError(\"%s must be at least 0 and less than %d\" % (name, width * height))\n\n\ndef the_box(box,"),
  (C, "    if not 0 <= box < width * height:\n        raise ValueError(\n            \"box must be less equal 0 and less than %d\" % width * height)\n", "    _check(\"box\", box, width, height)\n"),
  (C, "    if not 0 <= part < width * height:\n        raise ValueError(\n            \"part must be less equal 0 and less than %d\" % width * height)\n", "    _check(\"part\", part, width, height)\n"))
r("range check in", (C, "    if not 0 <= row < width * height:", "    if row not in range(width * height):"))
r("the_part filter", (C, "    return [(row + i * height, col + j * width)\n            for i in range(width) for j in range(height)]", "    return [(i, j) for i in range(row, width * height, height)\n            for j in range(col, width * height, width)]"))
r("box_at product", (C, "    return col // width + row - (row % height)", "    return (row // height) * height + col // width"))
V = "solve.py"
CALC = "    candidates = set(sudoku.numbers)\n\n    for (i, j) in sudoku.surrounding_of(row, col, include=False):\n        candidates.discard(sudoku[i, j])\n\n    return candidates"
r("calc difference", (V, CALC, "    taken = {sudoku[i, j] for i, j in sudoku.surrounding_of(row, col, include=False)}\n    return set(sudoku.numbers) - taken"))
r("calc comprehension", (V, CALC, "    taken = [sudoku[field] for field in sudoku.surrounding_of(row, col)]\n    return {n for n in sudoku.numbers if n not in taken}"))
r("calc all", (V, CALC, "    around = sudoku.surrounding_of(row, col, include=False)\n    return set(n for n in sudoku.numbers\n               if all(sudoku[i, j] != n for i, j in around))"))
r("calc any helper", (V, "def calc_candidates(", "def _occurs(sudoku, number, fields):\n    for field in fields:\n        if sudoku[field] == number:\n            return True\n    return False\n\n\ndef calc_candidates("),
  (V, CALC, "    around = sudoku.surrounding_of(row, col, include=False)\n    result = set()\n    for number in sudoku.numbers:\n        if not _occurs(sudoku, number, around):\n            result.add(number)\n    return result"))
r("calc number local", (V, "    if sudoku[row, col]:\n        return {sudoku[row, col]}\n", "    number = sudoku.get_number(row, col)\n    if number != 0:\n        return set([number])\n"))
r("init two loops", (V, "    for row, col in sudoku:\n        if not filled_only or sudoku[row, col]:\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "    fields = sudoku.filled() if filled_only else sudoku\n    for row, col in fields:\n        sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))"))
r("init continue", (V, "        if not filled_only or sudoku[row, col]:\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "        if filled_only and not sudoku[row, col]:\n            continue\n        candidates = calc_candidates(sudoku, row, col)\n        sudoku.set_candidates(row, col, candidates)"))
r("init indices", (V, "    for row, col in sudoku:\n        if not filled_only or sudoku[row, col]:\n            sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))", "    for row in sudoku.indices:\n        for col in sudoku.indices:\n            if not filled_only or sudoku[row, col]:\n                sudoku.set_candidates(row, col, calc_candidates(sudoku, row, col))"))
A = "analyze.py"
FC = "        if not value:\n            continue\n        else:\n            for (i, j) in sudoku.surrounding_of(row, col, include=False):\n                if sudoku[i, j] == value:\n                    yield ((row, col), (i, j), value)"
r("conflicts comprehension", (A, FC, "        if value:\n            same = [field for field in sudoku.surrounding_of(row, col, include=False)\n                    if sudoku[field] == value]\n            for field in same:\n                yield ((row, col), field, value)"))
r("conflicts helper", (A, "def find_conflicts(", "def _same_number(sudoku, row, col):\n    value = sudoku[row, col]\n    if value:\n        for (i, j) in sudoku.surrounding_of(row, col, include=False):\n            if sudoku[i, j] == value:\n                yield (i, j)\n\n\ndef find_conflicts("),
  (A, "        value = sudoku[row, col]\n" + FC, "        for field in _same_number(sudoku, row, col):\n            yield ((row, col), field, sudoku[row, col])"))
r("is_solved loop", (A, "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    for _field in sudoku.empty():\n        return False\n    for _conflict in find_conflicts(sudoku):\n        return False\n    return True"))
r("is_solved any", (A, "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    if any(True for _ in sudoku.empty()):\n        return False\n    return next(find_conflicts(sudoku), None) is None"))
r("is_solved count", (A, "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    return sudoku.count() == len(sudoku) and not any(find_conflicts(sudoku))"))
r("is_solved all", (A, "    return not list(sudoku.empty()) and not list(find_conflicts(sudoku))", "    return all(sudoku[field] for field in sudoku) and len(list(find_conflicts(sudoku))) == 0"))
r("is_unique islice", (A, "from sudokutools.solve import dlx", "from itertools import islice\n\nfrom sudokutools.solve import dlx"),
  (A, "    # If we have no solutions return False.\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n\n    # If we have two (or more solutions return False\n    # otherwise return True.\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    return len(list(islice(solutions, 2))) == 1"))
r("is_unique loop", (A, "    # If we have no solutions return False.\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n\n    # If we have two (or more solutions return False\n    # otherwise return True.\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    count = 0\n    for _solution in solutions:\n        count += 1\n        if count > 1:\n            break\n    return count == 1"))
r("is_unique default", (A, "    # If we have no solutions return False.\n    try:\n        next(solutions)\n    except StopIteration:\n        return False\n\n    # If we have two (or more solutions return False\n    # otherwise return True.\n    try:\n        next(solutions)\n        return False\n    except StopIteration:\n        return True", "    if next(solutions, None) is None:\n        return False\n    return next(solutions, None) is None"))
# ---- sudoku fields, copies, comparisons
COPY = "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n\n        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)"
r("copy one loop", (S, COPY, "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n            if include_candidates:\n                sudoku.set_candidates(row, col, self.get_candidates(row, col))"))
r("copy nested", (S, COPY, "        for row in self.indices:\n            for col in self.indices:\n                sudoku.set_number(row, col, self.get_number(row, col))\n                if include_candidates:\n                    sudoku.set_candidates(row, col, self.__candidates[row][col])"))
r("copy filled", (S, COPY, COPY.replace("for row, col in self:\n            sudoku[row", "for row, col in self.filled():\n            sudoku[row")))
r("copy class", (S, "        sudoku = Sudoku(box_size=self.box_size)\n        for", "        sudoku = self.__class__((self.box_width, self.box_height))\n        for"))
r("copy slices", (S, "        for row, col in self:\n            sudoku[row, col] = self[row, col]\n\n        if include_candidates:", "        sudoku.__numbers = [list(row) for row in self.__numbers]\n\n        if include_candidates:"))
r("copy helper", (S, COPY, COPY.split("\n\n")[0] + "\n\n        if include_candidates:\n            self._copy_candidates(sudoku)"),
  (S, "    def __eq__(self, other):", "    def _copy_candidates(self, target):\n        for row, col in self:\n            target.set_candidates(row, col, self.get_candidates(row, col))\n\n    def __eq__(self, other):"))
r("copy return early", (S, "        if include_candidates:\n            for row, col in self:\n                c = self.get_candidates(row, col)\n                sudoku.set_candidates(row, col, c)\n\n        return sudoku", "        if not include_candidates:\n            return sudoku\n\n        for row, col in self:\n            sudoku.set_candidates(row, col, self.get_candidates(row, col))\n        return sudoku"))
r("iter nested", (S, "        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        for row in self.indices:\n            for col in self.indices:\n                yield row, col"))
r("iter return", (S, "        for row, col in product(self.indices, repeat=2):\n            yield (row, col)", "        return iter(product(self.indices, self.indices))"))
r("empty getitem", (S, "            if not self.__numbers[row][col]:\n                yield row, col", "            if self[row, col] == 0:\n                yield row, col"))
r("filled helper", (S, "        for row, col in self:\n            if self.__numbers[row][col]:\n                yield row, col", "        return (field for field in self if self[field])"))
r("storage comprehension", (S, "        self.__numbers = [[0] * len(self.indices) for _ in self.indices]", "        self.__numbers = [[0 for _ in self.indices] for _ in self.indices]"))
r("storage size local", (S, "            self.indices = tuple(range(box_size[0] * box_size[1]))\n            self.numbers = tuple(range(1, box_size[0] * box_size[1] + 1))", "            size = self.box_width * self.box_height\n            self.indices = tuple(range(size))\n            self.numbers = tuple(i + 1 for i in self.indices)"))
r("remove comprehension", (S, "        self.__candidates[row][col] -= set(value)", "        self.__candidates[row][col] = frozenset(\n            c for c in self.__candidates[row][col] if c not in set(value))"))
r("remove difference", (S, "        self.__candidates[row][col] -= set(value)", "        old = self.__candidates[row][col]\n        self.__candidates[row][col] = old.difference(value)"))
r("remove via set", (S, "        self.__candidates[row][col] -= set(value)", "        self.set_candidates(row, col, self.get_candidates(row, col) - set(value))"))
r("diff list", (S, "        for row, col in self:\n            if self[row, col] != other[row, col]:\n                yield row, col", "        return ((row, col) for row, col in self\n                if self[row, col] != other[row, col])"))
r("eq any", (S, "            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False\n            return True\n", "            return not any(self[row, col] != other[row, col]\n                           for row, col in self)\n"))
r("eq diff", (S, "            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False\n            return True\n", "            for _ in self.diff(other):\n                return False\n            return True\n"))
r("eq all", (S, "            for row, col in self:\n                if self[row, col] != other[row, col]:\n                    return False\n            return True\n", "            return all(self[field] == other[field] for field in self)\n"))
EQ = "        for row, col in self:\n            if self[(row, col)] != other[(row, col)]:\n                return False\n            if candidates and self.get_candidates(row, col) != \\\n                    other.get_candidates(row, col):\n                return False\n\n        return True"
r("equals two loops", (S, EQ, "        for row, col in self:\n            if self[row, col] != other[row, col]:\n                return False\n\n        if candidates:\n            for row, col in self:\n                if self.get_candidates(row, col) != other.get_candidates(row, col):\n                    return False\n\n        return True"))
r("equals eq", (S, EQ, "        if list(self.diff(other)):\n            return False\n        if not candidates:\n            return True\n        return all(self.get_candidates(*field) == other.get_candidates(*field)\n                   for field in self)"))
r("equals merged", (S, EQ, "        for row, col in self:\n            if self[row, col] != other[row, col] or (\n                    candidates and self.get_candidates(row, col) !=\n                    other.get_candidates(row, col)):\n                return False\n        return True"))
r("count sum", (S, "        return len(list(self.filled()))", "        return sum(1 for _ in self.filled())"))
r("count loop", (S, "        return len(list(self.filled()))", "        count = 0\n        for _field in self.filled():\n            count += 1\n        return count"))
r("len indices", (S, "        return self.box_width ** 2 * self.box_height ** 2", "        return len(self.indices) * len(self.indices)"))
# ---- C15
r("rate default", ("analyze.py", "    # max() raises a ValueError, if the list is empty.\n    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    if not steps:\n        return 0\n    return max(RATINGS[type(step)] for step in steps)"))
r("rate loop", ("analyze.py", "    # max() raises a ValueError, if the list is empty.\n    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    rating = 0\n    for step in steps:\n        rating = max(rating, RATINGS[step.__class__])\n    return rating"))
r("rate helper", ("analyze.py", "    steps = []\n    solve(sudoku, steps.append)\n    # max() raises a ValueError, if the list is empty.\n    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    return max([0] + _ratings(sudoku))"),
  ("analyze.py", "    steps = []\n    solve(sudoku, steps.append)\n    return sum([RATINGS[step.__class__] for step in steps])", "    return sum(_ratings(sudoku))"),
  ("analyze.py", "def rate(sudoku):", "def _ratings(sudoku):\n    ratings = []\n    solve(sudoku, report=lambda step: ratings.append(RATINGS[step.__class__]))\n    return ratings\n\n\ndef rate(sudoku):"))
r("score loop", ("analyze.py", "    return sum([RATINGS[step.__class__] for step in steps])", "    total = 0\n    for step in steps:\n        total += RATINGS[step.__class__]\n    return total"))
r("ratings groups", ("analyze.py", "    CalculateCandidates: 0,\n    NakedSingle: 1,\n    HiddenSingle: 1,\n", "    CalculateCandidates: 0,\n    HiddenSingle: 1,\n"), ("analyze.py", "def rate(sudoku):", "RATINGS[NakedSingle] = 1\n\n\ndef rate(sudoku):"))
r("rate default kw", ("analyze.py", "    # max() raises a ValueError, if the list is empty.\n    try:\n        return max([RATINGS[step.__class__] for step in steps])\n    except ValueError:\n        return 0", "    return max((RATINGS[step.__class__] for step in steps), default=0)"))
# ---- C18
r("table lists", ("shell.py", '    "solve": (Shell.solve_command, "shell", "sudoku"),', '    "solve": [Shell.solve_command, "shell", "sudoku"],'))
r("specials helper", ("shell.py", '        d = {"sudoku": self.sudoku, "shell": self}\n        all_args = [d[name] for name in special_args]\n        all_args.extend(args)\n', '        all_args = self._resolve(special_args) + list(args)\n'),
  ("shell.py", "    def execute_line(self, line):", '    def _resolve(self, names):\n        objects = {"sudoku": self.sudoku, "shell": self}\n        return [objects[name] for name in names]\n\n    def execute_line(self, line):'))
r("specials loop", ("shell.py", "        for name in entry[1:]:\n            if name not in SPECIAL_ARGS:\n                raise ValueError(\"Unknown special name '%s'\" % name)\n            else:\n                special_args.append(name)", "        for name in entry[1:]:\n            if name in SPECIAL_ARGS:\n                special_args.append(name)\n                continue\n            raise ValueError(\"Unknown special name '%s'\" % name)"))
r("parse get", ("shell.py", "        try:\n            entry = COMMANDS[funcname]\n        except KeyError:\n            raise KeyError(", "        entry = COMMANDS.get(funcname)\n        if entry is None:\n            raise KeyError("))
r("help join", ("shell.py", "                s += section + \"\\n\"\n                for name in names:\n                    # Add the first line of the full help\n                    s += \" - \"\n                    s += self.help_command(Command(name), verbose=False) + \"\\n\"\n                # newline at end of section\n                s += \"\\n\"", "                lines = [section]\n                lines.extend(\n                    \" - \" + self.help_command(Command(name), verbose=False)\n                    for name in names)\n                s += \"\\n\".join(lines) + \"\\n\\n\""))
r("parse partition", ("shell.py", "                    name, value = item.split('=', 1)", "                    name, _, value = item.partition('=')"))
r("parse starred", ("shell.py", '        items = s.split(" ")\n        funcname = items[0]\n\n        for item in items[1:]:', '        funcname, *items = s.split(" ")\n\n        for item in items:'))
r("solve command list", ("shell.py", "        return next(bruteforce(sudoku))", "        for solution in bruteforce(sudoku):\n            return solution\n        raise StopIteration()"))
r("signature helper", ("shell.py", "    for i, name in enumerate(args):\n        if spec.defaults and i >= len(args) - len(defaults):\n            j = i - len(args)\n            arg_str.append(\"%s=%s\" % (name, repr(defaults[j])))\n        else:\n            arg_str.append(name)", "    first = len(args) - len(defaults or ())\n    for i, name in enumerate(args):\n        if i >= first:\n            arg_str.append(\"%s=%r\" % (name, defaults[i - first]))\n        else:\n            arg_str.append(name)"))
r("clear doc", ("shell.py", '    if platform.system() == "Windows":\n        os.system("cls")\n    else:\n        print("\\033[H\\033[J", end="")', '    if os.name == "nt":\n        os.system("cls")\n        return\n    print("\\033[H\\033[J", end="")'))
# ---- C22
r("literal alias", ("shell.py", "from ast import literal_eval\n", "import ast\n\nliteral_eval = ast.literal_eval\n"))
r("clear command", ("shell.py", '    if platform.system() == "Windows":\n        os.system("cls")', '    command = "cls"\n    if platform.system() == "Windows":\n        os.system(command)'))
r("run file helper", ("__main__.py", "            with open(arguments.filename) as f:\n                Shell(infile=f).run()", "            run_file(arguments.filename)"),
  ("__main__.py", "def main():", "def run_file(filename):\n    with open(filename, \"r\") as script:\n        Shell(infile=script).run()\n\n\ndef main():"))
r("main open first", ("__main__.py", "            with open(arguments.filename) as f:\n                Shell(infile=f).run()", "            name = arguments.filename\n            script = open(name)\n            try:\n                Shell(infile=script).run()\n            finally:\n                script.close()"))
# ---- C24
r("sep expression", (S, "    if number_sep is None:\n        if max_length > 1:\n            number_sep = \",\"\n        else:\n            number_sep = \"\"\n", "    if number_sep is None:\n        number_sep = \",\" if max_length > 1 else \"\"\n"))
r("nsep expression", ("notation.py", "    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "    nsep = nsep or (\",\" if length > 9 else \"\")\n\n    rows"))
r("nsep default helper", ("notation.py", "    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "    nsep = _number_separator(nsep, length)\n\n    rows"),
  ("notation.py", "def encode(coordinates,", "def _number_separator(nsep, length):\n    if nsep:\n        return nsep\n    return \",\" if length > 9 else \"\"\n\n\ndef encode(coordinates,"))
r("view field helper", (S, "            if align_right:\n                val = val.rjust(max_field_length)\n            else:\n                val = val.ljust(max_field_length)\n\n            col_str.append(val)", "            col_str.append(_align(val, max_field_length, align_right))"),
  (S, "def view(\n", "def _align(text, width, right):\n    return text.rjust(width) if right else text.ljust(width)\n\n\ndef view(\n"))
r("encode dict loop", ("notation.py", "    elif use_boxes:\n        return _dict_to_str(\"b%sp%s\", _join_keys(boxes), sep, nsep)\n    else:\n        return _dict_to_str(\"r%sc%s\", _join_keys(rows), sep, nsep)", "    fmt, groups = (\"b%sp%s\", boxes) if use_boxes else (\"r%sc%s\", rows)\n    return _dict_to_str(fmt, _join_keys(groups), sep, nsep)"))
r("view format", (S, "                val = candidate_prefix + number_sep.join(\n                    [str(x) for x in sorted(sudoku.get_candidates(row, col))])", "                numbers = map(str, sorted(sudoku.get_candidates(row, col)))\n                val = \"%s%s\" % (candidate_prefix, number_sep.join(numbers))"))
# ---- C21
r("push local", ("shell.py", "        self.stack.append(self.sudoku.copy(include_candidates=True))", "        saved = self.sudoku.copy(include_candidates=True)\n        self.stack = self.stack + [saved]"))
r("pop del", ("shell.py", "        self.sudoku = self.stack.pop(position)", "        self.sudoku = self.stack[position]\n        del self.stack[position]"))
r("pop default", ("shell.py", "        if position is None:\n            position = len(self.stack) - 1\n        else:\n            try:", "        if position is None:\n            self.sudoku = self.stack.pop()\n            return\n        else:\n            try:"))
r("pop range check", ("shell.py", "                position = int(position)\n                assert 0 <= position < len(self.stack)\n            except (ValueError, AssertionError):", "                position = int(position)\n                if position not in range(len(self.stack)):\n                    raise ValueError(position)\n            except ValueError:"))
r("history append", ("shell.py", "                    self.sudokus = self.sudokus[:self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index += 1", "                    self._save(sudoku)"),
  ("shell.py", "    def autofill(self, sudoku, verbose=False):", "    def _save(self, sudoku):\n        \"\"\"Add sudoku after the current state and make it the current one.\"\"\"\n        self.index += 1\n        del self.sudokus[self.index:]\n        self.sudokus.append(sudoku)\n\n    def autofill(self, sudoku, verbose=False):"))
r("history list plus", ("shell.py", "                    self.sudokus = self.sudokus[:self.index + 1]\n                    self.sudokus.append(sudoku)\n                    self.index += 1", "                    self.sudokus = self.sudokus[:self.index + 1] + [sudoku]\n                    self.index = len(self.sudokus) - 1"))
r("game copy helper", ("shell.py", "            sudoku = self.sudokus[self.index].copy(include_candidates=True)", "            current = self.sudokus[self.index]\n            sudoku = current.copy(include_candidates=True)"))

# ---- solvers
r("solve recursion rewritten", ("solve.py", "        # save a copy of the candidates in fields, which will be changed\n        saved_candidates = {(row, col): set(sudoku.get_candidates(row, col))}\n        for (i, j) in sudoku.surrounding_of(row, col, include=False):\n            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n            sudoku.remove_candidates(i, j, {candidate})\n",
  "        saved_candidates = {}\n        for (i, j) in sudoku.surrounding_of(row, col, include=True):\n            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n        for (i, j) in sudoku.surrounding_of(row, col, include=False):\n            sudoku.remove_candidates(i, j, {candidate})\n"))
r("solve saved list", ("solve.py", "        saved_candidates = {(row, col): set(sudoku.get_candidates(row, col))}\n", "        saved_candidates = []\n"),
  ("solve.py", "            saved_candidates[(i, j)] = set(sudoku.get_candidates(i, j))\n", "            saved_candidates.append((i, j, set(sudoku.get_candidates(i, j))))\n"),
  ("solve.py", "        for (i, j), value in saved_candidates.items():\n", "        for i, j, value in saved_candidates:\n"))
r("solve yield from", ("solve.py", "        for solution in _do_bruteforce(sudoku):\n            yield solution\n", "        yield from _do_bruteforce(sudoku)\n"),
  ("dlx.py", "            for s in solve(X, Y, solution):\n                yield s\n", "            yield from solve(X, Y, solution)\n"))
r("dlx helper", ("dlx.py", "            solution.append(r)\n            cols = select(X, Y, r)\n            for s in solve(X, Y, solution):\n                yield s\n            deselect(X, Y, r, cols)\n            solution.pop()\n",
  "            cols = select(X, Y, r)\n            for s in solve(X, Y, solution + [r]):\n                yield s\n            deselect(X, Y, r, cols)\n"))
r("dlx early return", ("dlx.py", "        yield list(solution)\n    else:\n        c = min(X, key=lambda c: len(X[c]))\n        for r in list(X[c]):\n            solution.append(r)\n            cols = select(X, Y, r)\n            for s in solve(X, Y, solution):\n                yield s\n            deselect(X, Y, r, cols)\n            solution.pop()\n",
  "        yield solution[:]\n        return\n    column = sorted(X, key=lambda k: len(X[k]))[0]\n    for r in tuple(X[column]):\n        solution.append(r)\n        removed = select(X, Y, r)\n        for s in solve(X, Y, solution):\n            yield s\n        deselect(X, Y, r, removed)\n        del solution[-1]\n"))
r("select renamed locals", ("dlx.py", "        for i in X[j]:\n            for k in Y[i]:\n                if k != j:\n                    X[k].remove(i)\n        cols.append(X.pop(j))", "        col = X[j]\n        for other in col:\n            for k in Y[other]:\n                if k == j:\n                    continue\n                X[k].remove(other)\n        del X[j]\n        cols.append(col)"))
r("deselect discard", ("dlx.py", "        X[j] = cols.pop()\n        for i in X[j]:\n", "        col = cols.pop()\n        X[j] = col\n        for i in col:\n"))
r("bruteforce min", ("solve.py", "    sorted_empty = sorted(\n        list(sudoku.empty()), key=lambda c: len(sudoku.get_candidates(*c)))\n\n    try:\n        row, col = sorted_empty[0]\n    except IndexError:\n        yield sudoku\n        return\n",
  "    empty = list(sudoku.empty())\n    if not empty:\n        yield sudoku\n        return\n    row, col = min(empty, key=lambda c: len(sudoku.get_candidates(*c)))\n"))
# ---- number-setting steps
SV = "solvers.py"
r("single actions list", (SV, "        self.actions.append(\n            Action(Sudoku.set_number, row, col, value))\n        self.actions.append(\n            Action(Sudoku.set_candidates, row, col, {value}))\n\n        for i, j in", "        self.actions += [Action(Sudoku.set_number, row, col, value),\n                         Action(Sudoku.set_candidates, row, col, (value,))]\n\n        for i, j in"))
r("single unguarded", (SV, "            if value in sudoku.get_candidates(i, j):\n                self.actions.append(\n                    Action(Sudoku.remove_candidates, i, j, {value}))", "            self.actions.append(\n                Action(Sudoku.remove_candidates, i, j, [value]))"))
r("single comprehension", (SV, "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in sudoku.get_candidates(i, j):\n                self.actions.append(\n                    Action(Sudoku.remove_candidates, i, j, {value}))", "        self.actions.extend(\n            Action(Sudoku.remove_candidates, i, j, {value})\n            for i, j in sudoku.surrounding_of(row, col, include=False)\n            if value in sudoku.get_candidates(i, j))"))
r("apply unpack", (SV, "        for action in self.actions:\n            action.func(sudoku, action.row, action.col, action.value)", "        for func, row, col, value in self.actions:\n            func(sudoku, row, col, value)"))
r("apply method of action", (SV, "        value (int or iterable): The number or candidates to set/remove.\n    \"\"\"\n", "        value (int or iterable): The number or candidates to set/remove.\n    \"\"\"\n\n    def __call__(self, sudoku):\n        self.func(sudoku, self.row, self.col, self.value)\n"),
  (SV, "            action.func(sudoku, action.row, action.col, action.value)", "            action(sudoku)"))
r("single houses", (SV, "        for i, j in sudoku.surrounding_of(row, col, include=False):\n            if value in sudoku.get_candidates(i, j):\n                self.actions.append(\n                    Action(Sudoku.remove_candidates, i, j, {value}))", "        for house in sudoku.row_of, sudoku.column_of, sudoku.box_of:\n            for i, j in house(row, col, include=False):\n                self.actions.append(\n                    Action(Sudoku.remove_candidates, i, j, {value}))"))
r("single init direct", (SV, "        super(_SingleFieldStep, self).__init__(\n            ((row, col),), ((row, col),), (value, ))", "        field = (row, col)\n        SolveStep.__init__(self, clues=[field], affected=[field], values=[value])"))
GE = "generate.py"
r("symmetry functions", (GE, '    "mirror-x": lambda w, h, r, c: [(r, c), (w*h-1-r, c)],', '    "mirror-x": lambda w, h, r, c: [(w*h-1-r, c), (r, c)],'))
r("generate step helper", (GE, "        # execute change\n        for row, col in step_coords:\n            sudoku[row, col] = 0\n            count -= 1\n", "        # execute change\n        _clear(sudoku, step_coords)\n        count -= len(step_coords)\n"),
  (GE, "            for row, col in step_coords:\n                sudoku[row, col] = solution[row, col]\n                count += 1\n", "            for row, col in step_coords:\n                sudoku.set_number(row, col, solution[row, col])\n            count += len(step_coords)\n"),
  (GE, "def generate(min_count", "def _clear(sudoku, coords):\n    for row, col in coords:\n        sudoku[row, col] = 0\n\n\ndef generate(min_count"))
r("generate removed counter", (GE, "    count = len(sudoku)\n", "    removed = 0\n"), (GE, "        if count - len(step_coords) < min_count:", "        if len(sudoku) - removed - len(step_coords) < min_count:"),
  (GE, "            count -= 1\n", "            removed += 1\n"), (GE, "                count += 1\n", "                removed -= 1\n"))
r("generate continue", (GE, "        if not is_unique(sudoku):\n            for row, col in step_coords:", "        if is_unique(sudoku):\n            continue\n        else:\n            for row, col in step_coords:"))
r("generate pop", (GE, "        step_coords = set(symmetry_func(sudoku.box_width, sudoku.box_height, *coords[0]))\n\n        for row, col in step_coords:\n            coords.remove((row, col))\n", "        row, col = coords[0]\n        step_coords = set(symmetry_func(sudoku.box_width, sudoku.box_height, row, col))\n        coords = [f for f in coords if f not in step_coords]\n"))
r("generate sorted step", (GE, "        step_coords = set(symmetry_func(sudoku.box_width, sudoku.box_height, *coords[0]))", "        step_coords = sorted(set(symmetry_func(sudoku.box_width, sudoku.box_height, *coords[0])))"))
r("template continue", (GE, "        if is_unique(sudoku):\n            return sudoku\n        else:\n            t += 1", "        if not is_unique(sudoku):\n            t += 1\n            continue\n        return sudoku"))
r("template clear list", (GE, "        for row, col in template:\n            if not template[row, col]:\n                sudoku[row, col] = 0", "        for row, col in list(template.empty()):\n            sudoku.set_number(row, col, 0)"))
r("template while true", (GE, "    while t < tries or tries < 0:\n", "    while True:\n        if tries >= 0 and t >= tries:\n            break\n"))
r("symmetry in", (GE, "    try:\n        symmetry_func = SYMMETRY[symmetry]\n    except KeyError:\n        values = \", \".join([str(key) for key in SYMMETRY])\n        raise ValueError(\"symmetry must be one of %s\" % values)\n", "    if symmetry not in SYMMETRY:\n        raise ValueError(\"symmetry must be one of %s\" % \", \".join(map(str, SYMMETRY)))\n    symmetry_func = SYMMETRY[symmetry]\n"))

# failure handling of the shell (C19)
r("parse as function", ("shell.py", "            # literal_eval() fails with any of these, depending on the text.\n            except (SyntaxError, ValueError, TypeError,\n                    MemoryError, RuntimeError):\n", "            except Exception:\n"))
r("error print", ("shell.py", '        sys.stderr.write("Error: %s\\n" % s)\n        sys.stderr.flush()', '        print("Error: %s" % s, file=sys.stderr)'))
r("error raise exit", ("shell.py", "        if not self.interactive:\n            sys.exit(1)\n\n    def execute(", "        if self.interactive:\n            return\n        raise SystemExit(1)\n\n    def execute("))
r("one handler", ("shell.py", "            except KeyError as e:\n                self.error(e)\n            except ValueError as e:\n                self.error(e)", "            except (KeyError, ValueError) as e:\n                self.error(e)"))
r("wide handler", ("shell.py", "            except KeyError as e:\n                self.error(e)\n            except ValueError as e:\n                self.error(e)", "            except Exception as e:\n                self.error(e)"))
r("execute_line split", ("shell.py", "            try:\n                command = parse(s)\n", "            try:\n                command = parse(s)\n            except (KeyError, ValueError) as e:\n                self.error(e)\n                continue\n\n            try:\n"))
r("execute else", ("shell.py", "            result = func(*all_args, **kwargs)\n            if isinstance(result, Sudoku):\n                self.sudoku = result\n            elif result is None:\n                pass\n            else:\n                self._print(result)\n        except Exception as e:\n            self.error(str(e))\n",
  "            result = func(*all_args, **kwargs)\n            if isinstance(result, Sudoku):\n                self.sudoku = result\n            elif result is not None:\n                self._print(result)\n        except Exception as e:\n            message = str(e)\n            self.error(message)\n"))
r("pop handlers", ("shell.py", "            except (ValueError, AssertionError):\n                return self.error(\n                    \"0 <= position < %d\" % len(self.stack))", "            except (ValueError, AssertionError):\n                self.error(\"0 <= position < %d\" % len(self.stack))\n                return"))
r("main returns", ("__main__.py", "    # read commands from filename\n    if arguments.filename:", "    filename = arguments.filename\n    # read commands from filename\n    if filename:"), ("__main__.py", "with open(arguments.filename) as f:", "with open(filename) as f:"))
r("main shell", ("__main__.py", "        Shell(interactive=False).execute_line(arguments.command)", "        shell = Shell(interactive=False)\n        shell.execute_line(arguments.command)"))
r("game unknown", ("shell.py", "                except ValueError as e:\n                    print(\"Unknown command '%s'\" % line)", "                except ValueError:\n                    print(\"Unknown command '{}'\".format(line))"))
r("run comments split", ("shell.py", "                idx = line.find('#')\n                if idx >= 0:\n                    line = line[:idx]\n", "                line = line.split('#')[0]\n"))

# texts (C20)
r("print format", ("shell.py", "self.outfile.write(str(s) + end)", 'self.outfile.write("%s%s" % (s, end))'))
r("print two writes", ("shell.py", "self.outfile.write(str(s) + end)", "self.outfile.write(str(s))\n        self.outfile.write(end)"))
r("print print", ("shell.py", "        self.outfile.write(str(s) + end)\n        self.outfile.flush()", "        print(s, end=end, file=self.outfile)\n        self.outfile.flush()"))
r("print f-string", ("shell.py", "self.outfile.write(str(s) + end)", 'self.outfile.write(f"{s}{end}")'))
r("encode_action percent", ("notation.py", 's += "=" + str(action.number)', 's += "=%d" % action.number'))
r("encode_action map", ("notation.py", '"".join([str(c) for c in sorted(action.candidates)])', '"".join(map(str, sorted(action.candidates)))'))
r("encode_action returns", ("notation.py", '        s = encode(action.coordinates, width=width, height=height)\n        s += "=" + str(action.number)\n        return s', '        return "%s=%s" % (\n            encode(action.coordinates, width=width, height=height),\n            action.number)'))
r("action str format", ("actions.py", 'return "SetNumber(%s, %s)" % (\n            self.coordinates, self.number)', 'return "SetNumber({}, {})".format(self.coordinates, self.number)'))
r("action str add", ("actions.py", 'return "SetNumber(%s, %s)" % (\n            self.coordinates, self.number)', 'return ("SetNumber(" + str(self.coordinates) + ", "\n                + str(self.number) + ")")'))
r("encode sudoku generator", ("sudoku.py", 'cstr = "".join([str(i) for i in sorted(clist)])', 'cstr = "".join(str(i) for i in sorted(clist))'))
r("view value helper", ("sudoku.py", "                val = str(sudoku[row, col])", '                val = "%d" % sudoku[row, col]'))

# notation (C06, C07)
NT = "notation.py"
r("encode box helper", (NT, "        box = col // width + row - (row % height)\n        part = (col % width) + (row % height) * width\n", "        box, part = _box_and_part(row, col, width, height)\n"),
  (NT, "def encode(coordinates,", "def _box_and_part(row, col, width, height):\n    \"\"\"Return the box and the part number of a field.\"\"\"\n    return (col // width + row - (row % height),\n            (col % width) + (row % height) * width)\n\n\ndef encode(coordinates,"))
r("encode divmod", (NT, "        box = col // width + row - (row % height)\n        part = (col % width) + (row % height) * width\n", "        band, box_row = divmod(row, height)\n        stack, box_col = divmod(col, width)\n        box = band * height + stack\n        part = box_row * width + box_col\n"))
r("encode range check", (NT, "            if not 0 <= row < length or not 0 <= col < length:" if False else "        if not 0 <= row < length or not 0 <= col < length:", "        if row < 0 or row >= length or col < 0 or col >= length:"))
r("encode range check helper", (NT, "        if not 0 <= row < length or not 0 <= col < length:\n            raise ValueError(\n                \"Invalid coordinates (%d, %d) for width = %d, height = %d.\" % (\n                    row, col, width, height))\n", "        _check_field(row, col, width, height)\n"),
  (NT, "def encode(coordinates,", "def _check_field(row, col, width, height):\n    size = width * height\n    if not (0 <= row < size and 0 <= col < size):\n        raise ValueError(\n            \"Invalid coordinates (%d, %d) for width = %d, height = %d.\" % (\n                row, col, width, height))\n\n\ndef encode(coordinates,"))
r("encode dims helper", (NT, "    if int(width) != width or int(height) != height:\n        raise ValueError(\"width and height must be round integers.\")\n    elif width < 1 or height < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows", "    _check_dimensions(width, height)\n    length = width * height\n\n    if not nsep:\n        if length > 9:\n            nsep = \",\"\n        else:\n            nsep = \"\"\n\n    rows"),
  (NT, "def encode(coordinates,", "def _check_dimensions(width, height):\n    for value in (width, height):\n        if int(value) != value:\n            raise ValueError(\"width and height must be round integers.\")\n    if min(width, height) < 1:\n        raise ValueError(\"width and height must be >= 1.\")\n\n\ndef encode(coordinates,"))
r("encode set factory", (NT, "    rows = defaultdict(lambda: set())\n    boxes = defaultdict(lambda: set())\n", "    rows = defaultdict(set)\n    boxes = defaultdict(set)\n"))
r("encode setdefault", (NT, "    rows = defaultdict(lambda: set())\n    boxes = defaultdict(lambda: set())\n", "    rows = {}\n    boxes = {}\n"),
  (NT, "        rows[row].add(col)\n        boxes[box].add(part)\n", "        rows.setdefault(row, set()).add(col)\n        boxes.setdefault(box, set()).add(part)\n"))
r("encode shorter conditional", (NT, "        if len(box_str) < len(row_str):\n            return box_str\n        else:\n            return row_str\n", "        return box_str if len(box_str) < len(row_str) else row_str\n"))
r("encode shorter min", (NT, "        if len(box_str) < len(row_str):\n            return box_str\n        else:\n            return row_str\n", "        return min(row_str, box_str, key=len)\n"))
r("encode join keys first", (NT, "    if use_boxes is None:\n        box_str = _dict_to_str(\"b%sp%s\", _join_keys(boxes), str(sep), str(nsep))\n        row_str = _dict_to_str(\"r%sc%s\", _join_keys(rows), str(sep), str(nsep))\n", "    if use_boxes is None:\n        joined_boxes = _join_keys(boxes)\n        joined_rows = _join_keys(rows)\n        box_str = _dict_to_str(\"b%sp%s\", joined_boxes, str(sep), str(nsep))\n        row_str = _dict_to_str(\"r%sc%s\", joined_rows, str(sep), str(nsep))\n"))
r("join keys by value", (NT, "    new_dict = {}\n    for key, value in a_dict.items():\n        to_add = None\n        to_remove = None\n\n        for keys, other_value in new_dict.items():\n            if other_value == value:\n                l = [key]\n                l.extend(keys)\n                l.sort()\n                to_add = tuple(l)\n                to_remove = keys\n                break\n\n        if to_add:\n            new_dict.pop(to_remove)\n            new_dict[to_add] = value\n        else:\n            new_dict[(key, )] = value\n\n    return new_dict\n", "    keys_of = defaultdict(list)\n    for key, value in a_dict.items():\n        keys_of[frozenset(value)].append(key)\n\n    return {tuple(sorted(keys)): value for value, keys in keys_of.items()}\n"))
r("join keys sorted", (NT, "                l = [key]\n                l.extend(keys)\n                l.sort()\n                to_add = tuple(l)\n", "                to_add = tuple(sorted(keys + (key,)))\n"))
r("join keys for else", (NT, "        to_add = None\n        to_remove = None\n\n        for keys, other_value in new_dict.items():\n            if other_value == value:\n                l = [key]\n                l.extend(keys)\n                l.sort()\n                to_add = tuple(l)\n                to_remove = keys\n                break\n\n        if to_add:\n            new_dict.pop(to_remove)\n            new_dict[to_add] = value\n        else:\n            new_dict[(key, )] = value\n", "        for keys, other_value in new_dict.items():\n            if other_value == value:\n                del new_dict[keys]\n                new_dict[tuple(sorted((key,) + keys))] = value\n                break\n        else:\n            new_dict[(key, )] = value\n"))
r("join keys matching helper", (NT, "        to_add = None\n        to_remove = None\n\n        for keys, other_value in new_dict.items():\n            if other_value == value:\n                l = [key]\n                l.extend(keys)\n                l.sort()\n                to_add = tuple(l)\n                to_remove = keys\n                break\n\n        if to_add:\n            new_dict.pop(to_remove)\n            new_dict[to_add] = value\n        else:\n            new_dict[(key, )] = value\n", "        same = _keys_with(new_dict, value)\n        if same is None:\n            new_dict[(key, )] = value\n        else:\n            new_dict.pop(same)\n            new_dict[tuple(sorted(same + (key, )))] = value\n"),
  (NT, "def _join_keys(a_dict):", "def _keys_with(a_dict, value):\n    for keys, other in a_dict.items():\n        if other == value:\n            return keys\n    return None\n\n\ndef _join_keys(a_dict):"))
r("dict to str comprehension", (NT, "    s = []\n\n    for keys in sorted(a_dict):\n        value = a_dict[keys]\n        keys_str = nsep.join([str(k + 1) for k in sorted(keys)])\n        value_str = nsep.join([str(v + 1) for v in sorted(value)])\n        s.append(format_str % (keys_str, value_str))\n\n    return sep.join(s)", "    def numbers(values):\n        return nsep.join(str(v + 1) for v in sorted(values))\n\n    return sep.join(\n        [format_str % (numbers(keys), numbers(value))\n         for keys, value in sorted(a_dict.items())])"))
r("dict to str helper", (NT, "        keys_str = nsep.join([str(k + 1) for k in sorted(keys)])\n        value_str = nsep.join([str(v + 1) for v in sorted(value)])\n", "        keys_str = _numbers_to_str(keys, nsep)\n        value_str = _numbers_to_str(value, nsep)\n"),
  (NT, "def _dict_to_str(", "def _numbers_to_str(numbers, nsep):\n    return nsep.join([str(number + 1) for number in sorted(numbers)])\n\n\ndef _dict_to_str("))
r("dict to str map", (NT, "        keys_str = nsep.join([str(k + 1) for k in sorted(keys)])\n", "        keys_str = nsep.join(map(str, sorted(k + 1 for k in keys)))\n"))
r("dict to str text", (NT, "    s = []\n\n    for keys in sorted(a_dict):", "    groups = []\n\n    for keys in sorted(a_dict.keys()):"), (NT, "        s.append(format_str % (keys_str, value_str))\n\n    return sep.join(s)", "        groups.append(format_str % (keys_str, value_str))\n\n    return sep.join(groups)"))
PARSE = "                if not nsep:\n                    numbers = [int(n)-1 for n in number_str]\n                else:\n                    numbers = [int(n)-1 for n in number_str.split(nsep)]\n\n                if not numbers:\n                    raise ValueError(\n                        \"Malformed group '%s'. No numbers given for '%s'\" %\n                        (group, current))\n\n                all_numbers[current] = numbers\n"
LASTP = "        if not nsep:\n            numbers = [int(n) - 1 for n in number_str]\n        else:\n            numbers = [int(n) - 1 for n in number_str.split(nsep)]\n\n        if not numbers:\n            raise ValueError(\n                \"Malformed group '%s'. No numbers given for '%s'\" %\n                (group, current))\n\n        all_numbers[current] = numbers\n"
r("decode numbers helper", (NT, PARSE, "                all_numbers[current] = _read_numbers(\n                    group, current, number_str, nsep)\n"), (NT, LASTP, "        all_numbers[current] = _read_numbers(\n            group, current, number_str, nsep)\n"),
  (NT, "def _decode_single(", "def _read_numbers(group, letter, number_str, nsep):\n    parts = number_str.split(nsep) if nsep else number_str\n    numbers = [int(n) - 1 for n in parts]\n    if not numbers:\n        raise ValueError(\n            \"Malformed group '%s'. No numbers given for '%s'\" %\n            (group, letter))\n    return numbers\n\n\ndef _decode_single("))
r("decode numbers list", (NT, LASTP, "        digits = list(number_str) if not nsep else number_str.split(nsep)\n        numbers = [int(n) - 1 for n in digits]\n        if len(numbers) == 0:\n            raise ValueError(\n                \"Malformed group '%s'. No numbers given for '%s'\" %\n                (group, current))\n        all_numbers[current] = numbers\n"))
r("decode split comprehension", (NT, "        new_groups = []\n\n        for group in groups:\n            for i, g in enumerate(group.split(sep + c)):\n                if i > 0:\n                    new_groups.append(c + g)\n                else:\n                    new_groups.append(g)\n        groups = new_groups\n", "        groups = [\n            c + g if i > 0 else g\n            for group in groups\n            for i, g in enumerate(group.split(sep + c))]\n"))
r("decode split first rest", (NT, "            for i, g in enumerate(group.split(sep + c)):\n                if i > 0:\n                    new_groups.append(c + g)\n                else:\n                    new_groups.append(g)\n", "            parts = group.split(sep + c)\n            new_groups.append(parts[0])\n            for g in parts[1:]:\n                new_groups.append(c + g)\n"))
r("decode split helper", (NT, "    # Split multiple groups.\n    groups = [s]\n    for c in \"rcbp\":\n        new_groups = []\n\n        for group in groups:\n            for i, g in enumerate(group.split(sep + c)):\n                if i > 0:\n                    new_groups.append(c + g)\n                else:\n                    new_groups.append(g)\n        groups = new_groups\n", "    groups = _split_groups(s, sep)\n"),
  (NT, "def _decode_single(", "def _split_groups(s, sep):\n    groups = [s]\n    for c in \"rcbp\":\n        new_groups = []\n        for group in groups:\n            first, *rest = group.split(sep + c)\n            new_groups.append(first)\n            new_groups.extend([c + g for g in rest])\n        groups = new_groups\n    return groups\n\n\ndef _decode_single("))
r("decode union", (NT, "        coordinates.update(\n            _decode_single(group, width=width, height=height, nsep=nsep))\n", "        coordinates |= _decode_single(group, width, height, nsep)\n"))
r("decode tuple", (NT, "    return tuple(sorted(coordinates))\n\n\ndef _decode_single", "    result = sorted(coordinates)\n    return tuple(result)\n\n\ndef _decode_single"))
r("decode sets dict", (NT, "    all_sets = defaultdict(lambda: set())\n    for key, numbers in all_numbers.items():\n        # A set will only be added, if the\n        # list in all_numbers is not empty.\n        for number in numbers:\n            all_sets[key].update(\n                all_funcs[key](number, width=width, height=height))\n\n    return set.intersection(*all_sets.values())\n", "    all_sets = []\n    for key, numbers in all_numbers.items():\n        if numbers:\n            fields = set()\n            for number in numbers:\n                fields.update(\n                    all_funcs[key](number, width=width, height=height))\n            all_sets.append(fields)\n\n    return set.intersection(*all_sets)\n"))
r("decode sets running", (NT, "    return set.intersection(*all_sets.values())\n", "    result = None\n    for fields in all_sets.values():\n        result = fields if result is None else result & fields\n    return result\n"))
r("decode letter function", (NT, "    all_funcs = {\n        'r': the_row,\n        'c': the_column,\n        'b': the_box,\n        'p': the_part\n    }\n\n", ""), (NT, "                all_funcs[key](number, width=width, height=height))\n", "                _HOUSES[key](number, width=width, height=height))\n"),
  (NT, "def encode(coordinates,", "_HOUSES = {\"r\": the_row, \"c\": the_column, \"b\": the_box, \"p\": the_part}\n\n\ndef encode(coordinates,"))
r("decode letters table", (NT, "    all_numbers = {\n        'r': [],\n        'c': [],\n        'b': [],\n        'p': [],\n    }\n", "    all_numbers = {letter: [] for letter in \"rcbp\"}\n"))
r("decode branch order", (NT, "        elif c in string.digits or c in nsep:\n            if not current:\n                raise ValueError(\n                    \"Malformed group '%s'. '%s' is illegal at this position.\" %\n                    (group, c))\n            number_str += c\n\n        else:\n            raise ValueError(\n                \"Malformed group '%s'. Illegal character '%s'.\" %\n                (group, c))\n", "        elif c not in string.digits and c not in nsep:\n            raise ValueError(\n                \"Malformed group '%s'. Illegal character '%s'.\" %\n                (group, c))\n        elif not current:\n            raise ValueError(\n                \"Malformed group '%s'. '%s' is illegal at this position.\" %\n                (group, c))\n        else:\n            number_str += c\n"))
r("decode repeated set", (NT, "    present = \"\"        # A string containing all qualifiers already parsed.\n", "    present = set()     # All qualifiers already parsed.\n"), (NT, "            present += current\n", "            if current:\n                present.add(current)\n"))
r("decode digits first", (NT, "        if c in present or c == current:\n", "        if c == current or c in present:\n"))
r("decode isdigit", (NT, "        elif c in string.digits or c in nsep:", "        elif c in \"0123456789\" or c in nsep:"))
r("decode empty message", (NT, "    elif not present:\n        raise ValueError(\"Empty group '%s'\" % group)\n", "    else:\n        raise ValueError(\"Empty group '%s'\" % group)\n"))
r("decode empty first", (NT, "    for c in group:\n        if c in present", "    if not group:\n        raise ValueError(\"Empty group '%s'\" % group)\n\n    for c in group:\n        if c in present"))
r("decode action order", (NT, "        left, sep, right = s.partition(\"=\")\n        number = int(right)\n        coordinates = decode(left, width=width, height=height)\n        return SetNumber(coordinates, number)\n", "        left, _, right = s.partition(\"=\")\n        coordinates = decode(left, width=width, height=height)\n        return SetNumber(coordinates, int(right))\n"))

# ---------------------------------------------------------------- patterns of solve steps
r("naked union", (SV, "            all_candidates = set()\n            for (row, col) in fields:\n                all_candidates |= sudoku.get_candidates(row, col)\n", "            all_candidates = set().union(*[sudoku.get_candidates(r, c) for r, c in fields])\n"))
r("naked union update", (SV, "                all_candidates |= sudoku.get_candidates(row, col)\n", "                all_candidates.update(sudoku.get_candidates(row, col))\n"))
r("naked union comprehension", (SV, "            all_candidates = set()\n            for (row, col) in fields:\n                all_candidates |= sudoku.get_candidates(row, col)\n", "            all_candidates = {x for r, c in fields for x in sudoku.get_candidates(r, c)}\n"))
r("naked guard", (SV, "            if len(all_candidates) <= cls.n:\n                # Naked", "            if not len(all_candidates) > cls.n:\n                # Naked"))
r("naked continue", (SV, "            if len(all_candidates) <= cls.n:\n                # Naked Tuple found - only yield, if actions can be applied.\n                affected = [(r, c) for r, c in coords if (r, c) not in fields\n                            and set(all_candidates)& sudoku.get_candidates(r, c)]\n\n                if affected:\n                    step = cls(\n                        clues=fields, affected=affected, values=all_candidates)\n                    yield step\n",
  "            if len(all_candidates) > cls.n:\n                continue\n\n            affected = []\n            for r, c in coords:\n                if (r, c) in fields:\n                    continue\n                if all_candidates & sudoku.get_candidates(r, c):\n                    affected.append((r, c))\n            if not affected:\n                continue\n            yield cls(clues=fields, affected=affected, values=all_candidates)\n"))
r("naked helper", (SV, "            all_candidates = set()\n            for (row, col) in fields:\n                all_candidates |= sudoku.get_candidates(row, col)\n", "            all_candidates = _union(sudoku, fields)\n"), (SV, "class NakedTuple(SolveStep):", "def _union(sudoku, fields):\n    found = set()\n    for row, col in fields:\n        found |= sudoku.get_candidates(row, col)\n    return found\n\n\nclass NakedTuple(SolveStep):"))
r("naked intersection", (SV, "and set(all_candidates)& sudoku.get_candidates(r, c)]", "and not all_candidates.isdisjoint(sudoku.get_candidates(r, c))]"))
r("naked singles included", (SV, "coords if 1 < len(\n            sudoku.get_candidates(row, col)) <= cls.n]", "coords if 0 < len(\n            sudoku.get_candidates(row, col)) <= cls.n]"))
r("naked actions", (SV, "            to_remove = set(self.values) & sudoku.get_candidates(i, j)\n            self.actions.append(\n                Action(Sudoku.remove_candidates, i, j, to_remove)\n            )\n", "            self.actions.append(\n                Action(Sudoku.remove_candidates, i, j, set(self.values)))\n"))
r("hidden places", (SV, "        cand_coords = defaultdict(lambda: set())\n\n        # build coordinate list for each candidate\n        for cand in sudoku.numbers:\n            for (row, col) in coords:\n                if cand in sudoku.get_candidates(row, col):\n                    cand_coords[cand].add((row, col))\n", "        cand_coords = {\n            cand: {(r, c) for r, c in coords if cand in sudoku.get_candidates(r, c)}\n            for cand in sudoku.numbers}\n"))
r("hidden places loops", (SV, "        for cand in sudoku.numbers:\n            for (row, col) in coords:\n                if cand in sudoku.get_candidates(row, col):\n                    cand_coords[cand].add((row, col))\n", "        for (row, col) in coords:\n            for cand in sudoku.get_candidates(row, col):\n                cand_coords[cand].add((row, col))\n"))
r("hidden places set", (SV, "defaultdict(lambda: set())\n\n        # build", "defaultdict(set)\n\n        # build"))
r("hidden union", (SV, "            max_set = set()\n            for num in numbers:\n                max_set |= cand_coords[num]\n", "            max_set = set.union(*[cand_coords[num] for num in numbers])\n"))
r("hidden once", (SV, "                for (row, col) in max_set:\n                    affected = [(r, c) for r, c in max_set\n                                if sudoku.get_candidates(r, c) - set(numbers)]\n\n                    if affected:\n                        yield cls(clues=coords, affected=affected, values=numbers)", "                affected = [(r, c) for r, c in max_set\n                            if sudoku.get_candidates(r, c) - set(numbers)]\n\n                if affected:\n                    yield cls(clues=coords, affected=affected, values=numbers)"))
r("hidden clues", (SV, "yield cls(clues=coords, affected=affected, values=numbers)", "yield cls(clues=max_set, affected=affected, values=numbers)"))
r("pointing rows", (SV, "            if len(set([r for r, c in clues])) == 1:", "            if len({field[0] for field in clues}) == 1:"))
r("pointing all", (SV, "            if len(set([r for r, c in clues])) == 1:", "            if all(r == clues[0][0] for r, c in clues):"))
r("pointing more fields", (SV, "            # skip, if this doesn't have the correct number of fields\n            # (e.g. we have a pair, but want a triple)\n            if len(clues) != cls.n:\n                continue\n\n            # if all fields with this candidate lie in the same row", "            # skip, if this doesn't have the correct number of fields\n            # (e.g. we have a pair, but want a triple)\n            if not 2 <= len(clues) <= cls.n:\n                continue\n\n            # if all fields with this candidate lie in the same row"))
r("pointing helper", (SV, "            clues = [(r, c) for r, c in box_coords\n                     if candidate in sudoku.get_candidates(r, c)]\n", "            clues = cls._with(sudoku, box_coords, candidate)\n"), (SV, "    @classmethod\n    def __find_in_box(cls, sudoku, box):", "    @staticmethod\n    def _with(sudoku, coords, candidate):\n        return [f for f in coords if candidate in sudoku.get_candidates(*f)]\n\n    @classmethod\n    def __find_in_box(cls, sudoku, box):"))
r("pointing nested", (SV, "            else:\n                affected = []\n\n            if affected:\n                yield cls(\n                    clues=clues, affected=affected, values=(candidate,))\n\n    def", "            else:\n                continue\n\n            if not affected:\n                continue\n            yield cls(clues=clues, affected=affected, values=[candidate])\n\n    def"))
r("fish fields", (SV, "        fields = {}\n        for i in sudoku.indices:\n            fields[i] = [(r, c) for r, c in base_func(i, i)\n                         if candidate in sudoku.get_candidates(r, c)]\n", "        fields = {\n            i: [(r, c) for r, c in base_func(i, i)\n                if candidate in sudoku.get_candidates(r, c)]\n            for i in sudoku.indices}\n"))
r("fish base fields", (SV, "            base_fields = []\n            for i in indices:\n                base_fields.extend(fields[i])\n", "            base_fields = [f for i in indices for f in fields[i]]\n"))
r("fish single fields allowed", (SV, "            # The other coordinate only appears once,\n            # so this is not a valid fish\n            if min(other_counts.values()) < 2:\n                continue\n", ""))
r("fish lines set", (SV, "            if len(other_counts) > cls.n:", "            if len(set(coord[other_offset] for coord in base_fields)) > cls.n:"))
r("fish any", (SV, "            if min(other_counts.values()) < 2:", "            if any(k < 2 for k in other_counts.values()):"))
r("fish other index", (SV, "            other_offset = (offset + 1) % 2\n", "            other_offset = 1 - offset\n"))
r("fish covered", (SV, "            covered = []\n            for val in other_counts:\n                covered.extend(cover_func(val, val))\n\n            affected = [(r, c) for r, c in covered\n                        if (r, c) not in base_fields\n                        and candidate in sudoku.get_candidates(r, c)]\n", "            affected = []\n            for val in other_counts:\n                for field in cover_func(val, val):\n                    if field not in base_fields and candidate in sudoku.get_candidates(*field):\n                        affected.append(field)\n"))

# ---------------------------------------------------------------- the loop of solve()
LOOP = "    while True:\n        for cls in SOLVERS:\n            if cls == CalculateCandidates:\n                continue\n\n            count = 0\n\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                count += 1\n\n            if count > 0:\n                break\n        else:\n            break\n"
r("solve flag", (SV, LOOP, "    progress = True\n    while progress:\n        progress = False\n        for cls in SOLVERS:\n            if cls == CalculateCandidates:\n                continue\n\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                progress = True\n\n            if progress:\n                break\n"))
r("solve filtered techniques", (SV, LOOP, "    techniques = [cls for cls in SOLVERS if cls != CalculateCandidates]\n    while True:\n        for cls in techniques:\n            count = 0\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                count += 1\n            if count:\n                break\n        else:\n            break\n"))
r("solve slice", (SV, LOOP, "    while True:\n        for cls in SOLVERS[1:]:\n            found = False\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                found = True\n            if found:\n                break\n        else:\n            return solution\n"))
r("solve helper", (SV, LOOP, "    while True:\n        for cls in SOLVERS:\n            if cls is not CalculateCandidates and _apply_steps(cls, solution, report):\n                break\n        else:\n            break\n"), (SV, "def solve(sudoku, report=lambda step: None):", "def _apply_steps(cls, sudoku, report):\n    count = 0\n    for step in cls.find(sudoku):\n        report(step)\n        step.apply(sudoku)\n        count += 1\n    return count\n\n\ndef solve(sudoku, report=lambda step: None):"))
r("solve round helper", (SV, LOOP, "    while _solve_round(solution, report):\n        pass\n"), (SV, "def solve(sudoku, report=lambda step: None):", "def _solve_round(solution, report):\n    for cls in SOLVERS:\n        if cls == CalculateCandidates:\n            continue\n        count = 0\n        for step in cls.find(solution):\n            report(step)\n            step.apply(solution)\n            count += 1\n        if count > 0:\n            return True\n    return False\n\n\ndef solve(sudoku, report=lambda step: None):"))
r("solve count outside", (SV, LOOP, "    count = 1\n    while count > 0:\n        count = 0\n        for cls in SOLVERS:\n            if cls == CalculateCandidates or count > 0:\n                continue\n\n            for step in cls.find(solution):\n                report(step)\n                step.apply(solution)\n                count += 1\n"))
r("solve enumerate", (SV, LOOP, "    while True:\n        for cls in SOLVERS:\n            if cls == CalculateCandidates:\n                continue\n\n            count = 0\n\n            for count, step in enumerate(cls.find(solution), 1):\n                report(step)\n                step.apply(solution)\n\n            if count > 0:\n                break\n        else:\n            break\n"))
r("solve unsolvable", (SV, "    init_candidates(solution, filled_only=True)\n", "    init_candidates(solution, True)\n"))
r("naked single filled skipped", (SV, "        for row, col in sudoku.empty():\n            candidates = sudoku.get", "        for row, col in sudoku:\n            if sudoku[row, col]:\n                continue\n            candidates = sudoku.get"))
r("naked single next", (SV, "                for value in candidates:\n                    break\n                yield cls(row, col, value)", "                yield cls(row, col, next(iter(candidates)))"))
r("naked single unpacked", (SV, "                for value in candidates:\n                    break\n                yield cls(row, col, value)", "                value, = candidates\n                yield cls(row, col, value)"))
r("hidden single seen set", (SV, "        yielded_coords = []\n\n        for row, col in sudoku.empty():\n            for f in", "        yielded_coords = set()\n\n        for row, col in sudoku.empty():\n            for f in"), (SV, "                        yielded_coords.append((row, col))\n                        yield cls(row, col, value)", "                        yielded_coords.add((row, col))\n                        yield cls(row, col, value)"))
r("bruteforce empty", (SV, "        for row, col in sudoku.diff(solution):", "        for row, col in sudoku.empty():"))
r("bruteforce loop", (SV, "        try:\n            solution = next(dlx(sudoku))\n        except StopIteration:\n            return\n", "        solution = next(dlx(sudoku), None)\n        if solution is None:\n            return\n"))
r("calculate if", (SV, "            if sudoku.get_candidates(row, col):\n                continue\n\n            values = calc_candidates(sudoku, row, col)\n            yield cls(((row, col),), ((row, col),), values)", "            if not sudoku.get_candidates(row, col):\n                values = calc_candidates(sudoku, row, col)\n                yield cls(((row, col),), ((row, col),), values)"))

# ---- encode and decode
r("encode in one loop", ("sudoku.py", """        rows = []
        for row in self.indices:
            numbers = [str(self[row, col]) for col in self.indices]
            rows.append(col_sep.join(numbers))

        s = row_sep.join(rows)
""", """        s = row_sep.join(
            col_sep.join(str(self[row, col]) for col in self.indices)
            for row in self.indices)
"""))
r("encode with get_number", ("sudoku.py", "numbers = [str(self[row, col]) for col in self.indices]", "numbers = [\"%d\" % self.get_number(row, col) for col in self.indices]"))
r("encode candidates comprehension", ("sudoku.py", """            all_candidates = []

            for row, col in self:
                clist = list(self.get_candidates(row, col))
                cstr = "".join([str(i) for i in sorted(clist)])
                all_candidates.append(cstr)
""", """            all_candidates = [
                "".join(map(str, sorted(self.get_candidates(row, col))))
                for row, col in self]
"""))
r("encode candidates helper", ("sudoku.py", """                clist = list(self.get_candidates(row, col))
                cstr = "".join([str(i) for i in sorted(clist)])
                all_candidates.append(cstr)
""", """                all_candidates.append(self._candidate_str(row, col))
"""), ("sudoku.py", "    @classmethod\n    def decode(cls", """    def _candidate_str(self, row, col):
        return "".join([str(i) for i in sorted(self.get_candidates(row, col))])

    @classmethod
    def decode(cls"""))
r("decode with zip", ("sudoku.py", """        for item in items:
            if item is empty:
                sudoku[row, col] = 0
            else:
                sudoku[row, col] = int(item)

            col += 1
            if col >= sudoku.box_width * sudoku.box_height:
                row += 1
                col = 0
            if row >= sudoku.box_width * sudoku.box_height:
                break
""", """        for (row, col), item in zip(sudoku, items):
            sudoku[row, col] = 0 if item is empty else int(item)
"""))
r("decode with enumerate", ("sudoku.py", """        for item in items:
            if item is empty:
                sudoku[row, col] = 0
            else:
                sudoku[row, col] = int(item)

            col += 1
            if col >= sudoku.box_width * sudoku.box_height:
                row += 1
                col = 0
            if row >= sudoku.box_width * sudoku.box_height:
                break
""", """        length = len(sudoku.indices)
        for i, item in enumerate(items):
            row, col = divmod(i, length)
            if row >= length:
                break
            if item == empty:
                sudoku[row, col] = 0
            else:
                sudoku[row, col] = int(item)
"""))
r("decode early continue", ("sudoku.py", """            if item is empty:
                sudoku[row, col] = 0
            else:
                sudoku[row, col] = int(item)
""", """            if item is not empty:
                number = int(item)
            else:
                number = 0
            sudoku[row, col] = number
"""))
r("decode candidates with zip", ("sudoku.py", """        for c in candidate_str.split(candidate_sep):
            c = c.strip()
            if number_sep:
                candidates = [int(item) for item in c.split(number_sep)]
            else:
                candidates = [int(item) for item in c]
            sudoku.set_candidates(row, col, candidates)
            col += 1
            if col == sudoku.box_width * sudoku.box_height:
                col = 0
                row += 1
            if row == sudoku.box_width * sudoku.box_height:
                break
""", """        for (row, col), c in zip(sudoku, candidate_str.split(candidate_sep)):
            c = c.strip()
            parts = c.split(number_sep) if number_sep else c
            sudoku.set_candidates(row, col, set(map(int, parts)))
"""))
r("decode partition", ("sudoku.py", """        if sudoku_sep in s:
            sudoku_str, candidate_str = s.split(sudoku_sep, 1)
        else:
            sudoku_str = s
            candidate_str = ""
""", """        sudoku_str, _, candidate_str = s.partition(sudoku_sep)
"""))
r("decode white space helper", ("sudoku.py", """        for c in whitespace:
            if c not in special:
                if number_sep:
                    s = s.replace(c, number_sep)
                else:
                    s = s.replace(c, "")
""", """        unused = [c for c in whitespace if c not in special]
        for c in unused:
            s = s.replace(c, number_sep or "")
"""))
