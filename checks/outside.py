"""C22: what the package may touch outside of itself.  Name resolution over the syntax tree plus interprocedural constant-argument analysis."""
import ast

from sa.program import AnalysisBroken, enclosing, snippet
from sa.report import Report

RULE = ("every expression that denotes a built-in or standard library facility (through imports, import aliases, assignments of it to names, "
        "attributes) is resolved; facilities that execute text, import, start processes, reach the file system, network, terminal or interpreter-wide "
        "settings are sinks. Library modules may not use any; the shell and the entry point may print, read standard input and exit; what they give to "
        "the operating system shell must be constant on every call path; a file may only be opened in the entry point, for reading, with the name given "
        "on the command line; text from the user never selects an attribute or global name")
SHELLS = ("sudokutools.shell", "sudokutools.__main__")
PACKAGE = "sudokutools"

EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "builtins.execfile", "builtins.__import__", "builtins.breakpoint", "importlib.", "runpy.", "code.", "codeop.", "pdb.",
        "imp.", "pkgutil.", "pickle.load", "pickle.loads", "pickle.Unpickler", "marshal.load", "marshal.loads", "shelve.", "timeit.", "cProfile.",
        "profile.", "bdb.", "doctest.", "ctypes.", "cffi.", "yaml.", "types.FunctionType", "types.CodeType", "builtins.reload", "zipimport."}
PROC = {"os.system", "os.popen", "os.spawn", "os.exec", "os.startfile", "os.fork", "os.posix_spawn", "subprocess.", "commands.", "pty.", "multiprocessing.",
        "os.kill", "os._exit", "os.abort", "signal.", "concurrent.", "threading.", "asyncio.", "_thread.", "popen2.", "platform.popen"}
FILES = {"builtins.open", "builtins.file", "io.open", "io.FileIO", "io.open_code", "codecs.open", "os.open", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir",
         "os.makedirs", "os.rmdir", "os.removedirs", "os.listdir", "os.scandir", "os.walk", "os.chdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.stat", "os.access",
         "os.read", "os.write", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.getsize", "os.truncate", "os.utime", "os.fdopen", "os.mkfifo", "os.pipe",
         "os.path.getmtime", "os.path.realpath", "pathlib.", "shutil.", "tempfile.", "glob.", "fileinput.", "linecache.", "sqlite3.", "dbm.", "zipfile.", "tarfile.", "gzip.", "bz2.",
         "lzma.", "mmap.", "pickle.dump", "marshal.dump", "configparser.", "ConfigParser.", "netrc.", "logging.FileHandler", "readline.write_history_file",
         "readline.read_history_file", "readline.append_history_file", "readline.read_init_file", "numpy.load", "csv.", "json.load", "json.dump", "argparse.FileType"}
FILES -= {"csv."}
NET = {"socket.", "urllib.", "urllib2.", "http.", "httplib.", "ftplib.", "smtplib.", "poplib.", "imaplib.", "telnetlib.", "xmlrpc.", "ssl.", "select.", "selectors.",
       "socketserver.", "webbrowser.", "requests."}
TERM = {"builtins.print", "builtins.input", "builtins.raw_input", "sys.stdout", "sys.stderr", "sys.stdin", "sys.__stdout__", "sys.__stderr__", "warnings.warn", "warnings.showwarning", "logging.",
        "pprint.pprint", "pprint.pp", "getpass.", "traceback.print_exc", "traceback.print_stack", "traceback.print_exception", "traceback.print_last", "curses.", "builtins.help", "turtle.", "tkinter."}
SETTINGS = {"sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "sys.setcheckinterval", "sys.set_int_max_str_digits", "sys.excepthook",
            "sys.displayhook", "sys.path", "sys.modules", "sys.meta_path", "sys.path_hooks", "sys.setdlopenflags", "sys.exit", "sys.set_asyncgen_hooks", "sys.set_coroutine_origin_tracking_depth",
            "sys.setdefaultencoding", "sys.addaudithook", "locale.setlocale", "os.environ", "os.putenv", "os.unsetenv", "os.umask", "os.setuid", "os.nice", "gc.disable", "gc.enable",
            "gc.set_threshold", "gc.freeze", "resource.setrlimit", "faulthandler.", "atexit.", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
            "decimal.setcontext", "decimal.getcontext", "random.seed", "random.setstate", "time.tzset", "time.sleep", "builtins.exit", "builtins.quit", "tracemalloc.", "site.", "sysconfig.",
            "multiprocessing.set_start_method", "socket.setdefaulttimeout", "mimetypes.", "sys.ps1", "sys.stdout", "sys.stderr", "sys.stdin", "sys.dont_write_bytecode", "sys.argv"}
KINDS = (("code execution", EXEC), ("processes", PROC), ("file system", FILES), ("network", NET), ("terminal and standard streams", TERM), ("interpreter-wide settings", SETTINGS))
PURE_READS = {"sys.path": False}


def classify(q):
    for kind, names in KINDS:
        for n in names:
            if q == n or (n.endswith(".") and (q.startswith(n) or q + "." == n)) or q.startswith(n + "."):
                return kind
            if n in ("os.spawn", "os.exec") and q.startswith(n):
                return kind
    return None


class Names(object):
    """What external thing an expression denotes: a set of dotted names (flow-insensitive, per scope)."""

    def __init__(self, prog):
        self.prog = prog
        self.scopes = {}
        self.memo = {}
        for mod, tree in prog.trees.items():
            self.collect(mod, tree)

    def collect(self, mod, tree):
        for n in ast.walk(tree):
            s = self.scope(n)
            env = self.scopes.setdefault(id(s), {})
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        env.setdefault(a.asname, []).append(("ext", a.name))
                    else:
                        env.setdefault(a.name.split(".")[0], []).append(("ext", a.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    up = mod.split(".")
                    up = up[:len(up) - n.level + (1 if self.prog.files[mod].endswith("__init__.py") else 0)]
                    base = ".".join(up + ([n.module] if n.module else []))
                for a in n.names:
                    env.setdefault(a.asname or a.name, []).append(("ext", base + "." + a.name))
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                env = self.scopes.setdefault(id(self.scope(getattr(n, "_parent", None) or tree)), {})
                env.setdefault(n.name, []).append(("local", n))
                if not isinstance(n, ast.ClassDef):
                    inner = self.scopes.setdefault(id(n), {})
                    a = n.args
                    ps = a.posonlyargs + a.args
                    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                        inner.setdefault(p.arg, []).append(("expr", d))
                    for p, d in zip(a.kwonlyargs, a.kw_defaults):
                        if d is not None:
                            inner.setdefault(p.arg, []).append(("expr", d))
                    for p in ps + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                        inner.setdefault(p.arg, []).append(("param", (n, p.arg)))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        env.setdefault(t.id, []).append(("expr", n.value))
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                env.setdefault(x.id, []).append(("other", n))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                env.setdefault(n.target.id, []).append(("expr", n.value))
            elif isinstance(n, ast.NamedExpr):
                env.setdefault(n.target.id, []).append(("expr", n.value))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                env.setdefault(n.target.id, []).append(("other", n))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.scopes.setdefault(id(self.scope(x)), {}).setdefault(x.id, []).append(("element", n.iter))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        env.setdefault(x.id, []).append(("other", n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                env.setdefault(n.name, []).append(("other", n))

    def scope(self, n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module, ast.ClassDef)):
            n = getattr(n, "_parent", None)
        return n

    def lookup(self, node, name):
        s = self.scope(node)
        first = True
        while s is not None:
            if not (isinstance(s, ast.ClassDef) and not first):
                env = self.scopes.get(id(s), {})
                if name in env:
                    return env[name]
                if isinstance(s, ast.Lambda) and any(p.arg == name for p in s.args.args + s.args.kwonlyargs):
                    return [("other", s)]
            first = isinstance(s, ast.ClassDef) and first
            s = self.scope(getattr(s, "_parent", None)) if getattr(s, "_parent", None) is not None else None
        return [("ext", "builtins." + name)]

    def refs(self, e, depth=0):
        """dotted external names e may denote"""
        k = id(e)
        if k in self.memo:
            return self.memo[k]
        if depth > 12:
            return set()
        self.memo[k] = set()
        out = set()
        if isinstance(e, ast.Name):
            for kind, v in self.lookup(e, e.id):
                if kind == "ext":
                    out |= self.package(v, depth)
                elif kind == "expr":
                    out |= self.refs(v, depth + 1)
        elif isinstance(e, ast.Attribute):
            for b in self.refs(e.value, depth + 1):
                out |= self.package(b + "." + e.attr, depth)
        elif isinstance(e, ast.IfExp):
            out = self.refs(e.body, depth + 1) | self.refs(e.orelse, depth + 1)
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                out |= self.refs(v, depth + 1)
        elif isinstance(e, ast.Call):
            f = self.refs(e.func, depth + 1)
            if "builtins.getattr" in f and len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                for b in self.refs(e.args[0], depth + 1):
                    out.add(b + "." + e.args[1].value)
            if "functools.partial" in f and e.args:
                out |= self.refs(e.args[0], depth + 1)
            if f & {"builtins.__import__", "importlib.import_module"} and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                out.add(e.args[0].value)
            if "builtins.globals" in f or "builtins.locals" in f or "builtins.vars" in f:
                pass
        elif isinstance(e, ast.Subscript):
            b = self.refs(e.value, depth + 1)
            if any(x in ("sys.modules",) for x in b) and isinstance(e.slice, ast.Constant):
                out.add(str(e.slice.value))
            if any(x == "builtins.__builtins__" or x.endswith(".__dict__") for x in b) and isinstance(e.slice, ast.Constant):
                out |= {(x[:-9] if x.endswith(".__dict__") else "builtins") + "." + str(e.slice.value) for x in b}
        self.memo[k] = out
        return out

    def package(self, q, depth):
        """A name of another module of the package: what that name denotes there; else the name itself."""
        if q.startswith("builtins.__builtins__."):
            q = "builtins." + q.split(".", 2)[2]
        if q in self.prog.trees or q == PACKAGE:
            return {q}
        mod, _, attr = q.rpartition(".")
        if mod in self.prog.trees:
            out = set()
            tree = self.prog.trees[mod]
            for kind, v in self.scopes.get(id(tree), {}).get(attr, []):
                if kind == "ext" and v != q:
                    out |= self.package(v, depth + 1) if depth < 10 else set()
                elif kind == "expr":
                    out |= self.refs(v, depth + 1)
                elif kind == "local":
                    out.add(q)
            return out or {q}
        if q.startswith(PACKAGE + "."):
            return {q}
        return {q}


class Constants(object):
    """Is the value of an expression independent of user text on every call path?  True / False / None (cannot tell)."""
    PUREFN = {"platform.system", "platform.platform", "platform.machine", "platform.release", "platform.version", "platform.python_version", "os.getpid",
              "shutil.get_terminal_size", "os.get_terminal_size", "builtins.str", "builtins.len", "builtins.int", "builtins.bool", "builtins.isinstance", "builtins.repr", "builtins.hasattr"}
    PUREATTR = {"sys.platform", "os.name", "sys.version_info", "os.sep", "os.linesep", "sys.version", "os.devnull", "sys.byteorder", "sys.maxsize"}

    def __init__(self, prog, names):
        self.prog, self.names = prog, names
        self.calls = {}
        for mod, tree in prog.trees.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                    self.calls.setdefault(nm, []).append(n)

    def all(self, xs):
        r = True
        for x in xs:
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def const(self, e, depth=0, seen=()):
        if depth > 60 or id(e) in seen:
            return True if id(e) in seen else None
        seen = seen + (id(e),)
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return self.all(self.const(x, depth + 1, seen) for x in e.elts)
        if isinstance(e, (ast.BinOp,)):
            return self.all([self.const(e.left, depth + 1, seen), self.const(e.right, depth + 1, seen)])
        if isinstance(e, ast.JoinedStr):
            return self.all(self.const(x.value if isinstance(x, ast.FormattedValue) else x, depth + 1, seen) for x in e.values)
        if isinstance(e, ast.IfExp):
            return self.all([self.const(e.body, depth + 1, seen), self.const(e.orelse, depth + 1, seen)])
        if isinstance(e, ast.BoolOp):
            return self.all(self.const(x, depth + 1, seen) for x in e.values)
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.Subscript):
            return self.const(e.value, depth + 1, seen)
        if isinstance(e, ast.Dict):
            return self.all(self.const(x, depth + 1, seen) for x in e.values)
        if isinstance(e, ast.Attribute):
            q = self.names.refs(e)
            if q and q <= self.PUREATTR:
                return True
            return False if self.const(e.value, depth + 1, seen) is False else None
        if isinstance(e, ast.Starred):
            return self.const(e.value, depth + 1, seen)
        if isinstance(e, ast.Call):
            q = self.names.refs(e.func)
            if q and q <= self.PUREFN:
                return self.all(self.const(x, depth + 1, seen) for x in e.args)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "format", "strip", "lower", "upper", "join", "split", "replace"):
                return self.all([self.const(e.func.value, depth + 1, seen)] + [self.const(x, depth + 1, seen) for x in e.args])
            if q & {"builtins.input", "builtins.raw_input"}:
                return False
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("readline", "read", "readlines"):
                return False
            parts = list(e.args) + [k.value for k in e.keywords] + ([e.func.value] if isinstance(e.func, ast.Attribute) else [])
            if any(self.const(x, depth + 1, seen) is False for x in parts):
                return False
            return None
        if isinstance(e, ast.Name):
            r = []
            for kind, v in self.names.lookup(e, e.id):
                if kind == "expr":
                    r.append(self.const(v, depth + 1, seen))
                elif kind == "element":
                    r.append(self.const(v, depth + 1, seen))
                elif kind == "param":
                    r.append(self.param(v[0], v[1], depth + 1, seen))
                elif kind == "ext":
                    r.append(True if v in self.PUREATTR else None)
                elif isinstance(v, (ast.Assign, ast.AugAssign)):
                    c = self.const(v.value, depth + 1, seen)
                    r.append(c)
                else:
                    r.append(None)
            return self.all(r)
        return None

    def param(self, fn, name, depth, seen):
        """False when a user can reach the function with text of his choice; else from its call sites."""
        a = fn.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if name not in ps + [p.arg for p in a.kwonlyargs]:
            return False if not self.internal(fn) else None
        method = isinstance(getattr(fn, "_parent", None), ast.ClassDef)
        if self.command(fn):
            return False
        sites = [c for c in self.calls.get(fn.name, [])]
        if not sites:
            return False
        r = []
        for c in sites:
            i = ps.index(name) - (1 if method and isinstance(c.func, ast.Attribute) else 0) if name in ps else None
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                r.append(False)
                continue
            kw = [k.value for k in c.keywords if k.arg == name]
            if kw:
                r.append(self.const(kw[0], depth + 1, seen))
            elif i is not None and 0 <= i < len(c.args):
                r.append(self.const(c.args[i], depth + 1, seen))
        return self.all(r)

    def internal(self, fn):
        return fn.name.startswith("_") and not fn.name.startswith("__")

    def command(self, fn):
        """Mentioned as a value somewhere (bound to a command): it can be called with arguments of the user."""
        for tree in self.prog.trees.values():
            for n in ast.walk(tree):
                p = getattr(n, "_parent", None)
                if isinstance(n, ast.Name) and n.id == fn.name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == fn.name and isinstance(n.ctx, ast.Load):
                    if not (isinstance(p, ast.Call) and p.func is n) and isinstance(p, (ast.Tuple, ast.Dict, ast.List, ast.Call, ast.Assign)):
                        return True
        return False


def main_only(n):
    """Inside  if __name__ == '__main__'  of a library module?"""
    while n is not None:
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test) and "__main__" in ast.unparse(n.test):
            return True
        n = getattr(n, "_parent", None)
    return False


def dead_branch(n):
    """Under a Python 2 version guard, or under a test that is constantly false."""
    child, n = n, getattr(n, "_parent", None)
    while n is not None:
        if isinstance(n, ast.If) and child in n.body:
            t = ast.unparse(n.test)
            if isinstance(n.test, ast.Constant) and not n.test.value:
                return True
            if "version_info" in t and ("<" in t and "3" in t or "<= 2" in t or "< (3" in t or "== 2" in t):
                return True
        child, n = n, getattr(n, "_parent", None)
    return False


def annotation(n):
    p = n
    while p is not None:
        q = getattr(p, "_parent", None)
        if isinstance(q, (ast.arg, ast.AnnAssign)) and q.annotation is p or isinstance(q, ast.FunctionDef) and q.returns is p:
            return True
        p = q
    return False


def outer(n):
    """The largest attribute chain around a name."""
    while isinstance(getattr(n, "_parent", None), ast.Attribute) and n._parent.value is n:
        n = n._parent
    return n


def commandline(names, e, depth=0):
    """Does e denote the file name given on the command line?"""
    if depth > 8:
        return False
    if isinstance(e, ast.Attribute):
        b = e.value
        return isinstance(b, ast.Name) and any(k == "expr" and isinstance(v, ast.Call) and "parse_" in ast.unparse(v.func) for k, v in names.lookup(b, b.id)) or (
            isinstance(b, ast.Call) and "parse_args" in ast.unparse(b.func))
    if isinstance(e, ast.Subscript):
        return "sys.argv" in names.refs(e.value) or any(commandline(names, e.value, depth + 1) for _ in (0,))
    if isinstance(e, ast.Name):
        vs = names.lookup(e, e.id)
        ok = False
        for k, v in vs:
            if k == "expr" and commandline(names, v, depth + 1):
                ok = True
            elif k == "param":
                ok = True
            elif k == "element" and commandline(names, v, depth + 1):
                ok = True
            else:
                return False
        return ok
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("expanduser", "abspath", "normpath", "strip", "pop"):
        return any(commandline(names, x, depth + 1) for x in list(e.args) + [e.func.value])
    return False


def user_option(names, tree, e):
    """The attribute must be the option that names the script: the positional one."""
    if isinstance(e, ast.Name):
        for k, v in names.lookup(e, e.id):
            if k == "expr":
                return user_option(names, tree, v)
        return True
    if isinstance(e, ast.Subscript):
        return user_option(names, tree, e.value)
    if not isinstance(e, ast.Attribute):
        return True
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
            dest = [k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)]
            name = dest[0] if dest else (max(flags, key=len).lstrip("-").replace("-", "_") if flags else None)
            if name == e.attr and flags and not str(flags[0]).startswith("-"):
                return True
            if name == e.attr:
                if "file" in name or "script" in name:
                    return True
                for x in ast.walk(tree):
                    if isinstance(x, ast.Call) and any(isinstance(y, ast.Attribute) and y.attr == e.attr for y in x.args) and "open" not in ast.unparse(x.func):
                        return False
                return None
    return None


def c22(prog):
    rep = Report("C22", prog, RULE, ["the caller's own objects (streams given to Shell, sudokus) do what they are named for",
                                     "standard library functions that are not listed as sinks in checks/outside.py have no outside effect"])
    names = Names(prog)
    cons = Constants(prog, names)
    for mod in SHELLS[:1]:
        if mod not in prog.trees:
            raise AnalysisBroken("module %s not found" % mod)
    for mod, tree in sorted(prog.trees.items()):
        lib = mod not in SHELLS
        bad = len(rep.viol)
        nref = 0
        for n in ast.walk(tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and outer(n) is n:
                if annotation(n) or dead_branch(n) or (lib and main_only(n)):
                    continue
                for q in sorted(names.refs(n)):
                    nref += 1
                    use(rep, prog, names, cons, mod, lib, n, q, tree)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                for q in sorted(names.refs(n.value)):
                    owner = q + ("." + n.attr if isinstance(n, ast.Attribute) else "")
                    root = q.split(".")[0]
                    if root == PACKAGE or main_only(n) or dead_branch(n):
                        continue
                    if q == "builtins." + getattr(n.value, "id", "\0"):
                        continue
                    con = "%s: %s" % (enclosing(n), snippet(n))
                    if lib or not owner.startswith("sys.std"):
                        rep.violate("no-outside-state", con, "changes %s of the interpreter" % owner, prog.loc(n))
                    else:
                        rep.violate("no-outside-state", con, "redirects %s of the interpreter" % owner, prog.loc(n))
            elif isinstance(n, ast.Call):
                select(rep, prog, names, cons, mod, n)
                method_sinks(rep, prog, names, mod, lib, n)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                b = n.value
                if isinstance(b, ast.Call) and names.refs(b.func) & {"builtins.globals", "builtins.vars", "builtins.locals"} or isinstance(b, ast.Attribute) and b.attr == "__dict__":
                    c = cons.const(n.slice)
                    con = "%s: %s" % (enclosing(n), snippet(n))
                    if c is not True:
                        # only names from the user matter
                        rep.check(False if c is False and not lib and bare(n.slice, names) else None, "text-selects-no-name", con,
                                  message="a global or attribute is selected by text of the user", loc=prog.loc(n))
        rep.count("modules")
        rep.count("references to outside names resolved", nref)
        if len(rep.viol) == bad:
            rep.holds("library-touches-nothing" if lib else "shell-uses", mod, "%d references resolved" % nref)
    argparsers(rep, prog, names)
    return rep


def use(rep, prog, names, cons, mod, lib, n, q, tree):
    root = q.split(".")[0]
    con = "%s: %s" % (enclosing(n), snippet(n))
    if root == PACKAGE:
        if lib and any(q == s or q.startswith(s + ".") for s in SHELLS):
            rep.violate("library-touches-nothing", con, "the library uses the interactive shell (%s)" % q, prog.loc(n))
        return
    kind = classify(q)
    if kind is None:
        return
    p = getattr(n, "_parent", None)
    call = p if isinstance(p, ast.Call) and p.func is n else None
    if isinstance(p, ast.Call) and p.func is not n and names.refs(p.func) & {"builtins.isinstance", "builtins.hasattr", "builtins.callable"}:
        return
    if isinstance(p, ast.Compare):
        return
    if lib:
        if q in ("sys.path", "sys.modules", "sys.argv", "os.environ") and not call:
            rep.undecided("library-touches-nothing", con, "reads %s" % q)
            return
        if kind == "interpreter-wide settings" and q.startswith("random.") and "Random" in q:
            return
        if q == "builtins.compile" and not call:
            return
        if q in ("json.load", "json.dump"):
            return
        rep.violate("library-touches-nothing", con, "%s: the library uses %s" % (kind, q), prog.loc(n))
        return
    # the shells
    if kind in ("terminal and standard streams",):
        if q.startswith("logging.") or q.startswith("tkinter.") or q.startswith("turtle."):
            rep.undecided("shell-uses", con, "uses %s" % q)
        return
    if q in ("sys.exit", "builtins.exit", "builtins.quit", "sys.argv", "sys.ps1"):
        return
    if q in ("pkgutil.get_data",):
        rep.undecided("shell-uses", con, "uses %s" % q)
        return
    if kind in ("code execution", "processes"):
        if q in ("signal.signal", "signal.SIGINT", "signal.SIGPIPE", "signal.SIG_DFL", "signal.SIG_IGN"):
            rep.undecided("shell-uses", con, "changes signal handling")
            return
        if q.startswith(("threading.", "concurrent.", "asyncio.", "timeit.", "doctest.", "pdb.", "code.", "cProfile.", "profile.", "types.")) and kind == "code execution" and q.startswith(("types.", "timeit.", "cProfile.", "profile.")):
            rep.undecided("shell-uses", con, "uses %s" % q)
            return
        if q.startswith("subprocess.") and q.split(".")[1].isupper():
            return
        if call is None:
            r = False if q in ("builtins.eval", "builtins.exec", "os.system", "os.popen") else None
            rep.check(r, "text-never-executed", con, message="%s is handed on as a function (%s)" % (q, kind), loc=prog.loc(n))
            return
        args = list(call.args) + [k.value for k in call.keywords]
        c = cons.all(cons.const(x) for x in args)
        if not args and q in ("builtins.breakpoint", "pdb.set_trace"):
            c = False
        rep.check(c, "text-never-executed", con, "constant: %s" % snippet(call),
                  "%s: text that is not constant on every call path reaches %s" % (kind, q) if c is False else "argument of %s not understood" % q, prog.loc(n))
        return
    if kind == "file system":
        if mod == SHELLS[0]:
            if q.startswith("os.path.") or q in ("os.get_terminal_size", "shutil.get_terminal_size") or q.startswith("readline."):
                rep.check(None, "files", con, message="uses %s" % q)
                return
            rep.violate("files", con, "the shell reaches the file system through %s" % q, prog.loc(n))
            return
        if call is None:
            if q == "argparse.FileType":
                rep.undecided("files", con, "files opened by argparse")
                return
            rep.undecided("files", con, "%s is handed on" % q)
            return
        if q == "argparse.FileType":
            mode = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "mode"), None)
            ok = mode is None or isinstance(mode, ast.Constant) and str(mode.value).startswith("r") and "+" not in str(mode.value)
            rep.check(ok if ok else False, "files", con, "read", "a file is opened for writing", prog.loc(n))
            return
        if q in ("builtins.open", "io.open", "codecs.open", "builtins.file"):
            mode = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == "mode"), None)
            if mode is not None and not isinstance(mode, ast.Constant):
                if cons.const(mode) is not True:
                    rep.undecided("files", con, "mode of open not understood")
                    return
                vals = set()
                for x in ast.walk(mode):
                    if isinstance(x, ast.Constant):
                        vals.add(str(x.value))
                m = [v for v in vals if any(ch in v for ch in "wax+")]
                rep.check(None if m else True, "files", con, "read", "mode of open not understood", prog.loc(n))
                return
            if mode is not None and (any(ch in str(mode.value) for ch in "wax+")):
                rep.violate("files", con, "a file is opened for writing (mode %r)" % mode.value, prog.loc(n))
                return
            what = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "file"), None)
            if what is not None and commandline(names, what):
                o = user_option(names, tree, what)
                rep.check(o, "files", con, "only the script named on the command line is opened, for reading",
                          "opens a file that is not the script named on the command line" if o is False else "option not understood", prog.loc(n))
            elif isinstance(what, ast.Constant) and isinstance(what.value, (str, bytes)):
                rep.violate("files", con, "opens the file %r" % (what.value,), prog.loc(n))
            else:
                rep.check(False if what is not None and cons.const(what) is False else None, "files", con,
                          message="opens a file that is not the script named on the command line", loc=prog.loc(n))
            return
        if q in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.access", "os.stat", "os.path.getsize", "os.path.realpath") or q.startswith("pathlib.") and q.count(".") == 1:
            what = call.args[0] if call.args else None
            rep.check(True if what is not None and commandline(names, what) else None, "files", con, "reads only", "uses %s" % q, prog.loc(n))
            return
        if q in ("fileinput.input", "fileinput.FileInput"):
            rep.check(None, "files", con, message="uses %s" % q)
            return
        rep.violate("files", con, "the entry point reaches the file system through %s" % q, prog.loc(n))
        return
    if kind == "network":
        rep.violate("shell-uses", con, "the shell uses the network (%s)" % q, prog.loc(n))
        return
    rep.undecided("shell-uses", con, "%s: uses %s" % (kind, q))


def bare(e, names=None):
    """The text itself, neither prefixed (a naming scheme for commands) nor looked up in a table before."""
    if isinstance(e, ast.BinOp) or isinstance(e, ast.JoinedStr) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
        return False
    if isinstance(e, ast.Name) and names is not None:
        for kind, v in names.lookup(e, e.id):
            if kind == "expr" and v is not e and not bare(v, None):
                return False
    src = ast.unparse(e)
    f = e
    while f is not None and not isinstance(f, (ast.FunctionDef, ast.Module)):
        f = getattr(f, "_parent", None)
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) and ast.unparse(n.left) == src:
            return False
    return True


def select(rep, prog, names, cons, mod, n):
    """getattr / setattr / import with a name chosen by the user."""
    q = names.refs(n.func)
    con = "%s: %s" % (enclosing(n), snippet(n))
    if q & {"builtins.getattr", "builtins.setattr", "builtins.delattr", "operator.attrgetter", "operator.methodcaller"}:
        at = n.args[0] if q & {"operator.attrgetter", "operator.methodcaller"} and n.args else n.args[1] if len(n.args) > 1 else None
        if at is None or mod not in SHELLS:
            return
        c = cons.const(at)
        if c is True:
            return
        rep.check(False if c is False and bare(at, names) else None, "text-selects-no-name", con, message="an attribute is selected by text of the user", loc=prog.loc(n))
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "__getitem__", "pop") and n.args:
        b = n.func.value
        if isinstance(b, ast.Call) and names.refs(b.func) & {"builtins.globals", "builtins.vars", "builtins.locals"} or isinstance(b, ast.Attribute) and b.attr == "__dict__":
            c = cons.const(n.args[0])
            if c is not True and mod in SHELLS:
                rep.check(False if c is False and bare(n.args[0], names) else None, "text-selects-no-name", con, message="a global or attribute is selected by text of the user", loc=prog.loc(n))


FILE_METHODS = {"write_text", "write_bytes", "read_text", "read_bytes", "unlink", "rmdir", "touch", "makefile", "connect"}


def method_sinks(rep, prog, names, mod, lib, n):
    f = n.func
    if not isinstance(f, ast.Attribute) or names.refs(f):
        return
    con = "%s: %s" % (enclosing(n), snippet(n))
    if f.attr in FILE_METHODS:
        rep.check(None, "files", con, message="method %s of an object that is not understood" % f.attr, loc=prog.loc(n))


def argparsers(rep, prog, names):
    for mod, tree in prog.trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and "argparse.ArgumentParser" in names.refs(n.func):
                for k in n.keywords:
                    if k.arg == "fromfile_prefix_chars" and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                        rep.violate("files", "%s: %s" % (enclosing(n), "ArgumentParser"), "arguments of the command line are read from files", prog.loc(n))
                rep.count("argument parsers")
