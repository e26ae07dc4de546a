"""Program model: the package's sources, parsed.  Nothing of /repo is imported or run."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "sudokutools"


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (an anchor is gone, a file does not parse)."""


class Program(object):
    def __init__(self, repo=REPO, overrides=None):
        self.repo = repo
        self.trees = {}
        self.sources = {}
        self.files = {}
        root = os.path.join(repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("no package %s in %s" % (PKG, repo))
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.add(name, rel, src)
        for name, src in (overrides or {}).items():
            self.add(name, name.replace(".", "/") + ".py", src)

    def add(self, name, rel, src):
        try:
            tree = ast.parse(src, rel)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.trees[name] = tree
        self.sources[name] = src
        self.files[name] = rel
        for n in ast.walk(tree):
            n._mod = name
            for child in ast.iter_child_nodes(n):
                child._parent = n

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.sources):
            h.update(k.encode()); h.update(self.sources[k].encode())
        return h.hexdigest()[:16]

    def loc(self, node):
        mod = getattr(node, "_mod", None)
        return "%s:%s" % (self.files.get(mod, mod), getattr(node, "lineno", "?"))

    def functions(self):
        """(module, qualname, node) of every function, method and lambda."""
        out = []

        def walk(node, mod, prefix):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + ch.name
                    out.append((mod, q, ch))
                    walk(ch, mod, q + ".")
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, mod, prefix + ch.name + ".")
                else:
                    walk(ch, mod, prefix)
        for m, t in self.trees.items():
            walk(t, m, "")
        return out

    def func(self, mod, qual):
        for m, q, n in self.functions():
            if m == mod and q == qual:
                return n
        raise AnalysisBroken("anchor %s.%s not found" % (mod, qual))


def enclosing(node):
    """Qualified name of the function around a node."""
    parts = []
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            parts.append(n.name)
        n = getattr(n, "_parent", None)
    return ".".join(reversed(parts)) or "<module>"


def snippet(node):
    try:
        s = ast.unparse(node)
    except Exception:
        s = node.__class__.__name__
    s = s.split("\n")[0]
    return s if len(s) < 100 else s[:97] + "..."
