"""Program model: the parsed sources of the repository."""

import ast
import hashlib
import os


class Module(object):
    def __init__(self, name, path, tree, source, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.is_pkg = is_pkg
        self.rel = path


class Program(object):
    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}
        self.errors = []
        for pkg in ('strata', 'droplets'):
            base = os.path.join(root, pkg)
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in ('tests', 'test', '__pycache__'))
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == '__init__'
                    if is_pkg:
                        parts = parts[:-1]
                    name = '.'.join(parts)
                    with open(p, encoding='utf-8') as fp:
                        src = fp.read()
                    try:
                        tree = ast.parse(src, rel)
                    except SyntaxError as err:
                        self.errors.append('%s: %s' % (rel, err))
                        continue
                    m = Module(name, p, tree, src, is_pkg)
                    m.rel = rel
                    self.modules[name] = m
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                for child in ast.iter_child_nodes(node):
                    child._parent = node
        self.digest = hashlib.sha256(''.join(
            m.name + '\0' + m.source for m in self.modules.values()).encode()).hexdigest()[:16]

    def add_refs(self, folder):
        """Reference definitions of the checks (modules ref.*)."""
        if not os.path.isdir(folder):
            return
        for f in sorted(os.listdir(folder)):
            if not f.endswith('.py') or f == '__init__.py':
                continue
            p = os.path.join(folder, f)
            with open(p, encoding='utf-8') as fp:
                src = fp.read()
            name = 'ref.' + f[:-3]
            tree = ast.parse(src, p)
            m = Module(name, p, tree, src, False)
            self.modules[name] = m
            for node in ast.walk(tree):
                for child in ast.iter_child_nodes(node):
                    child._parent = node
        if 'ref' not in self.modules:
            self.modules['ref'] = Module('ref', folder, ast.parse(''), '', True)

    def functions(self):
        """(module, qualname, node) of every function definition."""
        for m in self.modules.values():
            for q, n in _functions(m.tree, ''):
                yield m, q, n

    def find(self, modname, qual):
        m = self.modules.get(modname)
        if m is None:
            return None
        for q, n in _functions(m.tree, ''):
            if q == qual:
                return n
        return None


def _functions(node, prefix):
    for child in ast.iter_child_nodes(node):
        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + child.name
            yield q, child
            for x in _functions(child, q + '.'):
                yield x
        elif isinstance(child, ast.ClassDef):
            for x in _functions(child, prefix + child.name + '.'):
                yield x
        else:
            for x in _functions(child, prefix):
                yield x
