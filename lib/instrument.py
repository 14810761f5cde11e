"""Loads the package with a yield point before every statement.

The sources are parsed. Every statement is preceded by a call of a hook with
the number of its site, and so are the use of the result of each call inside a
statement and each access to an attribute, an item, the elements of a container
or a global variable that some function assigns; nothing else changes. The hook
of an access learns which object is accessed and how.
"""
import ast
import imp
import os
import sys
import __builtin__

HOOK = '__mc_at__'
CALL = '__mc_call__'
ACCESS = '__mc_access__'

#: functions that look at (or change) what they are given
LOOKING = set('''list set dict tuple frozenset sorted len iter enumerate map
    filter zip min max sum reversed any all getattr hasattr setattr delattr
    vars dir next repr str unicode'''.split())
#: methods that change their object
CHANGING = set('''append extend insert pop remove sort reverse update
    setdefault clear popitem add discard difference_update
    intersection_update symmetric_difference_update appendleft popleft
    '''.split())

#: number -> (file, line)
SITES = []
#: modules that could not be instrumented
PLAIN = []


class Transformer(ast.NodeTransformer):
    def __init__(self, name, assigned=()):
        self.name = name
        self.assigned = assigned

    def access(self, node, what, write):
        """node, announced as the object of an access"""
        c = ast.Call(ast.Name(ACCESS, ast.Load()), [
            ast.Num(self.site(node)), ast.Str(what), ast.Num(int(write)),
            node], [], None, None)
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_Attribute(self, node):
        self.generic_visit(node)
        a = node.attr
        if a.startswith('__') and a != '__dict__':
            return node
        node.value = self.access(
            node.value, 'm' + a if isinstance(node.ctx, ast.Load) else
            'a' + a, not isinstance(node.ctx, ast.Load))
        return node

    def visit_Name(self, node):
        if node.id in self.assigned and isinstance(node.ctx, ast.Load):
            return self.access(node, 'g' + self.name + ':' + node.id, False)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.access(node.iter, 'c', False)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.access(node.iter, 'c', False)
        return node

    def site(self, node):
        SITES.append((self.name, node.lineno))
        return len(SITES) - 1

    def at(self, node):
        e = ast.Expr(ast.Call(ast.Name(HOOK, ast.Load()), [
            ast.Num(self.site(node))], [], None, None))
        return ast.fix_missing_locations(ast.copy_location(e, node))

    def block(self, body, head=False):
        out = []
        for i, s in enumerate(body):
            doc = head and i == 0 and isinstance(s, ast.Expr) and \
                isinstance(s.value, ast.Str)
            future = isinstance(s, ast.ImportFrom) and \
                s.module == '__future__'
            s2 = self.visit(s)
            if not doc and not future and not isinstance(s, ast.Global):
                out.append(self.at(s))
                for n in self.stores(s):
                    out.append(ast.copy_location(ast.Expr(self.access(
                        ast.copy_location(ast.Num(0), s),
                        'g' + self.name + ':' + n, True)), s))
            out.extend(self.split(s2))
        return out

    def split(self, s):
        """Globals that are assigned together are assigned one by one."""
        if not isinstance(s, ast.Assign) or len(s.targets) != 1 or \
                not isinstance(s.targets[0], ast.Tuple) or not self.stores(s):
            return [s]
        ts = s.targets[0].elts
        if [t for t in ts if not isinstance(t, ast.Name)]:
            return [s]
        out = [s]
        for i, t in enumerate(ts):
            tmp = '__mc_tmp_%d' % i
            a = ast.Assign([ast.Name(t.id, ast.Store())],
                           ast.Name(tmp, ast.Load()))
            out.append(self.at(s))
            out.append(ast.fix_missing_locations(ast.copy_location(a, s)))
            ts[i] = ast.copy_location(ast.Name(tmp, ast.Store()), t)
        return out

    def stores(self, s):
        if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete)):
            return []
        out = []
        for t in getattr(s, 'targets', None) or [s.target]:
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and n.id in self.assigned and \
                        not isinstance(n.ctx, ast.Load):
                    out.append(n.id)
        return out

    def bodies(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, f == 'body' and isinstance(
                    node, (ast.FunctionDef, ast.ClassDef, ast.Module))))
        return node

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if field in ('body', 'orelse', 'finalbody') and isinstance(
                    value, list):
                continue
            if isinstance(value, list):
                if not [v for v in value if isinstance(v, ast.AST)]:
                    continue
                setattr(node, field, [
                    self.visit(v) if isinstance(v, ast.AST) else v
                    for v in value])
            elif isinstance(value, ast.AST):
                setattr(node, field, self.visit(value))
        return self.bodies(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in LOOKING:
            node.args = [self.access(a, 'l' + node.func.id,
                                     node.func.id in ('setattr', 'delattr'))
                         for a in node.args]
        return self.called(node)

    def called(self, node):
        c = ast.Call(ast.Name(CALL, ast.Load()), [
            ast.Num(self.site(node)), node], [], None, None)
        return ast.fix_missing_locations(ast.copy_location(c, node))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        load = isinstance(node.ctx, ast.Load)
        node.value = self.access(node.value, 'c', not load)
        return self.called(node) if load else node

    def visit_Compare(self, node):
        self.generic_visit(node)
        node.comparators = [
            self.access(c, 'c', False) if isinstance(o, (ast.In, ast.NotIn))
            else c for o, c in zip(node.ops, node.comparators)]
        return self.called(node)


class Importer(object):
    """PEP 302 importer of one package."""
    def __init__(self, root, package, skip=()):
        self.root = root
        self.package = package
        self.skip = skip

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), p
        if os.path.isfile(p + '.py'):
            return p + '.py', None

    def find_module(self, name, path=None):
        if name.split('.')[0] == self.package and self.path(name) and \
                not name.startswith(self.skip):
            return self

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        path, package = self.path(name)
        source = open(path).read().replace('\r\n', '\n')
        tree = compile(source + '\n', path, 'exec', ast.PyCF_ONLY_AST)
        assigned = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                assigned.update([str(x) for x in n.names])
        try:
            tree = Transformer(os.path.relpath(path, self.root),
                               assigned).visit(tree)
            code = compile(tree, path, 'exec')
        except Exception:
            # something the platform can not compile when it grows
            PLAIN.append(name)
            code = compile(source + '\n', path, 'exec')
        m = sys.modules[name] = imp.new_module(name)
        m.__file__ = path
        m.__loader__ = self
        if package:
            m.__path__ = [package]
        try:
            exec code in m.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return sys.modules[name]


def nothing(site):
    pass


def identity(site, value):
    return value


def silent(site, what, write, value):
    return value


def hook(at, call, access):
    setattr(__builtin__, HOOK, at)
    setattr(__builtin__, CALL, call)
    setattr(__builtin__, ACCESS, access)


def location(what, write, value):
    """(where, is it changed?) of an access, or None"""
    k, name = what[:1], what[1:]
    t = type(value)
    container = isinstance(value, (dict, list, set))
    if k == 'g':
        return what, bool(write)
    if k == 'm' and container and not hasattr(value, '__dict__'):
        return ('c', id(value)), name in CHANGING
    if k == 'm' and container and name in CHANGING:
        return ('c', id(value)), True
    if k in 'ma':
        return ('a', id(value), name), bool(write)
    if k == 'c':
        if container or write:
            return ('c', id(value)), bool(write)
        return None
    if k == 'l':
        if container:
            return ('c', id(value)), bool(write)
        if name in ('getattr', 'hasattr', 'setattr', 'delattr', 'vars') and \
                hasattr(value, '__dict__'):
            return ('a', id(value), '*'), bool(write)
    return None


def install(root, package='pyamf', skip=('pyamf.tests',)):
    hook(nothing, identity, silent)
    i = Importer(root, package, skip)
    sys.meta_path.insert(0, i)
    return i
