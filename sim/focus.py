"""Where to look first: library code that touches state outliving a call.

The search is directed, the verdict is not: lines that store attributes, module-level names or items, use module-level
mutable objects, locks, `out=` buffers or process settings get more of the switches, aborts and nested calls, and
operations that execute such lines get more of the runs. What counts as a violation is decided elsewhere, from what the
calls return. Where no such line exists the search is uniform over distinct code locations.
"""

import ast
import dis
import gc
import inspect
import json
import random
import sys
import time
import types

from . import engine

NAMES = {
    'setdefault', 'pop', 'popitem', 'update', 'acquire', 'release', '__dict__', 'append', 'appendleft', 'clear', '__setattr__',
    '__setitem__', 'move_to_end', 'seterr', 'seterrcall', 'filterwarnings', 'simplefilter', 'catch_warnings', 'errstate',
    'printoptions', 'set_printoptions', 'seed', 'disable', 'enable', 'setrecursionlimit', 'environ', 'putenv', 'setlocale',
    'localcontext', 'getcontext', 'setflags', 'flags', 'fill', 'put', 'sort', 'partition', 'resize', 'itemset', 'copyto', 'putmask',
    'setattr', 'delattr', 'vars', 'rc_context', 'rcParams', 'use', 'gca', 'gcf', 'sca', 'ion', 'ioff', 'chdir', 'signal', 'setsignal',
    'setbufsize', 'set_state', 'setstate', 'register', 'setitimer', 'cached_property', 'cache', 'lru_cache', 'writeable',
    'setswitchinterval', 'set_threshold', 'settrace', 'setprofile', 'excepthook', 'import_module', '__import__',
}
CONSTRUCTORS = {'__init__', '__new__', '__array_finalize__', '__setstate__'}
PLAIN = (types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, str, int, float, complex, bytes, frozenset, type(None),
         types.GenericAlias, types.MethodDescriptorType, types.WrapperDescriptorType)


def stateful(x):
    """May the object change when it is used?"""
    import numpy as np

    if isinstance(x, PLAIN) or isinstance(x, np.ufunc):
        return False
    if isinstance(x, tuple):
        return any(stateful(y) for y in x)
    if type(x).__module__ in ('typing', 'typing_extensions', '__future__', 'numpy._typing'):
        return False
    if type(x).__name__ in ('_ArrayFunctionDispatcher', 'vectorize', 'Union', 'UnionType'):
        return False
    return True


def stores(tree):
    """Lines of a module that write to something other than a fresh local object, by first line of the function."""
    found = {}

    def visit(node, function):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                first = min([child.lineno] + [d.lineno for d in getattr(child, 'decorator_list', ())])
                inner = {'name': getattr(child, 'name', '<lambda>'), 'lines': set(), 'shared': set(), 'own': set()}
                a = child.args
                inner['args'] = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                for n in ast.walk(child):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            for name in [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]:
                                inner['own'].add(name)
                                if isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
                                    inner['shared'].add(name)
                    elif isinstance(n, (ast.For, ast.comprehension, ast.withitem)):
                        t = n.optional_vars if isinstance(n, ast.withitem) else n.target
                        if t is not None:
                            inner['own'] |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                found[first] = inner
                visit(child, inner)
            else:
                if function is not None:
                    note(child, function)
                visit(child, function)

    def note(node, f):
        targets = []
        if isinstance(node, ast.Assign):
            targets = node.targets
        elif isinstance(node, (ast.AnnAssign, ast.AugAssign)):
            targets = [node.target]
        elif isinstance(node, ast.Delete):
            targets = node.targets
        elif isinstance(node, (ast.Global, ast.Nonlocal)):
            f['own'] -= set(node.names)
            f['outer'] = f.get('outer', set()) | set(node.names)
        elif isinstance(node, ast.With):
            f['lines'].update(range(node.lineno, node.end_lineno + 1))
        elif isinstance(node, ast.Call) and any(k.arg in ('out', 'where') for k in node.keywords):
            f['lines'].update(range(node.lineno, node.end_lineno + 1))
        while targets:
            t = targets.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                targets = targets + list(t.elts)
            elif isinstance(t, ast.Starred):
                targets = targets + [t.value]
            elif isinstance(t, ast.Attribute):
                if f['name'] not in CONSTRUCTORS:
                    f['lines'].update(range(node.lineno, node.end_lineno + 1))
            elif isinstance(t, ast.Subscript):
                root = t.value
                deep = False
                while isinstance(root, (ast.Attribute, ast.Subscript)):
                    root, deep = root.value, True
                name = root.id if isinstance(root, ast.Name) else None
                if deep or name is None or name in f['args'] or name in f['shared'] or name not in f['own']:
                    f['lines'].update(range(node.lineno, node.end_lineno + 1))
            elif isinstance(t, ast.Name):
                if t.id in f.get('outer', ()) or (isinstance(node, ast.AugAssign) and (t.id in f['args'] or t.id in f['shared'])):
                    f['lines'].update(range(node.lineno, node.end_lineno + 1))

    visit(tree, None)
    return {first: f['lines'] for first, f in found.items()}


def lines_of(code, function, special, modules):
    """Lines of a code object worth stopping at."""
    found = set()
    line = code.co_firstlineno
    names = {}
    if function is not None:
        names = function.__globals__
        if any(stateful(x) for x in (function.__defaults__ or ())) or any(stateful(x) for x in (function.__kwdefaults__ or {}).values()):
            found.add(line)
    cells = {}
    if function is not None and function.__closure__:
        for name, cell in zip(code.co_freevars, function.__closure__):
            try:
                cells[name] = cell.cell_contents
            except ValueError:
                continue
    if code.co_filename not in modules:
        try:
            with open(code.co_filename) as f:
                tree = ast.parse(f.read())
            modules[code.co_filename] = stores(tree), attempts(tree)
        except (OSError, SyntaxError):
            modules[code.co_filename] = {}, {}
    found |= modules[code.co_filename][0].get(code.co_firstlineno, set())
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None:
            line = ins.starts_line
        op = ins.opname
        if op == 'LOAD_GLOBAL':
            if ins.argval in special or (ins.argval in names and stateful(names[ins.argval])):
                found.add(line)
        elif op in ('LOAD_ATTR', 'LOAD_METHOD', 'IMPORT_FROM', 'LOAD_SUPER_ATTR') and ins.argval in special:
            found.add(line)
        elif op == 'LOAD_DEREF' and ins.argval in cells and stateful(cells[ins.argval]):
            found.add(line)
    return found


def attempts(tree):
    """Bodies of `try` and `with` statements, by first line of the function: the places where an error may be dealt with."""
    found = {}

    def visit(node, ranges):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                first = min([child.lineno] + [d.lineno for d in getattr(child, 'decorator_list', ())])
                visit(child, found.setdefault(first, []))
                continue
            if ranges is not None and isinstance(child, (ast.Try, ast.With)):
                ranges.append((child.body[0].lineno, child.body[-1].end_lineno))
            visit(child, ranges)

    visit(tree, None)
    return {first: ranges for first, ranges in found.items() if ranges}


def containers():
    """Containers and caches of the library that outlive a call: (name, function giving the size)."""
    found = []
    seen = set()

    def note(name, x, depth):
        if id(x) in seen:
            return
        seen.add(id(x))
        if hasattr(x, 'cache_info'):
            found.append((name, lambda: x.cache_info().currsize))
        elif isinstance(x, (dict, list, set, bytearray)) or type(x).__name__ in ('deque', 'WeakValueDictionary', 'WeakKeyDictionary', 'WeakSet'):
            found.append((name, lambda: len(x)))
        elif isinstance(x, types.FunctionType):
            for k, y in enumerate(x.__defaults__ or ()):
                note(f'{name}/default {k}', y, depth)
            for cell in x.__closure__ or ():
                try:
                    y = cell.cell_contents
                except ValueError:
                    continue
                if not isinstance(y, types.FunctionType) or depth < 3:
                    note(f'{name}/closure', y, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            note(name, x.__func__, depth)
        elif isinstance(x, property):
            note(name, x.fget, depth)
        elif inspect.isclass(x):
            if x.__module__.startswith('skspatial'):
                for k, y in sorted(vars(x).items()):
                    if not (k.startswith('__') and k.endswith('__') and not isinstance(y, types.FunctionType)):
                        note(f'{name}.{k}', y, depth + 1)
        elif type(x).__module__.startswith('skspatial') and hasattr(x, '__dict__') and depth < 3:
            for k, y in sorted(vars(x).items()):
                note(f'{name}.{k}', y, depth + 1)

    for name, module in sorted(sys.modules.items()):
        if name.startswith('skspatial') and module is not None:
            for key, x in sorted(vars(module).items()):
                if not key.startswith('__'):
                    note(f'{name}.{key}', x, 0)
    return found


def filling(ops, pool_specs, config=None):
    """How many of these calls bring a container of the library to its limits: the numbers of calls, if any."""
    from . import catalog, scenario
    from .values import build

    def body():
        scenario.Configured.process(config)
        scenario.Configured.thread(config)
        pool = {n: build(s) for n, s in pool_specs.items()}
        known = containers()
        sizes = [[size() for _, size in known]]
        for op in ops:
            try:
                catalog.call(op, *catalog.prepare(op, pool))
            except Exception:
                pass
            sizes.append([size() for _, size in known])
        limits = set()
        grown = False
        for k in range(len(known)):
            s = [row[k] for row in sizes]
            grown = grown or max(s) > s[0] + 1
            for i in range(1, len(s)):
                if s[i] < s[i - 1] and s[i - 1] > 2:
                    limits.add(i - 1)
            top = max(s)
            if top > s[0] + 2:
                first = s.index(top)
                if first < len(s) - 12 and min(s[first:]) >= top - 1:
                    limits.add(first)
        return grown, sorted(limits)

    return scenario.forked(body)


class Fillings:
    """The last few answers of filling()."""

    def __init__(self):
        self.memo = {}

    def get(self, ops, pool_specs, config=None):
        key = json.dumps([ops, pool_specs, config], sort_keys=True)
        if key not in self.memo:
            if len(self.memo) > 20:
                self.memo.clear()
            self.memo[key] = filling(ops, pool_specs, config)
        return self.memo[key]


class Focus:
    """The lines worth stopping at, and the code objects that have some."""

    def __init__(self):
        self.templates = {}
        self.guards = {}
        self.guarding = {}
        functions = {}
        for f in gc.get_objects():
            if isinstance(f, types.FunctionType):
                functions.setdefault(id(f.__code__), f)
        engine.collect_codes()
        special = NAMES | self.foreign()
        modules = {}
        self.lines = {}
        for number, code in engine._codes.values():
            found = lines_of(code, functions.get(id(code)), special, modules)
            if found:
                self.lines[number] = found
            ranges = modules[code.co_filename][1].get(code.co_firstlineno)
            if ranges:
                self.guards[number] = ranges

    def foreign(self):
        """Names under which library classes and modules hold caches and other stateful objects."""
        out = set()
        for name, module in sorted(sys.modules.items()):
            if not name.startswith('skspatial') or module is None:
                continue
            for key, x in sorted(vars(module).items()):
                if inspect.isclass(x) and x.__module__.startswith('skspatial'):
                    for k, y in sorted(vars(x).items()):
                        inner = y.__func__ if isinstance(y, (staticmethod, classmethod)) else y
                        if hasattr(inner, 'cache_info') or type(inner).__name__ == 'cached_property':
                            out.add(k)
                        elif isinstance(y, (dict, list, set)) or type(y).__module__ == 'numpy' or hasattr(y, 'acquire'):
                            if not k.startswith('__'):
                                out.add(k)
                elif hasattr(x, 'cache_info'):
                    out.add(key)
        return out

    def hot(self, number, line):
        return number in self.lines and line in self.lines[number]

    def __bool__(self):
        return bool(self.lines)

    def window(self, events):
        """Numbers of the events at, or soon after, lines worth stopping at, one per code location."""
        marked = []
        line = {}
        for n, (kind, number, x, callee) in enumerate(events, 1):
            if kind == engine.LINE:
                line[number] = x
            elif kind == engine.START:
                line[number] = None
            if number in self.lines and line.get(number) in self.lines[number]:
                marked.append(n)
        if not marked:
            return []
        near = set()
        for n in marked:
            near.update(range(max(1, n - 2), min(len(events), n + 8) + 1))
        # Everything executed between two marks close to each other counts as well.
        for a, b in zip(marked, marked[1:]):
            if b - a < 400:
                near.update(range(a, b))
        return sorted(near)


    def guarded(self, events):
        """Numbers of the events inside bodies of `try` and `with` statements, by statement."""
        found = {}
        active = set()
        for n, (kind, number, x, callee) in enumerate(events, 1):
            if number in self.guards:
                if kind == engine.LINE:
                    for low, high in self.guards[number]:
                        (active.add if low <= x <= high else active.discard)((number, low))
                elif kind == engine.RET:
                    active = {b for b in active if b[0] != number}
            for block in active:
                found.setdefault(block, []).append(n)
        return found

    # -- operations that run such lines ---------------------------------------------------------------------------

    def rank(self, families):
        """Finds the templates whose operations come near such lines, by running examples of each."""
        from . import catalog, driver, scenario

        jobs = []
        for dim in (2, 3):
            for t in distinct(dim, families):
                jobs.append((dim, t))
        hot = {}
        tries = 10 if self.lines else 3

        def part(out, k):
            for dim, t in jobs[k::driver.WORKERS]:
                marked, blocks = False, set()
                for n in range(min(tries, 4) if t.cost > 10 else tries):
                    if marked and n >= 3:
                        break
                    gen = catalog.Gen(random.Random(f'{dim}/{t.label}/{n}'), dim=dim, n_pool=3, shared=0.5)
                    op = gen.op(t)
                    try:
                        events, _ = scenario.warm(op, gen.pool)
                    except RuntimeError:
                        continue
                    marked = marked or bool(self.window(events))
                    blocks |= set(self.guarded(events))
                out({'dim': dim, 'label': t.label, 'hot': marked, 'blocks': sorted(blocks)})

        fns = [(lambda out, k=k: part(out, k)) for k in range(driver.WORKERS)]
        guarding = {}
        for record in driver.gather(fns, time.monotonic() + 300):
            if record['hot']:
                hot.setdefault(record['dim'], set()).add(record['label'])
            for block in record['blocks']:
                guarding.setdefault(record['dim'], {}).setdefault(tuple(block), set()).add(record['label'])
        for dim, labels in hot.items():
            self.templates[dim] = [t for t in distinct(dim, families) if t.label in labels]
        for dim, blocks in guarding.items():
            self.guarding[dim] = [[t for t in distinct(dim, families) if t.label in blocks[b]] for b in sorted(blocks)]

    def guarded_templates(self, dim, families):
        """For each such statement the templates of these families that run it."""
        known = self.guarding.get(dim) or self.guarding.get(3 if dim > 3 else 2) or []
        usable = [[t for t in ts if t.family in families and dim in t.dims] for ts in known]
        return [ts for ts in usable if ts]

    def hot_templates(self, dim, families):
        """Templates of these families that come near such lines."""
        known = self.templates.get(dim) or self.templates.get(3 if dim > 3 else 2) or []
        return [t for t in known if t.family in families and dim in t.dims]


def distinct(dim, families):
    from . import catalog

    return sorted({id(t): t for t in catalog.usable(dim, families)}.values(), key=lambda t: t.label)


def describe(focus):
    by_number = {n: c for n, c in engine._codes.values()}
    return {by_number[n].co_qualname: sorted(found) for n, found in sorted(focus.lines.items())}
