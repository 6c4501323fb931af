"""Interrupting the code under test: an exception raised just before a chosen statement of it.

The statements of a call are counted as they are reached; the k-th one raises instead.  Statements of loops written on one line count
once.  Cleaning up is not interrupted (finally and except blocks, the ends of with blocks, the try line itself): Python gives no code
the means to survive that."""
import ast
import sys
import types

TOOL = 3
_mods = ("template", "response", "utils", "fitter", "kcorrect")


def cleanup_lines(source):
    """Lines at which nothing is raised"""
    out = set()
    for n in ast.walk(ast.parse(source)):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.Try):
            out.update(range(n.lineno, n.body[0].lineno))
            for h in n.handlers:
                out.update(range(h.lineno, h.end_lineno + 1))
            if n.finalbody:
                out.update(range(n.finalbody[0].lineno, n.finalbody[-1].end_lineno + 1))
    return out


def functions(pkg):
    """Code objects of the functions and methods of the package's modules"""
    todo = [getattr(pkg, m) for m in _mods]
    files = {m.__file__ for m in todo}
    seen, codes = set(), []
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType):
            todo += [v for v in vars(o).values() if isinstance(v, (type, types.FunctionType)) or hasattr(v, "__wrapped__")]
        elif isinstance(o, type):
            if getattr(sys.modules.get(o.__module__), "__file__", None) in files:
                todo += list(vars(o).values())
        elif isinstance(o, types.FunctionType):
            todo.append(o.__code__)
            todo += [x.cell_contents for x in o.__closure__ or () if isinstance(x.cell_contents, types.FunctionType)]
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo += [f for f in (o.fget, o.fset, o.fdel) if f is not None]
        elif isinstance(o, types.CodeType):
            if o.co_filename in files:
                codes.append(o)
                todo += [c for c in o.co_consts if isinstance(c, types.CodeType)]
        if hasattr(o, "__wrapped__"):
            todo.append(o.__wrapped__)
    return codes


class Interrupts:
    def __init__(self, pkg):
        self.off = {getattr(pkg, m).__file__: cleanup_lines(open(getattr(pkg, m).__file__).read()) for m in _mods}
        self.stop()
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "interrupts")
        mon.register_callback(TOOL, mon.events.LINE, self.reached)
        for c in functions(pkg):
            mon.set_local_events(TOOL, c, mon.events.LINE)

    def reached(self, code, line):
        if not self.counting or (code, line) == self.last:
            return
        self.last = (code, line)
        if line in self.off[code.co_filename]:
            return
        self.n += 1
        if self.n - 1 == self.at:
            self.counting = False
            self.where = "%s line %d" % (code.co_qualname, line)
            raise self.exc("interrupted")

    def start(self, at=None, exc=KeyboardInterrupt):
        self.at, self.exc, self.n, self.last, self.where, self.counting = at, exc, 0, None, None, True

    def stop(self):
        self.counting, self.last, self.where, self.at, self.n, self.exc = False, None, None, None, 0, None
