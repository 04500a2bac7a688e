"""Fault injection: raise an exception at the k-th source line of the package that a call executes.

No fault is injected where code that cleans up correctly could not help it: on `with` and `try` lines themselves, inside
`finally` and `except` blocks and `__exit__` methods, and in whatever those call.
"""
import ast
import sys
from . import sched

MON = sys.monitoring
TOOL = 3
_S = {'on': False, 'n': 0, 'k': 0, 'exc': None, 'places': None, 'hit': False}


class Interrupted(KeyboardInterrupt):
    pass


class Failed(RuntimeError):
    pass


class NoMemory(MemoryError):
    pass


EXC = {'interrupt': Interrupted, 'error': Failed, 'memory': NoMemory}


_SAFE = {}


def _protected_lines(path):
    if path not in _SAFE:
        out = set()
        for n in ast.walk(ast.parse(open(path, 'rb').read())):
            if isinstance(n, ast.With):
                out.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
            elif isinstance(n, ast.Try):
                out.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
                for b in [h.body for h in n.handlers] + [n.finalbody]:
                    if b:
                        out.update(range(b[0].lineno, b[-1].end_lineno + 1))
                for h in n.handlers:
                    out.add(h.lineno)
            elif isinstance(n, ast.FunctionDef) and n.name in ('__exit__', '__del__'):
                out.update(range(n.lineno, n.end_lineno + 1))
        _SAFE[path] = out
    return _SAFE[path]


def _cleaning_up():
    f = sys._getframe(2)
    while f is not None:
        if '/deepquantum/' in f.f_code.co_filename and f.f_lineno in _protected_lines(f.f_code.co_filename):
            return True
        f = f.f_back
    return False


def _line(code, at):
    if _S['on']:
        _S['n'] += 1
        if _S['places'] is not None:
            _S['places'].append((code.co_filename.rsplit('/', 1)[-1], code.co_name, at))
        if _S['n'] == _S['k']:
            _S['on'] = False
            if _cleaning_up():
                return
            _S['hit'] = True
            raise _S['exc']('injected at step %d' % _S['k'])


def prepare():
    """Ask for line events in every function of the package (called before forking; cheap to repeat)."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'mc faults')
        MON.register_callback(TOOL, MON.events.LINE, _line)
    for c in sched._codes().values():
        MON.set_local_events(TOOL, c, MON.events.LINE)


def places(fn):
    """The lines fn() executes, in order."""
    _S.update(on=True, n=0, k=0, places=[])
    try:
        fn()
    finally:
        _S['on'] = False
        out, _S['places'] = _S['places'], None
    return out


def run(fn, k, exc):
    """fn() failing at its k-th line: ('raised', exception) or ('returned', result)."""
    _S.update(on=True, n=0, k=k, exc=EXC[exc], hit=False)
    try:
        r = fn()
        return 'returned', r
    except (Exception, KeyboardInterrupt) as e:
        if not _S['hit']:
            raise
        return 'raised', e
    finally:
        _S['on'] = False
