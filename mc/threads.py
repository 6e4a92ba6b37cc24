"""Stateless exploration of the schedules of a multi-threaded program (CHESS style, bounded preemptions).

The jobs run in real threads of which exactly one may go on at a time. A thread can lose its turn at every scheduling
point: the operations in the library's own frames that can touch something another thread sees (attributes, items,
globals, closure cells, calls, in-place operations; grain "line": the first such operation of every line, "call": of
every function). A schedule is a list of segments
(thread, number of points); after the last segment the threads run to their end, the others first. Before every
schedule the library's module- and class-level state is put back to what it was at import.
"""
import atexit
import builtins
import copy
import dis
import os
import sys
import threading
import types

import qtcodes

ROOT = os.path.dirname(os.path.abspath(qtcodes.__file__)) + os.sep
SHARED = {
    "LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_SUPER_ATTR", "LOAD_GLOBAL", "STORE_GLOBAL", "DELETE_GLOBAL",
    "LOAD_NAME", "STORE_NAME", "LOAD_DEREF", "STORE_DEREF", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR",
    "BINARY_SLICE", "STORE_SLICE", "CALL", "CALL_FUNCTION_EX", "CONTAINS_OP", "FOR_ITER", "BINARY_OP",
    "UNPACK_SEQUENCE", "GET_ITER", "LIST_EXTEND", "DICT_UPDATE", "SET_UPDATE", "DICT_MERGE",
}
STALL = 0.4
GRAINS = ("op", "line", "call")
_mon = sys.monitoring
_TOOL = 3
_points = {}  # code -> {offset of a visible operation: 2 first of the code, 1 first of its line, 0 other}
_active = {}  # thread id -> (control, number of the thread)


def _visible(code):
    """The code's operations that touch what another thread may see."""
    pts = _points.get(code)
    if pts is None:
        glob = vars(sys.modules.get(_module(code.co_filename), builtins))
        pts = {}
        lines = set()
        entry = 2
        for ins in dis.get_instructions(code):
            if ins.opname not in SHARED:
                continue
            if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                if hasattr(builtins, str(ins.argval)) and ins.argval not in glob:
                    continue
                if isinstance(glob.get(ins.argval), (types.ModuleType, types.FunctionType, type)):
                    continue
            line = ins.positions.lineno
            pts[ins.offset] = entry if entry else int(line not in lines)
            entry = 0
            lines.add(line)
        _points[code] = pts
    return pts


def _module(filename):
    rel = os.path.relpath(filename, os.path.dirname(ROOT.rstrip(os.sep)))
    name = os.path.splitext(rel)[0].replace(os.sep, ".")
    return name[:-len(".__init__")] if name.endswith(".__init__") else name


def _on_instruction(code, offset):
    first = _visible(code).get(offset)
    if first is None:
        return _mon.DISABLE
    who = _active.get(threading.get_ident())
    if who is not None and first >= who[0].coarse:
        who[0].point(who[1])


def _watch(code):
    if code.co_filename.startswith(ROOT) and code not in _watched:
        _watched.add(code)
        _mon.set_local_events(_TOOL, code, _mon.events.INSTRUCTION)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _watch(c)


_watched = set()


def _on_start(code, _offset, _watch=_watch, _off=_mon.DISABLE):
    _watch(code)
    return _off


def arm():
    """Makes the library's code report its operations."""
    if _mon.get_tool(_TOOL):
        return
    _mon.use_tool_id(_TOOL, "mc.threads")
    _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instruction)
    _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
    for h in _holders():
        for f in _functions(h):
            _watch(f.__code__)
            if isinstance(getattr(f, "__wrapped__", None), types.FunctionType):
                _watch(f.__wrapped__.__code__)
    _mon.set_events(_TOOL, _mon.events.PY_START)
    atexit.register(_mon.set_events, _TOOL, 0)


class Control:
    def __init__(self, n, segments, grain):
        self.segments = list(segments)
        self.coarse = GRAINS.index(grain)
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.count = [0] * n
        self.free = False
        self.ticks = 0
        self.over = threading.Event()
        self.left = 0
        self.last = None
        self.switches = 0

    # every method below runs in the thread that has the turn (or in main before the first turn)
    def _next(self, cur):
        while self.segments:
            tid, n = self.segments.pop(0)
            if not self.done[tid]:
                self.left = n
                return tid
        self.left = -1
        n = len(self.done)
        base = -1 if cur is None else cur
        for k in range(1, n + 1):
            tid = (base + k) % n
            if not self.done[tid]:
                return tid
        return None

    def give(self, cur):
        nxt = self._next(cur)
        if nxt is None:
            self.over.set()
            return False
        if nxt == cur:
            return False
        self.switches += 1
        self.gates[nxt].release()
        return True

    def point(self, tid):
        self.ticks += 1
        self.count[tid] += 1
        if self.free:
            return
        self.left -= 1
        if self.left == 0 and self.give(tid):
            self.gates[tid].acquire()


def run(jobs, segments=(), grain="op", limit=60):
    """Results of the jobs [("ok", value) | ("raised", type name, text)], points per thread, whether the schedule was
    kept to the end; None for the results when the threads do not finish."""
    arm()
    n = len(jobs)
    ctl = Control(n, segments, grain)
    forced = False
    out = [None] * n

    def body(tid):
        ctl.gates[tid].acquire()
        try:
            _active[threading.get_ident()] = (ctl, tid)
            try:
                res = ("ok", jobs[tid]())
            finally:
                del _active[threading.get_ident()]
        except BaseException as e:  # noqa: B902 - the outcome of the job
            res = ("raised", type(e).__name__, str(e)[:300])
        out[tid] = res
        ctl.done[tid] = True
        if all(ctl.done):
            ctl.over.set()
        elif not ctl.free:
            ctl.give(tid)

    threads = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    for t in threads:
        t.start()
    try:
        ctl.give(None)
        seen, waited = -1, 0.0
        while not ctl.over.wait(STALL):
            waited += STALL
            if ctl.ticks == seen and not ctl.free:  # the thread with the turn waits for one without: let all go
                ctl.free = forced = True
                for g in ctl.gates:
                    g.release()
            seen = ctl.ticks
            if waited > limit:
                return None, ctl.count, False
        for t in threads:
            t.join(limit)
    finally:
        ctl.free = True
        for g in ctl.gates:
            g.release()
    return out, ctl.count, not forced


def schedules(counts, bound, same=False):
    """All two-thread schedules with at most `bound` preemptions (bound 0: both orders). same: the two jobs are alike,
    so that thread 0 may always begin."""
    yield []
    if not same:
        yield [(1, 1 << 30)]
    for first in (0,) if same else (0, 1):
        a, b = counts[first], counts[1 - first]
        if bound >= 1:
            for k in range(1, a):
                yield [(first, k)]
        if bound >= 2:
            for k in range(1, a):
                for m in range(1, b):
                    yield [(first, k), (1 - first, m)]


# ---- module-level state ------------------------------------------------------------------------------------------

def _holders():
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == "qtcodes" or name.startswith("qtcodes.")):
            continue
        yield mod
        for val in list(vars(mod).values()):
            if isinstance(val, type) and val.__module__.startswith("qtcodes"):
                yield val


def _plain(val):
    return not isinstance(val, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, property,
                                classmethod, staticmethod)) and not callable(val)


def _fresh(val):
    return copy.deepcopy(val) if isinstance(val, (dict, list, set, bytearray)) else val


def _functions(h):
    for v in list(vars(h).values()):
        if isinstance(v, property):
            v = v.fget
        f = getattr(v, "__func__", v)
        if isinstance(f, types.FunctionType):
            yield f


def snapshot():
    """What `reset` puts back."""
    snap = []
    for h in _holders():
        vals = {}
        for k, v in list(vars(h).items()):
            if k.startswith("__") or k == "_abc_impl" or not _plain(v):
                continue
            vals[k] = (v, _fresh(v))
        defaults = [(v, copy.deepcopy(v)) for f in _functions(h)
                    for v in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())
                    if isinstance(v, (dict, list, set))]
        snap.append((h, set(vars(h)), vals, defaults, [(f, dict(f.__dict__)) for f in _functions(h)]))
    return snap


def _refill(v, was):
    if isinstance(v, (dict, set)):
        v.clear()
        v.update(copy.deepcopy(was))
    elif isinstance(v, (list, bytearray)):
        v[:] = copy.deepcopy(was)


def reset(snap):
    for h, names, vals, defaults, functions in snap:
        for k in set(vars(h)) - names:
            if not isinstance(vars(h)[k], types.ModuleType):
                delattr(h, k)
        for k, (v, was) in vals.items():
            _refill(v, was)
            if vars(h).get(k) is not v:
                setattr(h, k, v)
        for v, was in defaults:
            _refill(v, was)
        for f, attrs in functions:
            if f.__dict__ != attrs:
                f.__dict__.clear()
                f.__dict__.update(attrs)
        for v in list(vars(h).values()):
            f = getattr(v, "__func__", v)
            if callable(getattr(f, "cache_clear", None)):
                f.cache_clear()
