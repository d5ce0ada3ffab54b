"""Symbolic execution of the Python layer.

The real modules of gufo.snmp are loaded from the tree under test and executed with proxy values: every branch on a symbolic condition
asks z3 whether both sides are possible and all feasible paths are explored, by replaying the decisions taken so far.
Numbers are exact rationals num/den over z3 integers.  Time is virtual: time, time.sleep and the event loop of asyncio advance a clock
which is such a number too.  The compiled extension gufo.snmp._fast is a stand-in supplied by the harness.
"""
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
import time as _time
import types
from fractions import Fraction

import z3

REPO = os.environ.get("SX_REPO", "/repo")


class Skip(BaseException):
    """The path is not feasible under an assumption, or is cut"""


class Failed(BaseException):
    """A check failed"""


class Limit(BaseException):
    pass


class Run:
    """One path: prefix of decisions, and what was learnt"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.names = {}
        self.concretized = 0
        self.clock = None

    def query(self, *extra):
        ex = self.ex
        ex.queries += 1
        if _time.time() > ex.deadline:
            raise Limit("time limit")
        t = _time.time()
        r = self.solver.check(*extra)
        ex.solver_s += _time.time() - t
        if r == z3.sat:
            ex.sat += 1
        elif r == z3.unsat:
            ex.unsat += 1
        else:
            ex.unknown += 1
            raise Limit("solver returned unknown")
        return r == z3.sat

    def add(self, c):
        self.solver.add(c)


RUN = None
VALUES = None  # concrete run: name -> value
OBS = None


def symbolic():
    return VALUES is None


def decide(c):
    """Truth of the z3 condition"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    r = RUN
    n = len(r.trace)
    if n < len(r.prefix):
        d = r.prefix[n]
        r.trace.append(d)
        r.add(c if d else z3.Not(c))
        return d
    yes = r.query(c)
    no = r.query(z3.Not(c)) if yes else True
    if yes and no:
        r.ex.forks += 1
        r.ex.todo.append(r.trace + [False])
    r.trace.append(yes)
    r.add(c if yes else z3.Not(c))
    return yes


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return mkbool(self.e == bexpr(o))

    def __hash__(self):
        return hash(bool(self))


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.num != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def ival(e):
    """Python int of the z3 numeral or None"""
    return e.as_long() if z3.is_int_value(e) else None


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class SymNum:
    """Rational num/den, den > 0. fl: float of Python, int otherwise"""

    def __init__(self, num, den=1, fl=False):
        num, den = z3.simplify(I(num)), z3.simplify(I(den))
        d = ival(den)
        if d is not None and d != 1:
            # divide by the common factor
            g = d
            for t in terms(num):
                g = math.gcd(g, t)
                if g == 1:
                    break
            if g > 1:
                num = z3.simplify(exact_div(num, g))
                den = I(d // g)
        elif d is None:
            n = ival(num)
            g = 0 if n is None else n
            g = math.gcd(coef_gcd(num), coef_gcd(den))
            if g > 1:
                num, den = z3.simplify(exact_div(num, g)), z3.simplify(exact_div(den, g))
        self.num, self.den, self.fl = num, den, fl

    # arithmetics
    def _bin(self, o, f, fl=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        num, den = f(self, o)
        return norm(SymNum(num, den, self.fl or o.fl if fl is None else fl))

    def __add__(self, o):
        def f(a, b):
            if z3.eq(a.den, b.den):
                return a.num + b.num, a.den
            x, y = ival(a.den), ival(b.den)
            if x and y:
                m = x * y // math.gcd(x, y)
                return a.num * (m // x) + b.num * (m // y), I(m)
            return a.num * b.den + b.num * a.den, a.den * b.den

        return self._bin(o, f)

    __radd__ = __add__

    def __neg__(self):
        return norm(SymNum(-self.num, self.den, self.fl))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self + norm(SymNum(-o.num, o.den, o.fl))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, lambda a, b: (a.num * b.num, a.den * b.den))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if decide(o.num == 0):
            raise ZeroDivisionError("division by zero")
        if decide(o.num > 0):
            return norm(SymNum(self.num * o.den, self.den * o.num, True))
        return norm(SymNum(-self.num * o.den, self.den * -o.num, True))

    def __rtruediv__(self, o):
        return lift(o) / self

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        fl = self.fl or o.fl
        if decide(o.num == 0):
            raise ZeroDivisionError("division by zero")
        a, b = self.num * o.den, self.den * o.num
        if decide(o.num < 0):
            a, b = -a, -b
        return norm(SymNum(floor_div(a, b), 1, fl))

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        return divmod(lift(o), self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return NotImplemented

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, float) and math.isinf(o):
            return f(0, 1 if o > 0 else -1)
        o = lift(o)
        if o is None:
            return NotImplemented
        if z3.eq(self.den, o.den):
            return mkbool(f(self.num, o.num))
        x, y = ival(self.den), ival(o.den)
        if x and y:
            g = math.gcd(x, y)
            return mkbool(f(self.num * (y // g), o.num * (x // g)))
        return mkbool(f(self.num * o.den, o.num * self.den))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return decide(self.num != 0)

    # conversions
    def __floor__(self):
        return norm(SymNum(floor_div(self.num, self.den)))

    def __ceil__(self):
        return norm(SymNum(-floor_div(-self.num, self.den)))

    def __trunc__(self):
        if decide(self.num >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, n=None):
        if n:
            k = 10**n
            r = (self * k).__round__()
            return norm(lift(r) / k)
        f = lift(self.__floor__())
        rest = self - f
        if rest * 2 == 1:
            return f if f % 2 == 0 else f + 1
        r = f if rest * 2 < 1 else f + 1
        return norm(SymNum(lift(r).num, 1, self.fl and n is not None))

    def as_integer_ratio(self):
        return norm(SymNum(self.num)), norm(SymNum(self.den))

    @property
    def numerator(self):
        return norm(SymNum(self.num))

    @property
    def denominator(self):
        return norm(SymNum(self.den))

    def is_integer(self):
        return self.__floor__() == self

    # last resort: one value of many
    def concrete(self):
        r = RUN
        r.concretized += 1
        r.ex.concretized += 1
        r.query()
        m = r.solver.model()
        n, d = m.eval(self.num, True).as_long(), m.eval(self.den, True).as_long()
        r.add(z3.And(self.num == n, self.den == d))
        v = Fraction(n, d)
        return v

    def __float__(self):
        return builtins.float(self.concrete())

    def __int__(self):
        return builtins.int(self.concrete())

    __index__ = __int__

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        v = self.concrete()
        return format(builtins.float(v) if self.fl else builtins.int(v), spec)

    def __repr__(self):
        return "SymNum(%s, %s)" % (self.num, self.den)


def terms(e):
    """Integer coefficients of the sum"""
    if z3.is_add(e):
        for x in e.children():
            yield from terms(x)
        return
    v = ival(e)
    if v is not None:
        yield v
        return
    if z3.is_mul(e):
        p = 1
        for x in e.children():
            v = ival(x)
            if v is not None:
                p *= v
        yield p
        return
    yield 1


def coef_gcd(e):
    g = 0
    for t in terms(e):
        g = math.gcd(g, t)
    return g or 1


def exact_div(e, g):
    if z3.is_add(e):
        return z3.Sum([exact_div(x, g) for x in e.children()])
    v = ival(e)
    if v is not None:
        return I(v // g)
    if z3.is_mul(e):
        k = 1
        rest = []
        for x in e.children():
            v = ival(x)
            if v is not None:
                k *= v
            else:
                rest.append(x)
        r = I(k // g)
        for x in rest:
            r = r * x
        return r
    return e


def floor_div(a, b):
    """a // b with b > 0"""
    a, b = z3.simplify(a), z3.simplify(b)
    x, y = ival(a), ival(b)
    if x is not None and y is not None:
        return I(x // y)
    if y == 1:
        return a
    if y is not None:
        g = y
        for t in terms(a):
            g = math.gcd(g, t)
        if g > 1:
            return floor_div(exact_div(a, g), I(y // g))
        q = RUN.ex.fresh("q")
        RUN.add(z3.And(q * y <= a, a < q * y + y))
        return q
    # quotient, product and the facts about the product which need no multiplication
    q = RUN.ex.fresh("q")
    m = q * b
    RUN.add(z3.And(m <= a, a < m + b))
    RUN.add(z3.And(z3.Implies(a >= b, m >= b), z3.Implies(a >= 0, q >= 0), z3.Implies(z3.And(a >= 0, a < b), q == 0), z3.Implies(a < 0, q <= -1)))
    return q


def lift(x):
    if isinstance(x, SymNum):
        return x
    if isinstance(x, bool):
        return SymNum(builtins.int(x))
    if isinstance(x, int):
        return SymNum(x)
    if isinstance(x, float):
        if not math.isfinite(x):
            return None
        n, d = x.as_integer_ratio()
        return SymNum(n, d, True)
    if isinstance(x, Fraction):
        return SymNum(x.numerator, x.denominator, True)
    if isinstance(x, SymBool):
        return SymNum(z3.If(x.e, 1, 0))
    return None


def norm(x):
    """Constants leave the symbolic world"""
    n, d = ival(x.num), ival(x.den)
    if n is None or d is None:
        return x
    if not x.fl:
        return n if d == 1 else Fraction(n, d)
    v = Fraction(n, d)
    f = builtins.float(v)
    return f if Fraction(f) == v else SymConst(v)


class SymConst(Fraction):
    """Exact value of what is not a float"""


def sym_int(name, lo, hi):
    """Any integer of lo .. hi"""
    if not symbolic():
        return VALUES.get(name, lo)
    if name in RUN.names:
        raise RuntimeError(name)
    v = z3.Int(name)
    RUN.names[name] = v
    RUN.add(z3.And(v >= lo, v <= hi))
    return SymNum(v)


def choose(name, n):
    """Any of 0 .. n - 1, as Python int"""
    v = sym_int(name, 0, n - 1)
    for i in range(n - 1):
        if v == i:
            return i
    return n - 1


def assume(c):
    if not symbolic():
        if not c:
            raise Skip
        return
    e = z3.simplify(bexpr(c))
    if z3.is_true(e):
        return
    RUN.add(e)
    if z3.is_false(e) or not RUN.query():
        raise Skip


def check(c, msg):
    if not symbolic():
        if not c:
            raise Failed(msg)
        return
    ex = RUN.ex
    ex.checks += 1
    e = z3.simplify(bexpr(c))
    if z3.is_true(e):
        return
    ex.checks_symbolic += 1
    if RUN.query(z3.Not(e)):
        m = RUN.solver.model()
        raise Failed(msg, {k: m.eval(v, True).as_long() for k, v in RUN.names.items()})
    RUN.add(e)


def reach(n):
    if symbolic():
        RUN.ex.reached[n] = RUN.ex.reached.get(n, 0) + 1


def fail(msg):
    check(False, msg)


class Explorer:
    def __init__(self, limit):
        self.todo = [[]]
        self.queries = self.sat = self.unsat = self.unknown = self.forks = self.checks = self.checks_symbolic = self.paths = self.cut = self.concretized = 0
        self.solver_s = 0.0
        self.reached = {}
        self.n = 0
        self.deadline = _time.time() + limit
        self.samples = []

    def fresh(self, name):
        self.n += 1
        return z3.Int("%s!%d" % (name, self.n))


# What stand-ins may be blamed for
ODD = (AttributeError, ImportError, NameError, TypeError, NotImplementedError, z3.Z3Exception)


def unexpected(e):
    return "unexpected exception %s: %s" % (type(e).__name__, e)


def explore(fn, args, limit=300, max_viol=3):
    """-> explorer, violations [(msg, values)], inconclusive"""
    global RUN
    ex = Explorer(limit)
    viol, inc = [], []
    while ex.todo:
        prefix = ex.todo.pop()
        RUN = Run(ex, prefix)
        ex.n = 0
        try:
            fn(*args)
            ex.paths += 1
            if len(ex.samples) < 4 and RUN.query():
                m = RUN.solver.model()
                ex.samples.append({k: m.eval(v, True).as_long() for k, v in RUN.names.items()})
        except Skip:
            ex.cut += 1
        except Failed as e:
            ex.paths += 1
            values = e.args[1] if len(e.args) > 1 else {}
            if not values and RUN.query():
                m = RUN.solver.model()
                values = {k: m.eval(v, True).as_long() for k, v in RUN.names.items()}
            viol.append((e.args[0], values))
            if len(viol) >= max_viol:
                break
        except Limit as e:
            inc.append(str(e))
            break
        except ODD:
            raise
        except Exception as e:
            ex.paths += 1
            values = {}
            if RUN.query():
                m = RUN.solver.model()
                values = {k: m.eval(v, True).as_long() for k, v in RUN.names.items()}
            viol.append((unexpected(e), values))
            if len(viol) >= max_viol:
                break
    RUN = None
    return ex, viol, inc


def replay(fn, args, values):
    """Concrete run on the same modules. -> message of the failed check or None"""
    global VALUES
    VALUES = dict(values)
    try:
        fn(*args)
    except Failed as e:
        return e.args[0]
    except Skip:
        return None
    except ODD:
        raise
    except Exception as e:
        return unexpected(e)
    finally:
        VALUES = None
    return None


# The modules under test


def is_num(x):
    return isinstance(x, SymNum)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or is_num(x) and x.fl or isinstance(x, SymConst)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class Float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_num(x):
            return norm(SymNum(x.num, x.den, True)) if not x.fl else x
        if isinstance(x, SymConst):
            return x
        if isinstance(x, Fraction) and not symbolic():
            return builtins.float(x)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or is_num(x) and not x.fl

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class Int(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes

    def __new__(cls, x=0, *a):
        if is_num(x):
            return x.__trunc__()
        return builtins.int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))


class Bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return x if isinstance(x, SymBool) else builtins.bool(x)


class VirtualTime(types.ModuleType):
    """Stand-in of the time module"""

    def __init__(self):
        super().__init__("time")
        self.now = 0  # ns
        self.slept = []

    def reset(self, start=0):
        self.now = start
        self.slept = []

    def perf_counter_ns(self):
        return self.now

    monotonic_ns = time_ns = perf_counter_ns

    def perf_counter(self):
        return div(self.now, 10**9)

    monotonic = time = perf_counter

    def sleep(self, x):
        d = ns(x)
        self.slept.append(d)
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        self.now = self.now + d

    def get_clock_info(self, name):
        return types.SimpleNamespace(resolution=1e-9)


def div(a, b):
    if is_num(a) or is_num(b):
        return a / b
    return Fraction(a) / b


def ns(x):
    """Seconds to nanoseconds, exact"""
    if is_num(x):
        return norm(SymNum(x.num * 10**9, x.den))
    return Fraction(x) * 10**9 if not isinstance(x, builtins.int) else x * 10**9


TIME = VirtualTime()


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name == "time":
        return TIME
    return builtins.__import__(name, globals, locals, fromlist, level)


def _builtins():
    d = dict(vars(builtins))
    d.update(float=Float, int=Int, bool=Bool, __import__=_import)
    return d


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, fast):
        self.fast = fast
        self.loaded = {}

    def find_spec(self, name, path, target=None):
        if name == "gufo":
            s = importlib.util.spec_from_loader(name, self, is_package=True)
            return s
        if not name.startswith("gufo."):
            return None
        if name == "gufo.snmp._fast":
            return importlib.util.spec_from_loader(name, self)
        base = os.path.join(REPO, "src", *name.split("."))
        if os.path.isdir(base):
            return importlib.util.spec_from_loader(name, self, origin=os.path.join(base, "__init__.py"), is_package=True)
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_loader(name, self, origin=base + ".py")
        return None

    def create_module(self, spec):
        if spec.name == "gufo.snmp._fast":
            return self.fast
        return None

    def exec_module(self, module):
        o = module.__spec__.origin
        if not o or not os.path.exists(o):
            return
        module.__file__ = o
        with open(o) as f:
            src = f.read()
        self.loaded[os.path.relpath(o, REPO)] = len(src)
        module.__dict__["__builtins__"] = _builtins()
        exec(compile(src, o, "exec", dont_inherit=True), module.__dict__)


def load(fast):
    """Imports gufo.snmp of the tree under test over the stand-in of _fast"""
    for k in [k for k in sys.modules if k == "gufo" or k.startswith("gufo.")]:
        del sys.modules[k]
    f = Finder(fast)
    sys.meta_path.insert(0, f)
    sys.dont_write_bytecode = True
    import gufo.snmp  # noqa
    import gufo.snmp.sync_client  # noqa
    import gufo.snmp.async_client  # noqa
    import gufo.snmp.policer  # noqa
    import gufo.snmp.user  # noqa

    return f


# Event loop of asyncio in virtual time

import asyncio  # noqa: E402
import asyncio.base_events  # noqa: E402


class World:
    """What happens to the socket: (when ns, what), in order of time"""

    def __init__(self):
        self.events = []
        self.queue = []  # arrived datagrams

    def at(self, when, what):
        self.events.append((when, what))


class Loop(asyncio.base_events.BaseEventLoop):
    def __init__(self, world):
        super().__init__()
        self._clock_resolution = Fraction(1, 10**10)
        self._selector = self
        self.world = world
        self.readers = {}
        self.writers = {}
        self.writable = True
        self.idle = 0

    def time(self):
        return div(TIME.now, 10**9)

    def add_reader(self, fd, cb, *args):
        h = asyncio.Handle(cb, args, self, None)
        self.readers[fd] = h

    def remove_reader(self, fd):
        h = self.readers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    def add_writer(self, fd, cb, *args):
        self.writers[fd] = asyncio.Handle(cb, args, self, None)

    def remove_writer(self, fd):
        h = self.writers.pop(fd, None)
        if h:
            h.cancel()
        return h is not None

    def _process_events(self, events):
        for h in events:
            if not h._cancelled:
                self._add_callback(h)

    def _write_to_self(self):
        pass

    def select(self, timeout=None):
        """Waits for the socket"""
        w = self.world
        self.idle += 1
        if self.idle > 10000:
            raise Hung
        ready = []
        # what has come by now
        while w.events and w.events[0][0] <= TIME.now:
            w.queue.append(w.events.pop(0)[1])
        if w.queue:
            ready += self.readers.values()
        if self.writable:
            ready += self.writers.values()
        if ready or (timeout is not None and timeout <= 0):
            return ready
        if timeout is None:
            if not w.events:
                raise Hung
            TIME.now = w.events[0][0]
        else:
            end = TIME.now + ns(timeout)
            if w.events and w.events[0][0] <= end:
                TIME.now = w.events[0][0]
            else:
                TIME.now = end
                return []
        while w.events and w.events[0][0] <= TIME.now:
            w.queue.append(w.events.pop(0)[1])
        return list(self.readers.values())

    def close(self):
        if not self.is_running():
            self._closed = True
            self._ready.clear()
            self._scheduled.clear()


class Hung(BaseException):
    """Nothing will ever happen"""


def run_async(coro, world):
    loop = Loop(world)
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda *a: None)
    t = None
    try:
        t = loop.create_task(coro)
        return loop.run_until_complete(t)
    except BaseException:
        if t is not None and not t.done():
            t._log_destroy_pending = False
        raise
    finally:
        for h in list(asyncio.all_tasks(loop)):
            h._log_destroy_pending = False
        loop.close()
        asyncio.set_event_loop(None)
