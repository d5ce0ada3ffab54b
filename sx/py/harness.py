"""Harnesses of the Python layer: (function, arguments) are listed by jobs()"""
import asyncio
import types
from fractions import Fraction

import pysx
from pysx import TIME, Failed, Hung, Skip, World, assume, check, choose, fail, reach, run_async, sym_int, symbolic

NS = 10**9
MS = 10**6

# Stand-in of the extension


class SnmpError(Exception):
    pass


class SnmpEncodeError(SnmpError):
    pass


class SnmpDecodeError(SnmpError):
    pass


class SnmpAuthError(SnmpError):
    pass


class NoSuchInstance(SnmpError):
    pass


class GetIter:
    def __init__(self, oid, max_repetitions=None):
        self.oid, self.max_repetitions = oid, max_repetitions
        G.iters.append(self)


class G:
    """The peer of all sockets"""

    sockets = []
    iters = []
    calls = []  # (kind, socket, operation, arguments, time)
    request = None  # (operation, arguments) -> result; raises
    send = None
    recv = None

    @classmethod
    def reset(cls):
        cls.sockets, cls.iters, cls.calls = [], [], []
        cls.request = cls.send = cls.recv = None
        TIME.reset(sym_int("start", 0, 1 << 62) if cls.any_start else 0)

    any_start = False


class _Sock:
    VERSION = None

    def __init__(self, *args):
        self.args = args
        self.keys = None
        G.sockets.append(self)

    def get_fd(self):
        return 3


def _method(name, kind, op):
    def f(self, *args):
        G.calls.append((kind, self, op, args, TIME.now))
        h = getattr(G, kind)
        return h(op, args) if h else None

    f.__name__ = name
    return f


for _op in ("get", "get_many", "get_next", "get_bulk", "refresh"):
    setattr(_Sock, _op, _method(_op, "request", _op))
    setattr(_Sock, "send_" + _op, _method("send_" + _op, "send", _op))
    setattr(_Sock, "recv_" + _op, _method("recv_" + _op, "recv", _op))


class SnmpV1ClientSocket(_Sock):
    VERSION = 0


class SnmpV2cClientSocket(_Sock):
    VERSION = 1


class SnmpV3ClientSocket(_Sock):
    VERSION = 3

    def __init__(self, *args):
        super().__init__(*args)
        self.keys = args[2:7]

    def set_keys(self, *args):
        G.calls.append(("set_keys", self, "set_keys", args, TIME.now))
        self.keys = args

    def get_engine_id(self):
        return b"\x80\x00\x1f\x88engine"


fast = types.ModuleType("gufo.snmp._fast")
for _x in (SnmpError, SnmpEncodeError, SnmpDecodeError, SnmpAuthError, NoSuchInstance, GetIter, SnmpV1ClientSocket, SnmpV2cClientSocket, SnmpV3ClientSocket):
    setattr(fast, _x.__name__, _x)
fast.get_master_key = lambda alg, passwd: ("master", alg, passwd)
fast.get_localized_key = lambda alg, key, engine: ("localized", alg, key, engine)

FINDER = pysx.load(fast)
from gufo.snmp import User, Md5Key, Sha1Key, DesKey, Aes128Key, SnmpVersion  # noqa: E402
from gufo.snmp.sync_client import SnmpSession as SyncSession  # noqa: E402
from gufo.snmp.async_client import SnmpSession as AsyncSession  # noqa: E402
from gufo.snmp.policer import RPSPolicer  # noqa: E402
from gufo.snmp.user import KeyType  # noqa: E402

VERSIONS = {1: SnmpVersion.v1, 2: SnmpVersion.v2c, 3: SnmpVersion.v3}
ENGINE = b"\x80\x00\x1f\x88engine"
BASE = "1.3.6.1"


class Client:
    """Both clients with the same face"""

    def __init__(self, is_async, version, **kw):
        self.is_async = is_async
        self.version = version
        self.world = World()
        if version == 3:
            kw.setdefault("user", User("user", auth_key=Md5Key(b"12345678")))
            kw.setdefault("engine_id", ENGINE)
        kw.setdefault("version", VERSIONS[version])
        self.s = (AsyncSession if is_async else SyncSession)("127.0.0.1", **kw)
        self.iter = None

    def run(self, coro):
        return run_async(coro, self.world)

    def call(self, name, *args):
        r = getattr(self.s, name)(*args)
        if self.is_async and asyncio.iscoroutine(r):
            return self.run(r)
        return r

    def walk(self, name, *args):
        r = getattr(self.s, name)(*args)
        self.iter = r.__aiter__() if self.is_async else iter(r)

    def next(self):
        """Next item; StopIteration at the end, in both clients"""
        if not self.is_async:
            return next(self.iter)

        async def step():
            try:
                return (await self.iter.__anext__(),)
            except StopAsyncIteration:
                return None

        r = self.run(step())
        if r is None:
            raise StopIteration
        return r[0]

    def enter(self):
        if self.is_async:
            return self.run(self.s.__aenter__())
        return self.s.__enter__()

    def op(self, op):
        """One request of the kind"""
        if op == "get":
            return self.call("get", BASE)
        if op == "get_many":
            return self.call("get_many", [BASE])
        if op == "refresh":
            return self.call("refresh")
        if op == "enter":
            return self.enter()
        if self.iter is None:
            self.walk({"get_next": "getnext", "get_bulk": "getbulk", "fetch": "fetch"}[op], BASE)
        return self.next()


VALUE = ("1.3.6.1.1", 42)


def result(op):
    return {"get": 42, "get_many": {BASE: 42}, "get_next": VALUE, "get_bulk": [VALUE], "refresh": None}[op]


def expected(op):
    return {"get": 42, "get_many": {BASE: 42}, "get_next": VALUE, "get_bulk": VALUE, "fetch": VALUE, "refresh": None}.get(op)


OPS = ["get", "get_many", "get_next", "get_bulk", "fetch", "refresh", "enter"]


def ops_of(version):
    return [x for x in OPS if (x not in ("refresh", "enter") or version == 3) and (x != "get_bulk" or version != 1)]


def immediate(c):
    """The agent which answers at once"""
    G.request = lambda op, args: result(op)
    c.replies = []

    def send(op, args):
        c.world.queue.append(op)

    def recv(op, args):
        if not c.world.queue:
            raise BlockingIOError
        c.world.queue.pop(0)
        return result(op)

    G.send, G.recv = send, recv


def sends():
    """Times of requests"""
    return [x[4] for x in G.calls if x[0] in ("request", "send")]


# C19


def rate(d):
    """Requests per second of the interval d ns"""
    if symbolic():
        return pysx.norm(pysx.SymNum(NS, pysx.lift(d).num, True))
    return Fraction(NS, d)


def windows(rel, d, tol=0):
    """k + 1 consecutive releases span more than (k - 1) intervals"""
    for i in range(len(rel)):
        for j in range(i + 1, len(rel)):
            k = j - i
            check(rel[j] - rel[i] + tol > (k - 1) * d, "%d releases span %d intervals at least" % (k + 1, k - 1))


MAXD = 10**14


def h_ctor(kind):
    """Any positive rate: refused, or the interval is as stated. Other rates are refused"""
    G.reset()
    n, d = sym_int("n", -(10**18) if kind else 1, 10**18), sym_int("d", 1, 10**15)
    if symbolic():
        r = pysx.norm(pysx.SymNum(pysx.lift(n).num, pysx.lift(d).num, True))
    else:
        r = n / d
        if r:
            n, d = Fraction(r).numerator, Fraction(r).denominator
    if kind == "int":
        assume(d == 1)
        r = n
    try:
        p = RPSPolicer(r)
    except ValueError:
        # interval of less than a nanosecond is not representable
        check((n <= 0) | (n >= NS * d) if symbolic() else n <= 0 or n >= NS * d, "a representable rate is refused")
        reach(1)
        return
    check(n > 0, "a rate which is not positive is refused")
    check(n <= (NS + 1) * d, "a rate which is too high is refused")
    # the second request goes right after the first one
    t0 = sym_int("t0", 0, 1 << 62)
    w0 = p.get_timeout(t0)
    check(w0 is None or w0 == 0, "the first request is not delayed")
    w = p.get_timeout(t0)
    check(w is not None, "the second request at once is delayed")
    # 1/rps is NS * d / n ns; delays are of whole nanoseconds
    check((w - 1) * n <= NS * d, "the delay is one interval at most")
    # three releases: the third goes one interval after the second
    t1 = t0 + w
    w2 = p.get_timeout(t1)
    w2 = 0 if w2 is None else w2
    check((w + w2) * n > NS * d, "three releases span more than the interval")
    check((w2 - 1) * n <= NS * d, "the delay is one interval at most")
    # the interval itself: a slot is never less than it
    w3 = p.get_timeout(t1 + w2)
    w4 = p.get_timeout(t1 + w2 + (w3 or 0))
    w3, w4 = w3 or 0, w4 or 0
    check((w + w2 + w3) * n > 2 * NS * d, "four releases span more than two intervals")
    check((w + w2 + w3 + w4) * n > 3 * NS * d, "five releases span more than three intervals")
    reach(2)


def h_seq(k):
    """k requests at any times, any interval of whole ns"""
    G.reset()
    d = sym_int("interval", 1, MAXD)
    p = RPSPolicer(rate(d))
    t = sym_int("t", 0, 1 << 62)
    rel = []
    for i in range(k):
        w = p.get_timeout(t)
        if w is None:
            w = 0
        check(w >= 0, "the delay is not negative")
        check(w <= d, "the delay is one interval at most")
        reach(1 if isinstance(w, int) else 2)
        rel.append(t + w)
        t = t + w + sym_int("gap%d" % i, 0, 1 << 60)
    windows(rel, d)


def h_seq_rate(n, d, k):
    """As h_seq, for the rate n/d where the interval is not whole"""
    G.reset()
    p = RPSPolicer(n / d)
    n, d = (n / d).as_integer_ratio()
    t = sym_int("t", 0, 1 << 62)
    rel = []
    for i in range(k):
        w = p.get_timeout(t)
        if w is None:
            w = 0
        check(w >= 0, "the delay is not negative")
        check((w - 1) * n <= NS * d, "the delay is one interval at most")
        rel.append(t + w)
        t = t + w + sym_int("gap%d" % i, 0, 1 << 60)
    for i in range(k):
        for j in range(i + 1, k):
            check((rel[j] - rel[i]) * n > (j - i - 1) * NS * d, "%d releases span %d intervals at least" % (j - i + 1, j - i - 1))
    reach(1)


def h_wait(is_async, k):
    """wait() and wait_sync(): in virtual time"""
    G.any_start = True
    G.reset()
    G.any_start = False
    d = sym_int("interval", 1, MAXD)
    p = RPSPolicer(rate(d))
    rel = []
    for i in range(k):
        asked = TIME.now
        if is_async:
            run_async(p.wait(), World())
        else:
            p.wait_sync()
        rel.append(TIME.now)
        check(TIME.now - asked <= d + 1 + (0 if symbolic() else 1000), "the delay is one interval at most")
        TIME.now = TIME.now + sym_int("gap%d" % i, 0, 1 << 60)
    # floats of seconds keep nanoseconds up to some months
    windows(rel, d, 0 if symbolic() else 100)
    reach(1)


def h_session(is_async, version, ops, by):
    """Requests of the session, each policed"""
    G.any_start = True
    G.reset()
    G.any_start = False
    d = sym_int("interval", MS, MAXD)
    kw = {"policer": RPSPolicer(rate(d))} if by == "policer" else {"limit_rps": rate(d)}
    if "enter" in ops:
        kw["engine_id"] = None
    c = Client(is_async, version, **kw)
    immediate(c)
    for i, op in enumerate(ops):
        if op == "any":
            o = ops_of(version)
            o = [x for x in o if x not in ("fetch", "get_many")]
            o.remove("enter") if "enter" in o else None
            op = o[choose("op%d" % i, len(o))]
        n = len(sends())
        c.iter = None if op not in ("get_next", "get_bulk", "fetch") or getattr(c, "last", None) != op else c.iter
        c.last = op
        asked = TIME.now
        c.op(op)
        m = len(sends()) - n
        check(m == (2 if op == "enter" else 1), "requests of the call")
        check(TIME.now - asked <= m * (d + 1 + (0 if symbolic() else 1000)), "the delay is one interval at most")
        if i + 1 < len(ops):
            TIME.now = TIME.now + sym_int("gap%d" % i, 0, 1 << 60)
    windows(sends(), d, 0 if symbolic() else 1000)
    reach(1)


def c19(th):
    j = [(h_ctor, [""], [1, 2]), (h_ctor, ["any"], [1, 2]), (h_ctor, ["int"], [1, 2])]
    j += [(h_seq, [k], [1, 2]) for k in ((2, 3, 4, 5) if not th else (2, 3, 4, 5, 6, 7))]
    for n, d in ((3, 1), (7, 1), (0.3, 1), (1.1, 1), (1e-3, 1), (999999999, 1), (600000000, 1), (123456, 1000)):
        j.append((h_seq_rate, [n, d, 5 if th else 4], [1]))
    for a in (0, 1):
        j.append((h_wait, [a, 5 if th else 3], [1]))
        for v in (1, 2, 3):
            for o in ops_of(v):
                if o == "enter":
                    j.append((h_session, [a, v, ["enter", "get", "get"], "limit"], [1]))
                else:
                    j.append((h_session, [a, v, [o] * 3, "policer" if o == "get" else "limit"], [1]))
            j.append((h_session, [a, v, ["any"] * (4 if th else 3), "limit"], [1]))
    return j


# C18


def h_sync_timeout(version, op):
    """Expired receive is TimeoutError, and nothing is sent again; the timeout of the socket is that of the session"""
    G.reset()
    t = sym_int("timeout", 1000, 10**13)
    s = pysx.div(t, NS) if symbolic() else t / NS
    kw = {"engine_id": None} if op == "enter" else {}
    c = Client(0, version, timeout=s, **kw)
    got = G.sockets[0].args[-1]
    check((got - t <= 1) & (t - got <= 1), "timeout of the socket")
    n = choose("expired", 2)

    def request(op, args):
        if n == 0 or len(sends()) == n + 1:
            raise BlockingIOError
        return result(op)

    G.request = request
    for i in range(2):
        try:
            c.op(op)
            check(n == 1 and (i == 0 and op != "enter" or op == "enter" and False) or i == 1 and n == 1, "expired request is reported")
        except TimeoutError:
            check(n == 0 or len(sends()) == 2, "reply is delivered")
            reach(1)
        if n == 0:
            check(len(sends()) == i + 1, "one request for the call")


def h_async_timeout(version, op, k, reply, full):
    """k strays at any times, then maybe the reply"""
    G.reset()
    t = sym_int("timeout", 10 * MS, 10**13)
    s = pysx.div(t, NS) if symbolic() else t / NS
    kw = {"engine_id": None} if op == "enter" else {}
    c = Client(1, version, timeout=s, **kw)
    w = c.world
    state = {"n": 0}

    def send(o, args):
        if full and state["n"] == 0 and not state.get("blocked"):
            state["blocked"] = True
            raise BlockingIOError
        i = state["n"]
        state["n"] += 1
        state["start"] = at = TIME.now
        del w.events[:]
        for j in range(k):
            at = at + sym_int("stray%d.%d" % (i, j), 0, 10**14)
            w.at(at, None)
        state["at"] = None
        if reply:
            at = at + sym_int("reply%d" % i, 0, 10**14)
            w.at(at, o)
            state["at"] = at

    def recv(o, args):
        # the socket skips what does not match
        while w.queue:
            x = w.queue.pop(0)
            if x is not None:
                check(x == o, "reply is asked for by its operation")
                return result(o)
        raise BlockingIOError

    G.send, G.recv = send, recv
    slack = MS
    for i in range(2 if k < 2 else 1):
        del w.queue[:]
        n = state["n"]
        begin = TIME.now
        try:
            r = c.op(op)
            check(bool(reply), "delivered without a reply")
            if op != "enter":
                check(r == expected(op), "result of the call")
            check(state["n"] == n + (2 if op == "enter" and i == 0 else 1), "requests of the call")
            reach(1)
        except TimeoutError:
            late = True
            if reply:
                late = state["at"] - state["start"] + slack > t
            check(late, "reply which arrives in time is delivered")
            check(TIME.now - state["start"] + slack >= t, "the call gives up early")
            reach(2)
        except Hung:
            fail("the call never returns")
        check(TIME.now - state["start"] <= t + slack, "the call outlives its timeout")
        check(TIME.now - begin <= (2 if op == "enter" else 1) * (t + slack), "the call outlives its timeout")
        if op == "enter":
            break
        TIME.now = TIME.now + sym_int("pause%d" % i, 0, 10**12)


def c18(th):
    j = []
    for v in (1, 2, 3):
        for o in ops_of(v):
            j.append((h_sync_timeout, [v, o], [1]))
            for k in range(5 if th else 4):
                if v != 2 and k > 2 and not th:
                    continue
                j.append((h_async_timeout, [v, o, k, 0, 0], [2]))
                j.append((h_async_timeout, [v, o, k, 1, 0], [1, 2]))
            j.append((h_async_timeout, [v, o, 1, 1, 1], [1, 2]))
    return j


# Values and exceptions pass unchanged: C02, C07


class Opaque:
    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def h_pass(is_async, version, op):
    """Whatever the extension returns or raises reaches the caller; TimeoutError aside"""
    G.reset()
    kw = {"engine_id": None} if op == "enter" else {}
    c = Client(is_async, version, **kw)
    excs = [None, SnmpError, SnmpEncodeError, SnmpDecodeError, SnmpAuthError, NoSuchInstance, OSError, ValueError, ConnectionRefusedError, "falsy", "none"]
    e = excs[choose("outcome", len(excs))]
    at = choose("in send", 2) if is_async else 0
    err = e("x") if isinstance(e, type) else None
    val = {None: Opaque(), "falsy": 0, "none": None}.get(e)
    if op in ("get_next", "get_bulk", "fetch"):
        val = (Opaque(), val)
    out = val
    bulk = op == "get_bulk" or op == "fetch" and version > 1
    if bulk:
        out = [val]
    if op == "get_many" and e == "falsy":
        out = val = {}

    def act(o, args):
        if err is not None:
            raise err
        return out

    G.request = act

    def send(o, args):
        if err is not None and at:
            raise err
        c.world.queue.append(1)

    def recv(o, args):
        c.world.queue.pop(0)
        return act(o, args)

    G.send, G.recv = send, recv
    try:
        r = c.op(op)
        check(err is None, "exception reaches the caller")
        if op not in ("refresh", "enter"):
            check(r is val, "value reaches the caller")
        reach(1)
    except Exception as x:
        check(x is err, "exception reaches the caller as it is")
        reach(2)


def c07(th):
    return [(h_pass, [a, v, o], [1, 2]) for a in (0, 1) for v in (1, 2, 3) for o in ops_of(v)]


def c02(th):
    return [(h_pass, [a, v, o], [1, 2]) for a in (0, 1) for v in (1, 2, 3) for o in ("get", "get_many", "get_next", "fetch")]


# C03: what the caller asked for reaches the socket


def h_args(is_async, version):
    """Construction and requests"""
    G.reset()
    kw = {"tos": sym_int("tos", 0, 255), "send_buffer": sym_int("send_buffer", 0, 1 << 30), "recv_buffer": sym_int("recv_buffer", 0, 1 << 30), "port": 1161}
    com = "community %d" % choose("community", 2)
    user = User("user", auth_key=Sha1Key(b"authpassword"), priv_key=Aes128Key(b"privpassword", key_type=KeyType.Localized))
    eng = choose("engine", 2)
    c = None
    if version == 3:
        c = Client(is_async, 3, user=user, engine_id=ENGINE if eng else [None, b""][choose("empty", 2)], **kw)
    else:
        c = Client(is_async, version, community=com, **kw)
    check(len(G.sockets) == 1, "one socket")
    s = G.sockets[0]
    check(s.VERSION == {1: 0, 2: 1, 3: 3}[version], "version of the session")
    check(s.args[0] == "127.0.0.1:1161", "address")
    n = len(s.args)
    check((s.args[n - 4] == kw["tos"]) & (s.args[n - 3] == kw["send_buffer"]) & (s.args[n - 2] == kw["recv_buffer"]), "parameters of the socket")
    if is_async:
        check(s.args[n - 1] == 0, "non-blocking socket")
    if version < 3:
        check(s.args[1] == com, "community")
    elif eng:
        check(s.args[1:7] == (ENGINE, "user", 2, b"authpassword", 2 | 0x80, b"privpassword" + bytes(8)), "credentials")
    else:
        check(s.args[1:7] == (b"", "", 0, b"", 0, b""), "discovery")
    immediate(c)
    oids = ["1.3.6.%d" % i for i in range(choose("oids", 4))]
    how = choose("how", 3)
    c.call("get_many", oids if how == 0 else tuple(oids) if how == 1 else (x for x in oids))
    x = G.calls[0]
    check(x[2] == "get_many" and list(x[3][0]) == oids, "oids of get_many")
    del G.calls[:]
    c.call("get", "1.3.6.1.2")
    check(G.calls[0][2] == "get" and G.calls[0][3] == ("1.3.6.1.2",), "oid of get")
    reach(1)


def h_default_version(is_async):
    G.reset()
    u = choose("user", 2)
    cls = AsyncSession if is_async else SyncSession
    cls("127.0.0.1", user=User("user") if u else None)
    check(G.sockets[0].VERSION == (3 if u else 1), "version of the session")
    try:
        cls("127.0.0.1", version=SnmpVersion.v3)
        fail("v3 requires user")
    except ValueError:
        reach(1)


def h_policy(is_async, version):
    """fetch() and max_repetitions"""
    G.reset()
    bulk = bool(choose("allow_bulk", 2))
    mr = sym_int("max_repetitions", 1, (1 << 31) - 1)
    own = sym_int("own", 1, (1 << 31) - 1)
    how = choose("how", 4)
    kw = {} if how == 3 else {"max_repetitions": mr}
    c = Client(is_async, version, allow_bulk=bulk, **kw)
    immediate(c)
    if how == 3:
        mr = 20
    if how in (0, 3):
        c.walk("fetch", BASE)
        want = "get_bulk" if bulk and version > 1 else "get_next"
    elif how == 1:
        assume(version > 1)
        c.walk("getbulk", BASE)
        want = "get_bulk"
    else:
        assume(version > 1)
        c.walk("getbulk", BASE, own)
        want = "get_bulk"
        mr = own
    c.next()
    it = G.iters
    check(len(it) == 1 and it[0].oid == BASE, "base of the walk")
    check(G.calls[0][2] == want, "operation of the walk")
    check(G.calls[0][3][0] is it[0], "walk of the request")
    if want == "get_bulk":
        check(it[0].max_repetitions == mr, "max-repetitions")
    reach(1)


def c03(th):
    j = [(h_args, [a, v], [1]) for a in (0, 1) for v in (1, 2, 3)]
    j += [(h_default_version, [a], [1]) for a in (0, 1)]
    return j + [(h_policy, [a, v], [1]) for a in (0, 1) for v in (1, 2, 3)]


# C05, C06: iterators over the contract of the extension


def h_walk(is_async, version, method, n):
    """n items, in batches of any size, with any way to end. What the extension accepts is yielded, once, and the walk ends where it says"""
    G.reset()
    c = Client(is_async, version)
    items = [("1.3.6.1.%d" % i, [i, 0, None, b""][i % 4]) for i in range(n)]
    bulk = method == "getbulk" or method == "fetch" and version > 1
    st = {"pos": 0, "requests": 0, "stray": 0, "ended": False}
    # 0: StopAsyncIteration, 1: None after the last item, 2: None alone; 3: StopAsyncIteration after a timeout
    end = choose("end", 3 if bulk else 1)

    def act(o, args):
        check(o == ("get_bulk" if bulk else "get_next"), "operation of the walk")
        check(args[0] is G.iters[0], "state of the walk")
        check(not st["ended"], "no requests after the end")
        st["requests"] += 1
        p = st["pos"]
        if not bulk:
            if p == n:
                st["ended"] = True
                raise StopAsyncIteration("stop")
            st["pos"] += 1
            return items[p]
        if p == n:
            st["ended"] = True
            if end == 2:
                return [None]
            raise StopAsyncIteration("stop")
        k = 1 + choose("batch%d" % st["requests"], n - p)
        st["pos"] += k
        out = list(items[p : p + k])
        if p + k == n and end == 1:
            st["ended"] = True
            out.append(None)
        return out

    G.request = act

    def send(o, args):
        check(args[0] is G.iters[0], "state of the walk")
        check(not st["ended"], "no requests after the end")
        c.world.queue.append(1)

    def recv(o, args):
        if st["stray"] < 1 and choose("stray%d" % st["requests"], 2):
            # something else arrives first
            st["stray"] += 1
            raise BlockingIOError
        c.world.queue.pop(0)
        return act(o, args)

    G.send, G.recv = send, recv
    c.walk(method, BASE)
    check(len(G.calls) == 0, "no requests before the first item")
    got = []
    while True:
        check(len(got) <= n, "the walk yields what was not received")
        sent = len(sends())
        try:
            x = c.next()
        except StopIteration:
            break
        check(len(sends()) <= sent + 1, "one request for the item")
        got.append(x)
    check(len(got) == n, "all received items are yielded")
    check(all(a is b for a, b in zip(got, items)), "items are yielded in order, as they are")
    check(st["ended"], "the walk ends where the extension says")
    reach(1)


def h_walk_fail(is_async, version, method):
    """Timeout in the middle of the walk is reported, not taken for the end"""
    G.reset()
    c = Client(is_async, version, timeout=1.0)
    at = choose("fails at", 3)
    kind = choose("kind", 3)
    err = [BlockingIOError("x"), SnmpDecodeError("x"), OSError("x")][kind]
    bulk = method == "getbulk" or method == "fetch" and version > 1
    st = {"n": 0}

    def act(o, args):
        i = st["n"]
        st["n"] += 1
        if i == at:
            raise err
        return [("1.3.6.1.%d" % i, i)] if bulk else ("1.3.6.1.%d" % i, i)

    G.request = act
    G.send = lambda o, args: c.world.queue.append(1)

    def recv(o, args):
        c.world.queue.pop(0)
        return act(o, args)

    G.recv = recv
    c.walk(method, BASE)
    for i in range(at):
        check(c.next() == ("1.3.6.1.%d" % i, i), "items before the failure")
    try:
        c.next()
        fail("failure is reported")
    except StopIteration:
        fail("failure is reported, not taken for the end")
    except TimeoutError:
        check(kind == 0, "exception of the failure")
    except Exception as x:
        check(x is err, "exception of the failure")
    reach(1)


def c05(th):
    j = []
    for a in (0, 1):
        for v in (1, 2, 3):
            for m in ("getnext", "getbulk", "fetch"):
                if v == 1 and m == "getbulk":
                    continue
                for n in range(6 if th else 4):
                    j.append((h_walk, [a, v, m, n], [1]))
                j.append((h_walk_fail, [a, v, m], [1]))
    return j


def c06(th):
    return c05(th)


# C12: keys of users


def h_user(auth, priv, atype, ptype):
    """What the socket gets for the user"""
    G.reset()
    sizes = [0, 1, 15, 16, 17, 19, 20, 21, 40]
    al, pl = sizes[choose("auth key length", 9)], sizes[choose("priv key length", 9)]
    ak, pk = bytes(range(1, al + 1)), bytes(range(101, 101 + pl))
    acls, pcls = [None, Md5Key, Sha1Key][auth], [None, DesKey, Aes128Key][priv]
    types_ = [KeyType.Password, KeyType.Master, KeyType.Localized]
    kw = {}
    if acls:
        kw["auth_key"] = acls(ak, key_type=types_[atype])
    if pcls:
        kw["priv_key"] = pcls(pk, key_type=types_[ptype])
    try:
        u = User("name", **kw)
    except ValueError:
        check(bool(priv and not auth), "correct user is accepted")
        reach(1)
        return
    check(not (priv and not auth), "privacy requires authentication")
    size = [0, 16, 20][auth]

    def want(k, t):
        return k if t == 0 else (k + bytes(size))[:size]

    check(u.name == "name", "user name")
    check(u.get_auth_alg() == (auth | atype << 6 if auth else 0), "authentication algorithm and type of the key")
    check(u.get_priv_alg() == (priv | ptype << 6 if priv else 0), "privacy algorithm and type of the key")
    check(u.get_auth_key() == (want(ak, atype) if auth else b""), "authentication key")
    check(u.get_priv_key() == (want(pk, ptype) if priv else b""), "privacy key")
    check(u.require_auth() == bool(auth), "authentication is required")
    reach(1)


def h_keys():
    G.reset()
    for cls, alg in ((Md5Key, 1), (Sha1Key, 2)):
        p, e = b"password", b"engine"
        check(cls.get_master_key(p) == ("master", alg, p), "master key")
        check(cls.get_localized_key(p, e) == ("localized", alg, p, e), "localized key")
    reach(1)


def c12(th):
    j = [(h_keys, [], [1])]
    for a in range(3):
        for p in range(3):
            for x in range(3 if a else 1):
                for y in range(3 if p else 1):
                    j.append((h_user, [a, p, x, y], [1]))
    return j


# C13: discovery


def h_discovery(is_async, auth, priv, atype, ptype, engine, tries):
    """Session start under failures: the user's keys are set once, after the engine id is known, with what the user holds; then boots and time are learnt"""
    G.reset()
    acls, pcls = [None, Md5Key, Sha1Key][auth], [None, DesKey, Aes128Key][priv]
    types_ = [KeyType.Password, KeyType.Master, KeyType.Localized]
    kw = {}
    if acls:
        kw["auth_key"] = acls(b"a" * 20, key_type=types_[atype])
    if pcls:
        kw["priv_key"] = pcls(b"p" * 20, key_type=types_[ptype])
    u = User("user", **kw)
    c = Client(is_async, 3, user=u, engine_id=ENGINE if engine else None, timeout=1.0)
    s = G.sockets[0]
    mine = ("user", u.get_auth_alg(), u.get_auth_key(), u.get_priv_alg(), u.get_priv_key())
    if engine:
        check(s.args[1] == ENGINE and s.keys == mine, "engine id and keys of the session")
    else:
        check(s.args[1] == b"" and s.keys == ("", 0, b"", 0, b""), "discovery is neither authenticated nor encrypted")
    st = {"n": 0, "known": bool(engine), "fresh": False}

    def reply(o, args):
        check(o == "refresh", "probe of the engine")
        st["n"] += 1
        if choose("lost%d" % st["n"], 2):
            raise BlockingIOError
        st["known"] = True
        st["fresh"] = s.keys == mine
        return None

    G.request = reply
    G.send = lambda o, args: c.world.queue.append(1)

    def recv(o, args):
        c.world.queue.pop(0)
        return reply(o, args)

    G.recv = recv
    for i in range(tries):
        n = st["n"]
        try:
            if i == 0:
                c.enter()
            else:
                c.call("refresh")
        except TimeoutError:
            reach(2)
            # keys may be set only when the engine is known
            check(s.keys == mine or not st["known"] or not engine, "keys of the session")
            continue
        check(s.keys == mine, "keys of the user are set when the session has started")
        check(st["known"] or (not auth), "engine id is known when the session has started")
        if auth:
            check(st["fresh"] and st["n"] > n, "boots and time are learnt")
        reach(1)
        break
    for i, x in enumerate(G.calls):
        if x[0] == "set_keys":
            check(x[3] == mine, "keys of the user")
            check(any(y[0] in ("request", "recv") for y in G.calls[:i]), "keys are localized to the discovered engine id")
    check(sum(x[0] == "set_keys" for x in G.calls) <= 1, "keys are set once")


def c13(th):
    j = []
    for a in (0, 1):
        for e in (0, 1):
            for auth in range(3):
                for priv in range(3 if auth else 1):
                    for x in (range(3) if auth else [0]):
                        for y in (range(3) if priv else [0]):
                            j.append((h_discovery, [a, auth, priv, x, y, e, 4 if th else 3], [1]))
    return j


JOBS = {"C02": c02, "C03": c03, "C05": c05, "C06": c06, "C07": c07, "C12": c12, "C13": c13, "C18": c18, "C19": c19}
