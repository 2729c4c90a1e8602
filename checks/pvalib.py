"""Two processes joined by a stand-in PVAccess connection.

For symbolic runs Type and Value of p4p, which are compiled, are replaced by a model of
them; replays use the real ones, so that the model is compared with them on every path."""
from collections import OrderedDict

import numpy as np

INTS = {"b": np.int8, "B": np.uint8, "h": np.int16, "H": np.uint16, "i": np.int32,
        "I": np.uint32, "l": np.int64, "L": np.uint64}
FLOATS = {"f": np.float32, "d": np.float64}


class ModelType:
    def __init__(self, spec=None, id=None):
        self.id = id or "structure"
        self.fields = OrderedDict()
        for name, s in spec:
            if isinstance(s, tuple):
                assert s[0] == "S", s
                s = ModelType(s[2], s[1])
            assert name not in self.fields, name
            self.fields[name] = s

    def items(self):
        return list(self.fields.items())

    def keys(self):
        return list(self.fields)

    def __iter__(self):
        return iter(self.fields)

    def __getitem__(self, k):
        head, _, rest = k.partition(".")
        t = self.fields[head]
        return t[rest] if rest else t

    def has(self, k):
        return k in self.fields

    __contains__ = has

    def getID(self):
        return self.id

    def aspy(self, name=None):
        if name is not None:
            t = self[name]
            return t.aspy() if isinstance(t, ModelType) else t
        return ("S", self.id, [
            (k, t.aspy() if isinstance(t, ModelType) else t) for k, t in self.items()])


def default(t):
    if isinstance(t, ModelType):
        return ModelValue(t)
    if t == "s":
        return ""
    if t == "?":
        return False
    if t in INTS:
        return 0
    if t in FLOATS:
        return 0.0
    if t in ("as", "av"):
        return []
    if t == "a?":
        return np.array([], dtype=bool)
    if t[0] == "a":
        return np.array([], dtype=INTS.get(t[1]) or FLOATS[t[1]])
    raise NotImplementedError(t)


def cast(t, x):
    """What a field of this type holds when it is set"""
    from symx import values as V

    sym = V.is_sym(x)
    if t == "s":
        if isinstance(x, str):
            return x
        if isinstance(x, (int, float, np.number)) or sym:
            return f"{x}"
        raise RuntimeError(f"Can't assign string with {type(x)}")
    if t == "?":
        if isinstance(x, (bool, np.bool_)) or sym and x._k == "bool":
            return x if sym else bool(x)
        raise RuntimeError("Conversion not supported")
    if t in INTS or t in FLOATS:
        typ = INTS.get(t) or FLOATS[t]
        if isinstance(x, str):
            if V.from_text(x) is not None:
                x, sym = V.from_text(x), True
            else:
                x = float(x)
        if sym:
            if x._k == "bool":
                raise RuntimeError("Conversion not supported")
            y = V.cast_np(typ, x)
            return y
        if x is None or isinstance(x, (bool, np.bool_)) or not isinstance(
                x, (int, float, np.number)):
            raise RuntimeError(f"Can't assign number with {type(x)}")
        if t in FLOATS:
            return float(typ(x))
        return int(np.array(int(x)).astype(typ))
    if t == "as":
        x = list(x)
        if not all(isinstance(y, (str, np.str_)) for y in x):
            raise RuntimeError("Can't assign string array")
        return [str(y) for y in x]
    if t == "av":
        return [y for y in x]
    typ = bool if t == "a?" else INTS.get(t[1]) or FLOATS[t[1]]
    if V.has_sym(x) or isinstance(x, np.ndarray) and x.dtype == object:
        have = getattr(x, "_claim", None)
        if have is not None and not np.can_cast(have, typ, "safe"):
            raise TypeError(f"Cannot cast array data from {have} to {typ}")
        return V.claim(np.array([y for y in x], dtype=object), typ)
    if isinstance(x, np.ndarray):
        return x.astype(typ, casting="safe")
    return np.array([y for y in x], dtype=typ)


class ModelValue:
    def __init__(self, type, initial=None):
        self._type = type
        self._d = {k: default(t) for k, t in type.items()}
        self._marks = set()
        if initial is not None:
            self._assign(initial)

    def _assign(self, d):
        if isinstance(d, ModelValue):
            d = {k: d[k] for k in d.changedSet(expand=True)}
        if not hasattr(d, "items"):
            raise KeyError(f"Can't assign sub-structure from {type(d)}")
        for k, v in d.items():
            self[k] = v

    def getID(self):
        return self._type.id

    def type(self, name=None):
        return self._type if name is None else self._type[name]

    def keys(self):
        return self._type.keys()

    def __iter__(self):
        return iter(self._type)

    def items(self):
        return [(k, self._d[k]) for k in self._type]

    def has(self, k):
        head, _, rest = k.partition(".")
        if head not in self._d:
            return False
        return not rest or isinstance(self._d[head], ModelValue) and self._d[head].has(
            rest)

    __contains__ = has

    def __getitem__(self, k):
        head, _, rest = k.partition(".")
        v = self._d[head]
        return v[rest] if rest else v

    def __getattr__(self, k):
        if k.startswith("_") or k not in self._d:
            raise AttributeError(k)
        return self._d[k]

    def get(self, k, default=None):
        return self._d.get(k, default)

    def __setitem__(self, k, v):
        head, _, rest = k.partition(".")
        if head not in self._d:
            raise KeyError(k)
        if rest:
            self._d[head][rest] = v
            return
        t = self._type.fields[head]
        if isinstance(t, ModelType):
            self._d[head]._assign(v)
        else:
            self._d[head] = cast(t, v)
            self._marks.add(head)

    def mark(self, k, val=True):
        assert val
        head, _, rest = k.partition(".")
        if rest:
            self._d[head].mark(rest)
        elif isinstance(self._d[head], ModelValue):
            self._d[head].mark_all()
        else:
            self._marks.add(head)

    def mark_all(self):
        for k in self:
            self.mark(k)

    def unmark(self):
        self._marks = set()
        for v in self._d.values():
            if isinstance(v, ModelValue):
                v.unmark()

    def changedSet(self, expand=False, parents=False):
        out = set(self._marks)
        for k, v in self._d.items():
            if isinstance(v, ModelValue):
                sub = v.changedSet(expand, parents)
                out |= {f"{k}.{x}" for x in sub}
                if sub and parents:
                    out.add(k)
        return out


def use_model(ctx):
    """The classes for values: real ones in replays"""
    from malcolm.modules.pva.controllers import (
        pvaclientcomms, pvaconvert, pvaservercomms,
    )

    if not ctx.symbolic:
        from p4p import Type, Value

        return Type, Value
    import p4p.nt

    for m in (pvaclientcomms, pvaconvert, pvaservercomms, p4p.nt):
        if hasattr(m, "Type"):
            m.Type = ModelType
        if hasattr(m, "Value"):
            m.Value = ModelValue
    pvaconvert.EMPTY = ModelValue(ModelType([]))
    return ModelType, ModelValue


class Net:
    """Channels between the server and its clients, by name"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.Type, self.Value = use_model(ctx)
        self.provider = None
        self.monitors = []
        self.errors = []
        # updates wait while this is set, and are merged as a slow client's are
        self.slow = False

    def copy(self, v, only=None):
        out = self.Value(v.type())
        for k in sorted(v.changedSet(expand=True) if only is None else only):
            x = v[k]
            out[k] = list(x) if isinstance(x, list) else x
        return out

    def full(self, v):
        """Everything, with everything marked"""
        out = self.Value(v.type())
        for k in self.leaves(v):
            out[k] = v[k]
        return out

    def leaves(self, v, prefix=""):
        out = []
        for k, t in v.type().items():
            if isinstance(t, self.Type):
                sub = self.leaves(v[k], f"{prefix}{k}.")
                out += sub
            else:
                out.append(f"{prefix}{k}")
        return out


def net_classes(net):
    """Stand-ins for the classes of p4p that go over the network"""
    import cothread

    class SharedPV:
        def __init__(self, handler=None, options=None, **kw):
            self.handler = handler
            self.clients = []
            self.opened = None
            self.generation = 0

        def isOpen(self):
            return self.opened is not None

        def open(self, value):
            assert self.opened is None, "already open"
            self.opened = net.full(value)
            for c in list(self.clients):
                c.first(self.opened)

        def post(self, value):
            assert self.opened is not None, "not open"
            update = net.copy(value)
            for k in update.changedSet(expand=True):
                self.opened[k] = update[k]
            for c in list(self.clients):
                c.update(update)

        def close(self, destroy=False, sync=False, timeout=None):
            if self.opened is None and not destroy:
                return
            self.opened = None
            clients, self.clients = self.clients, []
            if clients:
                cothread.Spawn(self.gone, clients)
            if sync:
                net.ctx.settle()

        def gone(self, clients):
            """The last client is gone, and will try to come back"""
            self.handler.onLastDisconnect(self)
            for c in clients:
                c.lost()

        def connect(self, c):
            self.clients.append(c)
            if len(self.clients) == 1:
                self.handler.onFirstConnect(self)
            elif self.opened is not None:
                c.first(self.opened)

        def disconnect(self, c):
            if c in self.clients:
                self.clients.remove(c)
                if not self.clients:
                    self.handler.onLastDisconnect(self)

    class Monitor:
        """A client's subscription"""

        def __init__(self, name, cb):
            self.name, self.cb = name, cb
            self.value = None
            self.queue = []
            self.event = cothread.Event(auto_reset=True)
            self.closed = False
            self.pv = None
            self.retry = False
            cothread.Spawn(self.run)
            self.search()

        def search(self):
            if net.provider is not None and net.provider.testChannel(self.name):
                self.pv = net.provider._make_channel(self.name, "client")
                self.pv.connect(self)
            else:
                net.monitors.append(self)

        def first(self, value):
            self.queue.append(("first", net.full(value)))
            self.event.Signal()

        def update(self, value):
            if self.queue and net.slow:
                # the updates of a slow client are merged
                last = self.queue[-1][1]
                for k in value.changedSet(expand=True):
                    last[k] = value[k]
            else:
                self.queue.append(("update", net.copy(value)))
            self.event.Signal()

        def lost(self):
            self.queue.append(("lost", None))
            self.event.Signal()

        def run(self):
            from p4p.client.raw import Disconnected

            while True:
                while self.queue and not net.slow:
                    what, v = self.queue.pop(0)
                    if self.closed:
                        return
                    if what == "lost":
                        self.value = None
                        arg = Disconnected()
                    elif what == "first":
                        self.value = v
                        arg = v
                    else:
                        # the client has all of it, what changed is marked
                        self.value.unmark()
                        for k in v.changedSet(expand=True):
                            self.value[k] = v[k]
                        arg = self.value
                    try:
                        self.cb(arg)
                    except Exception as e:
                        net.errors.append(e)
                    if what == "lost":
                        self.search()
                self.event.Wait()

        def close(self):
            self.closed = True
            if self.pv is not None:
                self.pv.disconnect(self)

    class Op:
        def __init__(self, value, request=None):
            self._value = value
            self.request = request or {}
            self.event = cothread.Event(auto_reset=False)
            self.results = []

        def value(self):
            return self._value

        def pvRequest(self):
            return self.request

        def done(self, value=None, error=None):
            self.results.append((value, error))
            self.event.Signal()

        def run(self, f, pv):
            def handle():
                try:
                    f(pv, self)
                except Exception as e:
                    self.done(error=str(e))

            cothread.Spawn(handle)
            self.event.Wait()
            net.ctx.check(len(self.results) == 1, "one answer", len(self.results))
            value, error = self.results[0]
            if error is not None:
                from p4p.client.raw import RemoteError

                raise RemoteError(error)
            return value

    class Context:
        def __init__(self, provider, unwrap=None):
            self.monitors = []
            self.closed = False

        def monitor(self, name, cb, notify_disconnect=False):
            m = Monitor(name, cb)
            self.monitors.append(m)
            return m

        def channel(self, name):
            assert net.provider.testChannel(name), name
            return net.provider._make_channel(name, "client")

        def put(self, name, values, request=None, **kw):
            assert not self.closed
            pv = self.channel(name)
            assert pv.isOpen()
            v = net.Value(pv.opened.type())
            for k, x in values.items():
                v[k] = x
            Op(v).run(pv.handler.put, pv)

        def rpc(self, name, value, request=None, timeout=None):
            assert not self.closed
            pv = self.channel(name)
            return Op(value, request).run(pv.handler.rpc, pv)

        def close(self):
            self.closed = True
            for m in self.monitors:
                m.close()

    class Server:
        def __init__(self, providers):
            net.provider = providers[0]
            waiting, net.monitors = net.monitors, []
            for m in waiting:
                m.search()

        def stop(self):
            net.provider = None

    from malcolm.modules.pva.controllers import pvaclientcomms, pvaservercomms

    pvaclientcomms.Context = Context
    pvaservercomms.SharedPV = SharedPV
    pvaservercomms.Server = Server
    pvaservercomms.DynamicProvider = lambda name, comms: comms
    return Op
