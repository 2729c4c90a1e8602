"""A stand-in PandA: it reads commands from a byte stream and answers every one of them,
in order, as the TCP server of the box does"""
from collections import OrderedDict


class Box:
    def __init__(self, ctx, blocks, metadata=()):
        """blocks: {name: (number, {field: (type, subtype, labels)})}"""
        self.ctx = ctx
        self.blocks = blocks
        # {field: text, list of texts (a table) or None (in error)}
        self.values = OrderedDict()
        self.tables = {}
        self.bits = {}
        self.enums = {}
        self.refuse = {}
        self.sets = []
        self.commands = []
        self.sockets = []
        self.no_connect = False
        for name, (number, fields) in blocks.items():
            for i in range(number):
                block = name if number == 1 else f"{name}{i + 1}"
                for f, (typ, sub, labels) in fields.items():
                    self.make(f"{block}.{f}", typ, sub, labels)
                self.values[f"*METADATA.LABEL_{name}{i + 1}"] = ""
        self.values["*METADATA.LAYOUT"] = []

    def make(self, field, typ, sub, labels):
        v = self.values
        if typ == "table":
            v[field] = []
            self.tables[field] = labels
            return
        if typ == "ext_out":
            v[field + ".CAPTURE"] = "No"
            if sub == "bits":
                self.bits[field] = labels
            return
        if sub == "action":
            return
        v[field] = labels[0] if labels else "0"
        if typ == "time" or sub == "time":
            v[field + ".UNITS"] = "s"
        elif typ == "pos_out":
            v[field + ".CAPTURE"] = "No"
            v[field + ".UNITS"] = ""
            v[field + ".SCALE"] = "1"
            v[field + ".OFFSET"] = "0"
        elif typ == "bit_mux":
            v[field + ".DELAY"] = "0"

    def change(self, field, value):
        """Something at the box changes a field"""
        self.values[field] = value
        for s in self.sockets:
            s.changed[field] = True

    def set(self, field, value):
        if field in self.refuse:
            self.sets.append((field, value, False))
            return f"ERR {self.refuse[field]}\n"
        self.sets.append((field, value, True))
        if field in self.values:
            self.change(field, value)
        return "OK\n"

    def field(self, name):
        block, f = name.split(".", 1)
        root = block if block in self.blocks else block.rstrip("0123456789")
        return self.blocks[root][1][f]

    def lines(self, lines):
        return "".join(f"!{x}\n" for x in lines) + ".\n"

    def answer(self, line, sock):
        """The reply to one line"""
        self.commands.append(line)
        if not line.endswith("?"):
            name, _, value = line.partition("=")
            if not _:
                return "ERR Unknown command\n"
            return self.set(name, value)
        q = line[:-1]
        if q == "*BLOCKS":
            return self.lines(f"{k} {n}" for k, (n, _) in self.blocks.items())
        if q == "*CHANGES":
            out = []
            for f in list(sock.changed):
                v = self.values[f]
                if v is None:
                    out.append(f"{f} (error)")
                elif isinstance(v, list):
                    out.append(f"{f}<")
                else:
                    out.append(f"{f}={v}")
            sock.changed.clear()
            return self.lines(out)
        if q.startswith("*DESC."):
            return f"OK ={q[6:]} desc\n"
        if q.startswith("*ENUMS."):
            f = q[7:]
            if "[]." in f:
                table, col = f.split("[].")
                return self.lines(self.field(table)[2][col][2])
            if f.endswith(".CAPTURE"):
                f = f[:-8]
            return self.lines(self.field(f)[2])
        if q.endswith(".*"):
            fields = self.blocks[q[:-2]][1]
            return self.lines(" ".join([k, str(i), t, s]).strip()
                              for i, (k, (t, s, _)) in enumerate(fields.items()))
        if q.endswith(".BITS"):
            return self.lines(self.bits[q[:-5]])
        if q.endswith(".FIELDS"):
            cols = self.field(q[:-7])[2]
            return self.lines(
                " ".join([f"{hi}:{lo}", k, "enum" if labels else typ]).strip()
                for k, (hi, lo, labels, typ) in cols.items())
        v = self.values.get(q, None)
        if isinstance(v, list):
            return self.lines(v)
        if v is None:
            return "ERR No such field\n"
        return f"OK ={v}\n"


class BoxSocket:
    """One connection to the box"""

    box = None

    def __init__(self):
        import cothread

        self.buf = b""
        self.packets = []
        self.event = cothread.Event(auto_reset=False)
        self.closed = False
        self.broken = False
        # the lines of a table that is being set
        self.table = None
        self.changed = OrderedDict()

    def connect(self, address):
        if self.box.no_connect:
            raise OSError("no route to host")
        self.changed = OrderedDict((k, True) for k in self.box.values)
        self.box.sockets.append(self)

    def sendall(self, data):
        if self.closed or self.broken:
            raise OSError("broken pipe")
        self.buf += data
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.line(line.decode("utf-8"))

    def line(self, line):
        if self.table is not None:
            if line:
                self.table[1].append(line)
                return
            name, lines = self.table
            self.table = None
            self.box.commands.append(f"{name}<")
            self.reply(self.box.set(name, lines))
        elif line.endswith("<"):
            self.table = (line[:-1], [])
        else:
            self.reply(self.box.answer(line, self))

    def reply(self, text):
        """Replies are sent as they are, or in pieces"""
        self.packets += self.split(text.encode("utf-8"))
        self.event.Signal()

    def split(self, data):
        return [data]

    def recv(self, n):
        while not self.packets:
            if self.closed or self.broken:
                return b""
            self.event.Wait()
            self.event.Reset()
        data = self.packets.pop(0)
        if len(data) > n:
            self.packets.insert(0, data[n:])
        return data[:n]

    def cut(self):
        """The box goes away"""
        self.broken = True
        if self in self.box.sockets:
            self.box.sockets.remove(self)
        self.event.Signal()

    def shutdown(self, how):
        self.closed = True
        self.event.Signal()

    def close(self):
        self.closed = True
        if self in self.box.sockets:
            self.box.sockets.remove(self)


def socket_for(box, split=None):
    cls = type("Sock", (BoxSocket,), dict(box=box))
    if split:
        cls.split = lambda self, data: split(data)
    return cls
