"""PandA table bit packing"""
from symx.harness import Harness

TITLE = "PandA tables pack and unpack without loss"
ASSUMPTIONS = [
    "the client is a stand-in that declares the bit fields and records the words",
    "a field lies within one 32 bit word, as the code requires",
]


class Client:
    def __init__(self, fields):
        self.fields = fields
        self.sent = []

    def get_table_fields(self, block, field):
        return self.fields

    def set_table(self, block, field, values):
        self.sent.append((block, field, list(values)))


def make(fields):
    from collections import OrderedDict

    from malcolm.core import TableMeta
    from malcolm.modules.pandablocks.pandablocksclient import TableFieldData
    from malcolm.modules.pandablocks.parts.pandatablepart import PandATablePart

    fd = OrderedDict()
    for name, (lo, hi, signed, labels) in fields.items():
        fd[name] = TableFieldData(hi, lo, "d", labels, signed)
    client = Client(fd)
    meta = TableMeta("desc", writeable=True)
    part = PandATablePart(client, meta, "SEQ1", "TABLE")
    return part, client


def camel(name):
    return name.lower()


def dtype_range(nbits, signed):
    for b in (8, 16, 32):
        if nbits <= b:
            return (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if signed else (0, 2 ** b - 1)


def value(ctx, name, f, inrange=True):
    lo, hi, signed, labels = f
    nb = hi - lo + 1
    if labels:
        return ctx.choice(name, labels)
    if nb == 1:
        return ctx.bool(name)
    if inrange:
        if signed:
            return ctx.bits(name, -(2 ** (nb - 1)), 2 ** (nb - 1) - 1)
        return ctx.bits(name, 0, 2 ** nb - 1)
    return ctx.bits(name, *dtype_range(nb, signed))


def raw(ctx, v, f):
    """The bits the hardware must see"""
    lo, hi, signed, labels = f
    nb = hi - lo + 1
    if labels:
        return labels.index(v)
    if nb == 1:
        return v & 1
    return v % 2 ** nb


def words(ctx, fields, row):
    n = max(f[1] for f in fields.values()) // 32 + 1
    out = [0] * n
    for name, f in fields.items():
        out[f[0] // 32] = out[f[0] // 32] + raw(ctx, row[name], f) * 2 ** (f[0] % 32)
    return out


def run(ctx, fields, nrows, inrange=True):
    ctx.symbolic_arrays()
    part, client = make(fields)
    rows = [
        {n: value(ctx, f"{n}{i}", f, inrange) for n, f in fields.items()}
        for i in range(nrows)
    ]
    cols = {camel(n): [r[n] for r in rows] for n in fields}
    table = part.meta.validate(part.meta.table_cls(**cols))
    part.set_field(table)
    ctx.check(len(client.sent) == 1, "one table is sent")
    block, field, sent = client.sent[0]
    ctx.check((block, field) == ("SEQ1", "TABLE"), "sent to its own field")
    want = [w for r in rows for w in words(ctx, fields, r)]
    ctx.check(len(sent) == len(want), "words per row", (len(sent), len(want)))
    for i, (g, w) in enumerate(zip(sent, want)):
        ctx.check(ctx.And(g == w), "packed words", (i, g, w))
    ctx.observe("sent", sent)
    # the hardware reports them as text
    from malcolm.core import TimeStamp

    part.handle_change([str_of(ctx, x) for x in sent], TimeStamp())
    back = part.attr.value
    for n, f in fields.items():
        col = list(back[camel(n)])
        ctx.check(len(col) == nrows, "rows read back")
        for i in range(nrows):
            v = rows[i][n]
            if f[3]:
                ctx.check(col[i] == v, "choice read back", (n, col[i], v))
            else:
                if not inrange:
                    nb = f[1] - f[0] + 1
                    r = raw(ctx, v, f)
                    if f[2] and nb > 1:
                        r = ctx.ite(r >= 2 ** (nb - 1), r - 2 ** nb, r)
                    v = r if nb > 1 else v
                ctx.check(ctx.eq(col[i], v), "value read back", (n, col[i], v))
    ctx.observe("back", {camel(n): list(back[camel(n)]) for n in fields if not fields[n][3]})


def str_of(ctx, x):
    if ctx.symbolic:
        from symx import values as V

        return V.text_of(x) if V.is_sym(x) else str(x)
    return str(x)


def field(ctx):
    """one numeric field of every position and width within a word, signed or
    not, every in-range value, in every word of a row of up to 3 words"""
    lo = int(ctx.int("lo", 0, 31))
    width = int(ctx.int("width", 1, 32 - lo))
    signed = bool(ctx.bool("signed"))
    word = ctx.params["word"]
    f = dict(VALUE=(lo + 32 * word, lo + width - 1 + 32 * word, signed, None))
    ctx.cover("signed" if signed else "unsigned")
    if lo + width == 32:
        ctx.cover("ends at a word boundary")
    if (lo + width) % 32 == 1:
        ctx.cover("top bit is a multiple of 32")
    run(ctx, f, 1)


def neighbours(ctx):
    """three fields share a word, every pair of boundaries between them, middle
    field signed or not and with any value of its column type, in or out of
    range: nothing leaks into the neighbours"""
    a = int(ctx.int("a", 0, 15)) * 2 + ctx.params["odd"]
    b = int(ctx.int("b", 1, 16)) * 2 + ctx.params["odd"]
    ctx.assume(a > 0 and a + 1 < b < 32)
    f = dict(LOW=(0, a - 1, False, None), MID=(a, b - 1, ctx.params["signed"], None),
             TOP=(b, 31, False, None))
    run(ctx, f, 1, inrange=False)
    ctx.cover("done")


LAYOUTS = {
    "seq": dict(
        REPEATS=(0, 15, False, None),
        TRIGGER=(16, 19, False, ["Immediate", "BITA=0", "BITA=1", "POSA>=POSITION"]),
        OUTA1=(20, 20, False, None), OUTB1=(21, 21, False, None),
        POSITION=(32, 63, True, None), TIME1=(64, 95, False, None),
        TIME2=(96, 127, False, None),
    ),
    "boundary": dict(A=(0, 31, True, None), B=(32, 32, False, None)),
    "boundary2": dict(A=(0, 7, True, None), B=(8, 15, True, None),
                      C=(16, 31, True, None), D=(32, 39, False, None),
                      E=(64, 64, False, ["x", "y"])),
    "narrow": dict(A=(0, 6, True, None), B=(7, 8, True, None), C=(9, 31, True, None)),
    "reversed": dict(T=(96, 127, False, None), A=(24, 31, False, None),
                     B=(0, 7, False, None), E=(40, 42, False, ["a", "b", "c"])),
}


def layout(ctx):
    """whole tables of 0..2 rows with numbers, booleans and choices"""
    run(ctx, LAYOUTS[ctx.params["layout"]], ctx.params["rows"],
        ctx.params.get("inrange", True))
    ctx.cover("done")


def default(ctx):
    """a table with no declared fields holds one 32 bit number per row"""
    ctx.symbolic_arrays()
    part, client = make({})
    v = ctx.bits("v", -(2 ** 31), 2 ** 31 - 1)
    part.set_field(part.meta.validate(part.meta.table_cls(value=[v])))
    sent = client.sent[0][2]
    ctx.check(len(sent) == 1 and ctx.And(sent[0] == v % 2 ** 32), "packed word")
    from malcolm.core import TimeStamp

    part.handle_change([str_of(ctx, sent[0])], TimeStamp())
    ctx.check(ctx.eq(list(part.attr.value["value"]), [v]), "value read back")


HARNESSES = {
    "field": Harness(field, quick=[dict(word=0), dict(word=1)],
                     thorough=[dict(word=w) for w in range(4)],
                     must=["signed", "unsigned", "ends at a word boundary",
                           "top bit is a multiple of 32"]),
    "neighbours": Harness(
        neighbours, quick=[dict(odd=o, signed=s) for o in (0, 1) for s in (True, False)],
        must=["done"]),
    "layout": Harness(
        layout,
        quick=[dict(layout=k, rows=1) for k in LAYOUTS]
        + [dict(layout="boundary2", rows=2), dict(layout="seq", rows=0)],
        thorough=[dict(layout=k, rows=r, inrange=i) for k in LAYOUTS
                  for r in (0, 1, 2, 3) for i in (True, False)],
        must=["done"]),
    "default": Harness(default),
}
