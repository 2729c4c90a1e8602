"""Context: waiting for replies, updates, stops and timeouts in any order"""
from symx.harness import Harness

TITLE = "Waiting for futures ends exactly when it should"
ASSUMPTIONS = [
    "the controller behind the context is a stand-in that answers what and when "
    "it is told; events are a second apart and timeouts fall between them",
    "the real cothread scheduler runs on a virtual clock",
]


class Boom(Exception):
    pass


class World:
    """A process with one controller that keeps the requests it gets"""

    def __init__(self):
        self.requests = []
        self.by_id = {}
        self.unsubscribed = []
        self.answer_unsubscribe = True

    mri_list = ["B"]

    def get_controller(self, mri):
        return self

    def handle_request(self, request):
        from malcolm.core import Subscribe, Unsubscribe

        if isinstance(request, Unsubscribe):
            self.unsubscribed.append(request.id)
            if self.answer_unsubscribe:
                cb, r = self.by_id[request.id].return_response()
                cb(r)
        else:
            self.requests.append(request)
            self.by_id[request.id] = request


def deliver(pair):
    cb, response = pair
    cb(response)


def order_of(ctx, name, things):
    """Any order of the things, picked by the solver"""
    rest = list(things)
    out = []
    i = 0
    while rest:
        if len(rest) == 1:
            out.append(rest.pop())
        else:
            out.append(rest.pop(int(ctx.int(f"{name}{i}", 0, len(rest) - 1))))
        i += 1
    return out


def model_wait(queue, pos, now, times, wanted, done, timeout, event_timeout, sentinel):
    """What waiting should do: (outcome, position, time)

    queue holds the events in the order they arrive, times when"""
    end = None if timeout is None else now + timeout
    left = []
    for f in wanted:
        if f in done:
            if done[f] is not None:
                return ("error", done[f]), pos, now
        else:
            left.append(f)
    while left:
        until = end
        if event_timeout is not None:
            until = now + event_timeout if end is None else min(end, now + event_timeout)
        if pos >= len(queue) or (times[pos] > now and until is not None
                                 and times[pos] > until):
            if until is None:
                return ("hang", None), pos, now
            return ("timeout", None), pos, max(now, until)
        ev = queue[pos]
        now = max(now, times[pos])
        pos += 1
        if ev[0] == "sentinel":
            sentinel[0] -= 1
        elif ev[0] == "stop":
            if not sentinel[0]:
                return ("abort", None), pos, now
        elif ev[0] == "reply":
            done[ev[1]] = ev[2]
            if ev[1] in left:
                left.remove(ev[1])
                if ev[2] is not None:
                    return ("error", ev[2]), pos, now
    return ("ok", None), pos, now


def replies(ctx):
    """2..3 requests answered in any order by any value or an error, 0..1 stops and
    ignored stops, any number of events before the wait, any subset waited for with
    any timeout, then all of them waited for"""
    import time

    import cothread

    from malcolm.core import AbortedError, Context, TimeoutError

    p = ctx.params
    n = p["n"]
    w = World()
    c = Context(w)
    futs = []
    for i in range(n):
        if i % 2:
            futs.append(c.post_async(["B", "m"], dict(a=i)))
        else:
            futs.append(c.put_async(["B", "a", "value"], i))
    ctx.check(len(w.requests) == n and len({r.id for r in w.requests}) == n,
              "one request each, with its own id", w.requests)
    vals = [ctx.int(f"val{i}", -1000, 1000) for i in range(n)]
    fails = [bool(ctx.bool(f"fail{i}")) for i in range(n)]
    errors = [Boom(str(i)) if fails[i] else None for i in range(n)]
    events = [("reply", i, errors[i]) for i in range(n)]
    if p.get("stop"):
        events.append(("stop",))
    if p.get("ignore"):
        events.append(("sentinel",))
    queue = order_of(ctx, "next", events)
    before = int(ctx.int("before", 0, len(queue)))
    sentinel = [0]
    if p.get("ignore"):
        # stops sent before this point are not listened to, whenever it is served
        sentinel[0] = 1 if queue.index(("sentinel",)) < before else 0
        ctx.assume(sentinel[0] == 1)
    t0 = time.time()
    times = [0] * before + [1 + i for i in range(len(queue) - before)]

    def fire(ev):
        if ev[0] == "stop":
            c.stop()
        elif ev[0] == "sentinel":
            c.ignore_stops_before_now()
        elif ev[2] is None:
            deliver(w.requests[ev[1]].return_response(vals[ev[1]]))
        else:
            deliver(w.requests[ev[1]].error_response(ev[2]))

    for ev in queue[:before]:
        fire(ev)

    def sender():
        for ev in queue[before:]:
            cothread.Sleep(1)
            fire(ev)

    cothread.Spawn(sender)
    mask = int(ctx.int("subset", 1, 2 ** n - 1))
    wanted = [i for i in range(n) if mask & (1 << i)]
    if p.get("backwards"):
        wanted.reverse()
    timeout = event_timeout = None
    if p.get("timeout"):
        timeout = int(ctx.int("timeout", 0, len(queue))) + 0.5
    if p.get("event_timeout"):
        event_timeout = ctx.choice("event", [0.5, 1.5])
    pos, now, done = 0, 0, {}

    def wait(wanted, timeout, event_timeout):
        nonlocal pos, now
        want, pos, now = model_wait(queue, pos, now, times, wanted, done, timeout,
                                    event_timeout, sentinel)
        if want[0] == "hang":
            return False
        got, err = "ok", None
        try:
            c.wait_all_futures([futs[i] for i in wanted], timeout=timeout,
                               event_timeout=event_timeout)
        except TimeoutError:
            got = "timeout"
        except AbortedError:
            got = "abort"
        except Boom as e:
            got, err = "error", e
        elapsed = time.time() - t0
        ctx.check(got == want[0], "how the wait ends", (got, want, queue))
        if got == "error":
            ctx.check(err is want[1], "the first error is raised", (err, want))
        ctx.check(abs(elapsed - now) < 0.4, "when the wait ends",
                  (got, elapsed, now, queue))
        ctx.cover(got)
        for i in range(n):
            ctx.check(futs[i].done() == (i in done), "which are done", (i, done))
        return True

    if not wait(wanted, timeout, event_timeout):
        return
    # then wait until it is all over
    for _ in range(len(queue) + 1):
        if len(done) == n:
            break
        if not wait(list(range(n)), None, None):
            return
    for i in range(n):
        if i not in done:
            continue
        if done[i] is None:
            ctx.check(futs[i].result(timeout=0) == vals[i], "own reply", i)
        else:
            ctx.check(futs[i].exception(timeout=0) is errors[i], "own error", i)
            try:
                futs[i].result()
            except Boom as e:
                ctx.check(e is errors[i], "own error", i)
            else:
                ctx.check(False, "error is raised", i)
    ctx.check(len(w.requests) == n, "nothing else asked")


def nested(ctx):
    """A subscription callback that itself waits for some of 2..5 requests while the
    others, which the outer wait is for, are answered in any order"""
    import cothread

    from malcolm.core import Context

    n = ctx.params["n"]
    w = World()
    c = Context(w)
    vals = [ctx.int(f"val{i}", -1000, 1000) for i in range(n)]
    inner = ctx.params["inner"]
    seen = []

    def callback(value):
        seen.append(value)
        c.wait_all_futures([futs[i] for i in inner])

    c.subscribe(["B", "a", "value"], callback)
    sub = w.requests[0]
    futs = [c.put_async(["B", "a", "value"], i) for i in range(n)]
    reqs = w.requests[1:]
    order = order_of(ctx, "next", list(range(n)))
    # the update arrives before this many of the replies
    at = int(ctx.int("at", 0, n))

    def sender():
        for j, i in enumerate(order):
            if j == at:
                deliver(sub.update_response(j))
            deliver(reqs[i].return_response(vals[i]))
        if at == n:
            deliver(sub.update_response(n))

    if ctx.bool("early"):
        sender()
    else:
        cothread.Spawn(sender)
    outer = [i for i in range(n) if i not in inner]
    waits = [futs[i] for i in outer]
    c.wait_all_futures(waits, timeout=20)
    for i in outer:
        ctx.check(futs[i].done(), "all replies have arrived", i)
        ctx.check(futs[i].result() == vals[i], "own reply", i)
    c.sleep(1)
    ctx.check(seen == [at], "callback run once", seen)
    for i in range(n):
        ctx.check(futs[i].done(), "all done in the end", i)
        ctx.check(futs[i].result() == vals[i], "own reply", i)
    ctx.cover("nested")


def when(ctx):
    """Waiting for one of two bad values or a good one among 3 updates of any value,
    some before the wait, with or without a timeout, a stop or a failing
    subscription"""
    import time

    import cothread

    from malcolm.core import AbortedError, BadValueError, Context, TimeoutError

    p = ctx.params
    w = World()
    c = Context(w)
    n = p["n"]
    good = ctx.int("good", -100, 100)
    vals = [ctx.int(f"val{i}", -100, 100) for i in range(n)]
    bad = [ctx.int(f"bad{i}", -100, 100) for i in range(p["bad"])]
    for b in bad:
        ctx.assume(b != good)
    others = []
    c.subscribe(["B", "other", "value"], lambda v: others.append(v))
    so = w.requests[0]
    before = int(ctx.int("before", 0, n))
    stop = int(ctx.int("stop", 0, n)) if p.get("stop") else None
    kind = p.get("kind", "value")
    target = good
    if kind == "callable":
        def target(v):
            if any(v == b for b in bad):
                raise Boom("bad")
            return v == good
        fut = c.when_matches_async(["B", "a", "value"], target)
    else:
        fut = c.when_matches_async(["B", "a", "value"], good, bad or None)
    sw = w.requests[1]
    # a subscription that fails does so instead of giving its first update
    fail_at = 0 if p.get("fail") and ctx.bool("refused") else None
    boom = Boom("subscription")
    sent = []

    def fire(i):
        if fail_at == i:
            deliver(sw.error_response(boom))
            sent.append("fail")
            return
        deliver(so.update_response(i))
        if sw.id not in w.unsubscribed and "fail" not in sent:
            deliver(sw.update_response(vals[i]))

    for i in range(before):
        fire(i)
    t0 = time.time()

    def sender():
        for i in range(before, n):
            cothread.Sleep(1)
            fire(i)

    cothread.Spawn(sender)
    if stop is not None:
        def stopper():
            cothread.Sleep(stop + 0.5)
            c.stop()
        cothread.Spawn(stopper)
    timeout = p.get("timeout")
    if timeout:
        timeout = int(ctx.int("timeout", 0, n)) + 0.25
    # what should happen
    want, at = None, None
    for i in range(n):
        t = 0 if i < before else i - before + 1
        if i == fail_at:
            want, at = "fail", t
        elif any(bool(vals[i] == b) for b in bad):
            want, at = "bad", t
        elif vals[i] == good:
            want, at = "ok", t
        if want:
            break
    limits = [(x, k) for x, k in ((timeout, "timeout"), (
        None if stop is None else stop + 0.5, "abort")) if x is not None]
    if limits and (at is None or min(limits)[0] < at):
        at, want = min(limits)
    if want is None:
        ctx.cover("for ever")
        return
    got = "ok"
    try:
        if ctx.params.get("result"):
            fut.result(timeout=timeout)
        else:
            c.wait_all_futures(fut, timeout=timeout)
    except TimeoutError:
        got = "timeout"
    except AbortedError:
        got = "abort"
    except BadValueError:
        got = "bad"
    except Boom as e:
        got = "fail" if e is boom else "bad"
    ctx.check(got == want, "how the wait ends", (got, want))
    ctx.check(abs(time.time() - t0 - at) < 0.2, "when the wait ends",
              (got, time.time() - t0, at))
    ctx.check((sw.id in w.unsubscribed) == (want in ("ok", "bad")),
              "the subscription ends with the wait", (want, w.unsubscribed))
    ctx.check(so.id not in w.unsubscribed, "no other subscription ends")
    ctx.check(fut.done() == (want in ("ok", "fail") or want == "bad" and fut.done()),
              "done", want)
    ctx.cover(want)
    if stop is None:
        for _ in range(2):
            try:
                c.sleep(n + 2)
            except (BadValueError, Boom):
                pass  # still subscribed after a timeout
        expect = [i for i in range(n) if i != fail_at]
        ctx.check(others == expect, "other callbacks run in order of arrival",
                  (others, expect))


def callbacks(ctx):
    """Updates of two subscriptions interleaved in any way with unsubscribing one of
    them, replies and sleeps of any length"""
    import time

    import cothread

    from malcolm.core import Context

    p = ctx.params
    w = World()
    c = Context(w)
    n = p["n"]
    vals = [ctx.int(f"val{i}", -1000, 1000) for i in range(n)]
    which = [int(ctx.int(f"which{i}", 0, 1)) for i in range(n)]
    gone = int(ctx.int("gone", 0, n))  # unsubscribed before this one
    before = int(ctx.int("before", 0, n))
    seen = []
    extra = object()
    subs = [c.subscribe(["B", f"a{j}", "value"],
                        lambda v, *a: seen.append((v,) + a), j, extra)
            for j in range(2)]
    reqs = list(w.requests)

    def fire(i):
        if i == gone:
            c.unsubscribe(subs[0])
        deliver(reqs[which[i]].update_response(vals[i]))

    for i in range(before):
        fire(i)

    def sender():
        for i in range(before, n):
            cothread.Sleep(1)
            fire(i)

    cothread.Spawn(sender)
    for s in (0.5, int(ctx.int("nap", 0, 2)) + 0.5):
        start = time.time()
        c.sleep(s)
        ctx.check(abs(time.time() - start - s) < 0.2, "sleeps that long", s)
    c.sleep(n + 1)
    # once unsubscribed nothing that is still queued is delivered either
    expect = []
    for i in range(n):
        if which[i] == 0:
            if i >= gone:
                continue
            if gone < before and i < before:
                continue  # was still waiting to be served
        expect.append((vals[i], which[i], extra))
    ctx.check(len(seen) == len(expect), "one call per update", (seen, expect))
    ctx.check(ctx.And(*[ctx.And(a[0] == b[0], a[1] == b[1], a[2] is b[2])
                        for a, b in zip(seen, expect)]),
              "in the order of arrival, with their arguments", (seen, expect))
    ctx.cover("gone" if gone < n else "stays")


def naps(ctx):
    """Two sleeps of any length, stops at any times before or in them, told to ignore
    the earlier stops before either of them"""
    import time

    import cothread

    from malcolm.core import AbortedError, Context

    p = ctx.params
    w = World()
    c = Context(w)
    n = p["stops"]
    early = int(ctx.int("early", 0, n))  # stops before the first sleep
    at = [int(ctx.int(f"at{i}", 0, 3)) + 0.5 for i in range(early, n)]
    times = [sum(at[:i + 1]) for i in range(len(at))]
    for _ in range(early):
        c.stop()

    def stopper():
        for t in at:
            cothread.Sleep(t)
            c.stop()

    cothread.Spawn(stopper)
    # stops are kept until something waits
    stops, now = [0] * early + times, 0
    start = time.time()
    for i in range(2):
        length = int(ctx.int(f"nap{i}", 0, 3))
        if ctx.bool(f"ignore{i}"):
            c.ignore_stops_before_now()
            stops = [t for t in stops if t > now]
            ctx.cover("ignored")
        due = bool(stops) and stops[0] < now + max(length, 0.1)
        end = max(stops[0], now) if due else now + length
        try:
            c.sleep(length)
        except AbortedError:
            ctx.check(due, "only aborted by a stop", (i, times, early))
            ctx.cover("abort")
            stops.pop(0)
        else:
            # without waiting there is no need to look
            ctx.check(not due or not length, "aborted by a stop", (i, times, early))
            ctx.cover("slept")
            if due:
                return
        ctx.check(abs(time.time() - start - end) < 0.2, "at the right time",
                  (i, time.time() - start, end))
        now = end


R = [dict(n=2, timeout=1), dict(n=2, stop=1), dict(n=2, stop=1, timeout=1),
     dict(n=3), dict(n=2, timeout=1, event_timeout=1, backwards=1),
     dict(n=2, stop=1, ignore=1), dict(n=2, event_timeout=1)]
W = [dict(n=2, bad=1), dict(n=3, bad=1, timeout=1), dict(n=2, bad=2, stop=1),
     dict(n=2, bad=0, timeout=1, stop=1), dict(n=2, bad=1, fail=1),
     dict(n=2, bad=1, kind="callable", result=1)]
HARNESSES = {
    "replies": Harness(replies, quick=R, thorough=R + [
        dict(n=3, timeout=1, stop=1), dict(n=3, stop=1, ignore=1),
        dict(n=3, timeout=1, event_timeout=1), dict(n=4)],
        must=["ok", "timeout", "abort", "error"]),
    "naps": Harness(naps, quick=[dict(stops=1), dict(stops=2)],
                    thorough=[dict(stops=1), dict(stops=2), dict(stops=3)],
                    must=["ignored", "abort", "slept"]),
    "nested": Harness(nested, quick=[
        dict(n=3, inner=[0]), dict(n=4, inner=[1]), dict(n=4, inner=[0, 2])],
        thorough=[dict(n=3, inner=[0]), dict(n=4, inner=[1]), dict(n=4, inner=[0, 2]),
                  dict(n=5, inner=[3]), dict(n=5, inner=[0, 4])], must=["nested"]),
    "when": Harness(when, quick=W, thorough=W + [
        dict(n=4, bad=2, timeout=1), dict(n=3, bad=2, timeout=1, stop=1),
        dict(n=3, bad=1, fail=1, timeout=1)],
        must=["ok", "bad", "timeout", "abort", "fail"]),
    "callbacks": Harness(callbacks, quick=[dict(n=3)], thorough=[dict(n=4)],
                         must=["gone", "stays"]),
}
