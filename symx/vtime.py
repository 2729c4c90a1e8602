"""The real cothread scheduler on a virtual clock.

cothread's Python scheduler and coroutine switching are used unchanged; only
the blocking poll is replaced: instead of sleeping it advances the clock, and
when nothing can ever run again it raises Deadlock in the main coroutine."""
import time as _time

real_time = _time.time
real_monotonic = _time.monotonic


class Deadlock(Exception):
    """Main is waiting for something that can no longer happen"""


class VClock:
    def __init__(self):
        self.now = 1.0e9

    def reset(self):
        self.now = 1.0e9

    def time(self):
        # time always passes between two readings, as code may wait for it
        self.now += 1e-6
        return self.now

    def sleep(self, dt):
        self.now += max(float(dt), 0.0)


clock = VClock()
_installed = False


def install():
    global _installed
    import cothread.cothread  # noqa

    if not _installed:
        _time.time = clock.time
        _time.sleep = clock.sleep
        _installed = True


def _poll(poll_list, delay):
    from . import engine as E

    en = E.CURRENT
    if en is not None and en.pending_abort is not None:
        raise en.pending_abort
    if delay is None:
        raise Deadlock("nothing left to run")
    if delay > 0:
        clock.now += delay
        if clock.now > 1.0e9 + 1.0e6:
            raise Deadlock("virtual time limit: livelock")
    return []


_keep = []


def fresh():
    """A new scheduler, so nothing of an earlier run can ever wake up"""
    import cothread.cothread as cc

    old = getattr(cc, "_scheduler", None)
    if old is not None:
        _keep.append(old)
        if len(_keep) > 3:
            del _keep[0]
    cc.Spawn.Cothreads = set()
    cc._scheduler = cc._Scheduler.create()
    cc._scheduler._poll_block = _poll
    clock.reset()
