class Harness:
    """A symbolic harness.

    fn(ctx)   drives the real code
    quick     list of parameter dicts explored in the quick tier
    thorough  list of parameter dicts explored in the thorough tier
    must      labels every run has to cover (vacuity guard)
    """

    def __init__(self, fn, quick=None, thorough=None, must=(), query_ms=20000,
                 max_fork=70, setup=None, replay_all=True, bounds="", path_s=60):
        self.fn = fn
        self.quick = quick or [{}]
        self.thorough = thorough or self.quick
        self.must = tuple(must)
        self.query_ms = query_ms
        self.max_fork = max_fork
        self.path_s = path_s
        self.setup = setup
        self.replay_all = replay_all
        self.bounds = bounds or (fn.__doc__ or "").strip()
