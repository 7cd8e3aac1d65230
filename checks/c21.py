"""C21: timers report exactly the time spent running."""
META = dict(
    bounds="every sequence of 4 operations (quick; 5 thorough) among start, pause, stop, stop with a number of elements (or none), entering and leaving a with-block normally or "
           "by an exception, or stopped inside, on one timer or on two interleaved timers (3 operations; 4 thorough), or of 2 (3 thorough) on a timer created for a number of elements; the clock starts at any time (including 0) and advances by any "
           "amount (including 0) between operations",
    outside="clocks that go backwards, time passing while an operation of the timer runs, the layout of the report beside its numbers",
    assumptions=["the clocks of the time module are replaced by one that shows the symbolic time of the operation", "reported times are read from the logged message "
                 "(the four printed digits: tolerance 1e-4)"],
    must_reach=["elapsed is the time spent running", "misuse is refused", "a correct use is accepted", "report is the time spent running", "report per element"],
)
OPS = ['start', 'pause', 'stop', 'stopn', 'stop0', 'with', 'withfail', 'withstop']
TOL = 1e-9


class Model:
    """what a timer must know"""

    def __init__(self):
        self.since, self.acc, self.nelem, self.former = None, 0, None, None


def operation(w, op, t, m, now, tick, msgs, TimerError):
    """one operation; returns the time after it"""
    del msgs[:]
    before = t.elapsed
    running = m.since is not None
    reports = None
    if op in ('with', 'withfail', 'withstop'):
        inside = None

        def body():
            nonlocal inside
            with t:
                inside = tick()
                if op == 'withfail':
                    raise KeyError('body')
                if op == 'withstop':
                    t.stop()
        _, err = w.raises(body)
        if running:
            w.check(isinstance(err, TimerError), "misuse is refused")
            if not isinstance(err, TimerError):
                return now
        else:
            if op == 'withstop':  # stopped in the block: the block cannot stop it again
                w.check(isinstance(err, TimerError), "misuse is refused")
            else:
                w.check(isinstance(err, KeyError) if op == 'withfail' else err is None, "a correct use is accepted")
            if inside is None:
                return now
            reports = m.acc + (inside - now)
            m.acc, m.since = 0, None
            now = inside
    else:
        call = {'start': t.start, 'pause': t.pause, 'stop': t.stop, 'stopn': lambda: t.stop(nelem=250), 'stop0': lambda: t.stop(nelem=0)}[op]
        _, err = w.raises(call)
        bad = running if op == 'start' else not running
        if bad:
            w.check(isinstance(err, TimerError), "misuse is refused")
        else:
            w.check(err is None, "a correct use is accepted")
        if not bad:
            if op == 'stopn':
                m.nelem = 250
            if op == 'stop0':
                m.former, m.nelem = m.nelem or m.former, 0
            if op == 'start':
                m.since = now
            else:
                m.acc = m.acc + (now - m.since)
                m.since = None
                if op in ('stop', 'stopn', 'stop0'):
                    reports, m.acc = m.acc, 0
        else:
            w.check(w.close(t.elapsed, before, 0, TOL), "misuse changes nothing")
    if reports is None:
        w.check(w.close(t.elapsed, m.acc, 0, TOL), "elapsed is the time spent running")
    else:
        got = [v for _, x in msgs for v in w.numbers(x)]
        w.check(w.Or(*[w.close(v, reports, 0, 1e-4) for v in got]), "report is the time spent running")
        if m.nelem:
            w.check(w.Or(*[w.close(v, 1e6 * reports / m.nelem, 1e-9, 1e-4) for v in got]), "report per element")
        elif m.former:
            w.check(w.Or(reports <= 1, w.And(*[w.Not(w.close(v, 1e6 * reports / m.former, 1e-9, 1e-4)) for v in got])), "no report per element when there is none")
    return now


def sequence(w, length, timers, first, given=None):
    now = [w.real('t0', 0, 100)]
    w.clock(now[0])
    msgs = w.capture_log()
    A = w.mod('cfdtools.api')
    count = [0]

    def tick():
        count[0] += 1
        now[0] = now[0] + w.real(f'dt{count[0]}', 0, 100)
        w.clock(now[0])
        return now[0]

    ts = [A.Timer(task="a task") if k else A.Timer() if given is None else A.Timer(nelem=given) for k in range(timers)]
    ms = [Model() for _ in ts]
    ms[0].nelem = given
    for k in range(length):
        i = w.pick(f'timer{k}', range(timers))
        op = first if k == 0 else w.pick(f'op{k}', OPS)
        operation(w, op, ts[i], ms[i], now[0], tick, msgs, A.TimerError)
        tick()


def long(w, n):
    """many runs of the same timer"""
    w.clock(0)
    A = w.mod('cfdtools.api')
    t = A.Timer()
    total, now = 0, 0
    for k in range(n):
        a, b = w.real(f'a{k}', 0, 100), w.real(f'b{k}', 0, 100)
        now = now + a
        w.clock(now)
        t.start()
        now = now + b
        w.clock(now)
        t.pause()
        total = total + b
    w.check(w.close(t.elapsed, total, 0, TOL), "elapsed is the time spent running")


def scenarios(tier):
    T = tier == 'thorough'
    o = dict(max_replay=60, budget=200 if not T else 2000)
    return [('sequence', sequence, [dict(length=5 if T else 4, timers=1, first=f) for f in OPS] + [dict(length=4 if T else 3, timers=2, first=f) for f in OPS] +
             [dict(length=3 if T else 2, timers=1, first=f, given=40) for f in ('start', 'with')], o),
            ('long', long, [dict(n=k) for k in ((12, 40) if not T else (12, 40, 120))], o)]
