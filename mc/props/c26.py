"""C26: progress reports state durations, sizes and finish times correctly."""
import datetime
import itertools
import math
import re
import time

from mc import ref, repo, sim
from mc.world import World

ID = "C26"
BOUNDS = {
    "quick": "durations at and around every unit boundary (0 s to 400 days), sizes at and "
             "around every power of 1024, remaining-time estimates for all frame counts "
             "<= 7 x recomputation intervals <= 5 x start frames <= 4 x frames x 3 timing "
             "tables x compiled/interpreted, finish times for 7 clock readings x 22 durations, "
             "and complete runs under a controlled clock in every scheme",
    "thorough": "frame counts <= 12, finer durations",
}
ASSUME = ["the estimate's documented allowance of 3% is part of the quantity"]
EPOCH = datetime.datetime(1970, 1, 1)
CLOCKS = [datetime.datetime(2024, 2, 28, 23, 59, 30), datetime.datetime(2023, 12, 31, 12, 0),
          datetime.datetime(2024, 2, 25, 0, 0), datetime.datetime(2025, 6, 15, 8, 59, 59),
          datetime.datetime(2024, 10, 6, 23, 0), datetime.datetime(2024, 10, 5, 6, 30),
          datetime.datetime(2024, 3, 1, 17, 45, 1)]
LEFT = [0, 1, 29, 30, 31, 59.6, 600, 600.5, 3600, 3601, 18000, 18001, 43200, 86399, 86400,
        86401, 2 * 86400, 6 * 86400, 6 * 86400 + 43200, 7 * 86400, 8 * 86400, 400 * 86400]


def setup():
    sim.preload()


def durations(tier):
    out = {0, 0.04, 0.06, 0.31, 0.949, 1, 1.51, 9.94, 9.96, 10, 12.34, 33.26, 59, 59.9, 59.94}
    for b in (60, 120, 600, 3600, 7200, 36000, 86400, 2 * 86400, 10 * 86400, 400 * 86400):
        out |= {b, b + 0.5, b + 1, b + 59, b + 61, b + 3599, b - 1, b - 0.5, b - 60.0}
    if tier == "thorough":
        out |= set(range(0, 200000, 37)) | {x + 0.75 for x in range(0, 90000, 101)}
    return sorted(x for x in out if not 59.95 <= x < 60)


def cases(tier):
    out = [["duration", x] for x in durations(tier)]
    big = (-1, 0, 1)
    sz = {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 48, 5808}
    for p in range(1, 8):
        for f in (1, 1.5, 9.994, 10, 99.94, 100, 500, 999.4, 999.6, 1000, 1023):
            sz |= {int(f * 1024 ** p) + d for d in big}
    out += [["size", x] for x in sorted(sz)]
    N = 7 if tier == "quick" else 12
    for n, inv, start, tab, jit in itertools.product(
            range(1, N + 1), range(1, 6), range(0, 5), range(3), (True, False)):
        if start < n:
            out.append(["estimate", n, inv, start, tab, jit])
    out += [["finish", i] for i in range(len(CLOCKS))]
    for sch, inv, n, jit in itertools.product(("euler", "ab2", "rk4"), (1, 2, 3), (1, 3, 6),
                                              (True, False)):
        out.append(["run", sch, inv, n, jit])
    return out


def clock(t):
    """Make every way of asking the time answer t() seconds after 1970."""
    real = datetime.datetime

    class Fake(real):
        @classmethod
        def now(cls, tz=None):
            return EPOCH + datetime.timedelta(seconds=t())
        today = now
        utcnow = now
    strf, local = time.strftime, time.localtime
    datetime.datetime = Fake
    time.time = lambda: t()
    time.perf_counter = time.monotonic = time.process_time = time.time
    time.localtime = lambda s=None: time.gmtime(t() if s is None else s)
    del strf, local


def length(x):
    """d:h:m:s in whole units, or tenths of a second below a minute."""
    if x < 60:
        return ("%.1fs" % x).rjust(8)
    s = int(math.floor(x))
    d, h, m, s = s // 86400, s // 3600 % 24, s // 60 % 60, s % 60
    if d:
        return "%dd%2d:%02d:%02d" % (d, h, m, s)
    return ("%d:%02d:%02d" % (h, m, s) if h else "%d:%02d" % (m, s)).rjust(8)


def size(x):
    u = 0
    while x >= 1024:
        x, u = x / 1024, u + 1
    return "%s %sB" % ("%.0f" % x if x >= 999.5 else "%.3g" % x, " KMGTPEZ"[u].strip())


def left(times, frame, n, inv, start, jit):
    """Estimated seconds left and whether it is flagged as uncertain."""
    seen = range(start, frame + 1)
    lo = [times[i] for i in seen if i % inv == 0 or i == start]
    sh = [times[i] for i in seen if not (i % inv == 0 or i == start)]
    use = lo[1:] if jit and len(lo) > 1 else lo
    la = sum(use) / len(use)
    sa = sum(sh) / len(sh) if sh else la
    nl = sum(1 for i in range(frame + 1, n) if i % inv == 0)
    ns = sum(1 for i in range(frame + 1, n) if i % inv)
    sure = not (jit and len(lo) == 1) and (ns == 0 or bool(sh))
    unsure = (jit and len(lo) == 1) or (frame == start and ns > 0)
    return 1.03 * (ns * sa + nl * la), sure, unsure


def finish(now, x):
    e = now + datetime.timedelta(seconds=x)
    days = (e.date() - now.date()).days
    names = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
    t = "%02d:%02d" % (e.hour, e.minute)
    if days == 0:
        return t
    if days < 7:
        return names[e.weekday()] + " " + t
    return "%02d/%02d/%02d %s" % (e.day, e.month, e.year % 100, t)


def plain(s):
    return re.sub("\x1b\\[[0-9;]*m", "", s)


def check(case, out):
    if case[0] == "run":
        return run(case, out)
    sim.aside(functions, case, out)


def functions(case, out):
    if case[0] == "finish":
        now = [0.0]
        clock(lambda: now[0])
    repo.load([1, 1, 0.1, 1])
    from functions import shared, timestepping as ts
    out.state(case)
    out.edge()
    if case[0] == "duration":
        s = shared.format_elapsed_time(case[1])
        out.ok(s == length(case[1]), "duration", "%r for %r s, expected %r" % (s, case[1], length(case[1])))
        if case[1] < 86400:
            out.ok(len(s) == 8, "duration|width", repr(s))
        p = plain(ts.format_time_left(case[1], "<"))
        out.ok(p == "<" + length(case[1]), "time left", "%r for %r" % (p, case[1]))
        out.outcome(s)
        out.trace()
    elif case[0] == "size":
        s = shared.sizeof_fmt(case[1])
        out.ok(s.split() == size(case[1]).split() and len(s) == 7, "size",
               "%r for %r bytes, expected %r" % (s, case[1], size(case[1])))
        out.outcome(s)
        out.trace()
    elif case[0] == "estimate":
        import numba
        _, n, inv, start, tab, jit = case
        numba.config.DISABLE_JIT = 0 if jit else 1
        t = [[1.0] * n, [(10.0 if i % inv == 0 else 1.0) + 0.01 * i * i for i in range(n)],
             [40.0 / (1 + i - start) if i >= start else 0 for i in range(n)]][tab]
        for f in range(start, n):
            times = [x if i <= f else 0 for i, x in enumerate(t)]
            v, flags = ts.calculate_time_left(times, f, n, inv, start)
            want, sure, unsure = left(times, f, n, inv, start, jit)
            out.state(case, f)
            out.edge()
            out.close("estimate", v, want, 1e-12, 1e-12, scale=1)
            out.ok(not (sure and flags), "estimate|flagged", repr(flags))
            out.ok(not (unsure and not flags), "estimate|unflagged", repr(flags))
            out.outcome(v, flags)
            out.trace()
    else:
        c = CLOCKS[case[1]]
        for x in LEFT:
            now[0] = (c - EPOCH).total_seconds()
            s = ts.format_finish_time(x, "")
            out.state(case, x)
            out.edge()
            out.ok(s == finish(c, x), "finish time", "%r at %s in %s s, expected %r" % (
                s, c, x, finish(c, x)))
            out.ok(ts.format_finish_time(x, "<") == "<" + s, "finish time|flag", s)
            out.outcome(s)
            out.trace()


def run(case, out):
    """What a whole run prints when each solve takes a known time."""
    _, sch, inv, n, jit = case
    S = ref.System([1.0, 1.0], [[0, 0, 0], [3, 0, 0]], [0.1], [[0, 4, 0]], [[1, 0, 0]])
    w = World(S)
    t0 = (datetime.datetime(2024, 5, 14, 22, 30, 10) - EPOCH).total_seconds()
    t = [t0]
    done = [0]
    calls = 4 if sch == "rk4" else 1
    solve = w.solver

    def solver(pos, frame, dt):
        f = int(frame + 1e-9)
        long = 3000.0 if done[0] % calls == 0 and f % inv == 0 else 0.0
        done[0] += 1
        t[0] += 55.0 + f + long
        r = list(solve(pos, frame, dt))
        r[11] = [long, 5.0, 10.0 + f, 0.25]
        return tuple(r)

    def patch(res):
        import numba
        import psutil
        numba.config.DISABLE_JIT = 0 if jit else 1
        res["rss"] = psutil.Process().memory_info().rss
    d = sim.workdir()
    try:
        r = sim.run(w.spec([8, 1, 0.1, n, "fte"], dict(timestepping_scheme=sch, invert_m_every=inv),
                           solver=solver, patch=patch,
                           early=lambda res: clock(lambda: t[0])), d)
    finally:
        sim.drop(d)
    if not sim.check_ended(out, r):
        return
    text = plain(r["stdout"])
    rows = [x for x in text.splitlines() if "[[" in x and "TimeLeft" not in x]
    if not out.ok(len(rows) == n, "run|lines", "%d progress lines for %d frames" % (len(rows), n)):
        return
    out.ok(("Memory:  ~" + size(48 * S.size ** 2).rjust(7)) in text, "run|matrix size",
           size(48 * S.size ** 2))
    times, total = [], 0
    now = datetime.datetime(2024, 5, 14, 22, 30, 10)
    for f in range(n):
        long = 3000.0 if f % inv == 0 else 0.0
        # stages of frame f are solved at f, f+1/2, f+1/2, f+1
        at = [f] + ([f, f, f + 1] if calls == 4 else [])
        lens = [55.0 + k + (3000.0 if i == 0 and f % inv == 0 else 0) for i, k in enumerate(at)]
        times.append(sum(lens))
        out.state(case, f)
        out.edge()
        tok = re.findall(r"\[\[?\s*([^\[\]]*?)\s*\]", rows[f])
        # leading tokens: four parts of the solve, saving, memory, total, left, finish
        want = [long, 5.0 * calls, sum(10.0 + k for k in at), 0.25 * calls, 0.0]
        total += times[-1]
        now += datetime.timedelta(seconds=times[-1])
        v, sure, unsure = left(times + [0] * (n - f - 1), f, n, inv, 0, jit)
        if not out.ok(len(tok) == 9, "run|columns", rows[f]):
            continue
        out.ok(tok[:5] == [length(x).strip() for x in want], "run|parts",
               "%s, expected %s" % (tok[:5], [length(x).strip() for x in want]))
        out.ok(tok[6] == length(times[-1]).strip(), "run|frame time", "%s, expected %s" % (
            tok[6], length(times[-1])))
        fl = tok[7][:len(tok[7]) - len(tok[7].lstrip("<"))]
        out.ok(tok[7].lstrip("< ") == length(v).strip(), "run|time left", "%s, expected %s" % (
            tok[7], length(v)))
        out.ok(tok[8] == fl + finish(now, v), "run|finish time", "%s, expected %s" % (
            tok[8], finish(now, v)))
        m = re.match(r"([\d.e+]+) ([KMGT]?)B$", tok[5])
        if out.ok(m is not None, "run|memory form", tok[5]):
            b = float(m[1]) * 1024 ** " KMGT".index(m[2] or " ")
            out.ok(0.5 < b / r["rss"] < 2, "run|memory", "%s with %d in use" % (tok[5], r["rss"]))
    m = re.search(r"Total time to run\s+([^\]]*)\]", text)
    out.ok(m is not None and m[1] == length(total).strip(), "run|total", "%s, expected %s" % (
        m and m[1], length(total)))
    out.outcome(rows)
    out.trace()
