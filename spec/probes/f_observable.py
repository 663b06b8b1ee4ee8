PROPS = ["C08"]
from modopt.base.observable import Observable, MetricObserver, SignalObject


def p_add_notify(o1: observer, o2: observer, x: array, k):
    o = Observable(["a", "b"])
    o.add_observer("a", o1)
    o.add_observer("a", o2)
    o.add_observer("a", o1)
    o.add_observer("b", o2)
    r = o.notify_observers("a", x_new=x, idx=k)
    r2 = o.notify_observers("a", y=k)
    return r, r2, o.notify_observers("b")


def p_content(x: array, k):
    seen = []

    def ob(s):
        seen.append((s.object, s.signal, s.x_new, s.idx))
    o = Observable(["a"])
    o.add_observer("a", ob)
    r = o.notify_observers("a", x_new=x, idx=k)
    return r, seen, o


def p_reserved(x: array):
    seen = []

    def ob(s):
        seen.append((s.object, s.signal, sorted(vars(s))) if False else (s.object, s.signal))
    o = Observable(["a"])
    o.add_observer("a", ob)
    o.notify_observers("a")
    return seen, o


def p_remove(o1: observer, o2: observer, x):
    o = Observable(["a", "b"])
    o.add_observer("a", o1)
    o.add_observer("a", o2)
    o.add_observer("b", o1)
    o.remove_observer("a", o1)
    r = o.notify_observers("a", v=x)
    o.remove_observer("a", o1)
    o.add_observer("a", o1)
    return r, o.notify_observers("a", v=x), o.notify_observers("b", v=x)


def p_signals():
    o = Observable(["a", "b"])
    return o.allowed_signals


def p_add_any(s, ob: observer):
    o = Observable(["a", "b"])
    o.add_observer(s, ob)
    return o.notify_observers("a"), o.notify_observers("b")


def p_remove_any(s, ob: observer):
    o = Observable(["a", "b"])
    o.add_observer("a", ob)
    o.remove_observer(s, ob)
    return o.notify_observers("a"), o.notify_observers("b")


def p_signals_list(sig: list, ob: observer, s: str):
    o = Observable(sig)
    return o.allowed_signals


def p_reentrant(o1: observer, x):
    o = Observable(["a", "b"])
    res = []

    def ob(s):
        res.append(o.notify_observers("a", v=x))
        res.append(o.notify_observers("b", v=x))
    o.add_observer("a", ob)
    o.add_observer("b", o1)
    r = o.notify_observers("a")
    return r, res, o.notify_observers("b", v=x)


def p_failing(o1: observer, x):
    o = Observable(["a"])

    def bad(s):
        raise KeyError("bad")
    o.add_observer("a", bad)
    failed = False
    try:
        o.notify_observers("a", v=x)
    except KeyError:
        failed = True
    o.remove_observer("a", bad)
    o.add_observer("a", o1)
    return failed, o.notify_observers("a", v=x)


def p_failing_any(o1: observer, o2: observer, x):
    o = Observable(["a"])
    o.add_observer("a", o1)
    FAULTS(True)
    failed = False
    try:
        o.notify_observers("a", v=x)
    except Exception:
        failed = True
    FAULTS(False)
    o.remove_observer("a", o1)
    o.add_observer("a", o2)
    return failed, o.notify_observers("a", v=x)


def p_independent(o1: observer, o2: observer, x):
    a = Observable(["a"])
    b = Observable(["a"])
    a.add_observer("a", o1)
    b.add_observer("a", o2)
    return a.notify_observers("a", v=x), b.notify_observers("a", v=x)


def _state(m):
    return m.list_cv_values, m.list_iters, m.list_dates, m.converge_flag


def p_metric_call(f: sfn, x: array, i: int, c):
    m = MetricObserver("m", f, {"x_new": "test", "y": None}, {"ref": c})
    s = SignalObject()
    s.x_new = x
    s.idx = i
    m(s)
    return _state(m), m.name, m.early_stopping


def p_metric_two(f: sfn, x: array, y: array, i: int, j: int, c):
    k = {"ref": c}
    m = MetricObserver("m", f, {"x_new": "test", "z": "other"}, k)
    s = SignalObject()
    s.x_new = x
    s.z = y
    s.idx = i
    m(s)
    s.x_new = y
    s.idx = j
    m(s)
    return _state(m), k


def _feed(m, vals):
    s = SignalObject()
    for i, v in enumerate(vals):
        s.v = v
        s.idx = i
        m(s)


def _ident(v):
    return v


def p_metric_conv(a: scalar, b: scalar, c: scalar, d: scalar, e: scalar, e1: scalar):
    m = MetricObserver("m", _ident, {"v": "v"}, {}, early_stopping=True, wind=4, eps=e1)
    out = []
    s = SignalObject()
    for i, v in enumerate([a, b, c, d, e]):
        s.v = v
        s.idx = i
        m(s)
        out.append(m.converge_flag)
    return out, _state(m)


def p_metric_conv3(a: scalar, b: scalar, c: scalar, d: scalar, e1: scalar):
    m = MetricObserver("m", _ident, {"v": "v"}, {}, True, 3, e1)
    out = []
    s = SignalObject()
    for i, v in enumerate([a, b, c, d]):
        s.v = v
        s.idx = i
        m(s)
        out.append(m.converge_flag)
    return out


def p_metric_conv_default(a: scalar, b: scalar, c: scalar, d: scalar, e: scalar, f: scalar):
    m = MetricObserver("m", _ident, {"v": "v"}, {}, early_stopping=True)
    _feed(m, [a, b, c, d, e])
    r = m.converge_flag
    _feed(m, [f])
    return r, m.converge_flag


def p_metric_nostop(a: scalar, b: scalar, e1: scalar):
    m = MetricObserver("m", _ident, {"v": "v"}, {}, wind=2, eps=e1)
    _feed(m, [a, b])
    r = m.converge_flag
    m.is_converge()
    return r, m.converge_flag


def p_metric_step(f: sfn, w: int, e: scalar, es, x, i: int):
    m = MetricObserver("m", f, {"v": "v"}, {}, es, w, e)
    s = SignalObject()
    s.v = x
    s.idx = i
    HAVOC(lambda: m(s))
    m(s)
    return _state(m)


def p_metric_retrieve(f: sfn, x: array, i: int):
    m = MetricObserver("m", f, {"v": "v"}, {})
    r0 = m.retrieve_metrics()
    s = SignalObject()
    s.v = x
    s.idx = i
    m(s)
    m(s)
    r1 = m.retrieve_metrics()
    return r0, r1, m.retrieve_metrics(), m.list_dates


def p_metric_indep(f: sfn, g: sfn, x: array, i: int):
    m = MetricObserver("m", f, {"v": "v"}, {})
    n = MetricObserver("n", g, {"v": "w"}, {})
    s = SignalObject()
    s.v = x
    s.idx = i
    m(s)
    n(s)
    return _state(m), _state(n)


def p_remove_self(x: array):
    # an observer that leaves while notified: the others are still notified
    o = Observable(["a"])
    seen = []

    def first(s):
        seen.append("first")
        o.remove_observer("a", first)

    def second(s):
        seen.append("second")

    o.add_observer("a", first)
    o.add_observer("a", second)
    o.notify_observers("a")
    o.notify_observers("a")
    return seen


def p_same_name(f: sfn, g: sfn, x: array, i: int):
    # observers are told apart by identity, not by name
    o = Observable(["a"])
    m = MetricObserver("m", f, {"v": "v"}, {})
    n = MetricObserver("m", g, {"v": "v"}, {})
    for obs in (m, n, m):
        o.add_observer("a", obs)
    o.notify_observers("a", v=x, idx=i)
    o.remove_observer("a", m)
    o.notify_observers("a", v=x, idx=i)
    return m.list_cv_values, n.list_cv_values, m.list_iters, n.list_iters


def p_metric_missing(f: sfn, x: array, i: int):
    # a metric that asks for a value nobody supplies is an error, not a metric of None
    m = MetricObserver("m", f, {"v": "v", "w": "u"}, {})
    s = SignalObject()
    s.v = x
    s.idx = i
    try:
        m(s)
    except AttributeError:
        return "missing", m.list_cv_values
    return "value", m.list_cv_values
