"""Signatures of the public interface: parameter order, names and default values."""
import ast
from . import terms as tm
from .terms import is_app


def _public(name):
    return not name.startswith("_") or name == "__init__"


def _params(fn):
    a = fn.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    nd = len(fn.defaults)
    dft = {p: fn.defaults[k - (len(pos) - nd)] for k, p in enumerate(pos) if k >= len(pos) - nd}
    dft.update(fn.kwdefaults)
    return pos, [p.arg for p in a.kwonlyargs], dft, a.vararg is not None, a.kwarg is not None


def functions(i):
    """(label, Fn) of all public functions and methods of a loaded tree."""
    out = {}
    for key, v in list(i.heap.items()):
        if key[0] != "g" or not key[1].startswith("modopt") or not _public(key[2]):
            continue
        if v.k == "closure":
            out[key[1] + "." + key[2]] = i.fns[v.x]
        elif v.k == "cls":
            c = i.classes.get(v.h)
            for q in (c.mro or []):
                if q.startswith("ext:"):
                    continue
                for (k0, k1, *k2), m in list(i.heap.items()):
                    if k0 == "k" and k1 == q and k2 and _public(k2[0]):
                        if m.k == "closure":
                            out.setdefault(key[1] + "." + key[2] + "." + k2[0], i.fns[m.x])
    return out


def _val(i, v):
    try:
        return i.deep(v)
    except Exception:       # noqa: BLE001
        return None


def compare(si, ci):
    """-> list of (text, site), number of functions, number of parameters compared"""
    s, c = functions(si), functions(ci)
    bad, nf, np_ = [], 0, 0
    for label, f in sorted(s.items()):
        g = c.get(label)
        if g is None or isinstance(g.node, ast.Lambda):
            continue
        nf += 1
        sp, sk, sd, _, skw = _params(f)
        cp_, ck, cd, cva, ckw = _params(g)
        site = (g.file, g.qual, g.node.lineno)
        for k, p in enumerate(sp):
            np_ += 1
            if k < len(cp_):
                if cp_[k] == p or k == 0 and p == "self":
                    continue
                if p in cp_:
                    bad.append(("%s: parameter %s is now at position %d instead of %d" % (
                        label, p, cp_.index(p), k), site))
                elif not (ckw or cva):
                    bad.append(("%s: parameter %s is gone" % (label, p), site))
            elif not cva and p not in ck:
                bad.append(("%s: parameter %s is gone" % (label, p), site))
        for p in sk:
            np_ += 1
            if p not in ck and p not in cp_ and not ckw:
                bad.append(("%s: keyword parameter %s is gone" % (label, p), site))
        for p in cp_ + ck:
            if p not in cd and p not in sp + sk and p != "self":
                bad.append(("%s: new parameter %s has no default" % (label, p), site))
        for p, dv in sd.items():
            if p not in cp_ and p not in ck:
                continue
            if p not in cd:
                bad.append(("%s: parameter %s lost its default" % (label, p), site))
                continue
            a, b = _val(si, dv), _val(ci, cd[p])
            if a is None or b is None or a is b:
                continue
            if a.k in ("num", "const") and b.k in ("num", "const") or (
                    is_app(b) and is_app(a) and a.h in ("tuple", "list") and
                    b.h in ("tuple", "list")):
                bad.append(("%s: default of %s is %s instead of %s" % (
                    label, p, tm.show(b, 4), tm.show(a, 4)), site))
    return bad, nf, np_
