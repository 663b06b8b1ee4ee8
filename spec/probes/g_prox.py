PROPS = ["C10"]
import numpy as np
from modopt.opt.proximity import (ProximityParent, IdentityProx, Positivity, SparseThreshold,
                                  LowRankMatrix, LinearCompositionProx, ProximityCombo,
                                  OrderedWeightedL1Norm, Ridge, ElasticNet, KSupportNorm,
                                  GroupLASSO)
from modopt.opt.linear import Identity


@probe("C19")
def p_parent(f, g):
    p = ProximityParent(f, g)
    return p.op, p.cost


@probe("C19")
def p_parent_set(f: afn, g: sfn, h):
    p = ProximityParent(f, g)
    p.op = h
    return p.op, p.cost


@probe("C19")
def p_parent_set2(f: afn, g: sfn, h):
    p = ProximityParent(f, g)
    p.cost = h
    return p.op, p.cost


def p_identity(x, e, v):
    p = IdentityProx()
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e), p.cost(x), p.cost(x, verbose=v)


def p_positivity(x: array, e, v):
    p = Positivity()
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e), p.cost(x), p.cost(x, verbose=v)


def p_positivity_any(x):
    p = Positivity()
    return p.op(x)


def p_sparse(l: op, w: array, x: array, e: scalar):
    p = SparseThreshold(l, w)
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e), p.weights


def p_sparse_hard(l: op, w: array, x: array, e: scalar):
    p = SparseThreshold(l, w, thresh_type="hard")
    return p.op(x), p.op(x, extra_factor=e)


def p_sparse_type(l: op, w, x: array, e, t):
    return SparseThreshold(l, w, t).op(x, extra_factor=e)


def p_sparse_cost(l: op, w: array, x: array, v):
    p = SparseThreshold(l, w)
    return p.cost(x), p.cost(x, verbose=v)


def p_sparse_cost_quiet(l: op, w: array, x: array):
    return SparseThreshold(l, w, thresh_type="hard").cost(x)


def p_sparse_twice(l: op, w: array, x: array, y: array, e: scalar):
    p = SparseThreshold(l, w)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.cost(x), p.weights


@probe("C10", "C26")
def p_sparse_weights(l: op, w: array, u: array, x: array):
    p = SparseThreshold(l, w)
    p.weights = u
    return p.op(x), p.cost(x)


@probe("C14")
def p_lowrank(x: array, t: scalar, e: scalar):
    p = LowRankMatrix(t)
    return p.op(x), p.op(x, extra_factor=e), p.rank


@probe("C14")
def p_lowrank_pos(x: array, t: scalar, e: scalar):
    return LowRankMatrix(t, "hard").op(x, e)


@probe("C14")
def p_lowrank_type(x: array, t: scalar, k):
    return LowRankMatrix(t, thresh_type=k).op(x)


@probe("C14")
def p_lowrank_rank(x: array, t: scalar, r: int, e: scalar):
    p = LowRankMatrix(t, initial_rank=r)
    a = p.op(x, extra_factor=e)
    return a, p.rank


@probe("C14")
def p_lowrank_rank_arg(x: array, t: scalar, r: int, e: scalar, k: str):
    p = LowRankMatrix(t, thresh_type=k)
    a = p.op(x, extra_factor=e, rank=r)
    return a, p.rank


@probe("C14")
def p_lowrank_rank_both(x: array, t: scalar):
    p = LowRankMatrix(t, initial_rank=7)
    a = p.op(x, rank=3)
    return a, p.rank


@probe("C14")
def p_lowrank_ngole(x: array, t: scalar, f: afn, e: scalar, k: str):
    p = LowRankMatrix(t, lowr_type="ngole", operator=f, thresh_type=k)
    return p.op(x), p.op(x, extra_factor=e), p.rank


@probe("C14", "C19")
def p_lowrank_lowr(x: array, t: scalar, f: afn, w):
    p = LowRankMatrix(t, lowr_type=w, operator=f)
    return p.op(x)


@probe("C14", "C19")
def p_lowrank_lowr_pos(x: array, t: scalar, f: afn, w):
    p = LowRankMatrix(t, "hard", w, None, f)
    return p.op(x), p.rank, p.thresh, p.thresh_type, p.lowr_type, p.operator


@probe("C14")
def p_lowrank_cost(x: array, t: scalar, r, v):
    p = LowRankMatrix(t, initial_rank=r)
    return p.cost(x), p.cost(x, verbose=v), p.cost(x, verbose=True)


@probe("C14", "C10")
def p_lowrank_indep(x: array, y: array, t: scalar, e: scalar):
    p = LowRankMatrix(t)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.cost(x)


@probe("C11")
def p_compose(l: op, p: op, x: array, e: scalar, v):
    c = LinearCompositionProx(l, p)
    return c.op(x), c.op(x, extra_factor=e), c.op(x, e), c.cost(x), c.cost(x, verbose=v)


@probe("C11")
def p_compose_sparse(l: op, w: array, x: array, e: scalar):
    c = LinearCompositionProx(l, SparseThreshold(Identity(), w))
    return c.op(x), c.op(x, extra_factor=e), c.cost(x)


@probe("C11")
def p_combo(p1: op, p2: op, p3: op, x: array, y: array, z: array, e: scalar):
    c = ProximityCombo([p1, p2, p3])
    return c.op([x, y, z]), c.op([x, y, z], extra_factor=e), c.op((x, y, z), e)


@probe("C11")
def p_combo_cost(p1: op, p2: op, x: array, y: array, v):
    c = ProximityCombo([p1, p2])
    return c.cost([x, y]), c.cost([x, y], verbose=v)


@probe("C11")
def p_combo_tuple(p1: op, p2: op, x: array):
    c = ProximityCombo((p1, p2))
    return c.op(x), c.cost(x)


@probe("C11")
def p_combo_list(ps: oplist, x: array, e: scalar, v):
    c = ProximityCombo(ps)
    return c.op(x, extra_factor=e), c.cost(x, verbose=v)


@probe("C11", "C19")
def p_combo_any(ps):
    c = ProximityCombo(ps)
    return c.operators


@probe("C11", "C19")
def p_combo_empty():
    return ProximityCombo([])


@probe("C11", "C19")
def p_combo_dict(d: dict):
    return ProximityCombo(d)


@probe("C11", "C19")
def p_combo_one(o, x: array):
    c = ProximityCombo([o])
    return c.op([x])


@probe("C11", "C19")
def p_combo_member(o: op, f, g):
    o.op = f
    o.cost = g
    c = ProximityCombo([o])
    return o.op, o.cost


@probe("C10", "C19")
def p_owl(w: array):
    p = OrderedWeightedL1Norm(w)
    return p.weights


def p_owl_op(w: array, x: array, e: scalar):
    p = OrderedWeightedL1Norm(w)
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e)


@probe("C10", known=["owl-cost-pairing"])
def p_owl_cost(w: array, x: array, v):
    p = OrderedWeightedL1Norm(w)
    return p.cost(x), p.cost(x, verbose=v), p.cost(x, verbose=True)


def p_owl_indep(w: array, x: array, y: array, e: scalar):
    p = OrderedWeightedL1Norm(w)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.weights


@probe("C10", "C22", env="free")
def p_owl_nosk(w: array):
    p = OrderedWeightedL1Norm(w)
    return p.weights


def p_ridge(l: op, w: array, x: array, e: scalar, v):
    p = Ridge(l, w)
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e), p.cost(x), p.cost(x, verbose=v)


def p_ridge_opt(l: op, w: scalar, x: array, t):
    p = Ridge(l, w, t)
    q = Ridge(l, w, thresh_type=t)
    return p.op(x), p.cost(x, verbose=True), q.op(x)


def p_ridge_indep(l: op, w: array, x: array, y: array, e: scalar):
    p = Ridge(l, w)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.cost(x)


def p_enet(l: op, a: array, b: array, x: array, e: scalar, v):
    p = ElasticNet(l, a, b)
    return p.op(x), p.op(x, extra_factor=e), p.op(x, e), p.cost(x), p.cost(x, verbose=v)


def p_enet_scalar(l: op, a: scalar, b: scalar, x: array, e: scalar):
    p = ElasticNet(l, alpha=a, beta=b)
    return p.op(x, extra_factor=e), p.cost(x, verbose=True), p.op(x)


def p_enet_indep(l: op, a: array, b: array, x: array, y: array, e: scalar):
    p = ElasticNet(l, a, b)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.cost(x)


@probe("C10", "C19")
def p_ksup(b: scalar, k: int):
    p = KSupportNorm(b, k)
    return p.beta, p.k_value


@probe("C10", "C19")
def p_ksup_set(b: scalar, k: int):
    p = KSupportNorm(b, 3)
    p.k_value = k
    return p.k_value


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_theta(b: scalar, k: int, x: array, a: array, e: scalar):
    p = KSupportNorm(b, k)
    f = PEEK(p, "_compute_theta")
    return f(x, a), f(x, a, e)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_interp(b: scalar, k: int, a0: scalar, a1: scalar, s0: scalar, s1: scalar):
    p = KSupportNorm(b, k)
    f = PEEK(p, "_interpolate")
    return f(a0, a1, s0, s1)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_search(b: scalar, k: int, x: array, a: array, e: scalar):
    p = KSupportNorm(b, k)
    f = PEEK(p, "_binary_search")
    return f(x, a, e)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_search2(b: scalar, x: array, a0: scalar, a1: scalar, e: scalar):
    p = KSupportNorm(b, 2)
    f = PEEK(p, "_binary_search")
    return f(x, np.array([a0, a1]), e)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_search3(b: scalar, x: array, a0: scalar, a1: scalar, a2: scalar, e: scalar):
    p = KSupportNorm(b, 1)
    f = PEEK(p, "_binary_search")
    return f(x, np.array([a0, a1, a2]), e)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_search4(b: scalar, x: array, a0: scalar, a1: scalar, a2: scalar, a3: scalar,
                   e: scalar):
    p = KSupportNorm(b, 2)
    f = PEEK(p, "_binary_search")
    return f(x, np.array([a0, a1, a2, a3]), e)


@probe("C10", helper=["probe_g_prox.ksup_op", "probe_g_prox.ksup_op_def"])
def p_ksup_alpha(b: scalar, k: int, x: array, e: scalar):
    p = KSupportNorm(b, k)
    f = PEEK(p, "_find_alpha")
    return f(x, e)


def p_ksup_op(b: scalar, x: array, e: scalar):
    p = KSupportNorm(b, 3)
    return p.op(x, extra_factor=e), p.k_value


def p_ksup_op_def(b: scalar, k: int, x: array):
    p = KSupportNorm(b, k)
    return p.op(x)


def p_ksup_cost1(b: scalar, x: array):
    return KSupportNorm(b, 1).cost(x)


def p_ksup_cost2(b: scalar, x: array):
    return KSupportNorm(b, 2).cost(x)


def p_ksup_cost3(b: scalar, x: array):
    return KSupportNorm(b, 3).cost(x)


def p_ksup_cost4(b: scalar, x: array):
    return KSupportNorm(b, 4).cost(x)


def p_ksup_cost(b: scalar, k: int, x: array, v):
    p = KSupportNorm(b, k)
    return p.cost(x), p.cost(x, verbose=v)


def p_glasso(w: array, x: array, e: scalar, v):
    p = GroupLASSO(w)
    return p.op(x), p.op(x, extra_factor=e), p.cost(x), p.cost(x, verbose=v), p.op(x, e)


def p_glasso_indep(w: array, x: array, y: array, e: scalar):
    p = GroupLASSO(w)
    p.op(y, extra_factor=e)
    p.cost(y)
    return p.op(x), p.cost(x), p.weights
