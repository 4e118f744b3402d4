"""Oracles shared by the monitors."""
import numpy as np

from vlib.gen import SENT


def eps_of(dtype):
    return float(np.finfo(dtype).eps)


def dot_tol(q, Y, dtype, c=8.0):
    """rounding bound of the inner products of q (f) with the rows of Y (n, f) computed in dtype"""
    q, Y = np.abs(np.asarray(q, float)), np.abs(np.asarray(Y, float))
    f = Y.shape[1]
    return c * eps_of(dtype) * (f + 3) * (Y @ q) + 1e-30


def split_slots(mon, ids, scores, what):
    """separates real results from the unfillable slots, which may only be at the end"""
    ids, scores = np.asarray(ids), np.asarray(scores, dtype=float)
    mon.check(ids.ndim == 1 and ids.shape == scores.shape, what + ": ids and scores differ in shape",
              ids=ids, scores=scores)
    mon.check(ids.size == 0 or np.issubdtype(ids.dtype, np.integer) or ids.size == 0,
              what + ": ids are not integers", ids=ids)
    mon.check(not np.isnan(scores).any(), what + ": NaN score", ids=ids, scores=scores)
    empty = (ids < 0) | (scores <= SENT)
    n = len(ids)
    real = int(n - empty.sum())
    mon.check(not empty[:real].any(), what + ": an unfilled slot comes before a result", ids=ids, scores=scores)
    return ids[:real], scores[:real], n - real


def judge_topn(mon, ids, scores, true, tol, eligible, N, what, count_exact=True):
    """ids/scores must be the N best eligible ids of the float64 reference `true` (up to tol per id)"""
    rids, rsc, unfilled = split_slots(mon, ids, scores, what)
    n_elig = int(eligible.sum())
    want = min(N, n_elig)
    d = dict(ids=ids, scores=scores, true=true, eligible=np.nonzero(eligible)[0], N=N)
    mon.check(len(np.asarray(ids)) <= N, what + ": more than N results", **d)
    mon.check(len(rids) == want, what + ": %d results where %d eligible ids could be returned" % (len(rids), want), **d)
    if not want:
        return rids, rsc
    mon.check(rids.max() < len(true), what + ": id out of range", **d)
    mon.check(len(set(rids.tolist())) == len(rids), what + ": id returned twice", **d)
    mon.check(eligible[rids].all(), what + ": a filtered or unselected id was returned", **d)
    mon.check((np.diff(rsc) <= 0).all(), what + ": scores are not in non-increasing order", **d)
    err = np.abs(rsc - true[rids])
    mon.check((err <= tol[rids]).all(), what + ": score differs from the true score", err=err, tol=tol[rids], **d)
    rest = eligible.copy()
    rest[rids] = False
    if rest.any():
        k = rids[np.argmin(true[rids] + tol[rids])]
        r = np.nonzero(rest)[0]
        j = r[np.argmax(true[r] - tol[r])]
        mon.check(true[j] - tol[j] <= (true[rids] + tol[rids]).min(),
                  what + ": id %d with a higher score than returned id %d was left out" % (j, k), **d)
    return rids, rsc


def same_answer(mon, a, b, what, rtol=0.0, atol=0.0, true=None):
    """two answers (ids, scores) are equal; ids may differ only where scores tie within tolerance.
    Trailing unfilled slots and padding are ignored."""
    ai, as_, _ = split_slots(mon, a[0], a[1], what + " (first)")
    bi, bs, _ = split_slots(mon, b[0], b[1], what + " (second)")
    d = dict(first=(ai, as_), second=(bi, bs))
    mon.check(len(ai) == len(bi), what + ": answers differ in length", **d)
    if not len(ai):
        return
    tol = atol + rtol * np.maximum(np.abs(as_), np.abs(bs))
    mon.check((np.abs(as_ - bs) <= tol).all(), what + ": scores differ", **d)
    diff = np.nonzero(ai != bi)[0]
    if len(diff):
        # ids may be swapped only inside a group of scores equal within tolerance
        t = 2 * float(tol.max()) if len(tol) else 0.0
        sa = dict(zip(ai.tolist(), as_.tolist()))
        sb = dict(zip(bi.tolist(), bs.tolist()))
        low = min(as_[-1], bs[-1])
        for i in diff:
            x = int(ai[i])
            other = sb.get(x)
            if other is None:
                ok = as_[i] <= low + t  # tied with the last place
            else:
                ok = abs(other - as_[i]) <= t
            y = int(bi[i])
            other = sa.get(y)
            if other is None:
                ok = ok and bs[i] <= low + t
            else:
                ok = ok and abs(other - bs[i]) <= t
            mon.check(ok, what + ": ids differ", position=int(i), **d)
