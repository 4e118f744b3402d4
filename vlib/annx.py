"""ANN wrapper helpers"""
import numpy as np

from vlib import gen


def fixed_als(rng, users, items, f, dtype=np.float32, style=None):
    """an ALS model whose fit leaves the generated factors in place"""
    from implicit.cpu.als import AlternatingLeastSquares

    class FixedALS(AlternatingLeastSquares):
        def fit(self, user_items, show_progress=True, callback=None):
            pass

    m = FixedALS(factors=f, dtype=dtype, num_threads=1, regularization=0.5)
    m.user_factors, _ = gen.factors(rng, users, f, dtype, style or gen.pick(rng, ["normal", "ints", "dups"]))
    m.item_factors, _ = gen.factors(rng, items, f, dtype, style or gen.pick(rng, ["normal", "ints", "dups"]))
    return m


def wrap(rng, lib, model, items, exhaustive=True, **kw):
    """the wrapper around model; exhaustive: configured so that the index search is exhaustive"""
    if lib == "annoy":
        from implicit.ann.annoy import AnnoyModel

        return AnnoyModel(model, n_trees=int(rng.integers(1, 12)), search_k=100000 if exhaustive else -1, **kw)
    if lib == "faiss":
        from implicit.ann.faiss import FaissModel

        nlist = int(rng.integers(1, max(2, min(8 if items < 600 else 60, items // 2 + 1))))
        return FaissModel(model, nlist=nlist, nprobe=nlist if exhaustive else max(1, nlist // 2), use_gpu=False, **kw)
    from implicit.ann.nmslib import NMSLibModel

    return NMSLibModel(model, index_params={"M": 16, "post": 0, "efConstruction": 400, "indexThreadQty": 1},
                       query_params={"ef": 400 if exhaustive else 50}, **kw)
