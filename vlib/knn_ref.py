"""dense references for the item-item models"""
import numpy as np


def recommend_ref(similarity, idx, weights):
    """scores, reachable mask and rounding bounds of a user row (entries idx/weights) over a CSR similarity"""
    S = similarity
    n = S.shape[1]
    true, ab, reach = np.zeros(n), np.zeros(n), np.zeros(n, dtype=bool)
    cnt = np.zeros(n)
    for i, w in zip(idx, weights):
        s = slice(S.indptr[i], S.indptr[i + 1])
        j, v = S.indices[s], S.data[s]
        np.add.at(true, j, v * float(w))
        np.add.at(ab, j, np.abs(v * float(w)))
        np.add.at(cnt, j, 1)
        reach[j] = True
    tol = 4 * np.finfo(float).eps * (cnt + 2) * ab + 1e-300
    return true, tol, reach


def weighted(kind, ui, K1=1.2, B=0.75):
    """dense weighted (users, items) matrix, computed cell by cell from the definitions; NaN where undefined.
    ui: CSR without duplicates (explicit zeros count as entries)"""
    ui = ui.tocsr().astype(float)
    U, I = ui.shape
    C = ui.toarray()
    P = np.zeros((U, I), dtype=bool)
    for u in range(U):
        P[u, ui.indices[ui.indptr[u]:ui.indptr[u + 1]]] = True
    if kind == "item":
        return C
    if kind == "cosine":
        W = C.copy()
    if kind in ("tfidf", "bm25"):
        # a user is a term and an item a document: items are weighted down by how much the user likes
        likes = P.sum(axis=1)
        idf = np.log(I) - np.log(1 + likes)
    if kind == "tfidf":
        W = np.sqrt(C) * idf[:, None]
    if kind == "bm25":
        length = C.sum(axis=0)
        norm = (1 - B) + B * length / length.mean()
        return np.where(P, C * (K1 + 1) / (K1 * norm[None, :] + C + (~P)), 0) * idf[:, None]
    n = np.sqrt((W ** 2).sum(axis=0))
    return W / np.where(n == 0, 1, n)[None, :]
