"""installs native/blasshim over scipy's BLAS/LAPACK capsules (worker side, before implicit is imported)"""
import ctypes
import os
import sys

_keep = []


def install():
    path = os.environ.get("VERIF_BLAS")
    if not path or _keep:
        return None
    assert "implicit" not in sys.modules, "too late"
    from scipy.linalg import cython_blas, cython_lapack

    lib = ctypes.CDLL(path)
    lib.verif_blas_real.argtypes = [ctypes.c_int, ctypes.c_void_p]
    lib.verif_blas_calls.restype = ctypes.c_long
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype, api.PyCapsule_GetName.argtypes = ctypes.c_char_p, [ctypes.py_object]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    for p, base in (("s", 0), ("d", 8)):
        for i, n in enumerate(("axpy", "symv", "dot", "scal", "posv", "gesv")):
            capi = (cython_lapack if n in ("posv", "gesv") else cython_blas).__pyx_capi__
            cap = capi[p + n]
            name = api.PyCapsule_GetName(cap)
            lib.verif_blas_real(base + i, api.PyCapsule_GetPointer(cap, name))
            buf = ctypes.create_string_buffer(name)
            capi[p + n] = api.PyCapsule_New(ctypes.cast(getattr(lib, "verif_%s%s" % (p, n)), ctypes.c_void_p),
                                            ctypes.addressof(buf), None)
            _keep.append((cap, buf))
    _keep.append(lib)
    return lib


def calls():
    return _keep[-1].verif_blas_calls() if _keep else 0
