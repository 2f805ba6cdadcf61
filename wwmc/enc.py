"""Helpers for the encoder checks (public interface only)."""
import numpy as np
import pandas as pd

from wwmc.common import SeamError, impl

E = {}


def encoder(**kw):
    if "cls" not in E:
        try:
            from wildwood.preprocessing import Encoder, features_bitarray_to_array
        except ImportError as e:
            raise SeamError("Encoder: %s" % e)
        E["cls"], E["back"] = Encoder, features_bitarray_to_array
    with impl("Encoder(%s)" % ",".join(kw)):
        return E["cls"](**kw)


def fit(e, X):
    with impl("Encoder.fit"):
        r = e.fit(X)
    return e if r is None else r


def bins(e, X):
    with impl("Encoder.transform"):
        fb = e.transform(X)
    with impl("features_bitarray_to_array"):
        return np.asarray(E["back"](fb)).astype(np.int64), fb


def transform_raw(e, X):
    """transform without the violation wrapper: the caller decides what an exception means."""
    return np.asarray(E["back"](e.transform(X))).astype(np.int64)


def container(name, cols):
    """cols: list of lists of floats; builds the matrix in the container, None if not representable."""
    if name == "df":
        return pd.DataFrame({"c%d" % j: np.array(c, dtype=np.float64) for j, c in enumerate(cols)})
    if name == "dfidx":
        return pd.DataFrame({j: np.array(c, dtype=np.float64) for j, c in enumerate(cols)},
                            index=[7 - (i % 3) for i in range(len(cols[0]))])
    A = np.array(cols, dtype=np.float64).T
    if name == "f8":
        return np.ascontiguousarray(A)
    if name == "f8F":
        return np.asfortranarray(A)
    if name == "f8s":
        B = np.full((2 * A.shape[0], 2 * A.shape[1]), 77.0)
        B[::2, ::2] = A
        return B[::2, ::2]
    if name == "ro":
        B = A.copy()
        B.setflags(write=False)
        return B
    dt = {"f4": np.float32, "i8": np.int64, "i2": np.int16, "u1": np.uint8, "dff4": np.float32, "dfi4": np.int32}.get(name)
    if dt is not None:
        if np.dtype(dt).kind in "iu":
            if not np.isfinite(A).all():
                return None
            info = np.iinfo(dt)
            if (A < info.min).any() or (A > info.max).any():
                return None
        with np.errstate(all="ignore"):
            B = A.astype(dt)
        if not np.array_equal(B.astype(np.float64), A, equal_nan=True):
            return None
        return pd.DataFrame({"x%d" % j: B[:, j] for j in range(B.shape[1])}) if name.startswith("df") else B
    if name in ("obj", "str"):
        with np.errstate(all="ignore"):
            if not np.array_equal(A.astype(np.float32).astype(np.float64), A, equal_nan=True):
                return None  # known finding: these are rounded to float32
        if name == "obj":
            return A.astype(object)
        if np.isnan(A).any():
            return None
        return np.array([[repr(float(v)) for v in r] for r in A])
    raise KeyError(name)
