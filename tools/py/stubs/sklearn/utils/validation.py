import numpy as np


def check_array(X, accept_sparse=False, dtype="numeric", order=None, copy=False, **kw):
    X = np.array(X, dtype=np.dtype(dtype) if dtype != "numeric" else None, order=order or "K", copy=True) if copy \
        else np.asarray(X, dtype=np.dtype(dtype) if dtype != "numeric" else None, order=order)
    if X.ndim != 2:
        raise ValueError("expected a 2D array")
    if X.shape[0] < 1 or X.shape[1] < 1:
        raise ValueError("empty array")
    if not np.isfinite(X.astype(np.float64)).all():
        raise ValueError("not finite")
    return X


def check_X_y(X, y, accept_sparse=False, dtype="numeric", order=None, copy=False, **kw):
    X = check_array(X, dtype=dtype, order=order, copy=copy)
    y = np.asarray(y)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y.ravel()
    if y.ndim != 1:
        raise ValueError("expected a 1D target")
    if not np.isfinite(y.astype(np.float64)).all():
        raise ValueError("not finite")
    if len(y) != X.shape[0]:
        raise ValueError("inconsistent lengths")
    return X, y


class NotFittedError(ValueError, AttributeError):
    pass


def check_is_fitted(e, attributes=None, **kw):
    names = [attributes] if isinstance(attributes, str) else (attributes or [])
    if not all(hasattr(e, n) for n in names) or (not names and not any(v.endswith("_") and not v.startswith("__") for v in vars(e))):
        raise NotFittedError("not fitted")
