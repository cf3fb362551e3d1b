import inspect


class BaseEstimator:
    @classmethod
    def _names(cls):
        return sorted(p.name for p in inspect.signature(cls.__init__).parameters.values()
                      if p.name != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))

    def get_params(self, deep=True):
        return {n: getattr(self, n) for n in self._names()}

    def set_params(self, **kw):
        for k, v in kw.items():
            if k not in self._names():
                raise ValueError("invalid parameter %r" % k)
            setattr(self, k, v)
        return self


class RegressorMixin:
    pass


class ClassifierMixin:
    pass


def clone(e):
    return type(e)(**e.get_params())
