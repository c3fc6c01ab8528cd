"""Base estimators that record what they are given (importable in worker processes)."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin


class _Base(ClassifierMixin, BaseEstimator):
    def _remember(self, X, y, w):
        self.seen_X_ = np.array(X, copy=True)
        self.seen_y_ = np.array(y, copy=True)
        self.seen_w_ = None if w is None else np.array(w, dtype=float, copy=True)
        self.classes_ = np.unique(y)
        return self

    def _scores(self, X):
        """Deterministic, row-wise class scores in (0, 1) that depend on the training data."""
        X = np.asarray(X, dtype=float)
        k = len(self.classes_)
        shift = float(np.sum(self.seen_X_[:, 0]) % 7.0) + (0 if self.seen_w_ is None else float(self.seen_w_.sum() % 5.0))
        s = np.cos(X.sum(axis=1)[:, None] * 0.37 + np.arange(k)[None, :] * 1.3 + shift) + 1.5
        return s / s.sum(axis=1, keepdims=True)


class WeightedRecorder(_Base):
    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        return self._remember(X, y, sample_weight)

    def predict_proba(self, X):
        return self._scores(X)

    def predict(self, X):
        return self.classes_[self._scores(X).argmax(axis=1)]


class PlainRecorder(_Base):
    """Does not support sample weights."""

    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y):
        return self._remember(X, y, None)

    def predict_proba(self, X):
        return self._scores(X)

    def predict(self, X):
        return self.classes_[self._scores(X).argmax(axis=1)]


class WeightedVoter(_Base):
    """Supports weights, has no class probabilities."""

    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        return self._remember(X, y, sample_weight)

    def predict(self, X):
        return self.classes_[self._scores(X).argmax(axis=1)]


def table_scores(X, salt, k):
    """Smooth row-wise scores; every column has its own weight, so order matters."""
    X = np.asarray(X, dtype=float)
    s = np.zeros(len(X))
    for j in range(X.shape[1]):
        s = s + X[:, j] * np.cos(j * 1.7 + salt)
    p = np.stack([1.2 + np.cos(0.21 * s + 1.9 * c + salt) for c in range(k)], axis=1)
    return p / p.sum(axis=1, keepdims=True)


class TableModel:
    """A fitted model whose answers depend on the row only; records its calls."""

    def __init__(self, classes, salt, own_predict=False, scale=1.0):
        self.classes_ = np.array(classes)
        self.salt = salt
        self.own_predict = own_predict
        self.scale = scale
        self.calls = []

    def fit(self, X, y=None):
        return self

    def proba(self, X):
        return table_scores(X, self.salt, len(self.classes_)) * self.scale

    def answer(self, X):
        if self.own_predict:
            return self.classes_[table_scores(X, self.salt + 11.0, len(self.classes_)).argmax(axis=1)]
        return self.classes_[self.proba(X).argmax(axis=1)]

    def predict(self, X):
        self.calls.append(("predict", X.copy()))
        return self.answer(X)

    def predict_proba(self, X):
        self.calls.append(("predict_proba", X.copy()))
        return self.proba(X)


class TableModelN(TableModel):
    """The same, announcing its number of classes."""

    def __init__(self, classes, *a, **k):
        super().__init__(classes, *a, **k)
        self.n_classes_ = len(classes)


class Lagged(BaseEstimator):
    """A causal feature transformer with a warm-up; keeps the frame's columns."""

    def __init__(self, lag=1):
        self.lag = lag

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X * 0.25 - X.shift(self.lag)

    def fit_transform(self, X, y=None):
        return self.transform(X)


class Step(BaseEstimator):
    """A pipeline step that records fit arguments; shift is learnt from the data."""

    def __init__(self, factor=1.0, width=1):
        self.factor = factor
        self.width = width

    def fit(self, X, y=None, **kw):
        self.fits_ = getattr(self, "fits_", []) + [(np.array(X, copy=True), None if y is None else np.array(y), dict(kw))]
        self.shift_ = float(np.asarray(X, dtype=float)[0].sum())
        return self

    def transform(self, X):
        X = np.asarray(X, dtype=float)
        return np.concatenate([(X * self.factor + self.shift_ + i) for i in range(self.width)], axis=1)


class NoWeightStep(Step):
    def fit(self, X, y=None):
        return super().fit(X, y)


class LabelMean(BaseEstimator):
    """A supervised transformer: one column, scaled by the labels seen in fitting."""

    def fit(self, X, y=None):
        self.m_ = -1.0 if y is None else float(np.mean(y))
        return self

    def transform(self, X):
        return np.asarray(X, dtype=float)[:, :1] * self.m_

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)


class Final(ClassifierMixin, BaseEstimator):
    def __init__(self, salt=0.3):
        self.salt = salt

    def fit(self, X, y, **kw):
        self.fits_ = getattr(self, "fits_", []) + [(np.array(X, copy=True), np.array(y), dict(kw))]
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        return table_scores(X, self.salt, len(self.classes_))

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(axis=1)]
