'''
A stand-in for the numerical estimators (statsmodels ARIMA, pmdarima auto_arima): fitting is
immediate, depends on the series and the parameters only, and can be made to fail at chosen
calls or for chosen series. Installed once; in runs that do not switch it on the real estimators
work.
'''
import hashlib

import numpy as np

from . import kernel


def key_of(series):
    return hashlib.sha256(np.ascontiguousarray(np.asarray(series, dtype=float))).hexdigest()


class Order:
    '''What fitted.model is asked for.'''

    def __init__(self, order, series):
        self.order = order
        self.endog = series


class Fit:
    '''A fitted model: everything is a function of (series, order).'''

    def __init__(self, series, order):
        self.series = np.array(series, dtype=float)
        self.order = tuple(order)
        self.model = Order(self.order, self.series)

    @property
    def aic(self):
        return float(np.sum(self.series)) + 7.0 * self.order[0] + 3.0 * self.order[1] + \
            self.order[2]

    @property
    def bic(self):
        return 2 * self.aic

    @property
    def params(self):
        return np.array(self.order + (float(np.var(self.series)),))

    @property
    def nobs(self):
        return len(self.series)

    @property
    def fittedvalues(self):
        return np.repeat(np.mean(self.series), len(self.series))

    @property
    def resid(self):
        return self.series - self.fittedvalues

    def forecast(self, steps=1, *args, **kwargs):
        return fake_forecast(self.series, self.order, int(steps))

    def predict(self, start=None, end=None, *args, **kwargs):
        n = len(self.series)
        first, last = int(start), int(end)
        return self.forecast(last - n + 1)[first - n:]

    def get_forecast(self, steps=1, *args, **kwargs):
        import types
        return types.SimpleNamespace(predicted_mean=self.forecast(steps))

    def __eq__(self, other):
        return isinstance(other, Fit) and self.order == other.order and \
            np.array_equal(self.series, other.series)

    __hash__ = None


def fake_forecast(series, order, n):
    base = np.mean(series[-3:])
    trend = (series[-1] - series[0]) / len(series)
    p, d, q = order
    return base + trend * (np.arange(n) + 1) * (1 + 0.5 * d) + 0.01 * p - 0.02 * q * np.arange(n)


def fake_order(series, params):
    '''What the grid search finds.'''
    start_p, start_q, max_p, max_q, d = params
    h = int(key_of(series)[:8], 16)
    p = min(start_p, max_p) + h % (max_p - min(start_p, max_p) + 1)
    q = min(start_q, max_q) + (h // 7) % (max_q - min(start_q, max_q) + 1)
    return (p, (h // 50) % 3 if d is None else d, q)


class Estimators:
    '''The plan of a run: which fits fail.'''

    def __init__(self):
        self.bad_series = {}        # key -> exception class
        self.bad_search = {}
        self.bad_call = None        # (n, exception)
        self.calls = 0
        self.searches = 0
        self.failed = 0

    def fit(self, sim, series, bad):
        if np.any(np.isnan(series)):
            raise ValueError('series with NaN')
        self.calls += 1
        if self.bad_call is not None and self.calls == self.bad_call[0]:
            e = self.bad_call[1]
            self.bad_call = None
            sim.fault('fit_call_error', type(e).__name__)
            raise e
        kind = bad.get(key_of(series))
        if kind is not None:
            self.failed += 1
            sim.fault('fit_failed', kind.__name__)
            raise kind('fit failed')


def current():
    sim = kernel.active()
    return None if sim is None else getattr(sim, 'estimators', None)


def install():
    import statsmodels.tsa.arima.model as sm
    import pmdarima
    import pmdarima.arima as pm

    real_init, real_fit = sm.ARIMA.__init__, sm.ARIMA.fit

    def init(self, endog, exog=None, order=(0, 0, 0), *args, **kwargs):
        est = current()
        if est is None:
            return real_init(self, endog, exog, order, *args, **kwargs)
        self.fake_series = np.array(endog, dtype=float)
        self.fake_order = tuple(int(i) for i in order)

    def fit(self, *args, **kwargs):
        est = current()
        if est is None:
            return real_fit(self, *args, **kwargs)
        est.fit(kernel.active(), self.fake_series, est.bad_series)
        return Fit(self.fake_series, self.fake_order)
    sm.ARIMA.__init__, sm.ARIMA.fit = init, fit

    real_auto = pm.auto_arima

    def auto_arima(y, X=None, start_p=2, d=None, start_q=2, max_p=5, max_d=2, max_q=5,
                   *args, **kwargs):
        est = current()
        if est is None:
            return real_auto(y, X=X, start_p=start_p, d=d, start_q=start_q, max_p=max_p,
                             max_d=max_d, max_q=max_q, *args, **kwargs)
        import types
        est.searches += 1
        est.fit(kernel.active(), np.asarray(y), est.bad_search)
        return types.SimpleNamespace(order=fake_order(y, (start_p, start_q, max_p, max_q, d)))
    pm.auto_arima = auto_arima
    pmdarima.auto_arima = auto_arima
