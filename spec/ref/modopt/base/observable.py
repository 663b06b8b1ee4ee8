import time
import numpy as np

class SignalObject:
    pass

class Observable:

    def __init__(self, signals):
        self._allowed_signals = []
        self._observers = {}
        for signal in signals:
            self._allowed_signals.append(signal)
            self._observers[signal] = []
        self._locked = False

    def add_observer(self, signal, observer):
        self._is_allowed_signal(signal)
        self._add_observer(signal, observer)

    def remove_observer(self, signal, observer):
        self._is_allowed_signal(signal)
        self._remove_observer(signal, observer)

    def notify_observers(self, signal, **kwargs):
        if self._locked:
            return False
        self._locked = True
        try:
            signal_to_be_notified = SignalObject()
            signal_to_be_notified.object = self
            signal_to_be_notified.signal = signal
            for name, key_value in kwargs.items():
                setattr(signal_to_be_notified, name, key_value)
            for observer in list(self._observers[signal]):
                observer(signal_to_be_notified)
        finally:
            self._locked = False
        return True

    def _get_allowed_signals(self):
        return self._allowed_signals
    allowed_signals = property(_get_allowed_signals)

    def _is_allowed_signal(self, signal):
        if signal not in self._allowed_signals:
            message = 'Signal "{0}" is not allowed for "{1}"'
            raise ValueError(message.format(signal, type(self)))

    def _add_observer(self, signal, observer):
        if observer not in self._observers[signal]:
            self._observers[signal].append(observer)

    def _remove_observer(self, signal, observer):
        if observer in self._observers[signal]:
            self._observers[signal].remove(observer)

class MetricObserver:

    def __init__(self, name, metric, mapping, cst_kwargs, early_stopping=False, wind=6, eps=0.001):
        self.name = name
        self.metric = metric
        self.mapping = mapping
        self.cst_kwargs = cst_kwargs
        self.list_cv_values = []
        self.list_iters = []
        self.list_dates = []
        self.eps = eps
        self.wind = wind
        self.converge_flag = False
        self.early_stopping = early_stopping

    def __call__(self, signal):
        kwargs = {}
        for key, key_value in self.mapping.items():
            if key_value is not None:
                kwargs[key_value] = getattr(signal, key)
        kwargs.update(self.cst_kwargs)
        self.list_iters.append(signal.idx)
        self.list_dates.append(time.time())
        self.list_cv_values.append(self.metric(**kwargs))
        if self.early_stopping:
            self.is_converge()

    def is_converge(self):
        if len(self.list_cv_values) < self.wind:
            return
        start_idx = -self.wind
        mid_idx = -(self.wind // 2)
        old_mean = np.array(self.list_cv_values[start_idx:mid_idx]).mean()
        current_mean = np.array(self.list_cv_values[mid_idx:]).mean()
        normalize_residual_metrics = np.abs(old_mean - current_mean) / np.abs(old_mean)
        self.converge_flag = normalize_residual_metrics < self.eps

    def retrieve_metrics(self):
        time_val = np.array(self.list_dates)
        if time_val.size >= 1:
            time_val -= time_val[0]
        return {'time': time_val, 'index': self.list_iters, 'values': self.list_cv_values}
