import warnings
import numpy as np
from modopt.base.types import check_float
from modopt.signal.wavelet import filter_convolve_stack
from .base import LinearParent
pywt_available = True
try:
    import pywt
    from joblib import Parallel, cpu_count, delayed
except ImportError:
    pywt_available = False
torch_available = True
try:
    import ptwt
    import torch
except ImportError:
    torch_available = False
ptwt_available = torch_available
try:
    import cupy as cp
except ImportError:
    ptwt_available = False

class WaveletConvolve(LinearParent):

    def __init__(self, filters, method='scipy'):
        self._filters = check_float(filters)
        self.op = lambda input_data: filter_convolve_stack(input_data, self._filters, method=method)
        self.adj_op = lambda input_data: filter_convolve_stack(input_data, self._filters, filter_rot=True, method=method)

class WaveletTransform(LinearParent):

    def __init__(self, wavelet_name, shape, level=4, mode='symmetric', compute_backend='numpy', **kwargs):
        if compute_backend == 'cupy' and ptwt_available:
            self.operator = CupyWaveletTransform(wavelet=wavelet_name, shape=shape, level=level, mode=mode)
        elif compute_backend == 'numpy' and pywt_available:
            self.operator = CPUWaveletTransform(wavelet_name=wavelet_name, shape=shape, level=level, mode=mode, **kwargs)
        else:
            raise ValueError(f'Compute Backend {compute_backend} not available')
        self.op = self.operator.op
        self.adj_op = self.operator.adj_op

    @property
    def coeffs_shape(self):
        return self.operator.coeffs_shape

class CPUWaveletTransform(LinearParent):

    def __init__(self, wavelet_name, shape, level=4, n_batch=1, n_jobs=1, decimated=True, backend='threading', mode='symmetric'):
        if not pywt_available:
            raise ImportError('PyWavelet and/or joblib are not available. Please install it to use WaveletTransform.')
        if wavelet_name not in pywt.wavelist(kind='all'):
            raise ValueError("Invalid wavelet name. Availables are  ``pywt.waveletlist(kind='all')``")
        self.wavelet = wavelet_name
        if isinstance(shape, int):
            shape = (shape,)
        self.shape = shape
        self.n_jobs = n_jobs
        self.mode = mode
        self.level = level
        if not decimated:
            raise NotImplementedError('Undecimated Wavelet Transform is not implemented yet.')
        ca, *cds = pywt.wavedecn_shapes(self.shape, wavelet=self.wavelet, mode=self.mode, level=self.level)
        self.coeffs_shape = [ca] + [s for cd in cds for s in cd.values()]
        if len(shape) > 1:
            self.dwt = pywt.wavedecn
            self.idwt = pywt.waverecn
            self._pywt_fun = 'wavedecn'
        else:
            self.dwt = pywt.wavedec
            self.idwt = pywt.waverec
            self._pywt_fun = 'wavedec'
        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
        self.n_batch = n_batch
        if self.n_batch == 1 and self.n_jobs != 1:
            warnings.warn('Making n_jobs = 1 for WaveletTransform as n_batchs = 1', stacklevel=1)
            self.n_jobs = 1
        self.backend = backend
        n_proc = self.n_jobs
        if n_proc < 0:
            n_proc = cpu_count() + self.n_jobs + 1

    def op(self, data):
        if self.n_batch > 1:
            coeffs, slices, shapes = zip(*Parallel(n_jobs=self.n_jobs, backend=self.backend)((delayed(self._op)(data[i]) for i in np.arange(self.n_batch))))
            self.coeffs_slices, self.raw_coeffs_shape = (slices[0], shapes[0])
            coeffs = np.asarray(coeffs)
        else:
            coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
        return coeffs

    def _op(self, data):
        return pywt.ravel_coeffs(self.dwt(data, mode=self.mode, level=self.level, wavelet=self.wavelet))

    def adj_op(self, coeffs):
        if self.n_batch > 1:
            images = Parallel(n_jobs=self.n_jobs, backend=self.backend)((delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)))
            images = np.asarray(images)
        else:
            images = self._adj_op(coeffs)
        return images

    def _adj_op(self, coeffs):
        return self.idwt(pywt.unravel_coeffs(coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun), wavelet=self.wavelet, mode=self.mode)

class TorchWaveletTransform:
    wavedec3_keys = ('aad', 'ada', 'add', 'daa', 'dad', 'dda', 'ddd')

    def __init__(self, shape, wavelet, level, mode):
        if not torch_available:
            raise ImportError('ptwt and/or torch are not available.')
        self.wavelet = wavelet
        self.level = level
        self.shape = shape
        self.mode = mode
        self.coeffs_shape = None

    def op(self, data):
        if data.shape == self.shape:
            data = data[None, ...]
        if len(self.shape) == 2:
            if torch.is_complex(data):
                data_ = torch.view_as_real(data)
                coeffs_ = ptwt.wavedec2(data_, self.wavelet, level=self.level, mode=self.mode, axes=(-3, -2))
                coeffs = [torch.view_as_complex(coeffs_[0].contiguous())] + [torch.view_as_complex(cc.contiguous()) for c in coeffs_[1:] for cc in c]
                return coeffs
            coeffs_ = ptwt.wavedec2(data, self.wavelet, level=self.level, mode=self.mode, axes=(-2, -1))
            return [coeffs_[0]] + [cc for c in coeffs_[1:] for cc in c]
        if torch.is_complex(data):
            data_ = torch.view_as_real(data)
            coeffs_ = ptwt.wavedec3(data_, self.wavelet, level=self.level, mode=self.mode, axes=(-4, -3, -2))
            coeffs = [torch.view_as_complex(coeffs_[0].contiguous())] + [torch.view_as_complex(cc.contiguous()) for c in coeffs_[1:] for cc in c.values()]
            return coeffs
        coeffs_ = ptwt.wavedec3(data, self.wavelet, level=self.level, mode=self.mode, axes=(-3, -2, -1))
        return [coeffs_[0]] + [cc for c in coeffs_[1:] for cc in c.values()]

    def adj_op(self, coeffs):
        if len(self.shape) == 2:
            if torch.is_complex(coeffs[0]):
                coeffs = [torch.view_as_real(coeffs[0])] + [tuple((torch.view_as_real(coeffs[i + k]) for k in range(3))) for i in range(1, len(coeffs) - 2, 3)]
                data = ptwt.waverec2(coeffs, wavelet=self.wavelet, axes=(-3, -2))
                return torch.view_as_complex(data.contiguous())
            coeffs_ = [coeffs[0]] + [tuple((coeffs[i + k] for k in range(3))) for i in range(1, len(coeffs) - 2, 3)]
            data = ptwt.waverec2(coeffs_, wavelet=self.wavelet, axes=(-2, -1))
            return data
        if torch.is_complex(coeffs[0]):
            coeffs = [torch.view_as_real(coeffs[0])] + [{v: torch.view_as_real(coeffs[i + k]) for k, v in enumerate(self.wavedec3_keys)} for i in range(1, len(coeffs) - 6, 7)]
            data = ptwt.waverec3(coeffs, wavelet=self.wavelet, axes=(-4, -3, -2))
            return torch.view_as_complex(data.contiguous())
        coeffs_ = [coeffs[0]] + [{v: coeffs[i + k] for k, v in enumerate(self.wavedec3_keys)} for i in range(1, len(coeffs) - 6, 7)]
        data = ptwt.waverec3(coeffs_, wavelet=self.wavelet, axes=(-3, -2, -1))
        return data

class CupyWaveletTransform(LinearParent):

    def __init__(self, shape, wavelet, level, mode):
        if not ptwt_available:
            raise ImportError('ptwt, torch and/or cupy are not available.')
        self.wavelet = wavelet
        self.level = level
        self.shape = shape
        self.mode = mode
        self.operator = TorchWaveletTransform(shape=shape, wavelet=wavelet, level=level, mode=mode)
        self.coeffs_shape = None

    def op(self, data):
        data_ = torch.as_tensor(data)
        tensor_list = self.operator.op(data_)
        self.coeffs_shape = [c.shape for c in tensor_list]
        n_tot_coeffs = np.sum([np.prod(s) for s in self.coeffs_shape])
        ret = cp.zeros(n_tot_coeffs, dtype=np.complex64)
        start = 0
        for t in tensor_list:
            stop = start + np.prod(t.shape)
            ret[start:stop] = cp.asarray(t.flatten())
            start = stop
        return ret

    def adj_op(self, data):
        start = 0
        tensor_list = [None] * len(self.coeffs_shape)
        for i, s in enumerate(self.coeffs_shape):
            stop = start + np.prod(s)
            tensor_list[i] = torch.as_tensor(data[start:stop].reshape(s), device='cuda')
            start = stop
        ret_tensor = self.operator.adj_op(tensor_list)
        return cp.from_dlpack(ret_tensor)
