import numpy as np
from modopt.base.backend import move_to_cpu
try:
    from skimage.metrics import structural_similarity as compare_ssim
except ImportError:
    import_skimage = False
else:
    import_skimage = True

def min_max_normalize(img):
    min_img = img.min()
    max_img = img.max()
    return (img - min_img) / (max_img - min_img)

def _preprocess_input(test, ref, mask=None):
    test = np.abs(np.copy(test)).astype('float64')
    ref = np.abs(np.copy(ref)).astype('float64')
    test = min_max_normalize(test)
    ref = min_max_normalize(ref)
    if not isinstance(mask, np.ndarray) and mask is not None:
        message = 'Mask should be None, or a numpy.ndarray, got "{0}" instead.'
        raise ValueError(message.format(mask))
    if mask is None:
        return (test, ref, None)
    return (test, ref, mask)

def ssim(test, ref, mask=None):
    if not import_skimage:
        raise ImportError('Required version of Scikit-Image package not found' + 'see documentation for details: https://cea-cosmic.' + 'github.io/ModOpt/#optional-packages')
    test, ref, mask = _preprocess_input(test, ref, mask)
    test = move_to_cpu(test)
    assim, ssim_value = compare_ssim(test, ref, full=True, data_range=1.0)
    if mask is None:
        return assim
    return (mask * ssim_value).sum() / mask.sum()

def snr(test, ref, mask=None):
    test, ref, mask = _preprocess_input(test, ref, mask)
    if mask is not None:
        test = mask * test
        ref = mask * ref
    num = np.mean(np.square(test))
    deno = mse(test, ref)
    return 10.0 * np.log10(num / deno)

def psnr(test, ref, mask=None):
    test, ref, mask = _preprocess_input(test, ref, mask)
    if mask is not None:
        test = mask * test
        ref = mask * ref
    num = np.max(np.abs(test))
    deno = mse(test, ref)
    return 10.0 * np.log10(num / deno)

def mse(test, ref, mask=None):
    test, ref, mask = _preprocess_input(test, ref, mask)
    if mask is not None:
        test = mask * test
        ref = mask * ref
    return np.mean(np.square(test - ref))

def nrmse(test, ref, mask=None):
    test, ref, mask = _preprocess_input(test, ref, mask)
    if mask is not None:
        test = mask * test
        ref = mask * ref
    num = np.sqrt(mse(test, ref))
    deno = np.sqrt(np.mean(np.square(test)))
    return num / deno
