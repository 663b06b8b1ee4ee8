# Planted bugs: numerics, signal processing, base helpers, environment
NO = 'signal/noise.py'
PO = 'signal/positivity.py'
SV = 'signal/svd.py'
VA = 'signal/validation.py'
WA = 'signal/wavelet.py'
CV = 'math/convolve.py'
MX = 'math/matrix.py'
ME = 'math/metrics.py'
ST = 'math/stats.py'
BE = 'base/backend.py'
NP = 'base/np_adjust.py'
TR = 'base/transform.py'
TY = 'base/types.py'
ER = 'interface/errors.py'
LO = 'interface/log.py'
CP = 'plot/cost_plot.py'
LW = 'opt/linear/wavelet.py'
PX = 'opt/proximity.py'

S('c13-soft-small', 'C13', [(NO, 'xp.finfo(np.float64).eps, xp.abs(input_data)', 'xp.finfo(np.float32).eps, xp.abs(input_data)')],
  'entries and threshold below 1e-7', 'soft thresholding of small entries must shrink their own modulus', '''
from modopt.signal.noise import thresh
x = np.array([3e-8, -5e-9, 1e-10])
check(close(thresh(x, 1e-9, "soft") * 1e8, np.array([2.9, -0.4, 0.0]), 1e-4), "soft thresholding of small entries: %s" % thresh(x, 1e-9, "soft"))
''')

S('c13-soft-complex', 'C13', [(NO, 'xp.finfo(np.float64).eps, xp.abs(input_data)', 'xp.finfo(np.float64).eps, xp.abs(xp.real(input_data))')],
  'complex data', 'the modulus must be shrunk by the threshold whatever the phase', '''
from modopt.signal.noise import thresh
x = np.array([3 + 4j, 0.1 + 0.1j, -2j])
exp = x * np.maximum(1 - 1.0 / np.abs(x), 0)
check(close(thresh(x, 1.0, "soft"), exp), "soft threshold of complex data")
''')

S('c13-ragged-nested', 'C13', [(PO, '        res = np.array([pos_recursive(elem) for elem in input_data], dtype="object")', '        res = np.array(\n            [\n                pos_thresh(elem) if elem.ndim == 1 else pos_recursive(elem)\n                for elem in input_data\n            ],\n            dtype="object",\n        )')],
  'ragged data nested twice', 'nested ragged data must be handled at every depth', '''
from modopt.signal.positivity import positive
inner = np.empty(2, dtype=object)
inner[0], inner[1] = np.array([-1.0, 2.0]), np.array([3.0, -4.0, 5.0])
outer = np.empty(2, dtype=object)
outer[0], outer[1] = inner, np.array([-6.0, 7.0, 8.0])
try:
    r = positive(outer)
except Exception as e:
    check(False, repr(e))
check(close(r[0][0], [0, 2]) and close(r[0][1], [3, 0, 5]) and close(r[1], [0, 7, 8]), "nested ragged data")
''')

S('c14-diag-broadcast', 'C14', [(SV, '    s_new = thresh(s_values, threshold, thresh_type)\n', '    s_new = thresh(s_values, np.minimum(threshold, s_values[0]), thresh_type)\n')],
  'hard thresholding with a threshold above the largest singular value', 'a threshold above every singular value must remove all of them', '''
from modopt.signal.svd import svd_thresh
d = np.random.default_rng(0).random((6, 4))
with contextlib.redirect_stderr(io.StringIO()):
    got = svd_thresh(d, threshold=1e3, thresh_type="hard")
check(close(got, 0), "components survive a threshold above all singular values")
''')

S('c15-map2matrix-layout', 'C15',
  [(TR, '        upper = (\n            image_shape * (i_elem // layout[1] + 1),\n            image_shape * (i_elem % layout[1] + 1),\n        )\n        data_matrix', '        upper = (\n            image_shape * (i_elem // layout[0] + 1),\n            image_shape * (i_elem % layout[1] + 1),\n        )\n        data_matrix')],
  'a layout that is not square', 'the map is cut with the wrong number of columns', '''
from modopt.base.transform import map2matrix
m = np.arange(4 * 6).reshape(4, 6)
try:
    got = map2matrix(m, (2, 3))
except Exception as e:
    check(False, repr(e))
exp = np.array([m[2 * i:2 * i + 2, 2 * j:2 * j + 2].ravel() for i in range(2) for j in range(3)]).T
check(got.shape == exp.shape and (got == exp).all(), "map2matrix with a 2 x 3 layout")
''')

S('c15-pad-axis', 'C15', [(NP, '    pad_y = (padding[1], padding[1])\n', '    pad_y = (padding[-1], padding[0])\n')],
  'different padding for both axes', 'the second axis must be padded by the second value on both sides', '''
from modopt.base.np_adjust import pad2d
x = np.arange(6).reshape(2, 3)
exp = np.pad(x, ((1, 1), (2, 2)))
got = pad2d(x, (1, 2))
check(got.shape == exp.shape and (got == exp).all(), "pad2d with (1, 2)")
''')

S('c15-cube2map-row', 'C15', [(TR, 'np.hstack(data_cube[slice(layout[1] * elem, layout[1] * (elem + 1))])', 'np.hstack(data_cube[slice(layout[0] * elem, layout[0] * elem + layout[1])])')],
  'a layout that is not square', 'rows of the map start at the wrong image', '''
from modopt.base.transform import cube2map
c = np.arange(6 * 4).reshape(6, 2, 2)
exp = np.vstack([np.hstack(c[3 * i:3 * i + 3]) for i in range(2)])
got = cube2map(c, (2, 3))
check(got.shape == exp.shape and (got == exp).all(), "cube2map with a 2 x 3 layout")
''')

S('c15-cube2map-refuse', 'C19', [(TR, 'if data_cube.shape[0] != np.prod(layout):', 'if data_cube.shape[0] < np.prod(layout):')],
  'a cube with more layers than the layout', 'a layout that does not fit must be refused instead of dropping layers', '''
from modopt.base.transform import cube2map
try:
    cube2map(np.zeros((7, 2, 2)), (2, 3))
except ValueError:
    sys.exit(0)
check(False, "7 layers accepted for a 2 x 3 layout")
''')


S('c16-astropy-boundary', 'C16', [(CV, '            boundary="wrap",\n            crop=False,', '            boundary="wrap" if kernel.shape[0] % 2 else "fill",\n            crop=False,')],
  "method='astropy' with an even kernel", 'the boundary must be periodic for every kernel', '''
from modopt.math import convolve as cv
seen = []
orig = cv.convolve_fft
cv.convolve_fft = lambda *a, **k: seen.append(k.get("boundary")) or orig(*a, **k)
cv.convolve(np.random.default_rng(0).random((8, 8)), np.ones((3, 3)), method="astropy")
cv.convolve(np.random.default_rng(0).random((8, 8)), np.ones((4, 4)), method="astropy")
check(seen == ["wrap", "wrap"], "boundary %s" % seen)
''')

S('c16-mexhat-sigma', 'C16', [('signal/filter.py', '    xs = (data_point / sigma) ** 2\n', '    xs = data_point**2 / sigma\n')],
  'a sigma different from one', 'the Mexican hat must depend on the point over sigma, squared', '''
from modopt.signal.filter import mex_hat
for x, s in ((2.0, 1.0), (1.5, 2.0), (0.3, 0.5)):
    u = (x / s) ** 2
    check(close(mex_hat(x, s), 2 / np.sqrt(3 * s) * np.pi ** -0.25 * (1 - u) * np.exp(-0.5 * u)), "mex_hat(%s, %s)" % (x, s))
''')

S('c16-wavelet-level', 'C16', [(LW, '            self.dwt(data, mode=self.mode, level=self.level, wavelet=self.wavelet)', '            self.dwt(\n                data,\n                mode=self.mode,\n                level=min(self.level, max(len(self.shape), 2)),\n                wavelet=self.wavelet,\n            )')],
  'more decomposition levels than dimensions (at least three)', 'the requested number of levels is not used', '''
from modopt.opt.linear import WaveletTransform
import pywt
x = np.random.default_rng(0).random((32, 32))
w = WaveletTransform("haar", shape=(32, 32), level=3)
exp = pywt.ravel_coeffs(pywt.wavedecn(x, "haar", level=3, mode="symmetric"))[0]
got = w.op(x)
check(got.shape == exp.shape and close(got, exp), "coefficients of a three level transform")
''')

S('c17-gram-window', 'C17', [(MX, 'u_now = vector - sum(project(u_i, vector) for u_i in u_vec)', 'u_now = vector - sum(project(u_i, vector) for u_i in u_vec[-2:])')],
  'four or more rows', 'the projections on all previous rows must be subtracted', '''
from modopt.math.matrix import gram_schmidt
m = np.random.default_rng(0).random((5, 5)) + np.eye(5)
e = gram_schmidt(m)
check(close(e @ e.T, np.eye(5), 1e-6), "rows are not orthonormal")
''')

S('c17-power-inverse', 'C17', [(MX, '        self.inv_spec_rad = 1.0 / self.spec_rad\n', '        self.inv_spec_rad = 1.0 / x_new_norm\n')],
  'an extra factor different from one', 'the inverse must be that of the reported spectral radius', '''
from modopt.math.matrix import PowerMethod
p = PowerMethod(lambda x: 2 * x, (3,), auto_run=False)
p.get_spec_rad(extra_factor=1.5)
check(close(p.spec_rad * p.inv_spec_rad, 1), "inverse %s of %s" % (p.inv_spec_rad, p.spec_rad))
''')

S('c17-power-normalise', 'C17', [(MX, '        x_old /= x_old_norm\n', '        x_old = x_old / max(x_old_norm, 1.0)\n')],
  'a starting vector of norm below one', 'the operator must be applied to the normalised starting vector', '''
from modopt.math.matrix import PowerMethod
seen = []


class Rng(np.random.Generator):
    pass


def op(x):
    seen.append(np.linalg.norm(x))
    return 2 * x


for s in range(30):
    seen.clear()
    p = PowerMethod(op, (1,), rng=s, auto_run=False)
    p.get_spec_rad(max_iter=3)
    check(close(seen, 1.0), "operator applied to vectors of norm %s" % seen)
''')

S('c18-complex-modulus', 'C18', [(ME, '    test = np.abs(np.copy(test)).astype("float64")\n', '    test = np.abs(np.copy(test).astype("float64"))\n')],
  'a complex test image', 'images are compared by their modulus, the imaginary part must not be dropped', '''
import warnings
warnings.simplefilter("ignore")
from modopt.math import metrics
rng = np.random.default_rng(0)
a = rng.random((8, 8)) + 1j * rng.random((8, 8))
b = rng.random((8, 8))
check(close(metrics.mse(a, b), metrics.mse(np.abs(a), b)), "complex image")
''')

S('c18-ssim-mask', 'C18', [(ME, '    return (mask * ssim_value).sum() / mask.sum()', '    return (mask * ssim_value).mean()')],
  'a mask that does not cover the whole image', 'the masked SSIM is the mean inside the mask', '''
from modopt.math import metrics
from skimage.metrics import structural_similarity
rng = np.random.default_rng(0)
a, b = rng.random((16, 16)), rng.random((16, 16))
m = np.zeros((16, 16)); m[4:10, 3:12] = 1
n = lambda i: (i - i.min()) / (i.max() - i.min())
_, s = structural_similarity(n(a), n(b), full=True, data_range=1.0)
check(close(metrics.ssim(a, b, mask=m), s[4:10, 3:12].mean()), "masked SSIM")
''')

S('c18-kernel-shape', 'C18', [(ST, 'Gaussian2DKernel(sigma, x_size=data_shape[1], y_size=data_shape[0]),', 'Gaussian2DKernel(sigma, x_size=data_shape[0], y_size=data_shape[1]),')],
  'a kernel that is not square', 'rows and columns are exchanged', '''
from modopt.math.stats import gaussian_kernel
k = gaussian_kernel((3, 7), 1.0)
check(k.shape == (3, 7), "shape %s" % (k.shape,))
''')

S('c18-psnr-close', 'C18', [(ST, 'return 20 * np.log10(max_pix) - 10 * np.log10(mse(data1, data2))', 'return 20 * np.log10(max_pix) - 10 * np.log10(max(mse(data1, data2), 1e-3))')],
  'a mean squared error below 1e-3', 'the PSNR of close images is capped', '''
from modopt.math.stats import psnr
a = np.arange(9.0).reshape(3, 3)
check(close(psnr(a, a + 1e-3, method="wiki", max_pix=8), 20 * np.log10(8) + 60), "psnr of close images")
''')

S('c19-noise-levels', 'C19', [(NO, 'if len(sigma) != input_data.shape[0]:', 'if len(sigma) < input_data.shape[0]:')],
  'more noise levels than layers', 'a wrong number of noise levels must be refused', '''
from modopt.signal.noise import add_noise
try:
    add_noise(np.zeros((2, 3)), sigma=[1.0, 2.0, 3.0])
except ValueError:
    sys.exit(0)
check(False, "three levels accepted for two layers")
''')

S('c19-check-int-kind', 'C19', [(TY, 'not np.issubdtype(input_obj.dtype, np.integer)', 'not np.issubdtype(input_obj.dtype, np.signedinteger)')],
  'an array of unsigned integers', 'arrays that already are integers must be left as they are', '''
from modopt.base.types import check_int
a = np.array([1, 2, 3], dtype=np.uint8)
r = check_int(a)
check(r.dtype == np.uint8 and r is a, "unsigned array converted to %s" % r.dtype)
''')

S('c19-psnr-stack-dims', 'C19', [(ST, 'if data1.ndim != 3 or data2.ndim != 3:', 'if data1.ndim != 3 and data2.ndim != 3:')],
  'only one of the stacks has the wrong number of dimensions', 'a wrong dimension of either stack must be refused', '''
from modopt.math.stats import psnr_stack
try:
    psnr_stack(np.arange(8.0).reshape(2, 2, 2), np.zeros((2, 2)))
except ValueError:
    sys.exit(0)
check(False, "two-dimensional data accepted")
''')

S('c19-npc-zero', 'C19',
  [(SV, 'less_than_zero = isinstance(n_pc, int) and n_pc <= 0', 'less_than_zero = isinstance(n_pc, int) and n_pc < 0')],
  'n_pc = 0', 'zero components must be refused (it selects the last singular value)', '''
from modopt.signal.svd import svd_thresh
try:
    svd_thresh(np.random.default_rng(0).random((6, 4)), n_pc=0)
except ValueError:
    sys.exit(0)
check(False, "n_pc=0 accepted")
''')

S('c20-power-advance', 'C20', [(MX, '        rng = self.xp.random.default_rng(self.rng)\n        return rng.random(', '        self.rng = self.xp.random.default_rng(self.rng)\n        return self.rng.random(')],
  'running the power method twice on the same object', 'the same seed must give the same start at every run', '''
from modopt.math.matrix import PowerMethod
p = PowerMethod(lambda x: np.array([3.0, 2.0, 1.0]) * x, (3,), rng=7)
a = p.spec_rad
p.get_spec_rad()
check(a == p.spec_rad, "second run gives %s instead of %s" % (p.spec_rad, a))
''')

S('c20-transpose-global', 'C20', [(VA, '    y_val = rng.random(y_shape)\n', '    y_val = np.random.random(y_shape)\n')],
  'the adjoint test with a seed', 'one of the test vectors comes from the global generator', '''
from modopt.signal.validation import transpose_test
seen = []
f = lambda x, a: seen.append(x.copy()) or x
for _ in range(2):
    with contextlib.redirect_stdout(io.StringIO()):
        transpose_test(f, f, (4,), rng=1)
check(close(seen[0], seen[2]) and close(seen[1], seen[3]), "test vectors differ for the same seed")
''')

S('c21-power-silent', 'C21', [(MX, 'elif i_elem == max_iter - 1 and self._verbose:', 'elif i_elem == max_iter - 1:')],
  'a power method that does not converge, without verbosity', 'a message is printed although no verbosity was requested', '''
from modopt.math.matrix import PowerMethod
s = io.StringIO()
with contextlib.redirect_stdout(s):
    p = PowerMethod(lambda x: np.array([3.0, 2.9, 1.0]) * x, (3,), auto_run=False)
    p.get_spec_rad(max_iter=2, tolerance=0.0)
check(s.getvalue() == "", "printed %r" % s.getvalue())
''')

S('c21-closelog', 'C21', [(LO, '    if verbose:\n        print("Closing log file:", log.name)\n', '    if verbose or len(log.handlers) > 1:\n        print("Closing log file:", log.name)\n')],
  'closing a log with several handlers without verbosity', 'a message is printed although no verbosity was requested', '''
import tempfile, logging, shutil
from modopt.interface.log import set_up_log, close_log
d = tempfile.mkdtemp()
try:
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        log = set_up_log(os.path.join(d, "a"), verbose=False)
        log.addHandler(logging.NullHandler())
        close_log(log, verbose=False)
    check(s.getvalue() == "", "printed %r" % s.getvalue())
finally:
    shutil.rmtree(d)
''')

S('c22-backend-name', 'C22', [(BE, '        backend = "numpy"\n    return LIBRARIES[backend], backend', '        return LIBRARIES["numpy"], backend\n    return LIBRARIES[backend], backend')],
  'requesting a backend that is not available', 'numpy must be reported as the backend in use', '''
from modopt.base.backend import get_backend
with contextlib.redirect_stderr(io.StringIO()):
    xp, name = get_backend("nonsense")
check(xp is np and name == "numpy", "reported backend %r" % name)
''')

S('c22-warn-no-termcolor', 'C22', [(ER, '    if import_fail:\n        err_txt = "ERROR"\n    else:\n        err_txt = colored("ERROR", "red")\n', '    err_txt = colored("ERROR", "red")\n    if import_fail:\n        err_txt = "ERROR"\n')],
  'termcolor missing', 'errors must be reported in plain text without termcolor', '''
import builtins
real = builtins.__import__


def fake(name, *a, **k):
    if name.split(".")[0] == "termcolor":
        raise ImportError(name)
    return real(name, *a, **k)


builtins.__import__ = fake
from modopt.interface import errors
s = io.StringIO()
try:
    with contextlib.redirect_stderr(s):
        errors.catch_error(ValueError("x"))
except NameError as e:
    check(False, str(e))
check("ERROR: x" in s.getvalue(), "message %r" % s.getvalue())
''')

S('c22-astropy-fallback', 'C22', [(CV, '    if not import_astropy:  # pragma: no cover\n        method = "scipy"\n', '    if not import_astropy and input_data.ndim > 2:  # pragma: no cover\n        method = "scipy"\n')],
  'astropy missing and the astropy method requested', 'the convolution must fall back to scipy without astropy', '''
from modopt.math import convolve as cv
cv.import_astropy = False
if hasattr(cv, "convolve_fft"):
    del cv.convolve_fft
try:
    r = cv.convolve(np.eye(4), np.ones((3, 3)), method="astropy")
except NameError as e:
    check(False, str(e))
check(close(r, cv.convolve(np.eye(4), np.ones((3, 3)))), "fallback result")
''')

S('c23-batch-backend', 'C23', [(LW, '        self.backend = backend\n', '        if self.n_jobs != 1:\n            self.backend = backend\n')],
  'a batch transformed with a single job', 'an attribute is missing when a batch is transformed with one job', '''
from modopt.opt.linear import WaveletTransform
w = WaveletTransform("haar", shape=(8, 8), level=1, n_batch=2, n_jobs=1)
x = np.random.default_rng(0).random((2, 8, 8))
try:
    c = w.op(x)
except AttributeError as e:
    check(False, str(e))
check(close(w.adj_op(c), x), "batch")
''')

S('c23-catch-log', 'C23', [(ER, '        log.exception(log_txt)\n', '        log.exception(log_text)\n')],
  'reporting an error with a log', 'the error report uses an undefined name when a log is given', '''
from modopt.interface.errors import catch_error


class Log:
    def __init__(self):
        self.m = []

    def exception(self, t):
        self.m.append(t)


log = Log()
try:
    with contextlib.redirect_stderr(io.StringIO()):
        catch_error(ValueError("boom"), log=log)
except NameError as e:
    check(False, str(e))
check(len(log.m) == 1 and "boom" in log.m[0], "log %s" % log.m)
''')

S('c24-unique-names', 'C24', [(WA, '+ str(getrandbits(128))', '+ str(getrandbits(1))')],
  'several transforms within a second', 'temporary files of concurrent runs get the same name', '''
from modopt.signal import wavelet as w
names = []


class F:
    @staticmethod
    def writeto(name, data, *a, **k):
        names.append(name)

    @staticmethod
    def getdata(name, *a, **k):
        return np.zeros((1, 2, 2))


w.fits = F
w.is_executable = lambda *a: None
w.execute = lambda *a: ("", "")
w.isfile = lambda *a: False
w.remove = lambda *a: None
for _ in range(40):
    w.call_mr_transform(np.zeros((4, 4)), path="/nonexistent/")
check(len(set(names)) == 40, "%d distinct names for 40 runs" % len(set(names)))
''')

S('c24-log-own-file', 'C24', [(LO, '    log = logging.getLogger(filename)\n', '    log = logging.getLogger(os.path.basename(filename))\n'),
                              (LO, 'import logging\n', 'import logging\nimport os\n')],
  'two logs with the same file name in different directories', 'each log must receive its own messages only', '''
import tempfile, shutil
from modopt.interface.log import set_up_log, close_log
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/a"); os.makedirs(d + "/b")
    l1 = set_up_log(d + "/a/run", verbose=False)
    l2 = set_up_log(d + "/b/run", verbose=False)
    l1.info("only-in-a")
    for l in (l1, l2):
        close_log(l, verbose=False)
    check("only-in-a" in open(d + "/a/run.log").read(), "message missing")
    check("only-in-a" not in open(d + "/b/run.log").read(), "message of one log written to the other")
finally:
    shutil.rmtree(d)
''')

S('c24-exec-path', 'C24', [(ER, '    if fpath:\n        res = is_exe(exe_name)\n', '    if fpath:\n        res = os.path.isfile(exe_name)\n')],
  'a path to a file that is not executable', 'a file without execute permission is not a valid executable', '''
import tempfile, shutil
from modopt.interface.errors import is_executable
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "prog")
    open(p, "w").close()
    os.chmod(p, 0o644)
    try:
        is_executable(p)
    except OSError:
        sys.exit(0)
    check(False, "non-executable file accepted")
finally:
    shutil.rmtree(d)
''')

S('c09-filters-shape', 'C09', [(WA, '    data_shape = np.array(data_shape)\n    data_shape += data_shape % 2 - 1', '    data_shape = np.asarray(data_shape)\n    data_shape += data_shape % 2 - 1')],
  'a data shape given as an array with an even entry', "the caller's shape array is modified", '''
from modopt.signal import wavelet as w
w.call_mr_transform = lambda d, **k: np.zeros((3,) + d.shape)
s = np.array([8, 10])
w.get_mr_filters(s)
check(s.tolist() == [8, 10], "caller's shape is now %s" % s)
''')

S('c25-plot-output', 'C25',
  [(CP, '            file_name = f"{output}_cost_function.png"', '            file_name = f"{output.split(\'.\')[0]}_cost_function.png"')],
  'an output name with a dot', 'the output name given is truncated', '''
import tempfile, shutil
from modopt.plot.cost_plot import plotCost
d = tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        plotCost([3.0, 2.0, 1.0], os.path.join(d, "run.1"))
    check(os.listdir(d) == ["run.1_cost_function.png"], "files %s" % os.listdir(d))
except OSError as e:
    check(False, str(e))
finally:
    shutil.rmtree(d)
''')

S('c25-max-pix', 'C25', [(ST, 'return 20 * np.log10(max_pix) - 10', 'return 20 * np.log10(255) - 10')],
  "method='wiki' with a maximum pixel value other than 255", 'the maximum pixel value supplied is ignored', '''
from modopt.math.stats import psnr
a = np.arange(9.0).reshape(3, 3)
check(close(psnr(a, a + 1, method="wiki", max_pix=10), 20.0), "psnr with max_pix=10")
''')
