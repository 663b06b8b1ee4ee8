"""Write DESIGN.md from tools/DESIGN.tmpl.md: adds the table of properties and of planted bugs."""
import json, sys
from collections import Counter
sys.path.insert(0, "/verif")
from sa import runner, check
HOW = {
"C01": "Construct ForwardBackward / GenForwardBackward / POGM (all constructor options symbolic or enumerated) and take 1-3 iterations; the event trace fixes where the gradient and each proximity operator are evaluated, with which scaling factor; state after every step and final solution compared with the published recursions (Beck-Teboulle, Raguet, Taylor-Kim POGM'). Step-size/relaxation update rules are symbolic callables.",
"C02": "update_lambda in every mode over symbolic state, is_restart / update_beta over symbolic iterates and every restart strategy, two-step histories (damping, greedy min_beta/s_greedy), and the same through ForwardBackward.",
"C03": "Condat: construction, 1-3 iterations with and without linear operator, cost, reweighting loop (symbolic scheme), update rules of rho/sigma/tau, retrieved outputs; Moreau identity is pure algebra in the normal form.",
"C04": "Each variant (generic, vanilla, Adagrad, RMSprop, momentum, ADAM, SAGA): several iterations, epochs, reset and proximity scaling, learning-rate update rules; gradient memory of SAGA as an explicit list state.",
"C05": "ADMM and FastADMM: constructor, 1-2 iterations with symbolic sub-problem optimisers (obs argument recorded), momentum/restart sequence of Goldstein 2014 Alg. 8 including restart branch, ADMMcostObj.",
"C06": "Driver loop SetUp._run_alg/_iterations through a minimal subclass and through each solver: symbolic iteration number, symbolic convergence answers per iteration, metric periods, early stopping, progress bars (own, supplied, disabled), repeated `iterate` calls, observers seeing idx.",
"C07": "costObj/CostParent: sequences of get_cost calls with symbolic costs, intervals, windows and tolerances; cost list, convergence verdict and purge of the window; costs of operator lists; verbosity.",
"C08": "Observable: add/remove/notify sequences with symbolic observers that may fail (`fails(...)` gates on every exit) or re-enter; MetricObserver: windows, NaN, saved time, early-stopping flag, is_converge.",
"C09": "Alias/ownership analysis in every probe: any write (in-place operator, item assignment, out=, sort, setflags, list/dict mutation) whose cell is owned by an argument or by the result of a user operator and which the specification does not make, and any later change of captured memory visible through the outputs of a second call.",
"C10": "op and cost of every elementary proximity operator over symbolic array, weights, extra_factor, scalar and array parameters, verbosity; k-support including search and interpolation; group lasso along axes; repeated calls.",
"C11": "ProximityCombo, LinearCompositionProx, LinearCombo, Identity, MatrixOperator over symbolic operator lists, weights, inputs and factors; argument routing through the effect trace.",
"C12": "GradParent/GradBasic: setters, validation, data types, writeable flags, gradient at symbolic points with symbolic operators, cost with every flag; complex data distinguished from real (|.|^2 vs square).",
"C13": "thresh/positive over scalars, arrays, object arrays, nested ragged lists (recursion folded), threshold types, array thresholds.",
"C14": "svd_thresh, svd_thresh_coef, svd_thresh_coef_fast, calculate_svd, find_n_pc, LowRankMatrix (op, cost, types, successive calls with evolving rank).",
"C15": "cube/map/matrix transforms in both directions and composed, over symbolic shapes and layouts, refused layouts; rotate, rotate_stack, pad2d, fancy_transpose, ftr, ftl with index algebra.",
"C16": "convolve / convolve_stack for each method, availability and option, filter_convolve(_stack), WaveletConvolve, WaveletTransform (numpy/GPU, batch, coil split), get_mr_filters/trim_filter, gaussian_filter, mex_hat, mex_hat_dir.",
"C17": "gram_schmidt, nuclear_norm, project, rot_matrix, rotate, PowerMethod (constructor, get_spec_rad, stop rule as recurrence, resumed calls).",
"C18": "min_max_normalize and ssim/snr/psnr/mse/nrmse with and without mask, backends missing or present, stats functions for every method, complex images, mask validation.",
"C19": "All exceptions of every probe: the gate (condition) and type of each raise are compared as boolean diagrams with the documented ones; plus dedicated probes with arguments of kind `any`.",
"C20": "Every draw is an event carrying its generator; sources: seed, Generator, fresh; any use or seeding of global state is a separate event; add_noise, transpose_test, PowerMethod, SAGA and the wavelet random names; module import is interpreted for global effects too.",
"C21": "stdout/stderr/warnings traces of every probe, gated by verbosity; messages' quantities compared as terms.",
"C22": "Environments where each optional import is symbolically present or absent; backend tables over symbolic names, arrays tagged by backend; warnings; undefined names on fall-back branches.",
"C23": "Undefined name / attribute, wrong arity or keyword, raising non-exceptions on any feasible gate of any probe, and module-level name resolution at import in every environment.",
"C24": "call_mr_transform, execute, logging (set_up_log/close_log), errors (warn/catch_error/file_name_error/is_executable): file-system/process/log handler events with symbolic failure at each step; removal on every exit.",
"C25": "Interface comparison (names, order, kind, default of every public parameter) plus any probe whose outcome no longer depends on a parameter it should depend on.",
"C26": "cwbReweight: successive reweightings over symbolic weights, shape check, sharing with SparseThreshold, counter and messages.",
}
cnt = Counter()
for _, p in runner.read_probes(check.PROBES):
    for q in p.props:
        cnt[q] += 1
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
rows = ["| %s %s | %s | %s |" % (p["id"], p["title"], HOW[p["id"]],
        cnt[p["id"]] if p["id"] not in ("C09", "C25") else "%d + all" % cnt[p["id"]])
        for p in P if p["id"] in HOW]
try:
    tab = json.load(open("/verif/tools/seedtable.json"))
except OSError:
    tab = {}
seeds = ["%d planted, %d caught by the check of their own property.\n" % (
    len(tab), sum(v[0] in v[1] for v in tab.values())), "| bug | caught by |", "|---|---|"]
for k, v in sorted(tab.items()):
    seeds.append("| %s (%s) | %s |" % (k, v[0], " ".join(
        "**%s**" % c if c == v[0] else c for c in v[1]) or "missed"))
t = open("/verif/tools/DESIGN.tmpl.md").read()
n = sum(1 for _ in runner.read_probes(check.PROBES))
t = t.replace("All 487 probes", "All %d probes" % n)
open("/verif/DESIGN.md", "w").write(t.replace("@PROPS@", "\n".join(rows)).replace(
    "@SEEDS@", "\n".join(seeds)))
