"""Hand-written parts of DESIGN.md; tools/mkdesign.py merges them with the tables that are derived from the checks."""
HEAD = """# DESIGN

Model checking of einsteinpy: each check enumerates *every* member of a bounded space of executions (inputs from a
corner-value alphabet x configurations x histories of calls) by running the **real code** from /repo/src and compares each
reached state with a reference model. Nothing is sampled: VERIF_SEED only shuffles the order in which the enumerated cases
run. Nothing is decided by a solver.

## Why explicit-state enumeration of the implementation, and in which form

einsteinpy is a sequential numerical/symbolic library: there are no threads, files-with-crash-points or protocols, so
interleavings and crash points (the classic targets of model checking) are replaced by what here plays the role of
*schedules*:

* **histories** - objects cache and mutate (MetricTensor caches its inverse, coordinates cache v_t, constants live in a
  registry, plotters share figures, steppers carry state, geodesic integrators carry a second copy of phase space). Checks
  explore all words of operations up to a depth on one or several live objects, with *interleaving* of the objects as the
  schedule. Where states can be compared (velocity conversions C25, dual-number expressions C29) the exploration is a
  state graph, breadth first, equal states merged.
* **configurations** - index configurations (all 2^rank), forms of handing over a metric, units, containers, coordinate
  systems, compiled / interpreted / compiler absent.
* **inputs** - the cartesian product of small alphabets that contain the corner values (sign patterns {-,0,+}, spin 0 and
  extremal, inside / between / outside the horizons, axis, equator, dimension 2-5, every single off-diagonal slot, every
  branch of a case distinction).

The model is an independent implementation of the mathematics (mc/): tensor calculus in 40-digit mpmath (`curv.py`,
`symb.py`), line elements and horizons (`knref.py`, `num.py`), coordinates (`coordref.py`), Hamiltonian geodesics (`geo.py`),
figure models (`figs.py`). The binding of model to code is direct: **every transition is a call of the implementation** and
each state it returns is compared with the model's; there is no hand-written abstraction that could drift.

What this reaches that unit tests cannot: the tests sample one or two points of these spaces (usually diagonal textbook
metrics, covariant input, first call on a fresh object). What it cannot reach: real numbers between the alphabet's values,
deeper histories than the bound, other dimensions than listed. Bounds are stated per check below and in the evidence.

### Tolerances
Symbolic results are compared as *functions*, by evaluating them with mpmath at fixed generic points (never by printed form
or by `simplify(...)==0`), so any algebraically equivalent rewriting is accepted. Numerical results are compared relative to
the natural size of the component with a tolerance several orders above rounding (1e-7 .. 1e-10), relaxed by the conditioning
of the quantity (near a horizon, near the axis, at extremality), so re-association of floating point never raises an alarm.

### What the checks do not rely on
Only the public API, plus those private functions that the repository's own tests import (`_P,_sch,_kerr,_kerrnewman,_Z,
_deriv,_diff_g,_jacobian_g,_dg_dx_bl,_f_vec`); anything else is looked up with getattr and skipped when absent. No check
reads source text. Warnings are compared by category and presence, exceptions by class.

## Running
`./setup.sh` once (checks the interpreter); `./check Cxx --tier quick|thorough` per property; `./check Cxx --replay FILE`
re-executes a reported case. 8 worker processes (VERIF_JOBS). A violation is written to /verif/replays/ and printed as
`VIOLATION property=<id> replay=<path>`. mc/fastunits.py memoises astropy's `UnitBase.si` (third-party code, speed only).
Every case has its own limit of 400 s; a case that does not finish is a violation (the code under test hung).
"""
ORACLE = {
"C01": ("Gamma^a_bc = 1/2 g^ad (d_b g_dc + d_c g_bd - d_d g_bc) evaluated by mpmath from the metric's components (derivatives by sympy.diff of the *input*)", "every metric x form of handing over; A,B,A histories over metrics sharing coordinates and name"),
"C02": ("R^a_bcd from the definition with exact derivatives at the points; pair symmetries, first Bianchi identity", "metric x starting configuration (8) x explicit/implicit metric"),
"C03": ("contraction of the model's Riemann tensor with the model's metric", "metric x every route (1+8+16+4 starting tensors)"),
"C04": ("G = Ric - R g/2; divergence of G by the model's connection; T = c^4/(8 pi G)(G - Lambda g)", "metric x form x configuration x constants"),
"C05": ("model Weyl tensor, all traces, conformally rescaled input", "metric x conformal factor x configuration"),
"C06": ("model Schouten tensor; Riemann == Weyl + Kulkarni-Nomizu(g, P) with the code's own tensors", "metric x form x configuration"),
"C07": ("contraction of the *original* components with g / g^-1 according to start and end configuration only; class, name, configuration, parent metric", "all walks through the graph of configurations (states: configuration + components)"),
"C08": ("a 3-field model (covariant components, configuration, cached forms); after each operation every earlier returned object and the object itself are re-read", "all words over 7 operations, two live objects interleaved"),
"C09": ("numpy.tensordot of the components, contraction according to the two index characters", "all ordered pairs x configurations x index pairs"),
"C10": ("einsum with Lambda on upper, Lambda^-T on lower indices; g(u,v) invariant; (L1 L2) T = L1 (L2 T)", "transformation x class x configuration, pairs composed"),
"C11": ("40-digit substitution", "class x argument permutation x history x type of number"),
"C12": ("40-digit substitution into the input; equality of value at real, negative and complex points; metadata model", "call form x subset of symbols x class x configuration; words of subs/simplify"),
"C13": ("Einstein(-Maxwell/-scalar/-fluid) equations with the model's tensors in float64 with 40-digit input; Killing fields, Petrov / asymptotic properties where documented", "metric x parameters x points"),
"C14": ("symbolic default form + substitution", "all subsets of parameters x value kind x positional/keyword; A,B,A histories; all substrings x case"),
"C15": ("acceptance table derived from documentation (rank == len(config), square arrays, type of syms, ...)", "class x rank x configuration x container; all pairs of invalid arguments"),
"C16": ("line element in 40 digits and its inverse", "grid x history (twice on shared, once on fresh, overwritten results, reused position buffer)"),
"C17": ("Levi-Civita connection of the line element, 40-digit derivatives", "grid x query order x reused objects"),
"C18": ("-Gamma^i_jk u^j u^k", "grid x 54 sign patterns of the velocity"),
"C19": ("F = dA; raised with the metric; Maxwell's equations; force proportional to F^a_b u^b", "grid x particle charge x velocity"),
"C20": ("roots of g^rr and g_tt found from the model's line element", "grid x angles x order of two live metrics"),
"C21": ("the SI call", "all unit combinations; each argument replaced by each wrong dimension"),
"C22": ("table metric-system x coordinate-system", "all words of <= 2 (3) queries"),
"C23": ("user function + perturbation evaluated afresh", "user metric kinds x perturbation x words of 3 calls"),
"C24": ("Cartesian image from closed formulas in 40 digits", "all chains of conversions"),
"C25": ("exact Jacobian applied to the Cartesian velocity", "state graph of conversions, merged"),
"C26": ("quadratic equation for v^t solved in 40 digits; g(u,u) = c^2", "grid x all pairs/triples of metrics on one object"),
"C27": ("record model (name -> value)", "grid x every subscript; bodies: all argument subsets"),
"C28": ("g^ab p_a p_b = -1 or 0; root choice by direction of time", "grid x metric x off-diagonal slot"),
"C29": ("complex-step / mpmath derivative of the same expression tree", "state graph of expressions"),
"C30": ("DOP853 at rtol 1e-13 of Hamilton's equations built from the *symbolic* metric", "conditions x order x coupling x direction; interleaved integrators"),
"C31": ("J^T Omega J = Omega on the doubled phase space; forward-back identity; commuting with isometries", "conditions x order x coupling x step, histories"),
"C32": ("the integrator driven by hand with the same options (differential), conversion formulas, independence", "all pairs (triples) of changed options; all words of create/read/recompute on two geodesics"),
"C33": ("|H - H0| > atol + rtol*|H0| from the reported state", "all tolerance combinations"),
"C34": ("inverse of the line element in 40 digits (geometrised)", "grid x container x ordered pairs of calls"),
"C35": ("classical RK4 table in 40 digits; scipy's Dormand-Prince; exact solutions; stop exactly at the bound", "all words of steps on two live solvers; moves of the bound"),
"C36": ("list-of-artists model of both plotters", "all words of calls on two live plotters"),
"C37": ("surface vertices satisfy the horizon / ergosphere equations", "spin x plotter x option, after 0-2 other drawings"),
"C38": ("closed-form slope and its 40-digit integral", "mass x unit x radius grid; words of calls on two objects"),
"C39": ("cubic for the turning point solved by numpy/mpmath; 5-point quadrature of the intensity", "parameter grid x smoothing words"),
"C40": ("power laws / exponential and exact derivatives", "eras x times x units x parameters; order of eras"),
"C41": ("the same call in three interpreters (numba present, NUMBA_DISABLE_JIT, numba hidden)", "about 3000 (8000) calls"),
"C42": ("pixelwise Julia iteration in numpy", "sizes x angles x ranges x bounds; each slider position"),
"C44": ("the same operation run alone; controlled two-thread scheduler over package lines (sys.monitoring)", "pairs of 82 operations x every preemption point (two preemptions for equal pairs); nested user callbacks"),
"C45": ("the same operations without the copying; the original left behind, compared after its copy went on and after it went on itself", "75 kinds of object x 5 ways x chains of copies; words of operations and copies for 17 kinds that change"),
"C43": ("registry model of constants; elementwise evaluation; inverse Jacobian", "all words of <= 4 (5) constant operations; shapes x entries; unit tuples"),
}
FIND = """## Findings

`known_findings.txt` holds the authoritative list. Two kinds of entry:

* `fixed:` 43 genuine defects repaired in /repo by one minimal `fix:` commit each (message says what was wrong; the stable
  tests pass unedited). The checks named there report the violation again when the repair is reverted.
* `known:` seven defects that cannot be repaired without editing existing tests that pin the wrong value (or without an API
  change); each identified by a key that names the specific behaviour, so that other violations of the same property are
  still reported:
  - C19 `F13-/F23-opposite-sign`: two components of the covariant field tensor of Kerr-Newman have the wrong sign (pinned).
  - C27 `earth-radius-6731`: digits swapped (6371 km), pinned.
  - C37 `charge-ignored`: plotters do not know the charge, drawing the Kerr horizon for Kerr-Newman geodesics.
  - C38 `gradient-sqrt-R`, `small-mass-offset`: pinned.
  - C43 `elementwise-reciprocal`: pinned; agrees with the inverse Jacobian only for diagonal changes of coordinates.

Observed and left alone (documented conventions, unclear intent, or outside any property a user could rely on):

* The Kerr-Newman Lorentz force has a unit convention of its own (overall scale pinned by a test).
* DualNumber: 0/0 and the derivative of 0**0 raise ZeroDivisionError; `DualNumber == float` AttributeError; a fractional
  power of a negative dual number TypeError. Outside the real domain; excluded in C29.
* tensor_product with only one of i, j given: inconsistent refusal.
* Sign convention T = c^4/(8 pi G)(G - Lambda g) is documented and used; C04 takes it as the specification.
* position() gives x0 = c t although g_tt carries c^2 (so c t and t are mixed in the docs); v_t is labelled m/s. Consistent
  within each class, checked as is.
* Geodesic trajectory: results[0] is the state after the first step, not the initial one.
* RK45 raises ValueError when 0.8*stepsize > |t_bound - t0| and passes y as column (n,1) for array y0.
* Plotting a geodesic of a user metric with empty metric_params raises IndexError; plot2D draws the ergosphere's meridional
  section whatever the coordinates; ShadowPlotter's line plot draws in the current axes.
* Shadow uses the mass in kg as a length. C39 states its scale in the assumptions.

False alarms met on the way (property or check corrected, never listed as finding): sympy branch cuts when simplifying roots
(C12: points where the *input* is discontinuous are excluded), near-horizon conditioning (C16-C18, C34), azimuth compared
modulo 2 pi (C24), adaptive stepper compared step by step with another method (C35, now scipy's own), drift within rounding
of the tolerance (C33).

## Not applicable
"""
TAIL = """
## Detection: seeded changes

Each change in seeded/ was written from a property's text, verified to build, to pass the 309 stable tests and to be exposed by
its demo; `tools/detect.py` applies it in a private mount namespace and runs the quick tier of the property's check. Changes
that were missed at first led to: radii inside the ergosphere and between the horizons, overwritten results and reused buffers
(C16, C17), stored/integer user arrays (C23), truthy time_like values (C28), powers at zero (C29), tiny couplings (C31), azimuths
outside (-pi, pi] (C24), long steps (C35), colour lists (C36), Einstein tensors in other configurations (C10), negative symbols under
roots (C12). All changes listed are now caught by the quick tier.
"""
