# ---------------------------------------------------------------- symbolic
prop("C01", "Christoffel symbols are the Levi-Civita connection of the metric",
     "The Christoffel symbols computed from a metric equal the Levi-Civita connection of that metric for every metric (any dimension, signature, off-diagonal terms, undefined functions) and at every point. They do not depend on whether the metric is handed over covariantly or contravariantly, nor on what was computed before in the same session.",
     ["inputs", "histories"], "every metric (dims 2-5), every form in which the metric is supplied, every history of earlier computations",
     "The tests compare a few symbols of three or four textbook diagonal metrics given covariantly; off-diagonal, contravariant and repeated use is not sampled.",
     ["symbolic/christoffel.py", "symbolic/metric.py"], [("ChristoffelSymbols.from_metric", "symbolic/christoffel.py")], ["ChristoffelSymbols.from_metric(...).tensor()"], SYMT, SYMN)
prop("C02", "Riemann tensor: value, symmetries and independence of the construction route",
     "The Riemann tensor of every metric equals the curvature of its Levi-Civita connection with the documented index placement, and satisfies the algebraic symmetries (antisymmetry in both pairs, pair exchange, first Bianchi identity). Building it from the metric or from Christoffel symbols in any index configuration, with the metric explicit or implied, gives the same tensor.",
     ["inputs", "histories"], "every metric (dims 2-5), every index configuration of the starting tensor, with or without an explicit metric",
     "Tests check a handful of components of two metrics starting from the default configuration only.",
     ["symbolic/riemann.py", "symbolic/christoffel.py"], [("RiemannCurvatureTensor.from_metric / from_christoffels", "symbolic/riemann.py")], ["RiemannCurvatureTensor.from_*(...).tensor()"], SYMT, SYMN)
prop("C03", "Ricci tensor and scalar are the traces of Riemann on every route",
     "The Ricci tensor is the trace of the Riemann tensor over its first and third index and the Ricci scalar is the full trace, for every metric. All routes (from the metric, from Christoffel symbols, from a Riemann tensor or from a Ricci tensor, each in any index configuration, with or without an explicit metric) give the same result.",
     ["inputs", "histories"], "every metric, every construction route, every index configuration of the tensor the route starts from",
     "Tests only check that two vacuum metrics and one cosmological metric give the expected value via one or two routes.",
     ["symbolic/ricci.py", "symbolic/riemann.py"], [("RicciTensor.from_*, RicciScalar.from_*", "symbolic/ricci.py")], ["RicciTensor.from_*(...).tensor()", "RicciScalar.from_*(...).expr"], SYMT, SYMN)
prop("C04", "Einstein tensor, contracted Bianchi identity and stress-energy tensor",
     "For every metric the Einstein tensor equals Ricci - (R/2) g, is symmetric and covariantly conserved. The stress-energy tensor equals c^4/(8 pi G) (G - Lambda g) for every metric and every value of the constants, whichever way the metric is supplied and in every index configuration.",
     ["inputs", "configurations"], "every metric (dims 2-5), every way of supplying it, every index configuration, every value of the constants",
     "Tests compare one or two components of one vacuum and one cosmological metric.",
     ["symbolic/einstein.py", "symbolic/stress_energy_momentum.py", "symbolic/constants.py"], [("EinsteinTensor.from_metric", "symbolic/einstein.py"), ("StressEnergyMomentumTensor.from_metric", "symbolic/stress_energy_momentum.py")],
     ["tensor()", "change_config"], SYMT, SYMN)
prop("C05", "Weyl tensor is the trace-free, conformally invariant part of Riemann",
     "The Weyl tensor of every metric of dimension 3 or more has the algebraic symmetries of Riemann, vanishes under every trace, differs from Riemann exactly by the Ricci terms, and is unchanged (as C^a_bcd) when the metric is multiplied by a positive function. It vanishes in dimension 3, and metrics of dimension below 3 are refused with ValueError.",
     ["inputs"], "every metric of dims 2-5, every conformal factor, every index configuration",
     "Tests look at two conformally flat metrics and one component of a vacuum metric; no trace or conformal test.",
     ["symbolic/weyl.py"], [("WeylTensor.from_metric", "symbolic/weyl.py")], ["WeylTensor.from_metric(...).tensor()"], SYMT, SYMN)
prop("C06", "Schouten tensor and the decomposition of the Riemann tensor",
     "For every metric of dimension 3 or more the Schouten tensor equals (Ricci - R g/(2(n-1)))/(n-2), and Riemann equals Weyl plus the Kulkarni-Nomizu product of the metric with it. Metrics of dimension below 3 are refused with ValueError.",
     ["inputs"], "every metric of dims 2-5, every way of supplying it, every index configuration",
     "Tests check only the class plumbing and one metric.",
     ["symbolic/schouten.py"], [("SchoutenTensor.from_metric", "symbolic/schouten.py")], ["SchoutenTensor.from_metric(...).tensor()"], SYMT, SYMN)
prop("C07", "Raising and lowering indices is independent of the path",
     "Changing the index configuration of any tensor contracts each changed index with the metric or its inverse, whatever sequence of configurations it passes through; going back to the original configuration gives the original tensor, and the result has the same class, the requested configuration and the metric used. Without any metric the change is refused, and a metric supplied contravariantly gives the same result as its covariant form.",
     ["histories", "inputs"], "every sequence of configurations, every tensor class and rank, own or foreign metric",
     "Tests change one tensor once or twice along one path and compare a few components.",
     ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/christoffel.py", "symbolic/riemann.py", "symbolic/ricci.py", "symbolic/einstein.py", "symbolic/weyl.py", "symbolic/schouten.py", "symbolic/stress_energy_momentum.py"],
     [("_change_config", "symbolic/tensor.py"), ("change_config of every class", "symbolic/")], ["change_config(...)"], SYMT, SYMN)
prop("C08", "A metric and its inverse stay consistent through every history",
     "For every metric tensor, in every history of inverting, changing configuration, lowering, simplifying and using it for connections, the covariant and contravariant forms reported are inverse to each other and are those of the metric it was built with. Operations on one metric never change another, or the metric itself, and the forms obtained carry its name (possibly extended) and coordinates; mixed configurations are refused.",
     ["histories"], "every sequence of operations on one or two live metric objects",
     "The cached inverse is a hidden state; tests exercise one or two call orders on diagonal metrics.",
     ["symbolic/metric.py"], [("MetricTensor.inv, change_config, lower_config", "symbolic/metric.py")], ["inv()", "change_config()", "lower_config()", "tensor()"], SYMT, SYMN)
prop("C09", "Tensor product and contraction follow the component definition",
     "The product of two tensors has as components the products of the factors' components in order, and contracting an index of the first with one of the second sums over them, for every rank, dimension, configuration and admissible index pair. Symbols, functions and configuration of the result are those of the factors; contraction of two indices at the same height is refused.",
     ["inputs"], "every pair of ranks and configurations, every index pair",
     "Tests multiply two rank-2 metrics and contract one pair.",
     ["symbolic/tensor.py"], [("tensor_product", "symbolic/tensor.py")], ["tensor_product(...)"], SYMT, SYMN)
prop("C10", "Lorentz transformations act on every index and compose",
     "Transforming a tensor applies the matrix to every upper index and its inverse transpose to every lower index, so scalars formed by contraction are unchanged, the Minkowski metric is invariant, and transforming twice equals transforming once with the product. Class and configuration are kept, and symbols of the transformation become variables of the result.",
     ["inputs", "histories"], "every transformation, tensor class, rank and configuration, every composition of two",
     "Tests transform a vector and a few rank-2 tensors with one boost, for which several wrong rules coincide.",
     ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/metric.py"], [("lorentz_transform", "symbolic/tensor.py")], ["lorentz_transform(...)"], SYMT, SYMN)
prop("C11", "Lambdified tensors compute the components with the announced arguments",
     "The function made from a tensor returns, for every numerical input, the value of the tensor's components, in the tensor's shape; the announced argument tuple is the coordinates, variables and functions of the tensor (or the ones requested), in the order in which the function takes them. This holds for every class, configuration and history (after changing configuration, transforming or multiplying).",
     ["inputs", "histories"], "every tensor class and configuration, every order of arguments, every numerical input",
     "Tests call a handful of lambdified metrics at one point with the default argument order.",
     ["symbolic/tensor.py"], [("tensor_lambdify", "symbolic/tensor.py")], ["tensor_lambdify()"], SYMT, SYMN)
prop("C12", "Substitution and simplification keep value, metadata and operands",
     "Substituting into a tensor replaces the symbols in every component and simplifying leaves every value unchanged, for every rank, class and call form. Both keep class-level metadata (configuration, symbols, name); subs never changes the original and simplify changes it only when asked to (set_self).",
     ["inputs", "histories"], "every rank 0-4, tensor class, subset of symbols, kind of replacement and sequence of calls",
     "Tests substitute into one or two default-configuration tensors.",
     ["symbolic/tensor.py", "symbolic/helpers.py"], [("Tensor.subs, Tensor.simplify", "symbolic/tensor.py"), ("simplify_sympy_array", "symbolic/helpers.py")], ["subs()", "simplify()"], SYMT, SYMN)
prop("C13", "Predefined space-times solve the field equations they are documented to solve",
     "Every predefined metric, for every value of its parameters (including c, G and epsilon_0 different from 1), is a solution of what it is documented to be: flat, vacuum, electrovacuum, Einstein with a cosmological constant, perfect-fluid dust, scalar field, or gravitational wave. Its signature is Lorentzian at regular points and the stated limits hold.",
     ["inputs"], "every predefined metric, parameter value and regular point",
     "Tests check that a few default metrics are Ricci flat or have the right shape.",
     ["symbolic/predefined/vacuum_solutions.py", "symbolic/predefined/de_sitter.py", "symbolic/predefined/minkowski.py", "symbolic/predefined/bessel_gravitational_wave.py", "symbolic/predefined/cmetric.py", "symbolic/predefined/ernst.py", "symbolic/predefined/alcubierre_warp.py", "symbolic/predefined/godel.py", "symbolic/predefined/davidson.py", "symbolic/predefined/bertotti_kasner.py", "symbolic/predefined/barriola_vilenkin.py", "symbolic/predefined/janis_newman_winicour.py"],
     [("factories", "symbolic/predefined/")], ["Schwarzschild(), Kerr(), ..."], SYMT, SYMN)
prop("C14", "Predefined factories: parameters, limits, independence of calls, search",
     "Calling a predefined factory with values, expressions or other symbols for any subset of its parameters gives exactly the symbolic form with those parameters substituted, by position or keyword, and the documented limits between factories hold (Kerr with a=0 is Schwarzschild, and so on). Every call gives a fresh object that no other call or change to another object influences, and find returns exactly the predefined metrics whose name contains the search string, ignoring case.",
     ["inputs", "histories"], "every factory, subset of parameters, history of factory calls and search string",
     "Tests call most factories once with defaults.",
     ["symbolic/predefined/vacuum_solutions.py", "symbolic/predefined/find.py", "symbolic/predefined/__init__.py"], [("factories", "symbolic/predefined/"), ("find", "symbolic/predefined/find.py")], ["factories", "find()"], SYMT, SYMN)
prop("C15", "Tensor construction: equivalent forms agree, inconsistent ones are refused",
     "Every accepted container for the same components (nested lists, sympy arrays, numpy arrays, tuples) gives the same tensor, with rank, shape, dimension, symbols, configuration and name as given. Every inconsistent construction - configuration of the wrong length or with letters other than u and l, wrong rank for the class, any dimension different from the number of coordinates, components of an unsupported type, parent metric of the wrong type - is refused with the documented exception.",
     ["inputs"], "every class, rank 0-4, container, configuration string and kind of invalid argument",
     "Tests try about one wrong input per class.",
     ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/metric.py", "symbolic/christoffel.py", "symbolic/riemann.py", "symbolic/ricci.py"], [("constructors", "symbolic/")], ["constructors"], SYMT, SYMN)
# ---------------------------------------------------------------- numerical metrics
prop("C16", "Numerical metrics are the exact line elements, and their inverses are inverses",
     "For every mass, spin, charge and position the Schwarzschild, Kerr and Kerr-Newman objects report the components of the documented line element (in SI units) as covariant metric and its matrix inverse as contravariant metric; charge zero and spin zero give the simpler solution. Results do not depend on the container of the position or on earlier queries, and a spin outside 0..1 is refused.",
     ["inputs", "histories"], "every mass, spin, charge, position, container and order of queries",
     "Tests compare the functions with each other at a few points, or with formulas copied from the code.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/base_metric.py"], [("metric_covariant, metric_contravariant", "metric/base_metric.py"), ("_g_cov_*", "metric/")], ["metric_covariant()", "metric_contravariant()"], NUMT, NUMN)
prop("C17", "Numerical Christoffel symbols and metric derivatives match the metric",
     "The Christoffel symbols reported by Schwarzschild, Kerr and Kerr-Newman objects are the Levi-Civita connection of the metric the same object reports, and the reported metric derivatives are its derivatives, for every mass, spin, charge and position, all 64 components. The result does not depend on earlier queries or on what was done with their results.",
     ["inputs", "histories"], "every mass, spin, charge, position and order of queries", "Tests compare a few symbols at one or two points with hand-copied values.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"], [("_christoffels, _dg_dx_bl", "metric/")], ["christoffels()"], NUMT, NUMN)
prop("C18", "The right-hand side of the motion is the geodesic equation",
     "For every metric object, position and velocity the vector for integration is (u, -Gamma u u): its position part is the velocity and its velocity part is the geodesic acceleration of the line element, for every combination of velocity components. It therefore conserves the norm, energy and axial angular momentum to first order.",
     ["inputs"], "every mass, spin, charge, position and 4-velocity", "Tests compare f_vec with a copy of its own formula at one point.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"], [("_f_vec", "metric/")], ["f_vec()"], NUMT, NUMN)
prop("C19", "Electromagnetic field of Kerr-Newman and the Lorentz force",
     "The electromagnetic potential and field reported for Kerr-Newman are those of the solution for every charge (of either sign), spin and position: the field is antisymmetric and is the exterior derivative of the potential, the contravariant field is the covariant one with both indices raised. A charged particle is accelerated by the field applied to its lowered velocity, on top of the geodesic acceleration; like charges repel and an uncharged particle follows a geodesic. What a call returned does not change with later calls, nor they with what is done to it.",
     ["inputs"], "every charge, spin, position, particle charge and velocity", "Tests pin a few components for one sign of the charge.",
     ["metric/kerrnewman.py"], [("em_potential_*, em_tensor_*, _f_vec", "metric/kerrnewman.py")], ["em_potential_covariant()", "em_tensor_covariant()", "f_vec()"], NUMT, NUMN)
prop("C20", "Reported horizons and ergospheres are those of the metric",
     "The singularities reported for a metric object lie where that metric says: the horizons are the roots of 1/g_rr and the ergospheres the roots of g_tt at the given angle, for every mass, spin, charge, angle and coordinate system, ordered inner <= outer; where a metric has no such root (more charge than a horizon can hide) no radius is reported. Asking one object does not change the answer of another.",
     ["inputs", "histories"], "every mass, spin, charge and polar angle, every order of queries on several live objects", "Tests compare with the formula for one or two parameters.",
     ["metric/base_metric.py", "metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"], [("singularities", "metric/base_metric.py")], ["singularities()"], NUMT, NUMN)
prop("C21", "Results do not depend on the units of the arguments; wrong ones are refused",
     "Giving the same mass, charge, specific charge, length, angle, time or velocity in any compatible unit gives the same physical result everywhere metrics, coordinates and conversions are used. A quantity of the wrong dimension is refused with an error instead of being used.",
     ["inputs", "configurations"], "every argument, compatible unit and wrong dimension", "Tests use one unit per argument, almost always the SI unit in which the code stores it.",
     ["metric/base_metric.py", "metric/kerrnewman.py", "coordinates/core.py", "coordinates/differential.py"], [("unit decorators and conversions", "metric/base_metric.py")], ["constructors", "metric_covariant()", "to_*()"], NUMT, NUMN)
prop("C22", "A metric answers only in its own coordinate system",
     "Every question to a Schwarzschild object built with coordinates other than spherical, or to a Kerr or Kerr-Newman object built with coordinates other than Boyer-Lindquist, raises CoordinateError and never a number, whatever was asked before; in its own system it always answers. The same holds for computing a 4-velocity with mismatched systems.",
     ["configurations", "histories"], "every metric, coordinate system and sequence of questions", "Tests construct one or two mismatched metrics and ask one question.",
     ["metric/base_metric.py", "metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py", "coordinates/differential.py"], [("coordinate checks", "metric/")], ["all metric methods"], NUMT, NUMN)
prop("C23", "User-defined metrics and perturbations are used consistently",
     "For every user-supplied metric function and perturbation the object reports metric plus perturbation as covariant metric and the inverse of that sum as contravariant metric, at every point and after every history of calls, without changing what the user function returned.",
     ["inputs", "histories"], "every user metric, perturbation, point and sequence of calls", "Tests build one user metric without perturbation.",
     ["metric/base_metric.py"], [("BaseMetric", "metric/base_metric.py")], ["BaseMetric.metric_covariant()", "metric_contravariant()"], NUMT, NUMN)
# ---------------------------------------------------------------- coordinates
prop("C24", "Position conversions keep the point, along every chain",
     "Converting a position between Cartesian, spherical and Boyer-Lindquist coordinates, in any chain, keeps the point of space and the time; angles come out in their canonical range, and returning to the starting system returns the starting point. This includes points in every octant, on the axes and with zero spin parameter.",
     ["inputs", "histories"], "every point (octants, axes, shells), spin parameter and chain of conversions", "Tests convert one or two generic points back and forth.",
     ["coordinates/core.py", "coordinates/utils.py", "coordinates/conversion.py"], [("*_fast conversions", "coordinates/utils.py")], ["to_cartesian()", "to_spherical()", "to_bl()"], NUMT, NUMN)
prop("C25", "Velocity conversions keep the tangent vector, along every chain",
     "Converting a position with velocity between the three systems, in any chain, keeps the point and the Cartesian velocity vector (off the axis), including points in every octant and on coordinate planes and velocities with any components zero.",
     ["inputs", "histories"], "every position off the axis, velocity, spin parameter and chain of conversions", "Tests convert one or two generic vectors.",
     ["coordinates/differential.py", "coordinates/utils.py", "coordinates/conversion.py"], [("*_fast conversions", "coordinates/utils.py")], ["cartesian_differential()", "spherical_differential()", "bl_differential()"], NUMT, NUMN)
prop("C26", "4-velocities are normalised with the metric at hand",
     "The 4-velocity computed from a position, a coordinate velocity and a metric has norm c^2 in that metric, keeps the given spatial components and is future-directed, for every metric (including user metrics with any off-diagonal terms). It is computed with the metric given in that call, whatever metrics the same coordinate object was used with before. The Lorentz factor of a velocity is 1/sqrt(1 - v^2/c^2).",
     ["inputs", "histories"], "every metric, position, velocity and history of metrics on one object", "Tests compare one value with a copy of the formula.",
     ["coordinates/differential.py", "coordinates/utils.py"], [("velocity, v_t", "coordinates/differential.py"), ("v0", "coordinates/utils.py")], ["velocity()", "v_t"], NUMT, NUMN)
prop("C27", "Access to coordinates and bodies returns what was stored",
     "Positions, velocities, subscripts by name and by index, and 4-position arrays return the stored quantities in SI units and in the documented order for every coordinate class; invalid subscripts raise the documented error. A body keeps exactly the attributes it was built with, and the predefined bodies carry their documented mass, radius and parent.",
     ["inputs", "configurations"], "every coordinate class, value pattern, unit, subscript and combination of body arguments", "Tests read one or two attributes of one object.",
     ["coordinates/core.py", "coordinates/differential.py", "bodies.py"], [("__getitem__, position", "coordinates/core.py"), ("Body", "bodies.py")], ["position()", "obj[...]", "Body"], NUMT, NUMN)
# ---------------------------------------------------------------- geodesics
prop("C28", "Initial 4-momenta are on shell and future-directed",
     "The 4-momentum built from a 3-momentum has norm -1 for time-like and 0 for light-like motion in the contravariant metric given, keeps the three spatial components and is future-directed (contravariant time component positive), for every metric (named or user-supplied, any off-diagonal terms), position outside the horizon and 3-momentum. Geodesics start from exactly this momentum.",
     ["inputs"], "every metric, parameter, position, 3-momentum and kind of geodesic", "Tests compare one or two momenta with the same formula.",
     ["geodesic/utils.py", "geodesic/geodesic.py"], [("_P", "geodesic/utils.py")], ["Geodesic(...).momentum"], NUMT, NUMN)
prop("C29", "Automatic differentiation gives exact derivatives of every expression",
     "Dual numbers through every combination of the supported operators and functions, with plain numbers on either side, carry the value and the exact derivative of the expression; metric derivatives and Jacobians computed with them equal the analytic ones for every component, parameter and position. Differentiation with an invalid index or coordinate is refused with ValueError.",
     ["programs", "inputs"], "every expression tree over the supported operations, every metric component and coordinate", "Tests evaluate each operator once or twice at one value.",
     ["utils/dual.py", "integrators/utils.py"], [("DualNumber", "utils/dual.py"), ("_deriv, _diff_g, _jacobian_g", "utils/dual.py")], ["DualNumber", "_deriv()", "_diff_g()", "_jacobian_g()"], NUMT, NUMN)
prop("C30", "Geodesic integrators solve the geodesic equation at their nominal order",
     "For every metric, the integrators of order 2, 4, 6 and 8 converge to the solution of Hamilton's equations for geodesics, with error falling at the nominal power of the step size; other orders are refused with NotImplementedError. The step is driven only by the metric, its parameters, the step size and the coupling given.",
     ["inputs"], "every metric, initial condition, order and step size in the asymptotic range", "Tests run one orbit per order and compare the end with stored digits or the conserved energy loosely.",
     ["integrators/fantasy.py", "integrators/utils.py"], [("_ord_2 .. _ord_8", "integrators/fantasy.py"), ("_flow_A, _flow_B, _flow_mixed, _Z", "integrators/utils.py")], ["GeodesicIntegrator.step()", "Geodesic(...).trajectory"], NUMT, NUMN)
prop("C31", "Every integrator step is symplectic, reversible and keeps the symmetries",
     "Each step of every order is a symplectic map of the doubled phase space, a step with the opposite sign of the step size undoes it, and momenta conjugate to coordinates absent from the metric are kept exactly in the mean of the two copies, for every metric, step size and coupling.",
     ["inputs", "histories"], "every metric, state, order, step size and coupling; sequences of steps", "Tests look at one orbit's energy with a loose tolerance.",
     ["integrators/fantasy.py", "integrators/utils.py"], [("_flow_A, _flow_B, _flow_mixed", "integrators/utils.py")], ["GeodesicIntegrator.step()"], NUMT, NUMN)
prop("C32", "Geodesic objects report the trajectory they were asked for",
     "A geodesic's trajectory has one row per requested step, counted from 0, and its rows do not depend on how many steps were requested after them or on other geodesics; recomputing gives the same result. Cartesian output is the spherical output with positions converted and time and momenta unchanged; named metrics equal the same metric passed as a function, unknown names are refused with NotImplementedError, and all keyword options take their documented defaults.",
     ["inputs", "histories", "configurations"], "every option combination, number of steps and order of creation and recomputation", "Tests build a few geodesics and compare with stored digits.",
     ["geodesic/geodesic.py", "integrators/fantasy.py"], [("calculate_trajectory", "geodesic/geodesic.py")], ["Geodesic(...).trajectory", "calculate_trajectory()"], NUMT, NUMN)
prop("C33", "Tolerance warnings are raised exactly when the norm has drifted",
     "During a geodesic computation a RuntimeWarning naming the step is issued for a step exactly when the norm of the momentum there differs from -1 (time-like) or 0 (light-like) by more than the tolerances given, and never when warnings are suppressed. The trajectory is the same either way.",
     ["inputs", "configurations"], "every metric, tolerance, step size, kind of geodesic and step", "Tests provoke one warning.",
     ["integrators/fantasy.py", "geodesic/geodesic.py"], [("step (stability check)", "integrators/fantasy.py")], ["warnings", "trajectory"], NUMT, NUMN)
prop("C34", "Built-in contravariant metrics for geodesics are the exact solutions",
     "The contravariant Schwarzschild, Kerr and Kerr-Newman metrics used for geodesics (geometrised units, signature -+++) are the inverses of the exact line elements for every spin, charge and position outside the singularities; zero charge and zero spin give the simpler solution.",
     ["inputs"], "every spin, charge and position", "Tests compare at one or two points with formulas copied from the code.",
     ["geodesic/utils.py"], [("_sch, _kerr, _kerrnewman", "geodesic/utils.py")], ["Geodesic(...)"], NUMT, NUMN)
prop("C35", "ODE steppers integrate towards the bound and stop there",
     "Both Runge-Kutta steppers integrate any right-hand side from the start towards the bound in either direction, with errors of their nominal order (exactly for low-degree polynomials), report each point with its state, never go past the bound, and warn (RuntimeWarning) instead of stepping once it is reached. Objects do not share state.",
     ["inputs", "histories"], "every right-hand side, direction, step size, bound and number of calls", "Tests integrate one exponential forwards.",
     ["integrators/runge_kutta.py"], [("RK4naive.step, RK45.step", "integrators/runge_kutta.py")], ["step()", "t", "y"], NUMT, NUMN)
# ---------------------------------------------------------------- plotting, rest
prop("C36", "Plotters draw exactly the trajectories they were given",
     "After every sequence of plot, plot2D, parametric_plot, animate and clear calls, the figure of the interactive plotter contains the geodesic's data in the requested coordinates, with its label and colour, for exactly the calls since the last clear; that of the static plotter for exactly the last call. The frames of an animation show the trajectory point by point up to the last one. Invalid coordinates (IndexError) and aspects (ValueError) are refused and draw nothing, other plotters' figures and the geodesic are never modified, and show and save act on the plotter's own figure.",
     ["histories", "configurations"], "every sequence of calls, coordinate pair and option", "Tests call each method once and check that something was drawn, often with mocks.",
     ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py", "plotting/geodesic/core.py"], [("plot, plot2D, parametric_plot, animate, clear", "plotting/geodesic/")], ["figure contents"], NUMT, NUMN)
prop("C37", "Drawn horizons and ergospheres have the geometry of the black hole",
     "Along with a geodesic the plotters draw the event horizon, a closed surface or outline of radius 1+sqrt(1-a^2), and, unless draw_ergosphere is off, the ergosphere 1+sqrt(1-a^2 cos^2 theta) around the axis, for the spin of that geodesic, in two and three dimensions and in the given colours; parametric plots draw none.",
     ["inputs", "configurations"], "every spin, dimension and combination of options", "Tests check only that drawing does not fail.",
     ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py"], [("_draw_bh", "plotting/geodesic/")], ["figure contents"], NUMT, NUMN)
prop("C38", "Schwarzschild embedding curves and surfaces",
     "The embedding's radial coordinate is r/sqrt(1-2M/r), its slope is that of the surface with the spatial optical geometry of the black hole, the tabulated curve adds up slope times step from the throat at 3M in both directions; curve and surface cover the documented radial range with the documented step, and the surface is the curve rotated about the axis. Everything is independent of the unit of the mass and of earlier calls.",
     ["inputs", "histories"], "every mass, unit, radius and step parameter", "Tests compare one curve with a stored list.",
     ["hypersurface/schwarzschildembedding.py", "plotting/hypersurface/core.py"], [("gradient, radial_coord, get_values, get_values_surface", "hypersurface/schwarzschildembedding.py")], ["get_values()", "get_values_surface()"], NUMT, NUMN)
prop("C39", "Black-hole shadow: impact parameters, turning points and intensities",
     "For every mass, field of view and number of rays the shadow uses all n_rays equally spaced impact parameters from the critical value 3 sqrt(3) M to the field of view (the critical one itself has no turning point), each turning point solves the light-ray equation, intensities are the documented integrals, and the image is symmetric about the centre. Smoothing interpolates the same curve and units of the arguments do not matter.",
     ["inputs", "configurations"], "every mass, field of view, number of rays and unit", "Tests compare a handful of stored numbers for one configuration.",
     ["rays/shadow.py", "plotting/rays/shadow.py"], [("Shadow", "rays/shadow.py")], ["Shadow.b, z, intensity, fb1, fb2"], NUMT, NUMN)
prop("C40", "Scale factor of the universe and its derivative",
     "The scale factor grows as t^(2/3), t^(1/2) and exp(t sqrt(Lambda/3)) in the matter, radiation and dark-energy eras, scaled by the tuning parameter, and the reported derivative is its time derivative, for every time and unit of time. Unknown eras and non-time arguments are refused.",
     ["inputs"], "every time, unit, era and tuning parameter", "Tests check one time per era.",
     ["utils/scalar_factor.py", "constant.py"], [("scalar_factor, scalar_factor_derivative", "utils/scalar_factor.py")], ["scalar_factor()", "scalar_factor_derivative()"], NUMT, NUMN)
prop("C41", "Results do not depend on whether code is compiled",
     "All numerical results are the same whether the just-in-time compiler is present, disabled or not installed at all; without it the package still imports and only warns.",
     ["configurations"], "every compiled function, with the compiler present, disabled and absent", "Tests run in one environment.",
     ["ijit.py", "coordinates/utils.py", "plotting/fractal.py"], [("jit / ijit", "ijit.py")], ["coordinate conversions", "fractal"], NUMT, NUMN)
prop("C42", "Fractal image and slider",
     "Every pixel of the fractal image is (iterations to escape / maximum)^0.2 of the Julia set with constant 0.8 exp(i angle) at the pixel's point, for every size, range and iteration bound; the figure has one image per division at equally spaced angles and slider position i shows exactly image i.",
     ["inputs"], "every image size, range, angle, bound and number of divisions", "Tests check one figure's number of traces.",
     ["plotting/fractal.py"], [("_julia, _fractal_img, fractal", "plotting/fractal.py")], ["figure"], NUMT, NUMN)
prop("C43", "Constants, array helpers, transformation matrices and unit stripping",
     "Symbolic constants keep their symbol, description and identity through every sequence of creating, looking up, copying and pickling constants. Simplifying an array or converting it to numpy keeps its shape and the value of every entry, for every shape. A transformation matrix built from the old coordinates as functions of the new ones has their derivatives as inverse and keeps what it was built from. primitive() returns SI values of any quantity and passes everything else on.",
     ["inputs", "histories"], "every shape and expression, every coordinate change, every sequence of constants", "Tests check one array, one change of coordinates and one constant.",
     ["symbolic/constants.py", "symbolic/helpers.py", "units.py", "utils/exceptions.py"], [("SymbolicConstant, get_constant", "symbolic/constants.py"), ("simplify_sympy_array, sympy_to_np_array, TransformationMatrix", "symbolic/helpers.py"), ("primitive", "units.py")], ["returned objects"], NUMT, NUMN)
prop("C44", "Separate computations do not interfere",
     "Computations on separate objects, and queries of one metric object, are independent: for every way in which two threads can take turns, and when a function the user supplied (a metric, a perturbation, a right hand side) itself calls the package while the package is calling it, each computation gives exactly what it gives alone. This holds for metrics, coordinate conversions, steppers, geodesics, embeddings, bodies and symbolic tensors.",
     ["schedules", "histories"], "every interleaving of two computations, every nesting of calls", "Tests run one computation at a time, so scratch storage or settings shared between calls are never seen half used.",
     ["metric/base_metric.py", "metric/kerrnewman.py", "coordinates/conversion.py", "coordinates/differential.py", "integrators/fantasy.py", "integrators/runge_kutta.py", "symbolic/tensor.py", "symbolic/helpers.py"],
     [("metric_covariant, metric_contravariant, christoffels, f_vec", "metric/base_metric.py"), ("convert_*", "coordinates/conversion.py"), ("step", "integrators/fantasy.py"), ("_change_config, tensor_product", "symbolic/tensor.py")], ["returned values"], NUMT, NUMN)
prop("C45", "Copies go on like the original",
     "An object that is copied, deep-copied or pickled at any point of its history keeps its class, answers every question and goes on (stepping, changing indices, converting, computing a 4-velocity, smoothing) exactly like the original. Copying never changes the original, and what is done to a deep copy or an unpickled object never shows in the original, nor the other way round. This holds for tensors and symbolic constants, transformation matrices, numerical metrics, coordinates, ODE steppers and geodesic integrators, geodesics, bodies, dual numbers, shadows and embeddings (pickling: as far as the functions the user handed over can be pickled).",
     ["inputs", "histories"], "every kind of object, every way and chain of copying, at every point of a history", "Tests never copy or pickle an object; sending work to other processes and branching off a computation both do.",
     ["symbolic/tensor.py", "symbolic/metric.py", "symbolic/constants.py", "symbolic/helpers.py", "metric/base_metric.py", "coordinates/core.py", "coordinates/differential.py", "integrators/fantasy.py", "integrators/runge_kutta.py", "geodesic/geodesic.py", "rays/shadow.py"],
     [("Tensor, BaseRelativityTensor", "symbolic/tensor.py"), ("TransformationMatrix", "symbolic/helpers.py"), ("BaseMetric.__init__", "metric/base_metric.py"), ("GeodesicIntegrator", "integrators/fantasy.py"), ("RK4naive, RK45", "integrators/runge_kutta.py")], ["returned values"], NUMT, NUMN)
prop("C99", "Geodesic integration is accurate for all times",
     "The numerical trajectory stays within the requested tolerances of the exact geodesic for arbitrarily long integrations.",
     ["inputs"], "every metric, initial condition and unbounded number of steps", "A finite run cannot settle an unbounded time horizon.",
     ["integrators/fantasy.py"], [("step", "integrators/fantasy.py")], ["trajectory"], NUMT, NUMN,
     na="A claim about real-valued trajectories over unbounded time: there is no finite set of executions or model states to enumerate (the state space is a continuum without finite abstraction that preserves accuracy), and the code does not even promise it (fixed step). The bounded, checkable parts are C30 (order), C31 (structure), C33 (warnings).")
