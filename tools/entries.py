"""Text of the properties (see catalog.py)."""
S, F = "solver_classes/", "solver_functions/"
L = "loading_and_saving/"
NOTES = ("Every check searches generated inputs with Hypothesis against an "
         "independent oracle, on the code imported from /repo at run time; a "
         "failure is shrunk, confirmed with the compiled code and written as "
         "a replay file: python check.py ID --replay FILE [--jit].")
NOT_APPLICABLE = {}
ENTRIES = []


def add(**k):
    ENTRIES.append(k)


SAMPLED = ("Exploration: held on every generated case counted in the evidence "
           "file; no claim beyond them. ")

add(id="P01", title="Quadrature rules are exact to their degree",
    statement="Every quadrature rule the code offers, at every size a run can "
    "ask for, has distinct nodes in [-1, 1] symmetric about zero, positive "
    "weights, and integrates polynomials exactly up to the degree of its kind "
    "(2n-1 for Gauss-Legendre and, with its weight function, Chebyshev; 2n-3 "
    "for Gauss-Lobatto, which includes both end points). Integrals over other "
    "intervals are the mapped rule. The output points of a mesh are the nodes "
    "of M points (at least one) mapped into each cell, in increasing order.",
    over=["inputs", "configurations"],
    text="All rules, sizes 2 to 520, all polynomials up to the exact degree, "
    "all intervals and meshes.",
    why="The existing tests never call the quadrature generator; angular and "
    "spatial orders are configuration values, each with its own nodes.",
    files=[S + "functions.py"],
    mech=[("Newton iteration on Legendre polynomials", S + "functions.py"),
          ("output point placement", S + "functions.py")],
    tech="property-based testing: polynomial exactness of generated rules",
    design="Generate the rule, its size and a sparse orthogonal series whose "
    "last term has the highest degree the rule must integrate; the oracle is "
    "the first coefficient. Nodes are checked for order, symmetry and range. "
    "Mapped integrals are compared with antiderivatives of random polynomials, "
    "output points with numpy's nodes.",
    note=SAMPLED + "numpy's Legendre and Chebyshev series are trusted.")

add(id="P02", title="Spatial basis functions are what the expansion assumes",
    statement="On every cell, at every order, the slab basis is the "
    "orthonormal Legendre basis and the sphere basis the Chebyshev basis "
    "orthonormal in the inverse-root weight; derivatives are derivatives with "
    "respect to position. Vector and scalar versions agree. The small helpers "
    "used everywhere (unit step that is one at zero, Kronecker delta, shape "
    "of the state vector) do what they say.",
    over=["inputs"],
    text="All orders the code supports, all cells of positive width, all "
    "points in them.",
    why="Tests evaluate no basis function; an error in one order is invisible "
    "in runs of lower order.",
    files=[S + "functions.py"],
    mech=[("orthonormal Legendre and Chebyshev evaluation", S + "functions.py")],
    tech="property-based testing: differential against a reference basis, "
    "orthonormality by exact quadrature",
    design="Generate order, cell and points; compare with series evaluated by "
    "numpy from the definition; check inner products of all pairs.",
    note=SAMPLED + "Orders up to 12 (Legendre 30).")

add(id="P03", title="Reported solution is the expansion of the state",
    statement="The angular flux, scalar flux and exit distributions handed to "
    "the user are, at every output point, the value of the polynomial "
    "expansion of the cell that contains the point (zero outside the mesh), "
    "summed over directions with the angular weights. With the uncollided "
    "flux split off, the uncollided part is added, inside and at both ends. "
    "The reported energy density and its slope are those of the material "
    "expansion.",
    over=["inputs", "configurations"],
    text="All solution states, meshes, output points (inside, on edges, "
    "outside), both geometries, split on and off.",
    why="Tests never build an output object; cell location and the edge "
    "convention need many point/mesh combinations.",
    files=[S + "make_phi.py"],
    mech=[("cell search and basis sum", S + "make_phi.py"),
          ("exit distributions", S + "make_phi.py")],
    tech="property-based testing: differential against a direct expansion",
    design="Generate meshes, states and points; the oracle expands the "
    "reference basis.",
    note=SAMPLED + "On an interior edge the value is that of the cell to the "
    "left.")

add(id="P04", title="The mesh is valid and placed where the problem needs it",
    statement="For every problem and every time of a run the mesh has N+1 "
    "finite, strictly increasing edges, symmetric about the source in the slab "
    "and starting at the centre in the sphere. Its outer edges sit where the "
    "fastest particles are (source half-width plus edge speed times time; the "
    "square-root law, the tabulated thermal wave with its two pads, or the "
    "slab walls where the problem prescribes those), an edge stays at the rim "
    "of a square source or pulse, and the middle edge follows the travelling "
    "shock. A static mesh has no velocity and equals the moving mesh at the "
    "final time.",
    over=["inputs", "histories", "configurations"],
    text="All source types, thick and thin, cell counts the mesh supports, "
    "widths, speeds, final times, and histories of times.",
    why="Tests never move a mesh; each problem has its own branch and a "
    "tangled mesh appears only for some sizes and times.",
    files=[S + "mesh.py"],
    mech=[("per-problem mesh initialisation", S + "mesh.py"),
          ("per-problem edge motion", S + "mesh.py")],
    tech="property-based testing: validity predicate and placement oracle over "
    "generated meshes and time histories",
    design="Twenty mesh kinds (see pbt/meshes.py) with generated sizes, speeds "
    "and times; a predicate checks ordering, symmetry, reach, rims and walls; "
    "a metamorphic relation compares static with final moving mesh.",
    note=SAMPLED + "Square meshes in multiples of four cells, wave-tracking "
    "ones in multiples of sixteen; finite domains wide enough not to be "
    "reached (known finding); the shock stays inside the slab.")

add(id="P05", title="Mesh position depends on time only; velocity is its rate",
    statement="The position and velocity of every mesh edge at a time do not "
    "depend on which times were asked before, in whatever order, so rejected "
    "steps of the integrator leave no trace. The velocity of an edge is the "
    "time derivative of its position.",
    over=["histories", "configurations"],
    text="All sequences of times (forwards, backwards, repeated) on all "
    "meshes.",
    why="An adaptive integrator calls out of order; tests do not run one.",
    files=[S + "mesh.py"],
    mech=[("edge motion from the initial edges", S + "mesh.py")],
    tech="history-based property testing: out-of-order calls against a fresh "
    "mesh, finite differences for velocities",
    design="Generate a history of times; compare each state with a freshly "
    "built mesh moved once, and the velocity with a central difference.",
    note=SAMPLED + "Velocities are not compared within 1e-4 of a time at which "
    "they jump; finite domains as in P04.")

add(id="P06", title="Slab matrices discretise the moving-cell equation",
    statement="On every cell and for every pair of edge velocities, the slab "
    "streaming matrix is the integral of basis derivative times basis, and the "
    "mesh-motion matrix the integral of the time derivative of the basis times "
    "basis. Hence both satisfy integration by parts and the transport theorem, "
    "and a rigidly moving cell only advects.",
    over=["inputs"],
    text="All orders, cells and edge velocities.",
    why="Tests contain no matrix; a wrong entry only shows at its own order.",
    files=[S + "matrices.py"],
    mech=[("slab L and G", S + "matrices.py")],
    tech="property-based testing: differential against quadrature plus "
    "algebraic identities",
    design="Generate M, cells and speeds; compare all entries with exact "
    "quadrature of the reference basis and check the identities.",
    note=SAMPLED + "M up to 11.")

add(id="P07", title="Sphere matrices discretise the moving-shell equation",
    statement="On every shell and for every pair of edge velocities, the "
    "sphere mass, angular, streaming and mesh-motion matrices and the rate of "
    "change of the mass matrix are the integrals, with the weights r^2 (r for "
    "the angular one), that define them. Hence the mass matrix is symmetric "
    "positive definite and integration by parts and the transport theorem hold.",
    over=["inputs"],
    text="All orders up to ten, shells including the centre, edge velocities; "
    "every tabulated entry.",
    why="Hundreds of machine-generated closed forms, one per entry; tests "
    "evaluate none.",
    files=[S + "matrices.py", S + "GMAT_sphere.py", S + "functions.py",
           F + "Chebyshev_matrix_reader.py"],
    mech=[("closed forms per entry", S + "GMAT_sphere.py"),
          ("assembly from coefficient tables", S + "matrices.py")],
    tech="property-based testing: entry-wise differential against quadrature "
    "plus algebraic identities",
    design="Generate M, shells and speeds; compare entry by entry with "
    "quadrature (exact for polynomials) and check the identities and a finite "
    "difference of the mass matrix.",
    note=SAMPLED + "The coefficient tables are not in the repository: the "
    "checks supply tables computed from the definitions. Shells are not much "
    "thinner than their radius.")

add(id="P08", title="Numerical flux is upwind in the frame of each edge",
    statement="The flux through a cell edge carries the value from the side "
    "the particles come from relative to the moving edge, times the relative "
    "speed (times r^2 in the sphere), so what leaves one cell enters its "
    "neighbour exactly. Outside the mesh the incoming flux is zero, the active "
    "boundary source on the sides where it is on, the reflected direction at "
    "the centre of the sphere, or the known manufactured solution.",
    over=["inputs", "configurations"],
    text="All states, meshes, edge velocities, directions, boundary kinds and "
    "times.",
    why="Tests compute no flux; upwinding depends on the sign of a difference "
    "of generated values on each edge.",
    files=[S + "numerical_flux.py"],
    mech=[("edge traces and upwinding", S + "numerical_flux.py")],
    tech="property-based testing: differential upwind oracle and telescoping "
    "sum over generated meshes",
    design="Generate meshes, velocities, states and directions; compare every "
    "moment with a direct upwind evaluation and sum over all cells.",
    note=SAMPLED + "The instant at which a boundary source switches off is "
    "not compared; two or more cells.")

add(id="P09", title="Slab right-hand side is the moving-mesh transport equation",
    statement="At every time of any history, for every slab problem, the rate "
    "of change given to the integrator is mesh motion plus streaming minus "
    "edge fluxes minus absorption plus isotropic scattering plus half the "
    "source, direction by direction and cell by cell; split-off particles "
    "scatter with the opacity of the cell; the state passed in is kept. Consequently the number of particles changes by source "
    "minus absorption plus what crosses the two moving ends, mirrored states "
    "evolve as mirror images, and solutions superpose and scale with the "
    "sources.",
    over=["inputs", "histories", "configurations"],
    text="All slab problems, meshes, orders, opacities, states and call "
    "histories.",
    why="Tests never assemble the right-hand side; terms interact across "
    "cells, directions and calls.",
    files=[S + "rhs_class_1.py", S + "matrices.py", S + "numerical_flux.py",
           S + "opacity.py", S + "phi_class.py", S + "sources.py",
           S + "mesh.py"],
    mech=[("assembly of the slab right-hand side", S + "rhs_class_1.py")],
    tech="model-based property testing: independent assembly of the equation, "
    "conservation, symmetry and linearity",
    design="One right-hand-side object per case is called at out-of-order "
    "times and compared with an assembly from the reference matrices, the "
    "upwind oracle, projected opacities and fresh source and mesh objects; "
    "three metamorphic checks follow from the equation.",
    note=SAMPLED + "Radiation without material coupling (the only form the "
    "right-hand side in use implements).")

add(id="P10", title="Sphere right-hand side is the spherical transport equation",
    statement="At every time of any history, for every spherical problem, the "
    "rate of change given to the integrator is the r^2-weighted moment "
    "equation solved with the mass matrix: streaming, mesh motion, edge "
    "fluxes, the angular derivative, absorption, isotropic scattering and half "
    "the source times the scattering ratio, reflecting at the centre. A cell "
    "is driven by itself and its neighbours in space and direction only, and "
    "solutions superpose.",
    over=["inputs", "histories", "configurations"],
    text="Point and shell problems, meshes, orders, angular sets, states and "
    "call histories.",
    why="Tests never assemble the right-hand side.",
    files=[S + "rhs_class_1.py", S + "matrices.py", S + "GMAT_sphere.py",
           S + "numerical_flux.py", S + "functions.py"],
    mech=[("assembly of the sphere right-hand side", S + "rhs_class_1.py")],
    tech="model-based property testing: independent assembly of the equation, "
    "locality and linearity",
    design="As P09, with matrices by quadrature, a mass solve and an "
    "independent angular difference.",
    note=SAMPLED + "Unit total cross section; shells not much thinner than "
    "their radius; matrix tables computed from the definitions.")

add(id="P12", title="Initial condition is the projection of the initial pulse",
    statement="For every problem the solver starts from the projection of the "
    "initial angular flux of that problem onto the basis of every cell of the "
    "initial mesh, in every direction: the plane, square, Gaussian, one-sided, "
    "manufactured and self-similar pulses and the spherical ball, scaled with "
    "the source strength where the pulse has one. It is zero where the "
    "uncollided flux is split off or the problem has only a source, and a "
    "coupled material starts from its uniform energy density.",
    over=["inputs", "configurations"],
    text="All problems, widths, strengths, meshes, orders and directions.",
    why="Tests never build an initial condition.",
    files=[S + "build_problem.py"],
    mech=[("initial condition by problem", S + "build_problem.py")],
    tech="property-based testing: differential against exact projections and "
    "particle count",
    design="Generate the problem; compare every coefficient with piecewise "
    "Gauss integration of the pulse, and the total with its strength.",
    note=SAMPLED + "Cells cut by the rim of a discontinuous pulse are compared "
    "loosely; a static plane pulse has an even number (four or more) of cells.")

add(id="P13", title="Source terms are projections of the source of the problem",
    statement="What the source contributes to a cell at a time is the "
    "projection, with the basis and weight of the geometry, of the prescribed "
    "source (square or Gaussian, on until its end time, times its strength) "
    "or, with the uncollided flux split off, of the uncollided scalar flux "
    "times the scattering cross section. The manufactured source makes "
    "exp(-x^2/2)/(2(1+t)) an exact solution. Each answer depends only on the "
    "cell and time asked, not on earlier calls.",
    over=["inputs", "histories", "configurations"],
    text="All sources, cells, times, strengths, orders, and call histories.",
    why="Tests build no source; on/off times, stale moments and repeated "
    "scaling need call sequences.",
    files=[S + "sources.py", S + "uncollided_solutions.py"],
    mech=[("source projection", S + "sources.py")],
    tech="history-based property testing: differential against exact "
    "projections",
    design="One source object answers a generated sequence of (cell, time) "
    "requests; each is compared with piecewise quadrature of the source.",
    note=SAMPLED + "Cells straddling a rim or a wave front, and the instant of "
    "switching off, are not compared; total cross section one.")

add(id="P14", title="Slab uncollided flux solves the streaming equation",
    statement="At every point and time the uncollided scalar flux of the "
    "plane, square and Gaussian pulses and of the square and Gaussian sources "
    "is the integral over directions and emission times of the attenuated "
    "source along straight flights, zero beyond the wave front. It is even in "
    "position, never negative, and proportional to the source strength.",
    over=["inputs"],
    text="All points, times before and after the source ends, widths and "
    "strengths.",
    why="Two tests sample the square source only through a Simpson sum at a "
    "few points; each wave-front regime is a separate formula.",
    files=[S + "uncollided_solutions.py", S + "functions.py"],
    mech=[("closed forms by regime", S + "uncollided_solutions.py"),
          ("exponential integral", S + "functions.py")],
    tech="property-based testing: differential against the defining integral",
    design="Generate points spread over all regimes; integrate the attenuated "
    "flight by adaptive quadrature independent of the code.",
    note=SAMPLED + "Total cross section one; points within 1e-9 of a front are "
    "not compared; Gaussian sources to the accuracy of 60 time nodes.")

add(id="P15", title="Two-direction uncollided flux solves its equation",
    statement="For problems with two directions the uncollided flux of the "
    "square and Gaussian sources is the integral over emission times of the "
    "source carried along mu = 1/sqrt(3) and -1/sqrt(3) with attenuation, at "
    "every point and time, before and after the source ends. The reference "
    "formulas that accompany it agree.",
    over=["inputs"],
    text="All points, times, end times, widths and strengths.",
    why="One test compares a few points.",
    files=[S + "uncollided_solutions.py", S + "functions.py"],
    mech=[("S2 closed forms", S + "uncollided_solutions.py")],
    tech="property-based testing: differential against the defining integral",
    design="Exact one-dimensional integrals over emission time.",
    note=SAMPLED + "Gaussian widths up to 5 and |x| up to 12.")

add(id="P16", title="Uncollided flux of the ball pulse and the travelling shock",
    statement="The uncollided flux of a uniform spherical pulse is the "
    "attenuated flux of straight flights that started inside the ball, and its "
    "volume integral decays as exp(-t). The flux behind a boundary source in "
    "the shock problem is the sum over inward directions of the source "
    "attenuated through the opacity as it was when the particle passed, zero "
    "ahead of the beam front and after the tail of the source has passed.",
    over=["inputs"],
    text="All points, times, radii, shock speeds, source durations and angular "
    "sets.",
    why="Tests contain neither problem.",
    files=[S + "uncollided_solutions.py", S + "functions.py"],
    mech=[("ball pulse", S + "uncollided_solutions.py"),
          ("shock problem", S + "uncollided_solutions.py")],
    tech="property-based testing: differential against ray integrals, "
    "conservation",
    design="Ray tracing by quadrature through the ball and through the moving "
    "opacity.",
    note=SAMPLED + "Even numbers of directions, shock slower than the smallest "
    "direction cosine and inside the slab.")

add(id="P17", title="Opacity enters as its projection on the current mesh",
    statement="At every time of any history the stored opacity is the "
    "projection of the opacity profile of the problem (constant, Gaussian, "
    "exponential, travelling shock) at that time on that mesh. The absorption "
    "of an angular flux is the projection of the product of that opacity and "
    "the flux, times the total cross section, and is linear in the flux.",
    over=["inputs", "histories", "configurations"],
    text="All profiles, meshes, orders, histories of times and meshes, fluxes.",
    why="Tests build no opacity; the projection is cached between calls.",
    files=[S + "opacity.py"],
    mech=[("cached moments", S + "opacity.py"),
          ("triple-product tensor", S + "opacity.py")],
    tech="history-based property testing: differential against exact "
    "projections",
    design="Generate histories of (time, mesh); compare moments, tensor and "
    "action with quadrature.",
    note=SAMPLED + "Cells cut by the shock are not compared.")

add(id="P18", title="Scattering is isotropic and conserves particles",
    statement="The scattering term of a cell is the scattering cross section "
    "(resolved with the same opacity as absorption) times the angular average "
    "of the flux, the same for every direction. Without absorption it returns "
    "exactly what scattering removes, in every cell and mode.",
    over=["inputs", "configurations"],
    text="All fluxes, meshes, orders, angular sets and opacities.",
    why="Tests build no scattering term.",
    files=[S + "phi_class.py", S + "opacity.py", S + "build_problem.py"],
    mech=[("scattering term", S + "phi_class.py")],
    tech="property-based testing: differential and conservation",
    design="Compare with the projected product and with the angular sum of the "
    "absorption.",
    note=SAMPLED + "Sphere: constant opacity, the cross section applied "
    "outside the term.")

add(id="P19", title="Emission follows the temperature of the material",
    statement="The emission term of a cell is the projection on the basis of "
    "the fourth power of the scaled temperature: (a e / Cv)^4 of the energy "
    "density e for a constant heat capacity Cv, with a the radiation constant, "
    "and e itself (keeping its sign) for a heat capacity that goes with the "
    "cube of the temperature. Without a coupled material it is zero.",
    over=["inputs", "configurations"],
    text="All energy densities, cells, orders and heat capacities.",
    why="Tests build no emission term.",
    files=[S + "radiative_transfer.py"],
    mech=[("temperature and emission", S + "radiative_transfer.py")],
    tech="property-based testing: differential against exact projections",
    design="Generate energy expansions and cells; integrate the fourth power "
    "independently.",
    note=SAMPLED + "Spatial quadrature fine enough for the fourth power.")

add(id="P24", title="Angular derivative of the sphere is conservative",
    statement="The angular difference used in the sphere equals the exact "
    "difference of (1 - mu^2) psi between faces halfway between directions, so "
    "its sum over directions weighted with those intervals is zero. It "
    "converges to the derivative of (1 - mu^2) psi as directions are refined. "
    "The node-based difference is exact for parabolas inside and for lines at "
    "the ends.",
    over=["inputs"],
    text="All angular sets and angular fluxes.",
    why="Tests never take an angular derivative.",
    files=[S + "functions.py"],
    mech=[("uneven finite differences", S + "functions.py")],
    tech="property-based testing: differential, conservation and convergence",
    design="Generate uneven angular grids and fluxes.",
    note=SAMPLED)

add(id="P11", title="A run solves its own semi-discrete system",
    statement="solve() returns, for the problem it is given, the solution at "
    "the final time (or at each requested time) of the system made of its "
    "mesh, initial condition, source, opacity and right-hand side, to the "
    "tolerance asked for. The output points, edges, angles, weights and "
    "coefficients it returns belong together: the flux and energy it reports "
    "are the expansion, plus the uncollided flux if that was split off, "
    "evaluated at the points it reports.",
    over=["inputs", "configurations", "histories"],
    text="All mesh kinds, sources, opacities, angular sets, orders, output "
    "times, integrators.",
    why="The existing tests compare six fixed runs with stored numbers to a "
    "few per cent.",
    files=["solver.py", F + "main_functions.py", S + "make_phi.py"],
    mech=[("assembly of a run", F + "main_functions.py"),
          ("reported flux", S + "make_phi.py")],
    tech="property-based testing: differential against an independent "
    "integration of the same system",
    design="Generate a whole problem; call solve(); integrate the right-hand "
    "side judged by P03-P18 with another method and a tolerance 1000 times "
    "tighter from the independently built initial state, and evaluate it at "
    "the reported points.",
    note=SAMPLED + "Histories of a moving finite-domain mesh are excluded "
    "(known finding).")

add(id="P27", title="A run conserves particles and moves them at their speed",
    statement="Over a run, the number of particles changes by what sources "
    "emit, absorption removes and the boundaries let out, and by nothing "
    "else. On a mesh that outruns the particles the angle-resolved number and "
    "the spatial moments follow the exact solution of the moment equations. "
    "In the sphere the balance closes as the number of angles grows.",
    over=["inputs", "configurations"],
    text="All problems on moving and static meshes, all cross sections, "
    "scattering ratios, strengths, times.",
    why="Existing tests look at the flux at some points at one time for a "
    "purely scattering medium.",
    files=["solver.py", F + "main_functions.py", S + "rhs_class_1.py",
           S + "matrices.py", S + "numerical_flux.py", S + "sources.py"],
    mech=[("weak form on moving cells", S + "rhs_class_1.py"),
          ("upwind flux relative to the edge", S + "numerical_flux.py"),
          ("initial condition and source projection", F + "main_functions.py")],
    tech="property-based testing: conservation and moment invariants of "
    "generated runs",
    design="Generate problems, run solve(), compute number, first and second "
    "moments from the returned coefficients, compare with the matrix "
    "exponential of the exact moment equations; static meshes add the "
    "time-integrated exit flux.",
    note=SAMPLED + "Constant cross sections. Sphere: convergence only.")

add(id="P28", title="Runs respect mirror, strength and unit symmetries",
    statement="A run of a symmetric slab problem gives a flux that is even in "
    "space, with the angular flux mirrored in direction. Multiplying the "
    "source strength (or the initial pulse) multiplies the result. Measuring "
    "lengths, times and cross sections in another unit changes the result by "
    "exactly the unit.",
    over=["inputs", "configurations"],
    text="All symmetric slab problems, opacities, strengths and unit factors.",
    why="Metamorphic relations between runs: no stored number can express "
    "them.",
    files=["solver.py", S + "mesh.py", S + "rhs_class_1.py", S + "sources.py",
           S + "opacity.py"],
    mech=[("linear transport operator", S + "rhs_class_1.py"),
          ("mesh motion", S + "mesh.py")],
    tech="property-based testing: metamorphic relations between runs",
    design="Generate a problem and a factor; run it twice, once transformed; "
    "compare point by point.",
    note=SAMPLED + "Up to the tolerance of the time integrator.")

add(id="P29", title="Runs approximate the solution of the transport equation",
    statement="On a resolved problem, the scalar flux of a run agrees with "
    "the solution of the discrete-ordinates transport equation with the same "
    "angles: for pulses, extended initial conditions and sources in the slab, "
    "slabs driven from their ends, slabs with a travelling shock, "
    "shells in the sphere, and the manufactured problem. The uncollided "
    "formulas, added to the computed collided flux, give the same answer.",
    over=["inputs", "configurations"],
    text="All resolved problems of those kinds, all cross sections, "
    "scattering ratios, widths, times.",
    why="Six stored comparisons cover one medium (pure scattering, unit "
    "cross section) at one time.",
    files=["solver.py", F + "main_functions.py", S + "rhs_class_1.py",
           S + "uncollided_solutions.py", S + "sources.py", S + "mesh.py",
           S + "GMAT_sphere.py"],
    mech=[("discontinuous Galerkin scheme on a moving mesh",
           S + "rhs_class_1.py")],
    tech="property-based testing: differential against a Fourier reference "
    "solver",
    design="Generate a problem; sum Fourier modes, each advanced by the exact "
    "matrix exponential of the ordinates system; compare mean errors with a "
    "bound from the resolution.",
    note=SAMPLED + "Errors below a few parts in a thousand pass here; P03-P18 "
    "are exact.")

add(id="P20", title="Input files are read as they are written",
    statement="Every setting of the input file and of the mesh file reaches "
    "the solver with the value written, from the section of the chosen "
    "problem only. Reading twice or in another order changes nothing, the "
    "files stay as they were, and contradictory input (two geometries, two "
    "opacities, lists of different length) is refused. The transport input "
    "shipped with the code can be read.",
    over=["inputs", "configurations"],
    text="All complete inputs: every section, value, list length; sequences "
    "of loads.",
    why="Tests use the one shipped file; a swapped or ignored setting gives "
    "a plausible run of another problem.",
    files=[L + "load_parameters.py", F + "run_functions.py",
           "input_scripts/transport.yaml",
           "input_scripts/mesh_parameters.yaml"],
    mech=[("parameter_load_class", L + "load_parameters.py"),
          ("run.load", F + "run_functions.py")],
    tech="property-based testing: round trip through generated input files",
    design="Generate both files with distinct values in every entry and decoy "
    "values in the other sections; read them through the class and through "
    "the files; compare every attribute with the table of what it should be.",
    note=SAMPLED + "Complete inputs only.")

add(id="P21", title="Saved results come back as they were saved",
    statement="After any history of saves, overwrites and loads, loading "
    "under given parameters returns the arrays of the last save under those "
    "parameters and of no other run, in points, flux, energy, coefficients, "
    "weights, edges, angular flux and directions. Wave positions and error "
    "tables likewise. Asking for what was never saved is an error.",
    over=["histories", "inputs"],
    text="All histories of saves and loads over problems, sources, "
    "parameters, mesh kinds, array shapes.",
    why="Keys are strings glued from a dozen parameters and rebuilt on the "
    "other side; only histories with near-equal keys show a clash.",
    files=[L + "save_output.py", L + "load_solution.py"],
    mech=[("save_solution, save_wave_loc, save_RMS", L + "save_output.py"),
          ("call_sol, call_wavepoints", L + "load_solution.py")],
    tech="stateful property-based testing against a dictionary model",
    design="Generate histories of saves, overwrites with other shapes and "
    "loads with a few near-equal keys; the model is a dictionary from "
    "parameters to arrays. Files live in a scratch folder.",
    note=SAMPLED + "Flux is stored in single precision; stored angular flux "
    "is shared between problem types (known finding).")

add(id="P22", title="Benchmark values come from the right table",
    statement="For a source, a time and optionally a scattering ratio, the "
    "benchmark at every point inside the table is the interpolant of the "
    "table of that source and time, and zero beyond its end, for any number "
    "and order of points. A missing table is an error, never another table. "
    "The names of sources and of the tables of coupled problems are resolved "
    "consistently.",
    over=["inputs", "configurations"],
    text="All sources, times, tables, point sets (one-sided and mirrored).",
    why="Errors here show up as wrong error norms, which is all the existing "
    "tests look at.",
    files=[L + "load_bench.py", L + "load_bench_su_olson.py",
           F + "main_functions.py", "misc_functions.py"],
    mech=[("load_bench", L + "load_bench.py"),
          ("s2_source_type_selector", F + "main_functions.py")],
    tech="property-based testing: differential against a direct interpolation "
    "of generated tables",
    design="Generate several tables in a scratch file, the request and the "
    "points; interpolate the right table directly.",
    note=SAMPLED + "scipy's spline is trusted.")

add(id="P23", title="Cubic splines interpolate smoothly",
    statement="The cubic spline passes through its knots, has two continuous "
    "derivatives, no curvature at its ends and vanishes outside, for every "
    "set of increasing knots and any order of evaluation points. The "
    "elimination behind it solves every well conditioned system with pivoting "
    "and leaves its input alone.",
    over=["inputs"],
    text="All knot sets, data, systems, point orders.",
    why="The module tests itself on one function at import.",
    files=[S + "cubic_spline.py"],
    mech=[("cubic_spline", S + "cubic_spline.py")],
    tech="property-based testing: differential against a reference spline and "
    "solver",
    design="Generate knots, data and points; compare with the natural spline "
    "of scipy and with numpy's solver.",
    note=SAMPLED + "Knot gaps of comparable size.")

add(id="P25", title="Wave tables place mesh and front correctly",
    statement="Interpolation in a table of wave positions is piecewise "
    "linear inside the table for every query, including its last entry. A "
    "mesh that follows tabulated waves has its wave edges on the "
    "interpolated positions, and the front is located where the "
    "temperature falls most steeply.",
    over=["inputs", "histories"],
    text="All tables, query times, cell counts, slopes.",
    why="No test runs a wave-tracking problem.",
    files=[S + "mesh_functions.py", S + "mesh.py", F + "wave_loc_estimator.py"],
    mech=[("_interp1d", S + "mesh_functions.py"),
          ("thick wave mesh", S + "mesh.py")],
    tech="property-based testing: differential against a reference table",
    design="Generate tables and queries; compare with numpy interpolation. "
    "Generate wave tables and times; check the wave edges. Generate "
    "slopes and compare the front.",
    note=SAMPLED + "Tables that start at time zero.")

add(id="P26", title="The driver reports and saves the run it was asked for",
    statement="For every pair of input files, run() solves the described "
    "problem on every mesh of the list and reports the results of the last, "
    "whatever ran before in the session. What is saved for each mesh, each "
    "evaluation time and each of the four variants (split or not, moving or "
    "static) is the result of that run, and the listed errors are the root "
    "mean squares against the benchmark table of the problem.",
    over=["configurations", "histories"],
    text="All problems of the driver, lists of cells, orders and directions, "
    "sessions of several runs, saving, evaluation times, chosen points, "
    "benchmark comparison.",
    why="Tests call the driver for two problems with one list; a parameter "
    "passed in the wrong place gives a converged result of another problem.",
    files=["solver.py", F + "run_functions.py", F + "main_functions.py",
           L + "save_output.py", L + "load_solution.py", L + "load_bench.py"],
    mech=[("main_class.main", "solver.py"),
          ("run methods and get_results", F + "run_functions.py")],
    tech="stateful property-based testing: driver sessions against direct "
    "calls of the solver",
    design="Generate input files and sessions; run them through the files and "
    "run(); call solve() directly with the same parameters and compare "
    "results, saved files and errors. Benchmark tables are generated.",
    note=SAMPLED + "solve() itself is judged by P11.")

add(id="P30", title="Benchmark curves drawn by the driver are the exact ones",
    statement="The curves the driver draws next to a result are the exact "
    "solutions of the problem that was run: the flux behind and ahead of a "
    "travelling shock, the steady flux in a Gaussian opacity, the flux in a "
    "travelling Gaussian. They cover the slab of the run with its width, shock "
    "speed, source duration and directions. Tabulated exit distributions are "
    "drawn on the side they belong to and conserve particles.",
    over=["inputs", "configurations"],
    text="All widths, times, source durations, shock speeds, directions and "
    "rules.",
    why="Plots are compared by eye; a benchmark of another problem looks "
    "plausible.",
    files=[F + "run_functions.py"],
    mech=[("fake_sedov", F + "run_functions.py"),
          ("steady_state_gaussian_benchmark", F + "run_functions.py"),
          ("siewert_bench", F + "run_functions.py")],
    tech="property-based testing: differential against integration along rays",
    design="Generate problems; draw the benchmark without a screen, read the "
    "curve back and compare with an integration of the opacity along each "
    "ray, in the time the particle passes.",
    note=SAMPLED + "Boundary source of strength one, no scattering.")

add(id="P31", title="Refining the mesh converges at the order of the basis",
    statement="On smooth slab problems (Gaussian pulse or source, the "
    "manufactured problem) halving the cells of a run with polynomial order M "
    "divides its error by about 2 to the power M+1, on moving and on static "
    "meshes, with and without the split-off uncollided flux. The limit is the "
    "solution of the discrete-ordinates equation with the directions of the "
    "run.",
    over=["inputs", "configurations"],
    text="Smooth problems, orders 1 to 3, widths, times, scattering ratios, "
    "both rules.",
    why="A slightly inconsistent term passes any comparison with a loose "
    "bound; only refinement shows that the error stops falling.",
    files=["solver.py", S + "rhs_class_1.py", S + "matrices.py",
           S + "numerical_flux.py", S + "sources.py", S + "build_problem.py",
           S + "mesh.py"],
    mech=[("discontinuous Galerkin scheme on a moving mesh",
           S + "rhs_class_1.py"),
          ("main_class.main", "solver.py")],
    tech="property-based testing: observed order of convergence against an "
    "exact reference",
    design="Generate a smooth problem, solve it on n and 2n cells, measure the "
    "error at Gauss points against Fourier modes of the discrete-ordinates "
    "equation (driven by the exact uncollided flux when that is split off) or "
    "the manufactured solution; the order must exceed M + 1/2.",
    note=SAMPLED + "Smallest order seen on the tree: M + 0.74 on meshes "
    "that resolve the bell.")

add(id="P32", title="Plots show the numbers that were saved",
    statement="For every study saved before, under whatever history of other "
    "studies, the convergence plots load the table of exactly that source, "
    "time, order, mesh motion and treatment of the uncollided flux, draw its "
    "points (the material energy for energy plots) in the style of the method "
    "(solid for moving meshes, blue and filled with split-off flux) with the "
    "numbers of angles beside their points, and fit the prefactor or rate an "
    "exact law has; triangles have the slope written beside them. Coefficient "
    "plots show the mean size of the angle-averaged coefficients of the saved "
    "run. Benchmark plots draw the table of their source and time, mirrored "
    "about zero, scaled for scattering ratios other than one.",
    over=["histories", "inputs"],
    text="All sources, times, orders, histories of studies, runs and tables.",
    why="A figure of the wrong table looks as good as the right one.",
    files=["plots/make_plots.py", "plots/plot_functions/coeff_con.py",
           "plots/plot_functions/order_triangle.py",
           "plots/plot_functions/sn_labels.py", L + "save_output.py",
           L + "load_solution.py", L + "load_bench.py"],
    mech=[("rms_plotter", "plots/make_plots.py"),
          ("save_RMS, save_RMS_P1_su_olson", L + "save_output.py")],
    tech="stateful property-based testing: round trip from saver to figure, "
    "metamorphic fits",
    design="Generate histories of studies with near-equal keys, save them, "
    "load them into the plotter, draw without a screen and read lines, "
    "styles and labels back; exact power laws and exponentials for the fits; "
    "random saved runs and tables for coefficients and benchmarks.",
    note=SAMPLED + "Whole times as integers; zoom and cut points are free.")
