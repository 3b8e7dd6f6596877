LN = "Exhaustive over the declared finite space (see evidence: sections, declared = visited); every case runs the real code, built from /repo with AddressSanitizer and Kokkos bounds checking, and is compared with an independent reference model. Trusts the compiler, Kokkos Serial, Trilinos and the reference model; says nothing beyond the stated alphabets and sizes."
TODO = "check under construction"
WT = "Unit tests fix one or two hand-picked inputs; the guarantee is over every "

prop("P01", "Accepted expressions evaluate to their mathematical value",
     "Every well-formed arithmetic expression (numbers, PI, parameter-list variables, + - * / ^ ! , parentheses, |x|, sin cos tan exp log sqrt abs pow, whitespace) is accepted and evaluates to the value of standard mathematics: sums and products left-associative, powers right-associative, factorial binding tightest, any sub-expression allowed as a function argument or as an argument of pow(a,b), (a)(b) a product, x/0 defined as 0. The value depends only on the text and on the variables given at construction, and evaluating again gives the same value.",
     ["inputs", "programs"], "for every well-formed expression string and every assignment of its variables",
     WT + "expression; no stable test evaluates an expression at all.",
     ["src/ExpressionEvaluator.cpp", "src/ExpressionEvaluator.hpp"], ["parse_expression builds a precedence tree, evaluate_expression folds it"], "parse_expression / validate_expression / evaluate_expression", LN)
prop("P02", "Malformed expressions are rejected and never corrupt the evaluator",
     "Every string that is not a well-formed expression (unbalanced or empty brackets, missing operands, unknown names, malformed or over-long numbers and names, stray characters) is rejected with an error by parsing, validation or evaluation instead of yielding a number, whatever bytes it contains. No string makes the evaluator read or write outside its buffers or run forever, and after any history of accepted and rejected strings the same evaluator object behaves like a new one.",
     ["inputs", "histories"], "for every byte string, and for every sequence of parse / evaluate / delete calls on one object",
     "The space of malformed strings is unbounded and crashes depend on the exact end of the string; no stable test submits one.",
     ["src/ExpressionEvaluator.cpp", "src/ExpressionEvaluator.hpp"], ["error paths of parse_expression and validateNode; ownership of the tree"], "parse_expression / validate_expression / evaluate_expression", LN)
prop("P03", "User-defined material equations select exactly the requested equation",
     "A custom material coefficient is the value of the equation the user requested: the equation given inline, or else the n-th data line after the header of the given equation file, evaluated with the variables of the same parameter list. A request that cannot be met (no equation, no file, no header, no such line, no equation on the line, malformed equation, unknown variable) is an error, never another number.",
     ["inputs", "configurations"], "for every parameter list and every equation file content",
     WT + "combination of parameters and file layout; no stable test reads an equation file.",
     ["src/CustomMaterial.cpp", "src/CustomMaterial.hpp"], ["GetCustomExpressionValue, Bingo file scan"], "CustomMaterial::GetCustomExpressionValue", LN)
prop("P04", "Material inputs give the documented coefficient tensors",
     "Scalar, tensor and 4th-rank Voigt material coefficients read from a parameter list have exactly the documented values for every combination of given and omitted entries (defaults, symmetry, Lame form of the isotropic stiffness) and, for temperature-dependent materials, are the quadratic c0+c1*T+c2*T^2 of each coefficient at every temperature. Voigt entries address the tensor component they stand for. A missing required entry or unknown material is an error; each property is retrievable under its name only.",
     ["inputs", "configurations"], "for every subset of given entries, every value and every temperature, in 1, 2 and 3 dimensions",
     WT + "subset of optional entries; the five stable tests fix one list each.",
     ["src/MaterialModel.hpp", "src/MaterialModel.cpp", "src/Rank4Voigt.cpp", "src/IsotropicStiffness.cpp", "src/ThermoelasticMaterial.hpp", "src/ThermalConductivityMaterial.hpp", "src/ThermalMassMaterial.hpp"],
     ["TensorConstant/TensorFunctor/Rank4Voigt*/IsotropicStiffness*, MaterialModel::parse*"], "material constructors and getters", LN)
prop("P05", "Heat flux and heat content follow the material law at every temperature",
     "The heat flux of a cell is minus the conductivity tensor, taken at that cell's temperature, times its temperature gradient, and the heat content rate is density times specific heat times the temperature rate, for linear and temperature-dependent materials, in every dimension and for every cell of a batch independently.",
     ["inputs"], "for every conductivity tensor, gradient, temperature and cell",
     WT + "material tensor and cell; no stable test evaluates a flux.",
     ["src/ThermalFlux.hpp", "src/ThermalContent.hpp"], ["constant and functor branches"], "functor call operators", LN)
prop("P06", "Sparse matrix operations equal dense linear algebra",
     "For every sparsity pattern, block size, column ordering and value, matrix-vector products (accumulating), matrix-matrix products, matrix differences at a block-row offset, and conversions between block and non-block storage represent exactly the dense result; inputs are left unchanged and no duplicate or out-of-range entry is produced. Operands of incompatible shape are rejected.",
     ["inputs", "histories"], "for every pattern, block shape and column order, and every sequence of operations on a matrix",
     WT + "pattern and block shape; the tests use a few fixed matrices.",
     ["src/PlatoMathHelpers.hpp", "src/alg/CrsMatrix.hpp"], ["getDataAsNonBlock / setDataFromNonBlock / sortColumnEntries around KokkosKernels spgemm and spadd"], "MatrixTimesVectorPlusVector, MatrixMatrixMultiply, MatrixMinusMatrix", LN)
prop("P07", "Condensation eliminates the projected field exactly",
     "Row-summing a block matrix gives the sum of every row, row-sum inverse scaling divides each row by it, and condensing a system computes A - B * rowsum(C)^-1 * D into the chosen row of every block, for every sparsity pattern, block size and column order, leaving B and C unchanged.",
     ["inputs"], "for every sparsity pattern, block shape, ordering and target row",
     WT + "pattern, block shape and offset; the tests use one of each.",
     ["src/PlatoMathHelpers.hpp", "src/PlatoMathFunctors.hpp"], ["RowSum, DiagonalInverseMultiply, InverseWeight, Condense"], "Condense, RowSummedInverseMultiply", LN)
prop("P08", "Dirichlet constraints prescribe values and preserve the free equations",
     "After imposing prescribed values (times a scale) on any set of degrees of freedom, the solution of the system takes exactly the prescribed values there and satisfies the original equations at every other degree of freedom; constrained rows and columns become identity rows and columns, so a symmetric matrix stays symmetric. This holds for block and non-block storage, any order of the prescribed dofs, and any structurally symmetric matrix.",
     ["inputs"], "for every matrix graph, subset of constrained dofs, values, scale and storage order",
     WT + "subset of dofs and graph; no stable test imposes constraints.",
     ["src/ApplyConstraints.hpp"], ["row/column elimination with rhs correction"], "applyBlockConstraints / applyConstraints", LN)
prop("P09", "Vector operations compute their definitions and reject mismatches",
     "Dot product, norm, sum, maximum, minimum, fill (whole vector or a list of ordinals), copy, scale, axpy, update and strided extraction give exactly their mathematical result for every length, sign and value and modify only their output. Length mismatches, empty operands and non-finite coefficients, where the operation forbids them, are rejected with the output unchanged.",
     ["inputs", "histories"], "for every length, content and coefficient, and every sequence of operations on shared vectors",
     WT + "length and value; the tests use one constant vector of length 10 each.",
     ["src/BLAS1.hpp", "src/PlatoMathHelpers.hpp"], ["Plato::blas1"], "blas1 functions", LN)
prop("P10", "Workset matrix and vector operations act cell by cell as defined",
     "Batched (per-cell) fill, scale, update, strided extraction and insertion, matrix-vector products (plain and transposed), matrix products, identity and inverse give for each cell exactly the dense result and touch no other cell or entry. Operands of incompatible shape, empty operands and invalid transpose flags are rejected.",
     ["inputs", "histories"], "for every number of cells, shape, coefficient pair and stride/offset",
     WT + "shape; the tests use one shape per routine.",
     ["src/BLAS2.hpp", "src/BLAS3.hpp"], ["Plato::blas2, Plato::blas3"], "blas2 / blas3 functions", LN)
prop("P11", "Density penalization is monotone, exact at the bounds and continued as asked",
     "SIMP, RAMP and Heaviside penalization give their defining formula for every density, are non-decreasing in density, equal 1 at full density and the minimum value (SIMP, RAMP) at zero density, and their automatic derivative is the derivative of that formula. Every sequence of parameter settings and continuation steps changes the penalty exactly as requested and never beyond its upper bound; a parameter left out of a setting takes its documented default.",
     ["inputs", "histories"], "for every density, parameter value and sequence of setParameters/update calls",
     WT + "history of continuation updates; the tests evaluate one density each.",
     ["src/Simp.hpp", "src/Ramp.hpp", "src/Heaviside.hpp", "src/NoPenalty.hpp", "src/ApplyPenalty.hpp"], ["operator(), setParameters, update"], "penalty functors", LN)
prop("P12", "Projection and weighting of densities keep bounds and scale every entry",
     "Heaviside and hyperbolic-tangent projections map densities by their formula (hyperbolic tangent: 0 to 0, 1 to 1, non-decreasing; Heaviside, as implemented and tested: 0 to 1, 1 to 0, decreasing), their derivative is exact, and the cell density the projection is applied to is the mean of the nodal densities. Weighting scales every component of every stress-like quantity of a cell by the penalized density of that cell and nothing else.",
     ["inputs"], "for every density, projection parameter, dimension and cell",
     WT + "density; the tests check one or two.",
     ["src/HeavisideProjection.hpp", "src/HyperbolicTangentProjection.hpp", "src/ApplyProjection.hpp", "src/ApplyWeighting.hpp", "src/NoPenalty.hpp"], ["apply*, projection functors"], "functor call operators", LN)
prop("P13", "Time integrators are consistent with their own update rules",
     "The velocity and acceleration residuals of the Newmark integrator, and the velocity residual of the trapezoid integrator, vanish exactly at the values their own update formula produces from the previous step, for every step size and admissible parameters, and each reported derivative is the exact derivative of that residual. Constant states, constant velocities and constant accelerations are reproduced exactly.",
     ["inputs", "histories"], "for every state, parameter set and sequence of time steps",
     WT + "parameter and state; no stable test integrates in time.",
     ["src/hyperbolic/Newmark.hpp", "src/parabolic/TrapezoidIntegrator.hpp"], ["v_value, a_value, v_grad_*, a_grad_*"], "integrator classes", LN)
prop("P14", "J2 plasticity state updates satisfy the return-mapping equations",
     "For every plastic state, trial stress and multiplier, in 2-D (plane strain) and 3-D, with and without thermal strain: elastic strain is total minus plastic (minus thermal) strain, the normal of the shifted deviatoric stress has unit norm, plastic strain and back-stress grow along it by the flow and hardening rules (staying deviatoric), and the residuals of those rules vanish exactly at the updated state. Elastic steps leave the history variables unchanged; packing and unpacking of the local state loses nothing.",
     ["inputs", "histories"], "for every local state, stress, material parameter and cell",
     WT + "state and stress; the tests fix one state per routine.",
     ["src/J2PlasticityUtilities.hpp", "src/ThermoPlasticityUtilities.hpp"], ["J2PlasticityUtilities, ThermoPlasticityUtilities"], "utility methods", LN)
prop("P15", "Stress, strain splits and elastic work are mutually consistent",
     "For every strain state: Cauchy stress is the isotropic linear-elastic law, in 2-D (plane strain) and 3-D deviatoric stress and strain have zero trace and differ from the full ones only by the spherical part, and elastic work is half the double contraction of stress and (tensor) strain, so it is non-negative and quadratic in the strain.",
     ["inputs"], "for every strain, every positive modulus pair, every dimension and cell",
     WT + "strain; the tests fix one strain per routine.",
     ["src/ComputeCauchyStress.hpp", "src/ComputeDeviatoricStress.hpp", "src/ComputeDeviatoricStrain.hpp", "src/ComputeElasticWork.hpp", "src/DoubleDotProduct2ndOrderTensor.hpp", "src/IsotropicMaterialUtilities.hpp"], ["functors"], "functor call operators", LN)
prop("P16", "Invariants of symmetric tensors are correct for every tensor",
     "The eigenvalues computed for a symmetric strain or stress tensor are exactly its eigenvalues (sum equals trace, products equal the invariants; in 3-D to the accuracy of the fixed number of Jacobi rotations) whatever the signs, multiplicities and zeros of its components; von Mises stress is the standard invariant (3-D: zero for hydrostatic states and independent of added pressure; 2-D: plane stress; 1-D: the uniaxial stress); tensile energy counts exactly the positive principal strains.",
     ["inputs"], "for every symmetric 1x1, 2x2, 3x3 tensor",
     WT + "tensor; the tests use one tensor each.",
     ["src/Eigenvalues.hpp", "src/VonMisesYieldFunction.hpp", "src/TensileEnergyDensity.hpp", "src/TensileEnergyDensity.cpp"], ["Eigenvalues, VonMisesYieldFunction, TensileEnergyDensity"], "functor call operators", LN)
prop("P17", "Stress and vector p-norm measures and their gradients match their definition",
     "Tensor p-norm (Frobenius, weighted and Barlat) and vector p-norm values equal their defining formula for every exponent and field, are non-negative and homogeneous, and the post-processing of value and gradient is the p-th root and its exact chain rule.",
     ["inputs", "configurations"], "for every exponent, parameter list, tensor, field and number of cells",
     WT + "norm and exponent; no stable test evaluates a p-norm.",
     ["src/TensorPNorm.hpp", "src/VectorPNorm.hpp"], ["TensorNormFactory, postEvaluate"], "evaluate / postEvaluate", LN)
prop("P18", "Strain and internal force operators are exact adjoints of each other",
     "For every element shape and nodal field, strains and gradients are those of the linear interpolation (rigid motions give none, linear fields give their constant gradient), and every divergence operator returns the nodal forces whose virtual work equals the work of the flux or stress over the element volume, scaled as requested and accumulated into the given output. This holds for mechanical, thermal, thermomechanical, electromechanical, pressure-stabilized and complex-valued fields in each dimension.",
     ["inputs"], "for every element gradient matrix, nodal field, stress state, dimension and cell",
     WT + "element and field; the tests fix one element and field per operator.",
     ["src/Strain.hpp", "src/StressDivergence.hpp", "src/ScalarGrad.hpp", "src/FluxDivergence.hpp", "src/TMKinematics.hpp", "src/EMKinematics.hpp", "src/Kinematics.hpp", "src/ComplexStrain.hpp", "src/ComplexStressDivergence.hpp", "src/PressureDivergence.hpp", "src/PressureGradient.hpp", "src/StrainDivergence.hpp"], ["per-cell operators"], "functor call operators", LN)
prop("P19", "Interpolation, quadrature and projection integrate linear fields exactly",
     "Quadrature rules integrate every polynomial up to their degree exactly over the reference simplex, basis functions form a nodal partition of unity, interpolation returns the linear interpolant of every requested degree of freedom, and projecting a quantity to the nodes distributes exactly its integral, in every dimension, for every cell and dof offset.",
     ["inputs", "configurations"], "for every dimension, degree, monomial, dof layout, nodal field and cell",
     WT + "monomial, layout and field; no stable test checks a quadrature rule.",
     ["src/alg/Cubature.cpp", "src/alg/Basis.cpp", "src/LinearTetCubRuleDegreeOne.hpp", "src/InterpolateFromNodal.hpp", "src/InterpolateGradientFromScalarNodal.hpp", "src/ProjectToNode.hpp", "src/StateValues.hpp"], ["Cubature, Basis, InterpolateFromNodal, ProjectToNode"], "functor call operators", LN)
prop("P20", "Frequency-domain element forces and energies match their definition",
     "For every complex nodal field and every node of the cell: damping forces combine elastic and inertial forces with the Rayleigh coefficients in quadrature (their adjoint with the opposite sign, so that the two are transposes), inertial forces carry density and squared frequency, elastic and inertial energies are the corresponding quadratic forms, the cell residual combines its parts with the right signs, and the misfit is half the squared distance to the data.",
     ["inputs"], "for every complex field, coefficient, dimension, node and cell",
     WT + "field, node and coefficient; the tests check one field, mostly first-node values.",
     ["src/ComplexRayleighDamping.hpp", "src/AdjointComplexRayleighDamping.hpp", "src/InertialForces.hpp", "src/RayleighDamping.hpp", "src/ComplexElasticEnergy.hpp", "src/ComplexInertialEnergy.hpp", "src/StructuralDynamicsCellResidual.hpp", "src/ComputeFrequencyResponseMisfit.hpp"], ["per-cell functors"], "functor call operators", LN)
prop("P21", "Automatic derivatives of the cell kernels equal the true derivatives",
     "For every cell kernel (penalization, projection, stress, elastic work, von Mises, eigenvalues, plasticity updates, flux, divergence operators), evaluating it with automatic-differentiation numbers returns the same value as with plain numbers and, for every independent variable, the true partial derivative of that value.",
     ["inputs"], "for every kernel, evaluation point and seeded variable",
     WT + "kernel and point; the tests differentiate a handful of kernels at one point.",
     ["src/SimplexFadTypes.hpp", "src/J2PlasticityUtilities.hpp", "src/ComputeCauchyStress.hpp", "src/Eigenvalues.hpp"], ["Sacado forward AD through templated kernels"], "kernels instantiated with Fad types", LN)
prop("P22", "The rocket simulation conserves its balance at every recorded instant",
     "For every geometry, propellant (burn-rate exponent between 0 and 1) and time discretization the recorded histories start with the initial state, advance by the time step and end when the geometry is burned out or the total time is reached, after as many steps as announced; every recorded pressure solves the chamber balance for the burn area at that time and every thrust follows from that pressure; the burned geometry (radius, area, their derivatives) evolves exactly with the integrated burn rate; bad parameters are errors, and running the same problem again gives the same histories.",
     ["inputs", "histories", "configurations"], "for every parameter set and every number of time steps",
     WT + "parameter set; one test runs one configuration.",
     ["src/Plato_AlgebraicRocketModel.hpp", "src/Plato_Cylinder.hpp", "src/Plato_GeometryModel.hpp"], ["AlgebraicRocketModel::solve"], "recorded histories", LN)
prop("P23", "Newton-Raphson monitoring reports the error its measure defines",
     "For every sequence of residual and increment norms, the monitor's relative error is |previous-current|/|current| and its absolute error |previous-current| of the chosen norm, the first iteration only sets the reference, a non-finite norm is rejected with an error and nothing recorded, measure names are recognised in any letter case and unknown ones are errors, and the diagnostics file holds a header and one line per recorded iteration carrying the recorded numbers (nothing when output is off; writing to a closed file is an error).",
     ["inputs", "histories"], "for every sequence of residual norms up to the bound",
     WT + "sequence of norms; a couple of tests record one iteration.",
     ["src/NewtonRaphsonUtilities.hpp"], ["NewtonRaphsonOutputData, compute_relative_residual_norm_criterion, print_*"], "NewtonRaphsonUtilities functions", LN)
prop("P24", "Input parsing returns the given value, the default, or an error",
     "Reading a (nested) parameter returns the value given by the user, or the documented default when it or its sublist is absent, and a missing required parameter or a sublist entry of the wrong type is an error; solver configuration requests return, for every known solver name, one complete, well-formed configuration carrying the requested tolerance, iteration limit and convergence measure (the default configuration fixes tolerance and limit), and an error for unknown names; time and space expressions in the input evaluate to their mathematical value.",
     ["inputs", "configurations"], "for every presence/absence pattern and value, and every solver configuration request",
     WT + "presence pattern; no stable test covers this.",
     ["src/ParseTools.hpp", "src/alg/AmgXConfigs.cpp", "src/PlatoMathExpr.hpp"], ["getSubParam/getParam, configurationString/loadConfigString"], "parse functions", LN)
prop("P25", "Output data maps keep every stored field and every saved state",
     "A data map returns exactly the fields last stored under each name, saving a state records a snapshot of the current fields that later changes of the map or of the arrays do not affect, saved states are returned in the order saved and an index beyond them is an error (with nothing saved, the current state is returned), and clearing removes them all; a solution object returns exactly the histories it was given under their names.",
     ["histories"], "for every sequence of store / save / clear / read operations up to the bound",
     WT + "sequence of operations; no stable test covers state histories.",
     ["src/PlatoStaticsTypes.hpp", "src/ToMap.hpp"], ["Plato::DataMap"], "DataMap methods", LN)
prop("P26", "Global reductions combine the contribution of every rank",
     "Maximum, minimum, sum and vector sum over the parallel communicator return on every rank the combination of the contributions of all ranks, each counted once, leave the contribution itself unchanged and write nothing beyond the result, for every number of ranks and every set of contributions; a machine reports the size and rank of the communicator it was made for.",
     ["inputs", "configurations", "schedules"], "for every number of ranks and every set of contributions up to the bound",
     WT + "number of ranks; no stable test runs more than one rank.",
     ["src/alg/ParallelComm.hpp", "src/alg/ParallelComm.cpp"], ["Plato::Comm::Machine, max, min, sum, allReduce"], "reductions", LN)
MS = "Omega_h is replaced by a small stand-in (harness/omega_h) that builds the entities, adjacencies and orientations of simplex meshes; everything else is the repository's own code."
prop("P27", "Static residuals equal internal minus external forces on every mesh",
     "For every mesh, vertex and cell numbering, distribution of materials over the element blocks, penalty model, load (surface loads given as vector, pressure, component or by index, scalar fluxes, body loads) and state and control field, the residual of thermal, mechanical, electromechanical and thermomechanical statics is, at every degree of freedom, the sum over the cells of the consistent internal forces of the penalized material minus the consistent external forces; a malformed load, an unknown material or an unknown block is an error.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, penalty, load and physics in two and three dimensions",
     WT + "mesh, numbering and load; the tests of this code need Omega_h and cannot be built, and they use one box mesh.",
     ["src/elliptic/VectorFunction.hpp", "src/WorksetBase.hpp", "src/ImplicitFunctors.hpp", "src/NaturalBCs.hpp", "src/SurfaceLoadIntegral.hpp", "src/SurfacePressureIntegral.hpp", "src/BodyLoads.hpp", "src/SpatialModel.hpp", "src/elliptic/ThermostaticResidual.hpp", "src/elliptic/ElastostaticResidual.hpp", "src/elliptic/ElectroelastostaticResidual.hpp", "src/elliptic/ThermoelastostaticResidual.hpp"], ["VectorFunction::value, worksets, natural boundary conditions, body loads"], "assembled residual vector", MS)
prop("P28", "Assembled residual derivatives are the derivatives of the residual",
     "For every mesh, numbering, block layout, penalty, load and state, the assembled Jacobian by the state (also in transposed form), by the control and by the vertex coordinates equals, entry by entry, the derivative of the residual vector; no entry is missing from the sparsity pattern and none is stored twice.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, penalty, load and physics in two and three dimensions, every matrix entry",
     WT + "mesh and entry; the tests of this code need Omega_h and cannot be built.",
     ["src/elliptic/VectorFunction.hpp", "src/WorksetBase.hpp", "src/PlatoMathHelpers.hpp", "src/ImplicitFunctors.hpp", "src/SurfacePressureIntegral.hpp", "src/SimplexFadTypes.hpp"], ["gradient_u, gradient_u_T, gradient_x, gradient_z, assembly"], "assembled matrices", MS)
prop("P29", "Static criteria equal their definition on every mesh",
     "For every mesh, numbering, distribution of materials over blocks, penalty model, state and control, each criterion of the static physics (stored energies, stress and flux p-norms, effective energy, stress constraints, density penalty, volume, solution at a node set) and every composite of them (weighted sum, division, least squares, nested) returns the value of its definition, with given or default parameters; each update of a stress constraint advances its multipliers and penalty by their rule, over every sequence of updates; unknown criteria, penalties and incomplete composites are errors.",
     ["inputs", "configurations", "histories"], "for every mesh numbering, block coloring, criterion, penalty, composite and sequence of updates up to the bound",
     WT + "mesh, criterion and composite; the tests of this code need Omega_h and cannot be built.",
     ["src/elliptic/PhysicsScalarFunction.hpp", "src/elliptic/WeightedSumFunction.hpp", "src/elliptic/DivisionFunction.hpp", "src/elliptic/LeastSquaresFunction.hpp", "src/elliptic/SolutionFunction.hpp", "src/elliptic/InternalElasticEnergy.hpp", "src/elliptic/StressPNorm.hpp", "src/elliptic/FluxPNorm.hpp", "src/elliptic/EffectiveEnergy.hpp", "src/elliptic/InternalThermalEnergy.hpp", "src/elliptic/InternalElectroelasticEnergy.hpp", "src/elliptic/InternalThermoelasticEnergy.hpp", "src/Plato_AugLagStressCriterion.hpp", "src/Plato_AugLagStressCriterionGeneral.hpp", "src/Plato_AugLagStressCriterionQuadratic.hpp", "src/IntermediateDensityPenalty.hpp"], ["PhysicsScalarFunction::value, updateProblem, composites"], "criterion value", MS)
prop("P30", "Criterion gradients equal the derivatives of the criterion value",
     "For every mesh, numbering, block layout, penalty, criterion, composite and history of updates, the gradients of a static criterion by the state, by the control and by the vertex coordinates equal, entry by entry, the derivative of the criterion value with the other arguments held fixed.",
     ["inputs", "configurations", "histories"], "for every mesh numbering, block coloring, criterion, penalty, composite and sequence of updates up to the bound, every gradient entry",
     WT + "criterion and gradient entry; the tests of this code need Omega_h and cannot be built.",
     ["src/elliptic/PhysicsScalarFunction.hpp", "src/elliptic/WeightedSumFunction.hpp", "src/elliptic/DivisionFunction.hpp", "src/elliptic/LeastSquaresFunction.hpp", "src/elliptic/SolutionFunction.hpp", "src/WorksetBase.hpp", "src/TensorPNorm.hpp"], ["gradient_u, gradient_z, gradient_x"], "assembled gradients", MS)
prop("P31", "Static solutions satisfy the equations and gradients are total derivatives",
     "For every mesh, numbering, block layout, physics and control, the solution returned by a static problem satisfies the prescribed values exactly and the residual equation at every free degree of freedom to the solver tolerance; the criterion value is that of the solved state, and the gradients by control and by vertex coordinates equal the total derivative of the criterion through the solution, whatever was asked of the problem before; unknown criteria are errors.",
     ["inputs", "configurations", "histories"], "for every mesh numbering, block coloring, physics, criterion and sequence of calls up to the bound",
     WT + "mesh, criterion and call sequence; the tests of this code need Omega_h and cannot be built.",
     ["src/elliptic/Problem.hpp", "src/EssentialBCs.hpp", "src/PlatoMathHelpers.hpp", "src/alg/PlatoSolverFactory.hpp", "src/alg/EpetraLinearSolver.hpp", "src/elliptic/VectorFunction.hpp", "src/elliptic/PhysicsScalarFunction.hpp"], ["Elliptic::Problem::solution, criterionValue, criterionGradient, criterionGradientX"], "Elliptic::Problem methods", MS)
prop("P32", "Essential conditions constrain exactly the requested unknowns",
     "For every mesh and every set of essential boundary conditions (fixed, zero, time dependent; node sets that overlap or are shared; any component), the list of constrained unknowns and values holds, for every node of the named set and the requested component, the prescribed value at the given time, and no other unknown (an empty set constrains nothing); a malformed condition (unknown type or set, component that does not exist, missing value) is an error.",
     ["inputs", "configurations"], "for every one and every pair of boundary conditions over all node sets, components and values, at every time of the bound",
     WT + "combination of conditions; the tests of this code need Omega_h and cannot be built.",
     ["src/EssentialBCs.hpp"], ["EssentialBCs::get"], "constrained dofs and values", MS)
prop("P33", "Volume, mass and mass-moment criteria equal their definition on every mesh",
     "For every mesh, numbering, distribution of densities over the element blocks, penalty model and control, the purely geometric criteria (volume, mass, centre of mass and moments of inertia, their weighted sums, quotients and least squares, and the mass-properties criterion in geometric and in static problems) return the value of their definition, and their gradients by control and by vertex coordinates are the derivatives of that value; incomplete or unknown definitions are errors.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, penalty, subset of mass properties and composite up to the bound, every gradient entry",
     WT + "mesh, density layout and set of properties; the tests of this code need Omega_h and cannot be built.",
     ["src/geometric/MassMoment.hpp", "src/geometric/MassPropertiesFunction.hpp", "src/geometric/GeometryScalarFunction.hpp", "src/geometric/Volume.hpp", "src/geometric/WeightedSumFunction.hpp", "src/geometric/DivisionFunction.hpp", "src/geometric/LeastSquaresFunction.hpp", "src/elliptic/MassMoment.hpp", "src/elliptic/MassPropertiesFunction.hpp"], ["value, gradient_z, gradient_x of geometric criteria"], "criterion values and gradients", MS)
prop("P34", "Transient heat and thermomechanics residuals and criteria equal their weak form",
     "For every mesh, numbering, block layout, material (also temperature dependent), penalty model, load, state, rate and control, the residual of transient heat conduction and of transient thermomechanics equals its weak form (heat capacity times rate, conduction, stress, boundary loads and fluxes), the criteria of these problems equal their integral summed over the time steps, every returned derivative (by state, rate, control, coordinates) is the derivative of the returned value, the trapezoidal rule and its derivatives satisfy their definition, and incomplete or unknown definitions are errors.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, material kind, penalty, load, history length up to the bound, every derivative entry",
     WT + "mesh, material and history; the tests of this code need Omega_h and cannot be built.",
     ["src/parabolic/HeatEquationResidual.hpp", "src/parabolic/TransientThermomechResidual.hpp", "src/parabolic/VectorFunction.hpp", "src/parabolic/InternalThermalEnergy.hpp", "src/parabolic/InternalThermoelasticEnergy.hpp", "src/parabolic/TemperatureAverage.hpp", "src/parabolic/PhysicsScalarFunction.hpp", "src/parabolic/TrapezoidIntegrator.hpp", "src/ThermalMassMaterial.hpp"], ["Parabolic::VectorFunction value and gradients", "Parabolic::PhysicsScalarFunction value and gradients"], "residuals, criterion values, Jacobians", MS)
prop("P35", "Transient thermal solutions satisfy every step; gradients are total derivatives",
     "For every mesh, block layout, load, initial state, time step, trapezoid parameter and control, the history returned by a transient thermal or thermomechanical problem starts from the given initial state, satisfies the prescribed values, the discretised rate equation and the residual equation at every step to the solver tolerance (also with Newton iterations); the criterion value is that of this history and the gradients by control and by vertex coordinates equal its total derivative, whatever was asked of the problem before; unknown criteria and initial values of unknown variables are errors.",
     ["inputs", "configurations", "histories"], "for every mesh, block coloring, load, constraint set, initial state, time stepping scheme and sequence of calls up to the bound",
     WT + "mesh, time-stepping scheme and call sequence; the tests of this code need Omega_h and cannot be built.",
     ["src/parabolic/Problem.hpp", "src/parabolic/VectorFunction.hpp", "src/parabolic/TrapezoidIntegrator.hpp", "src/ComputedField.hpp", "src/EssentialBCs.hpp"], ["Parabolic::Problem::solution, criterionValue, criterionGradient, criterionGradientX"], "Parabolic::Problem methods", MS)
prop("P36", "Transient mechanics residuals and criteria equal their weak form",
     "For every mesh, numbering, block layout, material (with and without Rayleigh damping), penalty model, load, displacement, velocity, acceleration and control, the residual of transient mechanics equals its weak form (stress, damping, inertia, body and boundary loads at the current time), the criteria of transient mechanics equal their definition over the whole history (also p-norms), every returned derivative (by displacement, velocity, acceleration, control, coordinates) is the derivative of the returned value, the Newmark relations and their derivatives satisfy their definition, and incomplete or unknown definitions are errors.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, material kind, damping, penalty, load, history length up to the bound, every derivative entry",
     WT + "mesh, material and history; the tests of this code need Omega_h and cannot be built.",
     ["src/hyperbolic/ElastomechanicsResidual.hpp", "src/hyperbolic/HyperbolicVectorFunction.hpp", "src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp", "src/hyperbolic/HyperbolicInternalElasticEnergy.hpp", "src/hyperbolic/HyperbolicStressPNorm.hpp", "src/hyperbolic/Newmark.hpp", "src/hyperbolic/InertialContent.hpp"], ["Hyperbolic VectorFunction value and gradients", "Hyperbolic PhysicsScalarFunction value and gradients", "Newmark integrator"], "residuals, criterion values, Jacobians", MS)
prop("P37", "Transient mechanics satisfies every step; gradients are total derivatives",
     "For every mesh, block layout, load, initial state, time step, Newmark parameters and control, the history returned by a transient mechanics problem starts from the given initial displacements and velocities, satisfies the prescribed values, the Newmark relations and the equation of motion at the time of every step to the solver tolerance; the criterion value is that of this history and the gradients by control and by vertex coordinates equal its total derivative, whatever was asked of the problem before; unknown criteria and initial values of unknown variables are errors.",
     ["inputs", "configurations", "histories"], "for every mesh, block coloring, load, constraint set, initial state, time stepping scheme and sequence of calls up to the bound",
     WT + "mesh, time-stepping scheme and call sequence; the tests of this code need Omega_h and cannot be built.",
     ["src/hyperbolic/HyperbolicProblem.hpp", "src/hyperbolic/HyperbolicVectorFunction.hpp", "src/hyperbolic/Newmark.hpp", "src/ComputedField.hpp", "src/EssentialBCs.hpp"], ["HyperbolicProblem::solution, criterionValue, criterionGradient, criterionGradientX"], "HyperbolicProblem methods", MS)
prop("P38", "Output fields hold the values of every cell of the mesh at every saved state",
     "For every mesh, numbering, block layout, material, penalty, control and state, each field named as plottable (strain, stress, temperature and potential gradients, fluxes, electric displacement, velocity gradient, von Mises stress, local stress measures) holds after an evaluation one entry per cell of the whole mesh, in the order of the mesh, equal to the value computed from that cell's own nodes, material and density; fields not named are absent; per-cell criterion contributions cover the cells of every block; and a solved problem has saved one such set of fields per state, which later evaluations, gradients and solves leave in step with the last solution.",
     ["inputs", "configurations", "histories"], "for every mesh, block coloring, subset of fields, state and sequence of evaluations up to the bound",
     WT + "mesh, block layout and subset of fields; the tests of this code need Omega_h and cannot be built.",
     ["src/ToMap.hpp", "src/elliptic/ElastostaticResidual.hpp", "src/elliptic/ThermostaticResidual.hpp", "src/elliptic/ThermoelastostaticResidual.hpp", "src/elliptic/ElectroelastostaticResidual.hpp", "src/elliptic/PhysicsScalarFunction.hpp", "src/elliptic/Problem.hpp", "src/hyperbolic/ElastomechanicsResidual.hpp", "src/parabolic/TransientThermomechResidual.hpp", "src/Plato_AugLagStressCriterion.hpp"], ["toMap, VectorFunction::value, ScalarFunction::value, Problem::solution"], "Plato::DataMap of the problem", MS)
prop("P39", "Stabilized mixed mechanics is elastic mechanics with an independent pressure",
     "In 2-D and 3-D, for every mesh, numbering, block layout, penalty, pressure scaling and load, the residual of pressure-stabilized mechanics and thermomechanics is the virtual work of the elastic stress whose volumetric part is replaced by the pressure, the volume equation ties that pressure to the bulk modulus times the volume strain, the stabilization acts on the difference between the pressure gradient and its projection, and the projection residual is that of the pressure gradient on the nodes; the derivatives by state, nodal state, control and coordinates (assembled and cell by cell) are the derivatives of those residuals; the internal elastic energy is stress times strain with the criterion's own penalty. A solved problem takes the prescribed values and, iteration by iteration, solves these equations with the projection of the previous pressure, in every time step; at the solution of the coupled equations its gradient by control is the total derivative of the criterion. Unknown penalties, equations and criteria are errors.",
     ["inputs", "configurations"], "for every mesh numbering, block coloring, penalty, scaling, load and support up to the bound, every derivative entry",
     WT + "mesh, layout and load; the tests of this code need Omega_h and cannot be built.",
     ["src/StabilizedElastostaticResidual.hpp", "src/StabilizedThermoelastostaticResidual.hpp", "src/StabilizedElastostaticEnergy.hpp", "src/PressureGradientProjectionResidual.hpp", "src/Kinetics.hpp", "src/TMKinetics.hpp", "src/VectorFunctionVMS.hpp", "src/EllipticVMSProblem.hpp", "src/StabilizedMechanics.hpp", "src/Projection.hpp", "src/Assembly.hpp"], ["VectorFunctionVMS::value, gradient_u, gradient_n, gradient_z, gradient_x", "EllipticVMSProblem::solution, criterionValue, criterionGradient"], "residuals, derivatives, solved states, gradients", MS)
