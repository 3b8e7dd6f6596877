#!/usr/bin/env python3
"""tools/design.py: writes the bounds into checks.json and the per-property part of DESIGN.md (between the markers), from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (what is enumerated = bounds, oracle, harness)
T = {
"P01": ("every expression the grammar derives up to 5 tokens (6 in the thorough tier) over 2 numbers, 2 variables, 6 operators, bars, parentheses and functions; the same with blanks; all operator chains of 5 operands; all functions and pow() over 12-57 argument values; literal forms; factorials; 26 constructs nested 1..100 (400) deep; up to 4 variables per expression", "recursive-descent evaluator in expr_ref.hpp", "h_expr.cpp"),
"P02": ("all strings of up to 5-6 characters over the 13 significant characters, all single-character edits of a corpus of valid expressions, all byte values at every place, misspelled names, numbers of 100..400 characters, exponents at the length limit, and all histories of 4 parse/validate/evaluate operations over 8 expressions on one evaluator", "grammar acceptor of expr_ref.hpp; AddressSanitizer; a fresh evaluator", "h_expr.cpp"),
"P03": ("inline equations; files of up to 4 lines over 10 line kinds (header, equation rows, blank, malformed, unterminated) times equation index by argument and by parameter", "line-by-line reader", "h_material.cpp"),
"P04": ("all presence patterns of the inputs of scalar, vector, tensor and rank-4 constants and temperature functions in 1-3 D, temperatures of both signs and 8 magnitudes, all stores/lookup histories, factories", "the documented tensors and polynomial", "h_material.cpp"),
"P05": ("gradients and rates over {-1,0,1,..}^d x magnitudes {1,1e-6,1e6}, 9 temperatures, linear and nonlinear conductivities and capacities, every cell of a workset of 3", "-k(T) grad T and c(T) dT written out", "h_material.cpp"),
"P06": ("all sparsity patterns of up to 3x3 blocks, block shapes 1..3 x 1..3, all shape errors, larger matrices up to 40 block rows, histories of 4 operations", "dense matrices", "h_sparse.cpp"),
"P07": ("all patterns of up to 3x3 blocks, block sizes 1..4, all row-summed inverses, condensed products for every pattern of both factors, larger systems", "dense Schur complement", "h_sparse.cpp"),
"P08": ("all subsets of constrained dofs of 1..3 nodes x block sizes 1..4, values over three kinds, scale factors, block and plain matrices, repeated application", "dense constrained system", "h_sparse.cpp"),
"P09": ("vectors over {-2,0,0.5,3} up to length 3 plus all lengths to 700, all scalars, offsets and strides, all mismatched lengths, all histories of 5 operations on shared vectors, magnitudes 1e-6..1e6", "loops", "h_blas.cpp"),
"P10": ("worksets of up to 3 cells, matrices up to 4x4, every (alpha, beta, transposition), every inverse of matrices over a small alphabet, all histories of 5 operations, magnitudes 1e-6..1e6", "dense linear algebra per cell", "h_blas.cpp"),
"P11": ("densities on a grid of 64 and close to both ends, exponents, minimum values and bounds; all histories of up to 4 operations (update, set, reset, wrong key) on SIMP, RAMP and Heaviside penalties", "formulas; penalty state machine", "h_penalty.cpp"),
"P12": ("densities on a grid, curvature x threshold x way of setting them; weighting of 1..6 components in every cell for every penalty", "formulas", "h_penalty.cpp"),
"P13": ("single steps over 8 schemes x values, all histories of 3-5 steps over an alphabet of accelerations, time steps 1e-7..1e4, magnitudes, lengths to 700", "Newmark and trapezoidal relations", "h_mech.cpp"),
"P14": ("stresses and states over {-1,0,1.5}^n in 2-D plane strain and 3-D, plastic and elastic steps, all histories of steps, thermal strains, all parameter presence patterns, magnitudes 1e-6..1e6", "tensor form of the return mapping", "h_plastic.cpp"),
"P15": ("strains over a 3-letter alphabet per component in 1-3 D x moduli x magnitudes", "tensor elasticity", "h_mech.cpp"),
"P16": ("symmetric tensors over a 5-letter alphabet per component in 2-D and 3-D, stress and strain form, iteration limits, magnitudes 1e-6..1e6", "characteristic polynomial, power sums, independent Jacobi iteration in long double", "h_mech.cpp"),
"P17": ("stresses over an alphabet per component, p in {2,4,6,8,..}, Barlat coefficients, worksets of 3, weights", "definition of the measures; derivatives by formula", "h_norm.cpp"),
"P18": ("all element shapes of a family per dimension (including needles and mirrored ones), all unit nodal fields plus mixed ones, every dof layout used by the physics", "gradients of the linear interpolant; virtual work identity on the implementation itself", "h_element.cpp"),
"P19": ("all monomials up to the degree of each rule, reference points on a 7^d grid, every dof layout, field and cell", "exact integrals over the simplex", "h_element.cpp"),
"P20": ("unit and mixed fields, frequencies, damping coefficients, densities in 2-D and 3-D", "complex arithmetic", "h_element.cpp"),
"P21": ("every kernel instantiated with forward AD numbers of every derivative kind the physics use, each over a grid of states; every input component", "central differences of the same kernel in double with a verified step", "h_ad*.cpp"),
"P22": ("all combinations of 13 physical parameters (2-4 values each), two solves, all setter histories, up to 240 (800) steps, geometry protocol seen through a recording geometry", "closed form of the chamber balance; cylinder burn-back", "h_rocket.cpp"),
"P23": ("all norm histories of 5 over 7 norms, relative and absolute, magnitudes 1e-300..1e300, up to 200 steps, non-finite norms, all letter cases and damages of the names", "definition of the measure", "h_misc.cpp"),
"P24": ("all presence patterns of list, sublist, parameter and type for every parsing routine and type; solver names and configurations; time expressions", "value, default or error by the documented rule", "h_misc.cpp"),
"P25": ("all sequences of 6-7 operations (store, overwrite, save, read, clear) over fields of each kind; up to 60 saved states", "value-semantics model", "h_misc.cpp"),
"P26": ("1..8 ranks (values exchanged by a stand-in communicator that combines the operands of every rank), all value vectors over 3 letters, lengths to 50", "sum over ranks", "h_misc.cpp"),
"P27": ("three meshes of one to three cells in 2-D and 3-D, all vertex and cell numberings and orientations, all block colorings, 11 load cases (natural conditions of each kind and side, pressure, traction, body loads), 5 penalties, 4 physics, malformed inputs", "weak form integrated cell by cell in phys.hpp", "h_ell.cpp"),
"P28": ("as P27 for the derivatives by state, control and coordinates", "central differences of the real residual", "h_ell.cpp"),
"P29": ("as P27 for every scalar criterion (energies, p-norms, effective energy, stress constraints, density penalty, volume), composite criteria of up to 3 terms, updates of the augmented Lagrangian, malformed inputs", "definition in crit.hpp", "h_ell.cpp"),
"P30": ("as P29 for the gradients", "central differences of the real criterion", "h_ell.cpp"),
"P31": ("meshes x colorings x loads x 4 constraint sets; solve, value, gradients by control and coordinates; all call sequences of up to 3 calls; Newton iteration on and off", "residual of the returned solution from P27's model; central differences through the real solver", "h_prob.cpp"),
"P32": ("one and two conditions over every node set, component, kind (zero, value, function, time dependent), three times, scale factors; malformed conditions", "list semantics", "h_prob.cpp"),
"P33": ("meshes, numberings and colorings x penalties; all mass property sets of up to 2-3 terms; static and geometric problems", "integrals over the simplices", "h_geo.cpp"),
"P34": ("as P27-P30 for the heat equation and transient thermomechanics, over states and rates", "weak form; central differences", "h_par.cpp"),
"P35": ("meshes x colorings x loads x initial states x time steps (1-4) x integrator parameters; Newton on and off; all call sequences of length 3", "step-by-step residual; central differences of the whole history", "h_par.cpp"),
"P36": ("as P27-P30 for transient mechanics, with and without Rayleigh damping", "weak form; central differences", "h_hyp.cpp"),
"P37": ("meshes x colorings x loads x initial states x Newmark parameters x 1-4 steps; call sequences of length 3", "step-by-step residual and Newmark relations; central differences of the whole history", "h_hyp.cpp"),
"P38": ("meshes, numberings and colorings x all subsets of output fields x three evaluations; solved problems with later values, gradients and solves", "the cell's own strain, stress and flux in phys.hpp", "h_prob.cpp, h_par.cpp, h_hyp.cpp"),
"P39": ("meshes, numberings and colorings x penalties x scalings x loads; whole problems x supports x iterations x steps", "mixed element with independent pressure, dense elimination and its finite differences in h_vms.cpp", "h_vms.cpp"),
}
if os.path.exists(V + "/tools/design_more.py"): exec(open(V + "/tools/design_more.py").read())
c = json.load(open(V + "/checks.json"))
for p in c["checks"]: c["checks"][p]["bounds"] = T[p][0]
open(V + "/checks.json", "w").write(json.dumps(c, indent=1))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = []
for p in props:
    b, r, h = T[p["id"]]
    o.append("### %s %s\n\n*Enumerated:* %s.\n*Oracle:* %s.\n*Harness:* `harness/%s`.\n" % (p["id"], p["title"], b, r, h.replace(", ", "`, `harness/")))
d = open(V + "/DESIGN.md").read(); A, B = "<!-- properties -->\n", "<!-- /properties -->\n"
i, j = d.index(A) + len(A), d.index(B)
open(V + "/DESIGN.md", "w").write(d[:i] + "\n" + "\n".join(o) + "\n" + d[j:])
