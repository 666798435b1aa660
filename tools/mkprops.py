#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only for readability of the long strings)."""
import json, os
L = "libsymmetrix/source/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

CS = [L+"cubic_spline.cpp", L+"cubic_spline.hpp"]
prop("C01", "A cubic spline evaluates to the Hermite interpolant of its nodal data",
 "A spline built from a grid spacing h>0 and n>=2 nodal values and derivatives returns, for every r with 0 <= r < h*(n-1), the value of the cubic polynomial that matches the values and derivatives at both ends of the grid interval containing r (intervals closed on the left), up to floating-point rounding. All three evaluation entry points return this same value. It therefore reproduces nodal values exactly at nodes and is continuously differentiable across them.",
 ["inputs"], "all h>0, n>=2, nodal values, nodal derivatives, and r in the domain",
 "The tests sample one sine-like function at a few points of one grid; an interval-, node- or coefficient-specific slip between the samples is invisible.",
 CS, [("coefficient generation", "CubicSpline::generate_coefficients"), ("interval lookup and Horner form", "CubicSpline::evaluate, evaluate_deriv, evaluate_deriv_divided")],
 ["CubicSpline.evaluate", "CubicSpline.evaluate_deriv", "CubicSpline.evaluate_deriv_divided"],
 [("c", "four cubic coefficients per interval, relative to the left node", "CubicSpline::c")])
prop("C02", "Spline derivatives are the exact derivative of the spline value",
 "For every spline and every r in its domain, the derivative returned with the value is the derivative with respect to r of the returned value on that interval, up to floating-point rounding. The divided variant returns, for r>0, that derivative divided by r.",
 ["inputs"], "all splines and all r in the domain",
 "Tests compare against finite differences at sampled r within a loose tolerance.",
 CS, [("derivative polynomial", "CubicSpline::evaluate_deriv, evaluate_deriv_divided")],
 ["CubicSpline.evaluate_deriv", "CubicSpline.evaluate_deriv_divided"])
prop("C03", "A cubic spline rejects every argument outside its domain",
 "For a spline on n>=2 nodes with spacing h>0, evaluating (value, derivative or divided derivative) at any r<0 or any r>=h*(n-1) raises an error instead of returning a number, and no argument makes it read outside its coefficient table. Arguments inside the domain 0 <= r < h*(n-1) never raise.",
 ["inputs"], "all splines (any n, h) and all real r, in and out of the domain",
 "No existing test calls the spline outside its domain.",
 CS, [("bounds checks before the table lookup", "CubicSpline::evaluate, evaluate_deriv, evaluate_deriv_divided")],
 ["CubicSpline.evaluate", "CubicSpline.evaluate_deriv", "CubicSpline.evaluate_deriv_divided"])
prop("C04", "A spline set evaluates each component as its own independent spline",
 "For a set of m>=1 splines sharing one grid of n>=2 nodes, and every 0 <= r < h*(n-1), entry j of the returned values (and of the returned derivatives) is the Hermite cubic interpolant (and its exact derivative) of component j's own nodal data, up to floating-point rounding. Exactly the first m entries of the output buffers are written, whatever they held before, and evaluating changes nothing about the set.",
 ["inputs", "histories"], "all m, n, h, nodal data, r in the domain, previous buffer contents and previous calls",
 "Tests use one small set at a few r with fresh output buffers.",
 [L+"cubic_spline_set.cpp", L+"cubic_spline_set.hpp"],
 [("interleaved coefficient layout", "CubicSplineSet::CubicSplineSet"), ("pointer-bumped accumulation", "CubicSplineSet::evaluate, evaluate_derivs")],
 ["CubicSplineSet.evaluate", "CubicSplineSet.evaluate_derivs"])
Z = [L+"zbl.cpp", L+"zbl.hpp"]
prop("C05", "The pair repulsion energy is the screened-Coulomb formula, cut off at contact",
 "For atomic numbers Zu, Zv >= 1 and r>0 the pair energy equals one half times 14.3996*Zu*Zv/r times the screening sum c_k*exp(-d_k*r/a), d=(3.2,0.9423,0.4028,0.2016), with a = 0.529*a_prefactor/(Zu^a_exp+Zv^a_exp), times the cutoff envelope for the sum of the two covalent radii, up to floating-point rounding. It is unchanged by exchanging the two atoms and exactly zero at and beyond the sum of the covalent radii.",
 ["inputs", "configurations"], "all element pairs, distances and model parameters (a_exp, a_prefactor, c, radii, p>=2)",
 "The tests compare a few element pairs against stored numbers for one parameter set.",
 Z, [("pair formula", "ZBL::compute"), ("envelope", "ZBL::compute_envelope")], ["ZBL.compute", "ZBL.compute_envelope"])
prop("C06", "Repulsion gradients are the exact radial derivatives of the energies",
 "For every element pair and r>0, the reported pair gradient is the derivative with respect to r of the reported pair energy, and the reported envelope gradient is the derivative of the reported envelope, up to floating-point rounding; both are exactly zero at and beyond the cutoff. In particular energy and force cannot disagree for any parameters.",
 ["inputs", "configurations"], "all element pairs, r>0, and model parameters (p>=2)",
 "Finite differences at a few distances cannot cover all parameters and orders p.",
 Z, [("hand-written derivative", "ZBL::compute_gradient"), ("envelope derivative", "ZBL::compute_envelope_gradient")],
 ["ZBL.compute_gradient", "ZBL.compute_envelope_gradient"])
prop("C07", "The cutoff envelope is a smooth switch from one to zero",
 "For every cutoff radius R>0 and integer order p>=2 the envelope is 1 at r=0, never increases with r, stays within [0,1] on r>=0, and is exactly 0 for r>=R, up to floating-point rounding. Its value, slope and curvature all tend to zero as r approaches R from below, so energies and forces are continuous at the cutoff.",
 ["inputs", "configurations"], "all R>0, p>=2 and r>=0",
 "Smoothness at the cutoff and monotonicity are limits over a continuum of r for every p; tests sample points of one p.",
 Z, [("polynomial envelope", "ZBL::compute_envelope, ZBL::compute_envelope_gradient")],
 ["ZBL.compute_envelope", "ZBL.compute_envelope_gradient"])
prop("C08", "Whole-system repulsion adds each pair exactly once and touches nothing else",
 "Given per-atom neighbour counts and flat pair arrays, accumulating the repulsion adds to each atom's energy the sum over exactly its own neighbours of the pair energy for the two elements and distance, and adds to each pair's force vector minus the pair gradient times the unit pair vector. Everything is added on top of what the energy and force buffers held; entries of atoms without neighbours or beyond the listed pairs are unchanged.",
 ["inputs"], "all systems: any number of atoms, any neighbour counts including zero, any element types",
 "The accumulation is not exercised by any test that can run without the full model.",
 Z, [("running pair counter over the neighbour lists", "ZBL::compute_ZBL")], ["ZBL::compute_ZBL"])
M = [L+"multilayer_perceptron.cpp", L+"multilayer_perceptron.hpp"]
prop("C09", "The perceptron computes the composition of its layers",
 "For every layer-size list of at least two positive sizes, row-major weight matrices of matching size and activation scale s, evaluation returns W_last * f(... f(W_1 * x)), where f applies s*x/(1+exp(-x)) elementwise after every layer but the last, up to floating-point rounding. The value returned alongside a gradient is the same.",
 ["inputs", "configurations"], "all depths, layer sizes, weights, scale factors and inputs",
 "Tests use one fixed architecture and random weights.",
 M, [("layer loop over BLAS products", "MultilayerPerceptron::evaluate, evaluate_gradient")],
 ["MultilayerPerceptron.evaluate", "MultilayerPerceptron.evaluate_gradient"])
prop("C10", "The perceptron gradient is the exact Jacobian",
 "For every perceptron and input, entry (o, i) of the returned row-major gradient is the partial derivative of output o with respect to input i of the function that evaluation computes, up to floating-point rounding; this covers any number of outputs and any depth, including two-layer networks without activation.",
 ["inputs", "configurations"], "all depths, layer sizes, output counts, weights, scales and inputs",
 "Finite-difference tests use one architecture and a loose tolerance.",
 M, [("backward sweep", "MultilayerPerceptron::evaluate_gradient")], ["MultilayerPerceptron.evaluate_gradient"])
prop("C11", "Batched perceptron results equal per-sample results",
 "For every batch size b>=0, sample s of a batched evaluation equals the single-sample evaluation of row s of the input, and sample s of a batched gradient equals the single-sample gradient of that row, up to floating-point rounding. Rows never influence each other.",
 ["inputs", "configurations"], "all networks, batch sizes and inputs",
 "Tests use one batch size on one network.",
 M, [("batched layer loop", "MultilayerPerceptron::evaluate_batch, evaluate_gradient_batch")],
 ["MultilayerPerceptron.evaluate_batch", "MultilayerPerceptron.evaluate_gradient_batch"])
prop("C12", "Perceptron results do not depend on earlier calls",
 "The result of any perceptron call depends only on the network and that call's arguments: after any sequence of earlier single, gradient, batched and batched-gradient calls with any inputs and batch sizes, the same call returns the same result as on a fresh object, and no call sequence makes the object access memory out of bounds.",
 ["histories", "inputs"], "all finite sequences of public calls on one object",
 "Tests never mix the entry points or change batch sizes on one object.",
 M, [("work arrays re-sized on every call", "MultilayerPerceptron::evaluate, evaluate_gradient, evaluate_batch, evaluate_gradient_batch")],
 ["MultilayerPerceptron.evaluate", "MultilayerPerceptron.evaluate_gradient", "MultilayerPerceptron.evaluate_batch", "MultilayerPerceptron.evaluate_gradient_batch"],
 [("node_values, node_derivs, node_activation_derivs", "per-layer work arrays cached between calls", "MultilayerPerceptron")])
MP = [L+"multivariate_polynomial.cpp", L+"multivariate_polynomial.hpp"]
prop("C13", "A polynomial evaluates to the sum of its coefficients times monomials",
 "For every polynomial given by coefficients and nonempty monomials (each a sorted list of variable indices, repetition meaning powers) and every x, evaluation returns the sum over all given terms of coefficient times the product of the listed variables, up to floating-point rounding. The order of the terms does not matter, a monomial given more than once counts as often as it is given, and the fast graph evaluation agrees with the direct one.",
 ["inputs", "configurations"], "all numbers of variables, monomial lists and coefficients, and all x",
 "Tests use two hand-written polynomials.",
 MP + [L+"tools.cpp"], [("product graph construction", "MultivariatePolynomial::MultivariatePolynomial"), ("forward pass", "MultivariatePolynomial::forward_pass"), ("direct evaluation", "MultivariatePolynomial::evaluate_simple")],
 ["MultivariatePolynomial.evaluate", "MultivariatePolynomial.evaluate_simple"],
 [("nodes, edges, node_coefficients", "product graph: every non-variable node is the product of two earlier nodes", "MultivariatePolynomial")])
prop("C14", "The polynomial gradient is the exact gradient of the polynomial",
 "For every polynomial and every x, entry i of the returned gradient is the partial derivative with respect to variable i of the polynomial, including repeated variables (powers) and x with zero entries, up to floating-point rounding; the value returned with it is the polynomial's value. The fast and the direct gradient agree.",
 ["inputs", "configurations"], "all polynomials and all x",
 "Tests use two hand-written polynomials.",
 MP, [("reverse pass over the product graph", "MultivariatePolynomial::backward_pass"), ("direct gradient", "MultivariatePolynomial::evaluate_gradient_simple")],
 ["MultivariatePolynomial.evaluate_gradient", "MultivariatePolynomial.evaluate_gradient_simple"])
prop("C15", "Batched polynomial evaluation equals per-sample evaluation",
 "For every polynomial and batch size b>=0, sample s of the batched values and gradients equals the single evaluation and gradient of row s of the input, up to floating-point rounding.",
 ["inputs", "configurations"], "all polynomials, batch sizes and inputs",
 "Tests use one batch size on one polynomial.",
 MP, [("batched passes", "MultivariatePolynomial::evaluate_batch and batched_*")], ["MultivariatePolynomial.evaluate_batch"])
prop("C16", "Polynomial results do not depend on earlier calls",
 "The result of any polynomial call depends only on the polynomial and that call's arguments: after any sequence of earlier single, gradient and batched calls, with any inputs and any batch sizes including zero, it returns the same result as on a fresh object, and no call sequence accesses memory out of bounds.",
 ["histories", "inputs"], "all finite sequences of public calls on one object",
 "Tests never mix single and batched calls with changing batch sizes on one object.",
 MP, [("work arrays node_values and node_adjoints", "MultivariatePolynomial::initialize_forward_pass, batched_initialize_forward_pass, initialize_backward_pass, batched_initialize_backward_pass")],
 ["MultivariatePolynomial.evaluate", "MultivariatePolynomial.evaluate_gradient", "MultivariatePolynomial.evaluate_batch"],
 [("node_values, node_adjoints", "work arrays cached between calls", "MultivariatePolynomial")])
prop("C17", "The combinatorial tools enumerate exactly the sets they are named after",
 "Binomial coefficient, integer sum, set partitions, two-part partitions, permutations, 2-combinations and Cartesian products return, for every argument, exactly the mathematical objects: each once per position-wise choice, none missing, none extra, with products and permutations in lexicographic order of positions. Asking for k-combinations with k other than 2 is rejected with an error.",
 ["inputs"], "all argument vectors and sizes (results that fit the int range)",
 "Tests enumerate a handful of small arguments.",
 [L+"tools.cpp", L+"tools.hpp"], [("recursive and iterative enumerators", "_binomial_coefficient, _sum, _partitions, _two_part_partitions, _permutations, _combinations, _product, _product_repeat, _generate_indices")],
 ["tools module functions"])
prop("C18", "Model forces are the exact negative gradient of the model energy",
 "In the full model evaluation every reverse stage is the exact adjoint of its forward stage: the accumulated per-pair force vectors equal minus the derivative of the total energy with respect to the pair vectors, for every system and every model parameter set. Stages add to, and never overwrite, contributions made by other stages.",
 ["inputs", "configurations"], "all model parameters, systems and neighbour lists (including atoms without neighbours)",
 "The model tests need trained models and are not run here; they compare a few structures to stored numbers.",
 [L+"mace.cpp", L+"mace.hpp"], [("compute_X / reverse_X stage pairs", "MACE::compute_*, MACE::reverse_*")], ["MACE.node_energies", "MACE.node_forces"])
prop("C19", "Element-pair lookup is symmetric, in range and one-to-one",
 "Wherever the (serial) model picks per-element-pair radial data for an ordered pair of atom types, the index used is the same for both orders, lies within the n(n+1)/2 stored tables, and differs for different unordered pairs; pairs are numbered row by row over i<=j.",
 ["inputs", "configurations"], "all numbers of elements n and all type pairs",
 "The tests use models with one or two elements.",
 [L+"mace.cpp"], [("triangular index", "MACE::compute_R0, compute_R1, compute_A0_scaled, reverse_A0_scaled, compute_A1_scaled, reverse_A1_scaled")], ["MACE.compute_R0", "MACE.compute_R1"])
prop("C20", "The ASE calculator reports consistent energies, forces and stress for all atoms",
 "For every structure the calculator's energy is the sum of its per-atom energies, which has one entry per atom of the structure (atoms without neighbours included); the force on each atom is the sum of the pair forces pointing to it minus those leaving it, so all forces add up to zero; the stress is minus the symmetrised sum of pair force times pair vector over the volume, in ASE's Voigt order. Structures in which some or all atoms have no neighbours are handled like any other; structures without a three-dimensional cell have energies and forces but no stress.",
 ["inputs"], "all structures, cells, neighbour lists and element orders",
 "The calculator tests need a trained model; none covers isolated atoms.",
 ["symmetrix/source/symmetrix/symmetrix_calc.py"], [("assembly of pair quantities", "Symmetrix.calculate")], ["Symmetrix.calculate results"])
prop("C21", "The LAMMPS pair style assembles the same energies and forces in all modes",
 "For every system and every domain decomposition, each of the pair style's three communication modes evaluates the model on the atoms' neighbours within the cutoff and adds to LAMMPS' arrays exactly: the sum of the node energies of the owned atoms, their per-atom energies, the pair forces (minus on the centre, plus on the neighbour) and the symmetrised virial, so that all modes and any number of ranks agree with the evaluation of the whole system; packing followed by unpacking of communicated per-atom data restores it at the receiving atom, and reverse communication adds every contribution exactly once.",
 ["inputs", "schedules"], "all decompositions, neighbour lists, ghost layouts and modes",
 "Needs LAMMPS; no test runs it.",
 ["pair_symmetrix/pair_symmetrix_mace.cpp"], [("compute modes and pack/unpack", "PairSymmetrixMACE::compute_*, pack_*_comm, unpack_*_comm")], ["LAMMPS forces and energies"])
prop("C22", "The Kokkos kernels agree with the serial implementation",
 "For every model and system the Kokkos implementation returns the same energies and forces as the serial implementation up to floating-point rounding of the working precision, for any execution-space schedule.",
 ["inputs", "schedules"], "all models, systems and parallel schedules",
 "Kokkos is not available in this build.",
 [L+"mace_kokkos.cpp", L+"zbl_kokkos.cpp", L+"multilayer_perceptron_kokkos.cpp"], [("parallel kernels", "*_kokkos.cpp")], ["MACEKokkos"])
prop("C23", "The model energy is invariant under rotations, reflections and atom relabelling",
 "Rotating, reflecting or translating a structure, or renumbering its atoms, leaves the total model energy unchanged and transforms forces accordingly.",
 ["inputs", "configurations"], "all structures, rigid motions and renumberings, all extracted models",
 "A test samples a few rotations of one structure.",
 [L+"mace.cpp", "symmetrix/source/symmetrix/extract_mace_data.py"], [("equivariant tensor products with extracted Clebsch-Gordan data", "MACE::compute_Y, compute_Phi1, extract_mace_data")], ["MACE.node_energies"])
prop("C24", "Extracting a trained model preserves its energy function",
 "The JSON model extracted from a trained PyTorch model defines, when loaded, the same energy function as the original up to the resolution of the radial splines.",
 ["inputs", "configurations"], "all supported trained models",
 "Needs torch and mace; not available here.",
 ["symmetrix/source/symmetrix/extract_mace_data.py"], [("parameter extraction", "extract_mace_data")], ["JSON model file"])
prop("C25", "Loading a model file yields exactly the model the file describes",
 "After loading, every parameter of the (serial) model is the file's entry of that name; the radial and scaling tables are the file's, in the file's order; "
 "the polynomial used for element a, component l and channel k is built from the weights the file lists under a, l, k and the monomials listed under l (second layer: a, k); "
 "derived sizes are (l_max+1)^2, (L_max+1)^2 and the component counts of the listed paths; optional parts (pair repulsion, scaling) are present exactly when the file says so.",
 ["inputs", "configurations"], "all model files: any number of elements, channels, components, paths, tables, and all settings of the optional parts",
 "The tests that load models need trained models and are not run here; a wrong pairing of entries shows only for models with several elements, components and channels.",
 [L+"mace.cpp", L+"mace.hpp"], [("reading of the JSON file", "MACE::MACE, MACE::load_from_json")], ["MACE", "MACE.node_energies"])
prop("C26", "The model energy is the two-layer formula of parameters and system",
 "For every loaded model, system and history of earlier evaluations on the same object, the energy of each atom is: reference energy of its type, plus linear readout of its scalar first-layer features H1, "
 "plus perceptron readout of its second-layer features H2, plus pair repulsion if the model has it. Features follow the layer formulas: A0 = channel-mixed sum over the atom's own pairs of radial table x harmonics x neighbour-type weights "
 "(divided by one plus the sum of the scaling tables if scaling is on), M0 = the polynomials of the atom's type, H1 = linear map per degree, Phi1 = Clebsch-Gordan contraction of the sum over the atom's pairs of radial table x harmonics x the neighbour's H1, "
 "A1 = linear map per degree (scaled likewise), M1 = polynomials, H2 = linear maps of scalar H1 and M1. In particular an atom's energy does not depend on other atoms outside its two-layer neighbourhood nor on earlier evaluations.",
 ["inputs", "configurations", "histories"], "all model parameters, sizes, systems, neighbour lists (atoms without neighbours, an atom neighbouring its own image) and sequences of evaluations",
 "The model tests need trained models and are not run here; they compare a few structures to stored numbers.",
 [L+"mace.cpp", L+"mace.hpp"], [("forward stages", "MACE::compute_R0 ... compute_readouts, compute_node_energies_forces")], ["MACE.node_energies"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
