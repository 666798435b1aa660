#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification of the real C++ functions: contracts over the clang AST of the current source, "
        "symbolic execution with generic-iteration loop rules, obligations discharged by z3 and a term normaliser; "
        "failed obligations replayed on the compiled code")
CLAIM = {
 "C01": "every obligation for all h, n, nodal data and r in the domain; real arithmetic instead of floating point",
 "C02": "every obligation for all h, n, nodal data and r in the domain; real arithmetic instead of floating point",
 "C03": "every obligation for all arguments; r/h in real arithmetic, conversion to int assumed in range",
 "C04": "every obligation for all sizes and r in the domain, including the write frame; real arithmetic",
 "C05": "every obligation for all elements, parameters and r>0; exp and pow by their algebraic laws",
 "C06": "derivatives by symbolic differentiation of the executed energy; all parameters and r>0",
 "C07": "all R>0, p>=2; monotonicity from the sign of the slope (calculus trusted)",
 "C08": "all systems: arbitrary numbers of atoms and neighbours; pair functions through their contracts (C05, C06)",
 "C09": "all shapes (L>=2 layers), weights, scales and inputs; CBLAS gemv by its contract; real arithmetic",
 "C10": "all shapes, weights, scales, inputs; reverse sweep proved equal to the Jacobian recursion, telescoping lemma, chain rule trusted",
 "C11": "all shapes and batch sizes b>=0: batched and single entry points satisfy the same row-wise specification",
 "C12": "generic object: work arrays of any size and content that earlier calls can leave; class invariant preserved; all accesses in bounds",
 "C13": "evaluation passes proved for every factor graph, x and coefficients; that the constructor builds a correct graph is a labelled bounded check (all small monomial sets, random larger ones)",
 "C14": "reverse sweep and direct gradient proved for every factor graph and x (including zeros); constructor bounded as in C13",
 "C15": "batched passes proved for every factor graph and batch size b>=0; constructor bounded as in C13",
 "C16": "generic object: work arrays of any size and content; all accesses in bounds; constructor bounded as in C13",
 "C17": "_binomial_coefficient, _sum, _combinations, _product, _product_repeat, _generate_indices, _permutations, _partitions and _two_part_partitions for all arguments (order, completeness, no repeats, rejection); contracts of std::sort, erase_if, next_permutation and the bijection of set partitions with element-by-element choices trusted",
 "C18": "every stage of the serial model and their chaining in compute_node_energies_forces, for all systems, sizes and parameters; class invariant of the loaded model, sphericart and the callees' contracts (C01-C04, C08, C10, C14) assumed",
 "C19": "serial model: every table lookup of compute_R0/R1 and compute/reverse_A0/A1_scaled for all n and all systems; class invariant of the loaded model assumed",
 "C20": ("proof", "all structures and neighbour lists: the unchanged method body executed over arrays of symbolic shape; numpy, ASE, neighbour list and evaluator by their contracts",
         "contract-based deductive verification of the real Python method: its source is re-read on every run and executed over symbolic arrays against contracts of numpy, ASE and the evaluator; "
         "postconditions discharged by z3 and a term normaliser; failures replayed on the real module with a stand-in evaluator"),
 "C21": ("other", "compute() and its three modes, pack/unpack_forward/reverse_comm proved for any atoms, ghosts, lists, types and positions on one rank (LAMMPS classes by mock headers and contracts, evaluator by C18/C08); settings, coeff, init_style, init_one are a labelled bounded check: the real pair style on 1-3 simulated ranks compared with the evaluation of the whole system"),
 "C25": "MACE constructor and load_from_json for every well-formed JSON object; nlohmann::json by its contract, parts' constructors by theirs (C01, C04, C05, C09, C13)",
 "C26": "every forward stage and compute_node_energies_forces for all systems, sizes, parameters and contents of the work arrays; class invariant of the loaded model, sphericart and the callees' contracts (C01-C04, C08, C10, C14) assumed; frames of the reverse stages by C18",
}
NA = {
 "C22": "Kokkos is not installed: templates and parallel dispatch cannot be parsed or instantiated here, and schedules are outside the verifier's sequential semantics",
 "C23": "invariance rests on numerical Clebsch-Gordan tables inside extracted model files and on sphericart (neither is in the repository); no contract on the code implies it",
 "C24": "needs PyTorch and mace models (not installed); the reference function is outside the repository",
}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        lvl, note = ("proof", CLAIM[i]) if isinstance(CLAIM[i], str) else CLAIM[i][:2]
        tech = TECH if not isinstance(CLAIM[i], tuple) or len(CLAIM[i]) < 3 else CLAIM[i][2]
        checks.append(dict(property=i, quick_cmd="python3-vt /verif/check.py %s" % i, thorough_cmd="python3-vt /verif/check.py %s --thorough" % i,
                           technique=tech, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(HERE + "/MANIFEST.json", "w"), indent=1)
