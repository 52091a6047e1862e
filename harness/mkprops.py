#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
P = []
NA = []
IN, CF, HI, SC, CR, FS, PR = "inputs", "configurations", "histories", "schedules", "crash_points", "fault_sequences", "programs"


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe}},
              technique, note))


G, S, B, F, SP, N, FG, GF = ("exact_diag/ed_geometry.py", "exact_diag/ed_symmetry.py", "exact_diag/ed_base.py",
                             "exact_diag/ed_fermions.py", "exact_diag/ed_spins.py", "exact_diag/ed_nlce.py",
                             "exact_diag/fermi_gas.py", "exact_diag/greens_fns.py")

prop("C01", "Periodic cells contain exactly their sites; reduction is canonical",
     "For every lattice (lattice, basis and periodicity vectors) and every named lattice constructor, the site list contains each lattice site of the periodic cell exactly once, ordered by position, with the geometric number of sites; periodicity or lattice vectors that cannot describe a lattice are rejected. "
     "Reducing any vectors to the positive or centred cell returns the unique representative in that cell together with integer multiples of the two periods that restore each input exactly, and reciprocal vectors are dual to the direct ones.",
     [IN, CF], "all lattice/basis/periodicity vectors, cell sizes, tilts, boundary conditions, and points",
     "Unit tests check a handful of 2D cells by hand; boundary points, float noise and skew or negative cells are not reached.",
     [G], [("Lattice.get_unique_sites, reduce_vectors, get_reciprocal_vects", G)], ["Lattice", "Geometry.create*Geometry", "reduce_vectors"])
prop("C02", "Separations, neighbours and boundary phases of every geometry",
     "The site separation matrices of every geometry are antisymmetric, congruent to the position differences modulo the periods that are kept, and use the closest periodic image; two sites are neighbours exactly when that separation has the lattice's nearest-neighbour length (polygons: adjacent vertices; clusters: one grid step, or the matrix the caller supplied). "
     "The phase matrix is Hermitian of unit modulus and distributes the boundary twist uniformly, proportionally to the separation along each period; the counts of lattice vectors separating two sites reproduce their separation. "
     "Supplied adjacency or phase matrices that are not symmetric/Hermitian are rejected.",
     [IN, CF], "all geometry constructors, sizes, open/closed boundary choices, twist angles, clusters",
     "Tests compare a few adjacency matrices; two-site periods, tilted cells and twisted directions are sampled once.",
     [G], [("Geometry constructors, get_phase_mat, adjacency and distance matrices", G)], ["Geometry.adjacency_mat", "Geometry.phase_mat", "Geometry.xdist_mat/ydist_mat"])
prop("C03", "Relabelling, sorting, copying and comparing geometries is consistent",
     "After any history of permuting sites, sorting, copying and comparing geometry objects, positions, separations, neighbours and phases of each object all describe the same relabelled geometry, other objects are untouched, and invalid permutations or sort modes are rejected without effect. "
     "Sorting returns a permutation that orders the sites by the requested key, and equality holds exactly when the two geometries agree in sites, neighbours, phases and lattice.",
     [HI], "all finite histories of operations on several live geometry objects",
     "Tests permute once and compare once; aliasing, repeated permutation and partial equality need histories.",
     [G], [("permute_sites, site sorting permutations, __eq__, isequal_adjacency", G)], ["Geometry"])
prop("C04", "Point transformations and the site permutations they induce",
     "Rotations, reflections, inversions and translations move every point as documented, about the given centre; the induced map of sites sends each site to the site at its image modulo the periods and transformations that do not map sites to sites are rejected. "
     "The site cycles partition the sites, each cycle follows the map, and the reported length is the smallest number of applications that restores every site.",
     [IN, CF], "all transformations (any order, axis, centre, vector) and all geometries with or without periods",
     "Tests use 90-degree rotations and unit translations of a few squares.",
     [S], [("getRotFn, getReflFn, getInversionFn, getTranslFn, getTransformedSites, findSiteCycles", S)], ["ed_symmetry"])
prop("C05", "Site relabelling acts on states as the unitary moving each operator",
     "For every permutation of sites given as cycles, for fermions of any species number (with exchange signs) and spins of any length, the state-space operator is the signed permutation matrix U with U a(site) U+ = a(image) and U|vacuum>=|vacuum>; the same holds for the two-site swap operator of one species and the up-down exchange of spins. "
     "The arguments are not modified.",
     [IN], "all permutations in any cycle presentation, all system sizes and species numbers",
     "Tests check translations of small chains through spectra only, which do not see sign errors in many sectors.",
     [B, F, SP], [("get_xform_op", B), ("get_swap_op", F), ("get_swap_op, get_swap_up_down_op", SP)], ["get_xform_op", "get_swap_op"])
prop("C06", "Site operators, sums and basis labels follow one ordering convention",
     "Single-site, two-site, summed (plain and with momentum phases) and all-site operators equal the documented tensor products, with the documented fermionic ordering and signs, for any local operators, sites, species and local dimension; basis-state labels, parities, logical-site indices and the named special states agree with the same convention. "
     "Spin matrices are the standard ones for every spin, and unknown formats are rejected.",
     [IN], "all local operators, site/species pairs (either order, equal sites), formats, local dimensions",
     "Tests check a few commutators on two or three sites.",
     [B, F, SP], [("get_single_site_op, get_two_site_op, get_sum_op, get_sum_op_q", B), ("get_state_vects", F), ("find_special_states, get_npairs_op, get_allsite_op, get_splus...", SP)],
     ["get_single_site_op", "get_two_site_op", "get_state_vects"])
prop("C07", "The fermion Hamiltonian is exactly the documented lattice model",
     "For every geometry, number of species and every admissible form of the hopping, interaction, chemical-potential and potential arguments, the Hamiltonian and each of its separate terms equal the documented sum of hopping, interspecies, same-species, chemical and potential terms in the documented basis, including boundary twists, restricted by any projector that is supplied. "
     "Arguments of an inadmissible shape and hopping numbers that are not real are rejected, and arguments are not modified.",
     [IN, CF], "all parameter forms (number, per species, per site, full array), geometries, twists, projectors",
     "Tests compare eigenvalues of a few uniform chains; site- and species-dependent parameters and twists are not compared with anything.",
     [F], [("fermions.__init__, createH, get_kinetic_op, get_u_*_op, get_potential_op, get_chemical_pot_op", F)], ["fermions.createH"])
prop("C08", "The spin Hamiltonian is exactly the documented spin model",
     "For every geometry without boundary twist, spin length and every admissible form of couplings and fields (number, per site, per bond along a ring, matrix), the Hamiltonian is the documented sum of 2 J^a S^a S^a over pairs of distinct sites minus h^a S^a over sites, with the optional detuning that turns the z coupling into an interaction of excitations, restricted by any projector supplied. "
     "Inadmissible shapes are rejected.",
     [IN, CF], "all coupling and field forms, geometries, spins, projectors",
     "Tests compare Ising chains with uniform couplings of spin one half.",
     [SP], [("spinSystem.__init__, createH, get_interaction_mat, get_field_mat, get_rydberg_detunes", SP)], ["spinSystem.createH"])

prop("C09", "Particle-number and eigenvalue sectors select exactly their subspace",
     "For every requested particle number of any species (or none) the number projector has exactly the basis states with those numbers as rows, so sectors over all number combinations partition the basis; impossible numbers give an empty sector. "
     "Subspace projectors of a diagonal operator contain exactly the basis states of each eigenvalue (all eigenvalues in order, or the requested ones), and subspace overlaps are the squared norms of the projected states.",
     [IN], "all number combinations, species numbers, diagonal operators, requested eigenvalues, states",
     "Tests use projectors only to compare spectra of one or two half-filled sectors.",
     [F, B], [("get_particle_number_projs", F), ("get_subspace_projs, get_subspace_overlaps", B)], ["fermions.n_projector", "get_subspace_projs", "get_subspace_overlaps"])
prop("C10", "Symmetry projectors are exactly the irreducible subspaces",
     "For every unitary representation (permutations with signs or phases) of a cyclic, two-translation, dihedral (2 to 7), 3x3-torus or any finite group given by its classes and character table, the returned projectors have orthonormal rows that span exactly the isotypic subspaces of the irreducible representations (labelled by the returned wave vectors, or in the documented order), so together they form a complete basis. "
     "Character tables that violate the orthogonality relations for the supplied classes are rejected.",
     [IN, CF], "all lattice clusters and number sectors that carry the group, and abstract permutation representations with signs or phases",
     "Tests compare spectra with and without symmetry for one cluster, which cannot see wrong classes or characters that merely split or merge sectors.",
     [S], [("getZnProjectors, get2DTranslationProjectors, getD2..D7Projectors, getC4V_and_3byb3", S), ("get_symmetry_projectors, validate_char_table, reduce_projectors", S)],
     ["getZnProjectors", "getDnProjectors", "getC4V_and_3byb3"])

prop("C11", "Diagonalising sector by sector reproduces the full spectrum, resolved by irrep",
     "For every lattice symmetry (translations, rotations, reflections of chains, polygons, rectangles, square tori and tilted clusters) and every fixed-number sector of a fermion or spin-half model, building the symmetry operators from site cycles, the projectors and the projected Hamiltonians gives sectors that do not couple. "
     "Each sector's energies are exactly the part of the full spectrum carrying that irreducible representation, including fermionic signs, so the union over sectors is the full spectrum with multiplicities.",
     [IN], "all supported symmetry groups, particle numbers, numbers of species, couplings and sectors",
     "The existing tests compare the union of spectra for a few clusters; which states fall in which sector and every other cluster, filling and species count are unchecked.",
     [B, S], [("createH with projector, diagH, get_xform_op", B), ("findSiteCycles, get*Projectors", S)], ["get_xform_op", "getZnProjectors", "createH"])
prop("C12", "Diagonalisation, expectation values and time evolution are exact linear algebra",
     "Diagonalising any Hermitian matrix returns real ascending eigenvalues with orthonormal eigenvectors satisfying H v = E v (all of them, or the requested number in sparse mode); norms, overlaps, expectation values and matrix elements equal <v|v>, <a|b>, Re<v|O|v> and <a|O|b> for dense, sparse or one-dimensional states. "
     "Quench evolution returns V exp(-iEt) V+ psi for every initial state and every time, in any order of the eigenpairs and whether or not they span the space, as an array indexed by basis state, time and initial state. "
     "No argument is modified.",
     [IN], "all Hermitian matrices, operators, states in every admissible container, times (scalar or array, negative, zero)",
     "Tests only evolve one state of one model; degenerate, complex, sparse, several-state and partial-basis cases are not reached.",
     [B], [("diagH, quench_time_evolve", B), ("get_exp_vals, get_overlaps, get_norms, get_matrix_elems", B)], ["diagH", "quench_time_evolve", "get_overlaps"])
prop("C13", "Thermal weights, partition functions and averages, also across sectors",
     "For every spectrum and temperature, including zero (degenerate ground states share the weight) and infinite, the weights are Boltzmann weights, the partition function is their sum and thermal averages are the weighted means; several temperatures at once equal each one separately. "
     "Partition functions of symmetry sectors are taken relative to the common ground energy and combining sector averages gives the average over the union, ignoring undefined values of sectors without weight; the partition function from a Hamiltonian equals the one from its spectrum.",
     [IN], "all sorted spectra with degeneracies, temperatures, sector decompositions and value shapes",
     "Tests use generic temperatures of one model; degenerate ground states across sectors at zero temperature and array shapes are not sampled.",
     [B], [("get_thermal_weights, get_exp_vals_thermal", B), ("get_partition_fn_sectors, thermal_avg_combine_sectors, get_partition_fn_hamiltonian", B)],
     ["get_thermal_weights", "get_exp_vals_thermal", "thermal_avg_combine_sectors"])
prop("C14", "Site observables and correlators in full, projected and thermal states",
     "Expectation values of a local operator on each site and correlators of two local operators on each pair of sites equal Re<phi|O|phi> with phi the state lifted from the projected to the full space, with the fermionic string when the fermion format is used, for every list of sites (default: all sites, each unordered pair once) and every number of states. "
     "The thermal versions are the Boltzmann averages of those values at each temperature. No argument is modified.",
     [IN], "all models, local operators, species, site lists, projectors, states, spectra and temperatures",
     "Tests check densities and spin correlators of one ground state; strings across species, projected complex states, several states and several temperatures are not reached.",
     [B], [("get_exp_vals_sites, get_corr_sites", B), ("get_thermal_exp_sites, get_thermal_corr_sites", B)],
     ["get_exp_vals_sites", "get_corr_sites", "get_thermal_corr_sites"])

prop("C15", "Current operators, response functions and optical conductivity",
     "For every geometry, hopping matrix, twist and direction the current operator is i times the sum over hops of the hopping amplitude times the displacement along that direction, with fermionic signs. "
     "The retarded response, optical conductivity and its integral equal their Lehmann sums with Lorentzian broadening for every spectrum, operator pair, frequency, width and temperature (commutator or anticommutator), leaving arguments unmodified.",
     [IN], "all geometries and hoppings for the current, all spectra with degeneracies, Hermitian and non-Hermitian operators, frequencies, widths and temperatures for the responses",
     "The tests never evaluate the current operator nor any response function against an independent value.",
     [F, B], [("get_current_op, get_optical_cond_fn, integrate_conductivity", F), ("get_response_fn_retarded", B)],
     ["fermions.get_current_op", "get_response_fn_retarded", "fermions.get_optical_cond_fn"])
prop("C16", "Cluster enumeration is complete, unique and correctly counted",
     "Growing any list of clusters by one site returns every connected cluster containing one of them plus a site exactly once, up to translation (and the point group when symmetry is used), each with its number of distinct point-group images (one without symmetry) as multiplicity. "
     "The full enumeration to any order equals all connected clusters of the lattice with orders delimited by the returned edges; the symmetry partners of a cluster are exactly its distinct images under the point group.",
     [IN], "all starting clusters, lattice vectors, symmetry on or off, and orders",
     "Tests compare only the number of clusters per order; identity, representatives and multiplicities of individual clusters are not checked.",
     [N], [("get_clusters_next_order, get_all_clusters", N), ("get_clusters_rel_by_symmetry", N)],
     ["get_clusters_next_order", "get_all_clusters", "get_clusters_rel_by_symmetry"])
prop("C17", "Subclusters and their embedding counts are exact",
     "For every open cluster the reported subclusters are exactly its connected subsets of each smaller size, up to translation (and point group when symmetry is used), and the embedding matrix counts how many times each occurs in each parent. "
     "Reducing or mapping lists of clusters identifies exactly the equivalent ones, preserving counts, and the table of all clusters with their subclusters agrees with the enumeration and with the counts of each cluster alone.",
     [IN], "all open clusters, orders, symmetry on or off, lists with repeated and equivalent clusters",
     "Tests compare one table of two small orders; arbitrary parents, lists with equivalents, and the table without symmetry are not reached.",
     [N], [("get_subclusters_next_order, get_all_subclusters, get_all_clusters_with_subclusters", N), ("reduce_clusters_by_geometry, get_reduced_subclusters, map_between_cluster_bases", N)],
     ["get_all_subclusters", "get_all_clusters_with_subclusters", "get_reduced_subclusters"])
prop("C18", "Linked-cluster weights and resummation are the exact recursion",
     "For every table of cluster values, embedding counts, multiplicities and orders, weights are the value minus the weighted weights of all subclusters, the expansion at each order is the multiplicity-weighted sum of weights, and values of any shape are treated entry by entry. "
     "For a finite cluster the weights of all its subclusters sum to its own value, and Euler resummation with any parameter y returns the transform sum_j C(i,j) y^(j+1)/(1+y)^(i+1) x_j of the order contributions, and its sum.",
     [IN], "all value arrays and shapes, subcluster tables, order edges and resummation parameters",
     "Tests sample one property on one lattice; nothing checks the recursion against arbitrary tables or array shapes.",
     [N], [("get_nlce_exp_val", N), ("euler_resum", N)], ["get_nlce_exp_val", "euler_resum"])

prop("C19", "The non-interacting Fermi gas equals its exact momentum sums",
     "For every inverse temperature (zero and, where a limit exists, infinite included), chemical potential, system size and dimension, scalar or arrays, the occupations and their derivatives, momentum- and real-space Green's functions, density, compressibility, density, singles, doubles and spin correlators and density response equal the exact sums over the allowed momenta. "
     "The chemical potential found for a density at finite temperature reproduces it, momentum grids contain every allowed momentum once, and densities of states are the normalised level counts.",
     [IN], "all temperatures, chemical potentials, sizes, dimensions, separations, times, wave vectors, frequencies and widths",
     "The tests compare two numbers of the Fermi gas; derivatives, Green's function types, correlators, responses and array arguments are never evaluated.",
     [FG], [("fermi, fermi_derivatives, get_allowed_kvects, get_dos", FG), ("fg_kspace_gfns, fg_realspace_gfn, fg_density, fg_mu", FG), ("fg_corr, fg_singles_corr, fg_doubles_corr, fg_sx_corr, fg_density_response", FG)],
     ["fg_realspace_gfn", "fg_mu", "fg_density_response"])
prop("C20", "Green's function transforms are the defining sums",
     "Matsubara frequencies are exactly the odd (fermion) or even (boson) multiples of pi/beta below the cutoff; imaginary-time and -frequency Green's functions computed from a spectral function on any frequency grid, their kernels, the Fourier transforms between time and frequency, and real-time responses equal the trapezoidal integrals or sums that define them. "
     "The analytic non-interacting Green's functions, spectral function and hydrodynamic responses equal their closed forms, and unknown statistics are rejected.",
     [IN], "all grids (also non-uniform), temperatures, times, frequencies, spectral functions and response parameters",
     "No test of the repository calls these functions with independent expected values on non-uniform grids or for bosons.",
     [GF], [("get_matsubara_frqs, get_grnfn_*_spectralfn and kernels", GF), ("grnfn_imagtime_ft, grnfn_imagfrq_ft", GF), ("get_noninteracting_*, chi_hydro, phi_t, obs_kt", GF)],
     ["get_grnfn_imagtime_spectralfn", "grnfn_imagtime_ft", "get_matsubara_frqs"])

prop("C21", "Saved models load back unchanged; queries and other objects do not interfere",
     "After any history of constructing, changing parameters of, querying, saving and loading models through pickle files, every model's Hamiltonian, particle-number projector, sizes, site positions, neighbours and phases are exactly what that history gives it: loading (also in another process) reproduces the model as it was when saved, for every number of species. "
     "Building Hamiltonians or operators, diagonalising and taking expectation values change neither that model nor any other, saving creates exactly the named file (or a fresh .pkl when no name is given), and unknown extensions or missing files are rejected without effect on objects or files.",
     [HI], "all finite histories of operations on several live models and files",
     "No test saves a model and loads it back, and none queries an object twice in different orders.",
     [B, F, SP], [("save, load", B), ("constructors, attributes shared between models", F), ("createH, diagH and operator builders (must not modify the model)", B)],
     ["ed_base.save", "ed_base.load", "createH after other calls"])

prop("C22", "Batch cluster jobs join to the same expansion in every schedule",
     "Running the batch scripts (generate the clusters; one subcluster job and one diagonalisation job per cluster, in any order and repeated at will; the two aggregations) through their files gives the complete list of inequivalent clusters with multiplicities, the exact embedding counts, and from the stored cluster values the exact linked-cluster weights, orders, sums and Euler resummations. "
     "A job writes only its own output file and is rejected when an input file is missing, in particular both aggregations while any cluster's file is missing; generating again leaves the existing file as it is and reports the same number of clusters. "
     "Each diagonalisation job stores the spectrum and the thermal energy, entropy, specific heat and summed spin correlations of its own cluster of the spin-half Heisenberg model, the sum of S.S over bonds.",
     [SC, HI], "all schedules of jobs with repetitions, premature jobs and lost files; all expansion orders",
     "No test runs the scripts; whether results depend on the order of jobs, on file-name sorting or on missing files can only be seen over schedules.",
     ["cluster/generate_clusters_no_subs.py", "cluster/generate_clusters.py", "cluster/find_subclusters.py", "cluster/aggregate_subclusters.py", "cluster/diag_cluster.py", "cluster/aggregate_results.py"],
     [("generate_clusters_no_subs, generate_clusters", "cluster/generate_clusters_no_subs.py"), ("find_subclusters, aggregate_subclusters", "cluster/aggregate_subclusters.py"),
      ("diag_cluster, aggregate_results", "cluster/aggregate_results.py")],
     ["the files the scripts write", "aggregate_results"])

prop("C23", "Calculations leave their inputs alone and do not depend on history",
     "Apart from the documented mutators (permuting the sites of a geometry, loading a saved object), no calculation changes the geometry, model, operators, states, spectra or tables it is given or holds, and a question asked at any point of a session gets the answer that freshly built objects would give in a new process, whatever was calculated before with the same or other objects. "
     "Overwriting an array a calculation returned disturbs neither those objects nor any later answer.",
     [HI], "all interleavings of calculations on several live geometries, models, operators, states, symmetry tables, clusters and gases",
     "Every test builds its own objects and asks each question once; stale caches, in-place arithmetic on arguments and shared result storage show only over histories.",
     [G, S, B, F, SP, N, FG, GF], [("module and instance state, in-place arithmetic, returned references", B), ("reduce_vectors, transformed sites", G), ("projector tables", S)],
     ["any two calls of the public interface in one process"])

TECH = "TLA+ specification: TLC model checking of the spec modules plus TLC trace validation of recorded calls of the real code"
NOTE = ("TLC evaluates the specification's own definition of the expected result for every recorded call of the real code and names the violated clause; "
        "bounded by the inputs driven (enumerated small configurations plus seeded random ones). Trusted: the integer encoding of inputs and outputs in the harness.")


def main():
    (V / "properties.jsonl").write_text("".join(json.dumps(p[0]) + "\n" for p in P))
    checks = [{"property": p["id"], "quick_cmd": "python3 harness/check.py %s quick" % p["id"],
               "thorough_cmd": "python3 harness/check.py %s thorough" % p["id"],
               "evidence_file": "evidence/%s.json" % p["id"], "technique": t or TECH, "level": "model_checking",
               "level_note": n or NOTE} for p, t, n in P if p["id"] not in {x["property"] for x in NA}]
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": NA,
         "notes": "No hooks in /repo: everything is observed through the public interface."}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
