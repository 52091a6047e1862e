"""Which specification, model-checking runs and driver decide each property."""
FLOAT = "floating-point results are compared after scaling to an integer grid (tolerance about 1e-6 of a grid unit)"
PROPS = {
    "C01": {"driver": "c01", "mc": [{"module": "MC_Lattice", "cfg": "MC_Lattice.cfg", "cfg_thorough": "MC_Lattice_big.cfg",
                                     "workers": 2}],
            "assumptions": [FLOAT, "coordinates up to a few tens of lattice constants"]},
    "C02": {"driver": "c02", "mc": [{"module": "MC_Lattice", "cfg": "MC_Lattice.cfg", "cfg_thorough": "MC_Lattice_big.cfg",
                                     "workers": 2}],
            "assumptions": [FLOAT]},
    "C03": {"driver": "c03", "gen": [{"module": "Gen_C03", "cfg": "Gen_C03.cfg", "cfg_thorough": "Gen_C03_big.cfg", "out": "c03.json"}],
            "assumptions": [FLOAT]},
    "C04": {"driver": "c04", "mc": [{"module": "MC_Transform", "cfg": "MC_Transform.cfg", "cfg_thorough": "MC_Transform_big.cfg", "workers": 2}], "assumptions": [FLOAT]},
    "C05": {"driver": "c05", "mc": [{"module": "MC_Fock", "cfg": "MC_Fock.cfg", "cfg_thorough": "MC_Fock_big.cfg", "workers": 2}],
            "assumptions": [FLOAT, "every column up to 7 logical sites (81 states for spins above one half); sampled columns up to 12 logical sites, 5 species"]},
    "C06": {"driver": "c06", "mc": [{"module": "MC_Fock", "cfg": "MC_Fock.cfg", "cfg_thorough": "MC_Fock_big.cfg", "workers": 2}],
            "assumptions": [FLOAT, "every matrix element up to 6 two-state sites or 81 basis states; sampled columns for larger systems (up to about 10 logical sites)"]},
    "C07": {"driver": "c07", "mc": [{"module": "MC_Fock", "cfg": "MC_Fock.cfg", "cfg_thorough": "MC_Fock_big.cfg", "workers": 2}],
            "assumptions": [FLOAT, "couplings are multiples of 1/4 and link phases multiples of a quarter turn; every matrix element up to 7 logical sites, sampled columns up to 11"]},
    "C08": {"driver": "c08", "mc": [{"module": "MC_Spin", "cfg": "MC_Spin.cfg", "cfg_thorough": "MC_Spin_big.cfg", "workers": 2}],
            "assumptions": [FLOAT, "couplings are multiples of 1/4, no boundary twist, every matrix element up to 125 basis states and sampled columns of larger systems (spins up to 5/2)"]},
    "C09": {"driver": "c09", "assumptions": [FLOAT, "every sector up to 8 two-state sites; row sets of larger systems (to 4 species)"]},
    "C10": {"driver": "c10", "mc": [{"module": "MC_Groups", "cfg": "MC_Groups.cfg"}], "assumptions": [FLOAT, "projectors are compared to 3e-5; representations of dimension at most 130"]},
    "C12": {"driver": "c12", "mc": [{"module": "MC_Algebra", "cfg": "MC_Algebra.cfg", "cfg_thorough": "MC_Algebra_big.cfg", "workers": 2}], "assumptions": [FLOAT, "states of dimension at most 16; evolution times are multiples of a quarter period of integer energies"]},
    "C13": {"driver": "c13", "mc": [{"module": "MC_Algebra", "cfg": "MC_Algebra.cfg", "cfg_thorough": "MC_Algebra_big.cfg", "workers": 2}], "assumptions": [FLOAT, "integer energies and inverse temperatures that are multiples of ln 2, zero and infinite temperature"]},
    "C14": {"driver": "c14", "mc": [{"module": "MC_Fock", "cfg": "MC_Fock.cfg", "cfg_thorough": "MC_Fock_big.cfg", "workers": 2}], "assumptions": [FLOAT, "systems of at most 64 basis states, integer operators and states"]},
    "C11": {"driver": "c11", "mc": [{"module": "MC_Groups", "cfg": "MC_Groups.cfg"}], "assumptions": [FLOAT, "power sums of sector spectra up to the third, sectors of at most 81 states, integer couplings without boundary twist"]},
    "C15": {"driver": "c15", "mc": [{"module": "MC_Response", "cfg": "MC_Response.cfg", "cfg_thorough": "MC_Response_big.cfg", "workers": 2}], "assumptions": [FLOAT, "integer energies, half-integer frequencies and widths, inverse temperatures that are multiples of ln 2; responses compared to 2e-4"]},
    "C16": {"driver": "c16", "mc": [{"module": "MC_Cluster", "cfg": "MC_Cluster.cfg", "cfg_thorough": "MC_Cluster_big.cfg", "workers": 2}], "assumptions": [FLOAT, "clusters of the square lattice and of chains with integer coordinates, at most 8 sites (complete enumeration to order 5, thorough 6)"]},
    "C17": {"driver": "c17", "mc": [{"module": "MC_Cluster", "cfg": "MC_Cluster.cfg", "cfg_thorough": "MC_Cluster_big.cfg", "workers": 2}], "assumptions": [FLOAT, "open clusters of the square lattice with at most 6 (thorough 9) sites; complete tables to order 5 (thorough 6)"]},
    "C18": {"driver": "c18", "mc": [{"module": "MC_Cluster", "cfg": "MC_Cluster.cfg", "cfg_thorough": "MC_Cluster_big.cfg", "workers": 2}], "assumptions": [FLOAT, "integer cluster values; Euler parameters y in {1, 2, 3, 1/2}"]},
    "C19": {"driver": "c19", "mc": [{"module": "MC_FermiGas", "cfg": "MC_FermiGas.cfg", "cfg_thorough": "MC_FermiGas_big.cfg", "workers": 2}], "assumptions": [FLOAT, "rings and square tori of 2, 3, 4 or 6 sites per direction, inverse temperatures that are multiples of ln 2 or infinite, integer or half-integer chemical potentials; values compared to 4e-4"]},
    "C20": {"driver": "c20", "mc": [{"module": "MC_Greens", "cfg": "MC_Greens.cfg", "cfg_thorough": "MC_Greens_big.cfg", "workers": 2}], "assumptions": [FLOAT, "integer grids and energies; inverse temperatures and imaginary times that are multiples of ln 2, or quarter-turn phases; values compared to about 1e-4"]},
    "C21": {"driver": "c21", "gen": [{"module": "Gen_C21", "cfg": "Gen_C21.cfg", "cfg_thorough": "Gen_C21_big.cfg", "out": "c21.json"}], "assumptions": [FLOAT, "models of at most 16 basis states; files in the pickle format", "histories of length 3 (thorough 4) enumerated by TLC, sampled, plus random ones of length up to 10"]},
    "C22": {"driver": "c22", "gen": [{"module": "Gen_C22", "cfg": "Gen_C22.cfg", "cfg_thorough": "Gen_C22_big.cfg", "out": "c22.json"}],
            "mc": [{"module": "MC_Pipeline", "cfg": "MC_Pipeline.cfg", "cfg_thorough": "MC_Pipeline_big.cfg", "workers": 2}],
            "assumptions": [FLOAT, "jobs run one at a time, each to completion; orders up to 4 (thorough 5)",
                            "Boltzmann factors and logarithms of diagonalised clusters are tabulated by the driver; their spectra are tied to exact sector traces (powers 1 to 4) in the specification"]},
    "C23": {"driver": "c23", "gen": [{"module": "Gen_C23", "cfg": "Gen_C23.cfg", "cfg_thorough": "Gen_C23_big.cfg", "out": "c23.json"}],
            "mc": [{"module": "Gen_C23", "cfg": "MC_Session%d.cfg" % k} for k in (1, 2, 3)],
            "assumptions": [FLOAT, "answers are compared to 3e-5; eigenvectors are not compared (they are determined only up to phases)",
                            "fresh answers come from forks of a process that has imported the package and computed nothing"]},
}
