"""the oracle of every property, written down independently of the code"""
NOTES = {
 "C01": "for the configuration R reconstructed from the draws: g = Tr prod_p expm(-tau V(R_p)) diag_a O_a(R_p, R_p+1), rho = sum_a w_a prod_p O_a with O the harmonic path kernel with coth and csch of tau*omega written down separately; expm is the keyed eigen-decomposition of the coupling matrix built by the harness. g/rho is compared, because the package may scale both by one positive number.",
 "C02": "the oracle of C01 with tau replaced by (beta +- delta)/P everywhere in g, the denominator unchanged.",
 "C03": "for a model equal to one component: the exponent of the stored density at the drawn point must be -sum z^2/2 of the standard normal draws; component probabilities must be exp(-beta E_a) prod 1/(2 sinh(beta w/2)) normalised.",
 "C04": "the same draws sampled as one block; names and contents of the file from the parameters.",
 "C05": "the oracle of C01 at the coordinates in the file.",
 "C06": "the textbook definitions of sample mean, standard error and finite differences of ln Z, written out; a square root is compared by its square and sign.",
 "C07": "explicit leave-one-out estimates from the definitions of C06, pseudo values and their sample variance.",
 "C08": "the multiset of rows written, each recognised by its distinct numerator; min(available, requested).",
 "C09": "which files carry both current hashes is a symbolic Boolean; exactly their rows may occur in the output.",
 "C10": "the table the file should hold after a call: old entries of the same model plus the new one under its temperature.",
 "C11": "the dictionary that was saved, restricted to the parameters which are not zero, expanded by zeros of the documented shape.",
 "C12": "explicit expressions for the diagonal, ground-state shifts and eigenvalues; symmetry of the filled arrays.",
 "C13": "U M U^T by explicit triple sums over the backup.",
 "C14": "the entry of the table with the largest distance not above strength times the largest distance (or the one within closeness), and monotony of the selection in the strength.",
 "C15": "the numbers the name was made from.",
 "C16": "a fresh FileStructure with the same root and ids; injectivity of paths in ids and kinds.",
 "C17": "integer arithmetic: jobs*blocks*block_size >= requested, minimal number of jobs, blocks complete; the recorded command holds the parameters.",
 "C18": "the parameters put in; a token per number shows which number came out.",
 "C19": "the numbers written to the file by the harness, symmetrised in the surfaces.",
 "C20": "the statistics of C06/C07 of the rows of exactly that pair.",
 "C21": "an automaton of the nine steps: which step may follow which recorded state, with which inputs.",
 "C22": "the lines written by the harness; counts and cutoffs by explicit comparison.",
 "C23": "an automaton over the answers of the queueing system.",
 "C24": "ranges and symmetry of every element, independence of draws by identity of the symbolic draws.",
 "C25": "the numbers written to the files by the harness, assigned to modes by position.",
 "C26": "for each report: its own value at its own key; percent deviations by the defining formula.",
 "C27": "the numbers written to the file by the harness.",
 "C28": "the oracles of C01, C02 and C06 chained: rows at the result files of every job, then their statistics in the report.",
 "C29": "the stretches of grid points whose distance is at least every earlier one, found again from the free distances; rows at recomputed x.",
 "C30": "the stored models themselves; a sign is decided by z3 on the path of the image.",
}
