"""Single source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json
import os

TECH = "symbolic execution of the real Python code, obligations decided by z3, counterexamples replayed on the unpatched code"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, claimed=True):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why,
               "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": observe or [], "hook_needed": None}}, note, claimed))


PIMC = "pibronic/pimc/pimc.py"

prop("C01", "Every stored sample carries the exact importance ratio g/rho",
     "For every vibronic model, sampling model and configuration drawn, the stored numerator divided by the stored denominator of a "
     "sample equals Tr prod_p exp(-tau V(R_p)) O(R_p,R_p+1) divided by the sum over all states of the sampling model of its harmonic "
     "path weight at the same R. Sampling models with fewer or more surfaces than the vibronic model are included.",
     ["inputs", "configurations"], "all real model parameters, temperatures and draws, for the bounded numbers of states, modes, beads and samples",
     "the tests compare a few model instances with stored Julia numbers at loose tolerances; one parameter or state left out of one term can vanish there",
     [PIMC], [("block_compute", PIMC), ("build_o_matrix / build_rho_o_matrix", PIMC), ("diagonalize_coupling_matrix", PIMC),
              ("build_numerator / build_denominator", PIMC)],
     "bounded: A<=3 (4 thorough), N<=3, P<=6 (8 thorough), Ar<=3, <=5 samples; real arithmetic", ["s_g, s_rho of the result file"])

prop("C02", "g at shifted inverse temperatures is g with only beta replaced",
     "In a run with finite differences every stored g+ and g- equals the same path weight evaluated at the same configuration with the "
     "inverse temperature replaced by beta plus or minus the step everywhere, while g and rho stay those of the unshifted run.",
     ["inputs", "configurations"], "all real model parameters, temperatures, steps and draws within the bounded sizes",
     "the tests never compare the shifted weights with an independent evaluation",
     [PIMC], [("BoxDataPM.preprocess", PIMC), ("block_compute_pm", PIMC)],
     "bounded: A<=3, N<=2, P in 3,4, Ar<=3, <=6 samples; real arithmetic", ["s_gP, s_gM of the result file"])

prop("C03", "Configurations are drawn from the normalised sampling density",
     "The mixture component of a sample is drawn with the exact Boltzmann weight of that state of the sampling model, and given the state "
     "the drawn coordinates have the mean and the bead covariance of that state's harmonic path density.",
     ["inputs", "configurations"], "all real sampling models and temperatures within the bounded sizes; the random source is arbitrary",
     "a distribution cannot be settled by a finite number of draws; the tests do not look at it",
     [PIMC], [("BoxData.generate_random_R_values / preprocess", PIMC), ("ModelSampling", PIMC)],
     "bounded: Ar<=4, N<=3, P<=6 (8 thorough), <=9 samples; real arithmetic")

prop("C04", "Blocking never changes the samples, and every sample is saved once",
     "For the same random draws, a job split into blocks stores exactly the samples of the unsplit job, one value per sample and quantity. "
     "The single result file is named by beads, temperature and job and records the sample count and both model hashes.",
     ["inputs", "configurations"], "all models and draws, several splits into blocks",
     "the tests run one block layout and never compare two", [PIMC],
     [("block_compute / block_compute_pm", PIMC), ("BoxResult.save_results", PIMC)],
     "bounded: A<=3, N<=2, P in 3,4, <=12 samples, <=4 blocks; real arithmetic", ["the result file"])

prop("C05", "Training data g(R), rho(R) belong to the coordinates they are listed with",
     "When g and rho are evaluated at coordinates supplied by the caller, the values returned for a sample are those of the defining "
     "formulas at exactly that sample's coordinates, whatever sampling model is used.",
     ["inputs", "configurations"], "all models, temperatures and coordinates within the bounded sizes",
     "the existing tests only check that the functions run", [PIMC],
     [("block_compute_gR_from_input_samples / block_compute_rhoR_from_input_samples", PIMC)],
     "bounded: A<=3, N<=2, P in 3,4, Ar<=3, <=4 samples; real arithmetic")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s --tier quick" % p["id"].lower(),
                     "thorough_cmd": "./check.sh %s --tier thorough" % p["id"].lower(),
                     "technique": TECH, "level": "other", "level_note": note} for p, note, c in P if c],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
