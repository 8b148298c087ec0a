"""Writes vc/levels.json: the level and note of every property decided (at least in part) by discharged obligations."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (obligations generated from the real source by symbolic execution, discharged by z3/cvc5)"
TRUST = (" Trusted: the extraction and numpy stand-ins, the sum and loop rules, z3/cvc5; floats are real numbers. Obligations a changed source takes"
         " out of the verifier's reach are listed as undecided; the runtime-checked contracts (bounded, seeded) then stand in and always run as well.")
FULL = {
 "C04": "All obligations discharged for every number of species, rate and dwell time, through the real TrapManager constructor.",
 "C06": "All obligations discharged for every parameter, time and electron number.",
 "C07": "All obligations discharged for every number of phases, parameter and electron number.",
 "C09": "All obligations discharged for every window, offset, number of transfers or pumps and express value, real and integer multipliers (loops over a "
        "symbolic number of passes by invariant; trap pumping of one pixel). The time-window default of add_cti (known finding F4) is outside these functions. ",
 "C10": "All obligations discharged for every matrix of multipliers and every window (contract of the restriction, partition lemma by induction), and the "
        "matrices of standard readout and charge injection are proved to be the unrestricted ones, restricted by that contract; serial clocking is proved to take each row exactly once. ",
 "C11": "All obligations discharged for every number of phases, steps, pixels and transfers, express matrix and clock direction. ",
 "C18": "All obligations discharged for every date (a real number) after launch, both temperatures and every amplitude of the preset.",
}
ALLM = ("Every obligation of the updates of all three trap managers discharged, function by function against contracts that are themselves proved "
        "from the callees' bodies, for every physical state, number of levels, species and rows, every cloud, well-filling function and probabilities. "
        "Continuum species: for every decay law that is positive, strictly falling from 1 and inverted by its inverse (its inverse is proved to be one, given scipy's root search; the quadratures are bounded, see C23). ")
CLOCK = ("The clocking loop nest is proved, by loop invariants against the contract of the trap managers, for every image, window, offset, express "
         "matrix, number of phases and steps: ")
PART = {
 "C01": ALLM, "C02": ALLM, "C03": ALLM, "C05": ALLM,
 "C21": "The time-tracking manager's run is proved to correspond, call by call, to the instant-capture manager's, for every state, cloud and species. ",
 "C08": "The multiplier and monitoring matrices of a standard readout are proved, by contract, for every window, offset and express value, real and integer multipliers, first transfers separate or not. ",
 "C12": "The clocking nest is proved to leave everything outside its windows as it was (frame condition), for every image size, window, clock plan and trap manager contract; and add_cti/remove_cti to pass the windows on. ",
 "C13": CLOCK + "the image's charge plus the traps' is conserved, and no pixel goes negative. ",
 "C14": CLOCK + "a pixel's result does not depend on anything read out after it, and with express 0 is that of the image cropped there (multipliers and monitored pixels of the two proved to agree). ",
 "C15": CLOCK + "each column's result depends on that column alone, and an empty column does nothing; the matrices of a readout are proved to leave the readout object as it was, so that nothing is kept from one readout to the next. ",
 "C16": "The whole of add_cti is proved against the contract of the clocking function: serial clocking is parallel clocking of the transposed image, and both directions compose. ",
 "C17": "remove_cti is proved, by loop invariant, for every number of iterations, to be the fixed-point iteration over add_cti's contract. ",
 "C19": "Held charge, saving, restoring and emptying of managers in up to three phases and two groups are proved for any number of species and any state, "
        "over histories of any length, by induction: each operation, from an arbitrary live and saved state, leaves the right states and objects that are built alike "
        "(updates represented by arbitrary changes of the arrays); more phases and groups are bounded. ",
 "C22": "Two managers whose species correspond (in any order, split into any parts) are proved to return the same and to stay corresponding, for every state and cloud, with "
        "finite and instant capture; the time-tracking manager of ordinary species then follows from C21. A species of no density, with any fills, is proved to add nothing to the "
        "electrons held and to leave the others' probabilities; that whole updates with it are the same, and continuum species, are bounded. ",
 "C23": "Under assumed contracts of scipy's quad (the integral of its integrand) and root searches: the fill fraction is the integral of density times decay, "
        "releases are differences of fill fractions, the log-normal density is the textbook one, and the elapsed time inverts the fill fraction, for every density, "
        "median, width and time. That the quadrature is accurate is bounded (log-normal and gamma densities, widths up to 2.5, times up to 300 medians; one known finding beyond). ",
 "C20": ALLM + CLOCK + "the arguments' state is as it was after every call. ",
 "C25": CLOCK + "the nest refines its specification step by step, including the readout's own bookkeeping. ",
}
out = {}
for k, v in FULL.items():
    out[k] = {"level": "proof", "technique": TECH, "note": v + TRUST}
for k, v in PART.items():
    out[k] = {"level": "proof", "technique": TECH + "; bounded runtime contracts for the rest", "note": v + TRUST}
json.dump(out, open(os.path.join(HERE, "vc", "levels.json"), "w"), indent=1)
