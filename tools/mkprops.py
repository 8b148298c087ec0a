#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts live)."""
import json, os
TM="arcticpy/trap_managers.py"; TU="arcticpy/trap_managers_utils.pyx"; MU="arcticpy/main_utils.pyx"
MA="arcticpy/main.py"; RO="arcticpy/roe.py"; CC="arcticpy/ccd.py"; TR="arcticpy/traps.py"; UT="arcticpy/util.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
W=("watermarks","occupied depth levels of a pixel's traps: fractional volume and fill fraction (or time since filling) per species","TrapManager.watermarks in "+TM)
UPD=[("n_electrons_released_and_captured of the slow-capture, instant-capture and time-tracking managers",TM),("cy_* kernels",TU)]
p("C01","Trap updates account for every electron",
 "Whenever a group of trap species is exposed to a charge cloud for some dwell time, the net number of electrons that the update reports as released is exactly the decrease in the number of electrons held in those traps. This holds for slow-capture, instant-capture and time-tracking traps, in every occupancy state that a sequence of such updates can reach. The number held is the sum, over all occupied depth levels and species, of volume times fill fraction times trap density.",
 ["inputs","histories"],"all trap species (any number, density, timescales), all cloud sizes and well-filling functions, all dwell times, all reachable occupancy states",
 "Tests check a dozen hand-worked states; the number of levels, species and the order of updates is unbounded.",
 [TM,TU],UPD+[("n_trapped_electrons_from_watermarks",TM)],["return value of a trap update against the held electrons before and after"],[W])
p("C02","Traps never capture more electrons than are available",
 "In a single trap update the net number of electrons captured never exceeds the number of free electrons supplied (nothing is captured when there are none), and the net number released never exceeds the number that was held. This holds also when electrons released from above the cloud are recaptured in the same update. When the exposed traps would take more electrons than are available, exactly the available ones are captured.",
 ["inputs","histories"],"all non-negative cloud sizes, densities (including far more traps than electrons), dwell times and reachable occupancy states",
 "Tests have three not-enough-electrons cases, for fixed states; the repository in fact over-captured in reachable states.",
 [TM],[("not-enough-electrons limit (enough)",TM)]+UPD,["return value of a trap update"],[W])
p("C03","Trap occupancy always stays physical",
 "After every trap update, emptying, saving or restoring, the occupied depth levels have positive volumes that add up to the deepest volume that a cloud has exposed since the traps were last emptied, at most 1, every fill fraction is between 0 and 1, and unused levels are empty. Consequently the number of electrons held by a species is never negative and never more than the number of its traps.",
 ["inputs","histories"],"all sequences of updates with any cloud sizes, dwell times, species and densities",
 "Tests look at a handful of occupancy arrays; the invariant must survive every split, merge, release and limited capture.",
 [TM,TU],[("watermark split, collapse, release and capture",TM),("cy_update_watermark_volumes_for_cloud_below_highest",TU)],["the occupancy array after each operation"],[W])
p("C04","Capture and release probabilities obey the two-rate law",
 "For traps with capture rate c and emission rate e and dwell time t > 0, the fraction of empty traps that end full is c(1-exp(-(c+e)t))/(c+e), the fraction of full traps that stay full is 1-e(1-exp(-(c+e)t))/(c+e), and the fraction that stays full by release alone is exp(-e t). All three lie in [0,1]; two successive dwell times compose to their sum; zero dwell time changes nothing if capture takes time; and zero capture time gives the limit, capture probability 1.",
 ["inputs"],"all positive release times, non-negative capture times and dwell times, any number of species",
 "Tests evaluate few rates; bounds and composition are statements over all reals.",
 [TM,TR],[("fill_probabilities_from_dwell_time",TM),("capture_rate, emission_rate",TR)],["the three returned probabilities"])
p("C05","Occupancy at every depth follows the capture and release law",
 "With slow capture, traps no deeper than the charge cloud evolve by combined capture and release over the dwell time and deeper ones by release alone, where charge so released first joins the cloud and may extend it over traps that then also capture; with instant capture, all traps first release, then all those no deeper than the cloud become full. Splitting and merging of depth levels never changes the occupancy at any depth, except that when electrons are too few the fills (averaged over completely filled levels that merged) move only the affordable fraction of the way.",
 ["inputs","histories"],"all depths, species, reachable occupancy states, cloud sizes and dwell times",
 "Tests compare a few arrays level by level; a wrong index in a split or merge shows only for particular numbers of levels and cloud depths.",
 [TM,TU],UPD+[("collapse_redundant_watermarks",TM)],["the fill fraction as a function of depth before and after an update"],[W])
p("C06","Trap species release exponentially and invertibly",
 "For an ordinary trap species the fill fraction a time t after filling is exp(-t/release time), and the function giving elapsed time from fill fraction is its exact inverse. Electrons released in a dwell time plus those remaining equal those initially held, fractions released over successive times add up, and rates are the reciprocals of the timescales (infinite for zero capture time).",
 ["inputs"],"all positive release times, non-negative elapsed and dwell times, fill fractions in (0,1]",
 "Tests evaluate single values; inverse and additivity laws are over all reals.",
 [TR],[("Trap methods",TR)],["return values of the trap species' methods"])
p("C07","Charge clouds fill the pixel volume consistently",
 "For every phase the fractional volume of a charge cloud is 0 for a cloud that fits in the notch, 1 for a full well or more, ((n - notch)/(full well - notch))^power in between, and so lies in [0,1] and never decreases with the number of electrons. The phase's own parameters are used, whether given as one value for all phases or as a list, and the three ways to ask for the volume give the same answer.",
 ["inputs","configurations"],"all electron numbers, phases and CCD parameter combinations with 0 <= notch < full well and positive power",
 "Tests sample a few values, mostly with a single phase and zero notch.",
 [CC,UT],[("well_filling_function, cloud_fractional_volume_from_n_electrons_and_phase, CCDPhase",CC),("set_min_max",UT)],["returned fractional volume"])
p("C08","Express multipliers count every transfer exactly once",
 "For standard readout, with every image size, window, offset, express value and multiplier type (int or float), the multipliers applied to each pixel are non-negative and add up to the pixel's distance from the readout register: its row plus the offset plus one. Traps are monitored wherever a multiplier is non-zero, and with express 0 or at least that number of pixels each transfer is done separately with multiplier 1. With separate first transfers and express below the number of pixels, each pixel's first transfer has multiplier 1. The multiplier matrix has one column per window pixel, the same as that column of the matrix for all pixels up to the window's last.",
 ["inputs","configurations"],"all n_pixels >= 1, offset >= 0, express >= 0, windows, both multiplier types, first transfers treated separately or not",
 "Tests compare printed matrices for at most 12 pixels; the sum rule and indices depend on divisibility of the sizes (one express value crashed).",
 [RO],[("ROE.express_matrix_and_monitor_traps_matrix_from_pixels_and_express",RO)],["returned multiplier and monitoring matrices"])
p("C09","Charge injection and trap pumping count every transfer",
 "For charge injection every pixel's multipliers are non-negative and add up to the configured number of pixel transfers, or by default the window's largest row plus one plus the offset, for every express value and multiplier type and independent of earlier calls; a readout without a time window applies them all. For trap pumping of a single pixel the non-negative multipliers add up to the number of pumps, and the trap state is carried on between pumps. Integer multipliers are whole numbers.",
 ["inputs","configurations","histories"],"all n_pixels, n_pixel_transfers, n_pumps, express, offsets, windows and both multiplier types, and sequences of calls with one object",
 "Tests cover four small configurations; integer charge injection had never run at all.",
 [RO],[("ROEChargeInjection and ROETrapPumping express matrices",RO)],["returned multiplier matrices and saving flags"])
p("C10","Consecutive time windows partition the readout",
 "When readout is divided into consecutive time windows that cover all transfers, the multipliers of the windows are non-negative and add up, step by step, to the multipliers of the undivided readout. Each pixel's multipliers in one window add up to the number of its transfers that fall inside that window. Which traps are monitored does not depend on the time window. With a time window, serial clocking affects exactly the rows that leave the parallel register in it, so that every row is clocked once.",
 ["inputs","configurations"],"all partitions of the transfers into windows, all sizes, offsets and express values",
 "Tests split one readout in two or three; any off-by-one at a boundary depends on the express value.",
 [RO],[("restrict_time_span_of_express_matrix",RO)],["returned multiplier matrices"])
p("C11","Clock sequences hold one phase high and move charge consistently",
 "For every number of phases and steps, each step of a generated clock sequence holds exactly one phase high, release fractions are positive and add up to 1, and the high phase releases to the same pixel that it captures from. With release forced away from readout no electron is released to a pixel closer to readout than its own; in trap pumping the second half of the steps retraces the first. The pixels reported as accessed are exactly pixel 0 and those captured from or released to.",
 ["configurations"],"all numbers of phases >= 1 and steps, forced release on or off, standard readout, charge injection and trap pumping",
 "Tests check sequences for 1, 3 and a few other phase numbers literally.",
 [RO],[("_generate_clock_sequence, _generate_pixels_accessed_during_clocking, ROEPhase",RO)],["the clock sequence of a readout object"])
p("C12","Nothing outside the window or the inputs is changed",
 "Adding or removing CTI returns an image of the input's shape, never modifies the input image, traps, CCD or readout objects, and leaves every column outside the window and, with release forced away from readout, every row before it exactly as it was. Rows after the window change only by charge released from the window's last pixels.",
 ["inputs","configurations"],"all image sizes, windows, offsets, express values, clocking directions and readout types",
 "Tests compare a few windows on small images with fixed traps.",
 [MA,MU],[("deep copies and window ranges in add_cti and remove_cti",MA),("index computation in cy_clock_charge_in_one_direction",MU)],["returned image and input objects after the call"])
p("C13","CTI never makes pixels negative nor creates charge",
 "Adding CTI to an image without negative pixels gives no negative pixels. When every transfer is computed separately (express 0, no time window) with one trap group and standard readout that empties traps between passes, the total charge never increases, and what is missing is what was left behind in traps or released beyond the image.",
 ["inputs","configurations"],"all non-negative images, trap species, CCDs, phases, offsets",
 "Tests assert totals for single bright pixels; they never exercise crowded images with more traps than electrons.",
 [MU,TM],[("charge return and clamp in cy_clock_charge_in_one_direction",MU)]+UPD,["returned image"])
p("C14","A pixel is affected only by pixels nearer to readout",
 "With release forced away from readout and traps emptied between columns, the defaults, the output in a pixel depends only on input pixels of the same column in the same row or nearer to the readout register, never on pixels read out later. So changing what lies beyond a row does not change the output up to that row, nor, with express 0, does cropping the image there.",
 ["inputs","configurations"],"all images, multi-phase sequences, trap species and windows with the same multipliers",
 "A dependence on a later row shows only for particular phase numbers and images; tests never vary later rows.",
 [MU,RO],[("processing order and pixel selection in the clocking loop",MU),("forced release in _generate_clock_sequence",RO)],["returned image for two inputs that differ only beyond a row"])
p("C15","Columns are independent and calls repeatable",
 "When traps are emptied between columns, which is the default, each output column depends only on the same input column, not on other columns, their number or their order. Calling again with the same objects gives the identical result, whatever calls were made in between.",
 ["inputs","histories"],"all images, column permutations and subsets, and sequences of calls with shared readout, CCD and trap objects",
 "Leaked trap state shows only for particular preceding columns or calls; tests use fresh objects and few columns.",
 [MU,TM,MA],[("emptying and saving traps after each column",MU),("AllTrapManager.empty_all_traps, save, restore",TM)],["returned images"])
p("C16","Serial clocking is transposed parallel clocking, done second",
 "Without a time window, serial CTI of an image equals the transpose of the parallel CTI of the transposed image with the same parameters, and requesting both equals parallel clocking followed by serial clocking of its result. Directions without traps leave the image unchanged, and an omitted readout object means single-phase standard readout.",
 ["inputs","configurations"],"all images, windows, offsets, express values and parameter combinations of both directions",
 "Tests check symmetric examples in which swapped arguments are not noticed.",
 [MA],[("add_cti",MA)],["returned image"])
p("C17","CTI removal iterates the forward model",
 "Removing CTI with k iterations returns the estimate obtained by starting from the image and k times adding the difference between the image and the forward model of the current estimate, with all model parameters passed through unchanged. In particular zero iterations, or no traps, return the image unchanged, and an estimate whose forward model is the image is a fixed point.",
 ["inputs","configurations"],"all images, numbers of iterations and parameter combinations",
 "Tests check approximate recovery for one image, mostly with default arguments.",
 [MA],[("remove_cti",MA)],["returned image"])
p("C18","The HST ACS preset is valid for every date",
 "For every Julian date from launch on, the preset consists of three instant-capture species with positive densities in the fixed proportions 1.27:3.38:2.85 that grow linearly with time within each epoch, positive release times that depend on the date only through the operating temperature, and the documented single-phase CCD and readout. At the later operating temperature the release times are 0.74, 7.7 and 37 pixels, and earlier dates than launch are rejected.",
 ["inputs"],"all real dates",
 "Tests try two dates; epoch boundaries and signs are unexercised.",
 [MA],[("model_for_HST_ACS",MA)],["returned traps, CCD and readout objects"])
p("C19","Saving and restoring trap states is exact",
 "Restoring brings back exactly the trap states at the last save, or empty traps if nothing was saved, however often and whatever happened in between, and later updates never alter the saved state. Emptying empties every species in every phase, the traps of one phase or group never share state with another, and each phase holds its given fraction of each species' density.",
 ["histories","configurations"],"all interleavings of updates, saves, restores and emptyings, with any phases and trap groups",
 "Aliasing between saved and live state needs particular histories; tests save once.",
 [TM],[("AllTrapManager",TM)],["held electrons and occupancy after each operation"])
p("C20","The unchecked kernels never leave their arrays",
 "No image, window within the image, or readout configuration makes the compiled code, which runs without bounds checks, read or write outside its arrays. The occupancy storage always has room for the levels that a further update can create, however many updates happen without emptying the traps.",
 ["inputs","histories","configurations"],"all image sizes, windows, phases, directions of release, numbers of columns without emptying",
 "Out-of-bounds accesses are silent in most runs; tests pass with them (heap corruption was present).",
 [MU,TU,TM],[("index computation",MU),("array kernels",TU),("allocation and growth of the watermark array",TM)],["memory accesses of the compiled kernels"],[W])
p("C21","Time-tracking traps agree with instant-capture traps",
 "For ordinary trap species, tracking the time since filling gives the same released and captured electrons, in every sequence of updates, as tracking fill fractions with instant capture. This includes updates in which there are too few electrons to fill the exposed traps.",
 ["inputs","histories"],"all sequences of updates, species, cloud sizes and dwell times",
 "Tests compare a few single updates; the not-enough-electrons case crashed.",
 [TM,TR],[("TrapManagerTrackTime",TM),("fill_fraction_from_time_elapsed and its inverse",TR)],["return values and occupancy of both managers"],[W])
p("C22","Trap species superpose",
 "Splitting a trap species into several with the same timescales and the same total density, or listing the species of one kind in a group in another order, changes neither the electrons released and captured nor the output image. As long as there are enough electrons to capture, species of zero density have no effect.",
 ["inputs","histories"],"all species lists, splits and permutations, in all reachable states",
 "A per-species index error shows only with several different species; most tests use one.",
 [TM,TU],UPD,["return values of updates and returned images"],[W])
p("C23","Continuum-lifetime traps release as the average over lifetimes",
 "For species with a continuous distribution of release lifetimes the fill fraction after a time is the average of the exponential decay over the distribution, falling from 1 towards 0, whatever the scale of the lifetimes. The elapsed time given a fill fraction is its inverse, the fraction released between two times is the difference of the fill fractions, and the electrons released in a dwell time are those that the fill fraction no longer accounts for. The log-normal distribution has the median and width given.",
 ["inputs"],"all densities, medians, widths and times (to the accuracy of numerical quadrature)",
 "Tests sample a few values with medians near 1; at other scales the quadrature missed the distribution altogether.",
 [TR],[("TrapLifetimeContinuumAbstract, TrapLogNormalLifetimeContinuum",TR)],["return values of the species' methods"])
p("C24","CTI removal converges to the image without CTI",
 "For realistic trap parameters, removing CTI from an image to which it was added recovers the original image ever more closely with more iterations.",
 ["inputs"],"all realistic images and parameters",
 "Tests check one image for a few iterations.",
 [MA],[("remove_cti",MA)],["returned image"])
p("C25","Readout equals the explicit transfer-by-transfer model",
 "The output equals that of explicitly processing, for every column, pass, pixel in order from readout, clock step and phase holding traps: the cloud (empty if the phase is not high) meets that phase's traps for the step's dwell time, and the net released charge, times release fraction and multiplier, is added to the designated pixels, never below zero. Every pass starts from the trap states last saved, which are empty at the start of a column unless the readout keeps them between columns, and steps without dwell time and phases without traps have no effect.",
 ["inputs","configurations"],"all images, readout types, phases, express values, windows, several groups of species",
 "Tests compare special cases to each other; skipping, ordering or scaling errors show only for particular multi-phase and express configurations.",
 [MU,TM,RO],[("cy_clock_charge_in_one_direction",MU)],["returned image"])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P:
    assert len(q["title"])<=80,q["id"]
with open(path,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
