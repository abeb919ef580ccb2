"""Source of properties.jsonl and MANIFEST.json (python3 lib/props.py rewrites both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state="", observe=""):
    a = dict(files=files, mechanism=mechanism)
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P[id] = dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                        anchors=a), technique=technique, note=note)


TRUST = "Trusts TLC, the driver that converts recorded floats to integers, and the small scope of the enumerated model; the real code is bound by the recorded traces, not by proof."
FEW = "The stored tests run a few fixed simulations to the end and compare global curves within percents; "

prop("P01", "Macroparticle store stays intact under every history of operations",
     "Whatever sequence of additions, losses, cleaning, soft regenerations, reference changes, initial fills and reloads is applied, the live macroparticles are exactly the ones the history implies: none is lost, duplicated or mixed up with another, and every attribute (position, velocity, charge, last impact time) stays with its own particle. "
     "Removed particles leave no charge behind and never come back; soft regeneration conserves the total charge and only thins the population with an unchanged distribution, and cleaning removes exactly the particles below the threshold. "
     "The charge thresholds for splitting, cleaning and target size always follow the reference charge.",
     ["histories", "inputs"], "every sequence of store operations, any sizes and charges",
     FEW + "they never look at individual macroparticles after arbitrary operation sequences.",
     ["MP_system.py"], "fixed-size arrays compacted in place, counter of live entries", "TLA+ store model; TLC-generated histories replayed into the real store, recorded traces checked against the specification",
     "Exhaustive over the small model (all interleavings of the operations on a few macroparticles), sampled histories on the real store. " + TRUST, "live prefix of the arrays", "public arrays of the store")
prop("P02", "Full regeneration re-samples the same cloud",
     "A full regeneration happens exactly when the number of macroparticles exceeds (or, in the low mode, drops below) its threshold; the new population represents the same charge within rounding of each phase-space cell, with every new macroparticle within one cell of old ones carrying that charge, inside the chamber and marked as never impacted. "
     "When nothing is regenerated nothing changes. The number of macroparticles per cell is rounded without bias, also in uniform initial fills.",
     ["histories", "inputs"], "every population, threshold setting and reference charge",
     FEW + "none reaches a regeneration and inspects the population.",
     ["MP_system.py", "compute_hist.f"], "6-D histogram re-sampled with a new reference charge", "TLA+ regeneration model; recorded regenerations of the real store checked against it; fixed-seed bands for unbiased rounding",
     "Exhaustive over small populations in the model; hundreds of random populations on the real code. " + TRUST)
prop("P03", "Beam clock, bunch train and beam field follow the requested beam",
     "The simulation walks exactly once, in order and without gaps over the beam's time axis; at every step it knows the time, the step length, the line density (scaled profile plus coasting beam), the bunch passage number, and announces each new passage exactly once. "
     "A bunched beam carries, per bunch, the requested charge, position and length over an axis covering the train and the requested extra time; the field on the electrons is the field map times beam charge and line density, and is off below the density threshold; a computed map holds the charge of the requested Gaussian beam at its position inside a conducting chamber. "
     "A beam outside the chamber, a secondary beam with a different time axis, and inconsistent field options are refused.",
     ["inputs", "configurations"], "every profile (uniform or not), filling pattern, bunch spacing and offset",
     FEW + "only a few standard 25 ns trains are used.",
     ["beam_and_timing.py"], "precomputed time axis and profile, cursor", "TLA+ clock model enumerated by TLC; its axes drive the real beam object; recorded walks checked against the specification",
     "All short axes over three gap lengths exhaustively, bunch trains and field maps sampled. " + TRUST)
prop("P05", "Space charge is recomputed on schedule from the charge of all clouds",
     "A recomputation of the self-field falls due whenever the space-charge interval has elapsed since the last time it fell due (at every step without an interval); it is made exactly at the due steps after the start time and at forced steps, for all clouds in the same step; between recomputations density and fields are unchanged. "
     "When recomputed, the charge density is the sum of the deposited charges of all clouds at that moment, each deposited exactly once with its sign; each cloud's own density is its own deposit, and the fields are those of the total. With electromagnetic tracking the same holds for the current densities and vector potentials. Processes that share the self-field all hold the mean of their densities; the electrostatic energy reported is that of the computed fields.",
     ["histories", "configurations"], "every step history, decimation interval, start time and number of clouds",
     FEW + "densities per cloud and the decimation schedule are not observed.",
     ["space_charge_class.py", "buildup_simulation.py"], "shared particle-in-cell object: first cloud resets, last cloud solves", "TLA+ schedule and superposition model; recorded steps of real multi-cloud simulations checked against it",
     "Exhaustive over short histories in the model, dozens of real simulations. " + TRUST)
prop("P06", "Every simulation step performs its phases once, in order, at the right time",
     "Each time step applies, to every cloud and exactly once: beam and space-charge fields, motion, wall interactions, secondary-emission evolution, primary generation, then cross-ionization, space charge and saving; cleaning and regeneration happen only at the start of a bunch passage. "
     "A run ends at the end of the beam axis, or at the requested earlier time from which it can be continued with the same outcome as an uninterrupted run.",
     ["histories", "configurations"], "every schedule of run/resume calls and every number of clouds and passages",
     FEW + "the tests never interrupt a run nor observe phases.",
     ["buildup_simulation.py", "init.py"], "sequential phases over a list of clouds", "TLA+ step-orchestration model; call traces of the real simulation checked against it; run/resume equivalence on real runs", "Exhaustive model of phase ordering for small cloud and step counts. " + TRUST)
prop("P07", "Electron motion obeys the equations of motion, particle by particle",
     "A step moves each macroparticle as the Lorentz force of its own fields, mass and charge dictates and leaves the others alone, whatever their number: straight lines without fields, exact uniform acceleration in a uniform electric field, rotation preserving energy in a magnetic field with the right sense and frequency. "
     "All tracking methods that can represent a field agree on it, and sub-stepping never changes the covered time.",
     ["inputs", "configurations"], "every set of particles, field strength and orientation, sub-step number and tracking method",
     FEW + "single-particle motion is only tested on one multipole case.",
     ["dynamics_Boris_f2py.py", "boris_step.f", "dynamics_Boris_multipole.py", "boris_cython.pyx", "boris_c_function.c", "dynamics_dipole.py", "dynamics_strong_B_generalized.py", "sincc_cosincc_cubsincc.py"], "vectorised leap-frog in Fortran, C/Cython and numpy", "TLA+ model of exact integer motion (drift, kick, 90-degree rotation); recorded steps of every real tracker checked against it",
     "Exact integer motions (all 90-degree rotation axes, kicks, drifts) plus toleranced cross-agreement. " + TRUST)
prop("P08", "Nothing leaves the chamber: wall impacts are found and resolved on the wall",
     "After every wall interaction all live macroparticles are inside the chamber; exactly those that left it are processed, at the point where their path crosses the wall, and each is either absorbed or re-emitted inwards from that point; the others are untouched. "
     "No particle is re-emitted with an energy it cannot have, and nothing is emitted from particles that did not hit the wall.",
     ["inputs", "histories"], "every chamber shape, particle path and emission outcome",
     FEW + "no test checks individual impacts.",
     ["impact_management_class.py", "geom_impact_ellip.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx"], "backtracking along the last path segment, compaction of survivors", "TLA+ impact model; recorded impacts of the real impact manager on all chamber types checked against it", "Random and boundary paths on all chamber types. " + TRUST)
prop("P09", "Secondary emission balances charge and energy for every emission model",
     "For every impact the emitted charge is the impinging charge times the yield of the model and its surface for that energy and angle, split into equal macroparticles no larger than the splitting threshold, with none lost or invented. "
     "Elastically reflected electrons keep their energy; secondaries are emitted inwards, with energies within the model's bounds and never above the impinging energy where the model forbids it.",
     ["inputs", "configurations"], "every emission model and its switches, energies, angles and numbers of simultaneous impacts",
     FEW + "models are exercised only inside long statistical runs or compared with stored curves.",
     ["electron_emission.py", "sec_emission_model_ECLOUD.py", "sec_emission_model_ECLOUD_nunif.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_cos_low_ener.py", "sec_emission_model_flat_low_ener.py", "sec_emission_model_from_file.py", "sec_emission_model_perfect_absorber.py", "sec_emission_model_furman_pivi.py", "impact_management_class.py"],
     "per-model yield and event split, rescaling and splitting of macroparticles", "TLA+ emission-event model with integer yields; recorded emissions of the real models checked against it", "Models with exactly known yields enumerated, statistical clauses in 6-sigma bands with fixed seeds. " + TRUST)
prop("P10", "Impact diagnostics account for every impact exactly once",
     "The counters of impacting and emitted electrons, impacting and emitted energy, scrubbing dose, and the histograms over position, energy, angle, wall segment and lifetime each account for every impact since they were last reset exactly once, with its charge in the right bin. "
     "All of them agree with each other: every histogram sums to the impacting charge of its period.",
     ["histories", "inputs"], "every sequence of impacts and resets, any energies, positions and bin settings",
     FEW + "histograms are only compared as final curves.",
     ["impact_management_class.py", "compute_hist.f", "update_seg_impact.f", "buildup_simulation.py", "pyecloud_saver.py"], "accumulation arrays reset by the saver", "TLA+ tally model; recorded impacts and counters of the real impact manager checked against it", "Random impact histories with exactly representable charges. " + TRUST)
prop("P11", "Step-by-step output has one faithful sample per saving interval",
     "The step-by-step output has one sample per saving interval, at the first step at which the interval has elapsed, in time order and never duplicated or overwritten, whatever the decimation and the length of the run. "
     "Accumulated quantities of a sample cover exactly the steps since the previous sample; instantaneous quantities are those of that step.",
     ["histories", "configurations"], "every decimation, step length pattern, number of passages and buffer growth",
     FEW + "only the default decimation and lengths are used.",
     ["pyecloud_saver.py"], "growing buffers with a cursor, accumulators reset at each sample", "TLA+ saver model; recorded real runs (inputs of every step and final output) checked against it", "Exhaustive over short schedules in the model, dozens of real runs. " + TRUST)
prop("P12", "Pass-by-pass output has one faithful record per bunch passage",
     "The pass-by-pass output has exactly one record per bunch passage, carrying the passage's time, counts and the histograms accumulated over that passage only. "
     "Movies and periodic histograms are saved at their intervals with their times.",
     ["histories", "configurations"], "every run length, passage pattern, saving option and cadence of writing to disk",
     FEW + "only final curves of the default configuration are compared.",
     ["pyecloud_saver.py"], "per-pass appends, periodic file writes", "TLA+ pass-record model; real output files checked against recorded steps", "Dozens of real configurations. " + TRUST)
prop("P13", "A run killed at any point resumes from its last checkpoint unchanged",
     "A simulation that writes checkpoints and is killed at any moment, even repeatedly, can be restarted and ends with the same output as an uninterrupted run with the same random numbers: no sample lost, duplicated or altered. "
     "At every moment a complete checkpoint, once written, is available.",
     ["crash_points", "histories", "configurations"], "every kill point, including during a checkpoint write, any number of kills, any output option",
     FEW + "no test kills a run.",
     ["buildup_simulation.py", "pyecloud_saver.py", "init.py"], "pickled state with replacement of the previous file; output reloaded from the last file", "TLA+ crash/restart model; TLC-generated kill schedules executed on real simulations and the outputs compared through the specification", "Kill points at every step and file operation of small simulations. " + TRUST)
prop("P14", "Configuration is taken exactly as given, and bad configurations are refused",
     "Every parameter takes the value given in the input files; missing optional ones take their documented defaults, and a value given at construction overrides the files. "
     "Unknown parameters, a missing mandatory one, one given in two files and inconsistent combinations are refused before the simulation starts.",
     ["configurations"], "every combination of presence, place and override of parameters",
     FEW + "only complete, valid decks are used.",
     ["input_parameters_format_specification.py", "init.py"], "per-file tables of mandatory and optional parameters", "TLA+ precedence model enumerated by TLC; its decks are read by the real code and the outcome checked", "All combinations of placement for each class of parameter. " + TRUST)
prop("P15", "Beam-dynamics coupling gives each bunch slice its kick and the cloud its pinch",
     "In the coupled-beam interface every slice of the bunch acts on the cloud once, in order, with its own charge and duration, and every beam particle of that slice receives once the kick of the cloud field at its position. "
     "The cloud is reset to the same initial state at each turn when asked, and observations cover each turn once.",
     ["histories", "configurations"], "every slicing, number of turns and tracking mode",
     FEW + "the interface is only run on two fixed bunches and never observed per slice, per turn or across resets.",
     ["PyEC4PyHT.py"], "per-slice loop, saved initial store", "TLA+ turn/slice model; recorded turns of the real interface (with a stand-in beam) checked against it", "Dozens of slicings and turns. " + TRUST)
prop("P16", "Cross-ionization creates the expected ion-electron pairs",
     "Each projectile population creates in each step exactly the charge given by its density, speed, cross-section, gas density and step length; for each ionized gas the products receive equal charges at projectile positions, each with its own thermal velocity, and charge is never created outside its energy range. "
     "No charge is lost in rounding to macroparticles on average.",
     ["inputs", "configurations"], "every projectile population, cross-section table and product set",
     FEW + "one statistical run with one gas.",
     ["cross_ionization.py"], "interpolated cross-section and probabilistic rounding", "TLA+ ionization balance model; recorded generations of the real code checked against it, with fixed-seed bands for rounding", "Integer-valued cross-sections. " + TRUST)
prop("P17", "Primary electrons appear in the requested number, place and energy",
     "Residual-gas ionization creates in each step the charge set by line density, cross-section, pressure and step length, distributed like the beam; photoemission creates the charge set by its rate on the wall, inside the chamber and moving inwards; the ionization only runs within its time window. "
     "Uniform and density-based initial fills place the requested charge uniformly inside the chamber.",
     ["inputs", "configurations"], "every rate, step length, beam size and chamber",
     FEW + "only final curves within percents.",
     ["gas_ionization_class.py", "gen_photoemission_class.py", "MP_system.py"], "probabilistic rounding, rejection sampling", "TLA+ generation model; recorded generations checked against it, fixed-seed bands for averages", "Sampled configurations. " + TRUST)
prop("P18", "Chamber geometry is consistent: inside, crossing point, normal, segment",
     "For every chamber shape a point is classified inside or outside correctly; for every path from inside to outside the impact point lies on the wall and on the path at its first crossing, the normal there is a unit vector pointing inwards, perpendicular to the wall, and the segment number is the one of that wall piece.",
     ["inputs"], "every polygon (convex or not), rectangle and ellipse, every path",
     FEW + "no test covers non-convex polygons or individual paths.",
     ["geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx", "geom_impact_poly.py", "geom_impact_ellip.py", "geom_impact_rect_fast_impact.py"], "ray/segment intersection in Cython", "TLA+ integer geometry (exact rational crossing) checked by TLC against recorded queries of the real chambers", "All lattice paths on several polygons. " + TRUST)
prop("P19", "Deposition and interpolation are exact duals and lose nothing",
     "Depositing particles on a grid (charge density and histograms) conserves their total weight with bilinear weights on the surrounding nodes; interpolation reproduces every field that is bilinear on the grid exactly, and no particle changes the result of another.",
     ["inputs"], "every particle set and grid",
     FEW + "only in aggregate.",
     ["compute_rho.f", "interp_field_for.f", "compute_hist.f", "update_seg_impact.f", "vectsum.f", "space_charge_class.py"], "cloud-in-cell kernels", "TLA+ exact integer cloud-in-cell model; recorded kernel calls checked against it", "All sub-cell positions of a small grid. " + TRUST)


def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f.endswith(".py"))
    claimed = [k for k in sorted(P) if k in have]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]["p"]) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             checks=[dict(property=k, quick_cmd="./check %s quick" % k, thorough_cmd="./check %s thorough" % k,
                          evidence_file="evidence/%s.json" % k, technique=P[k]["technique"], level="model_checking",
                          level_note=P[k]["note"]) for k in claimed],
             not_applicable=[dict(property=k, reason="check not built yet (work in progress)") for k in sorted(P) if k not in have])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("claimed", claimed)


if __name__ == "__main__":
    main()
