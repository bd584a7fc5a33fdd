"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = lambda **k: [{"name": n, "where": w} for n, w in k.items()]
TECH = "TLA+ model (TLC) + replay of its behaviours on the real code + trace validation by TLC"
NOTE = ("TLC draws behaviours of the TLA+ model in spec/{spec} at random (seeded) and checks the model's "
        "own invariants on every state; every behaviour is replayed on the library imported from /repo and "
        "the recorded execution is validated by TLC against the same model ({trace}). Bounded: {bound}. "
        "Trusted: the model's exact arithmetic, the recorder ({driver}), fixed-point tolerance ~1e-3.")
LIFE = dict(spec="DmdLife.tla", trace="LifeTrace.tla", driver="harness/life.py",
            bound="24 exact linear systems of rank 1-3, the estimator options of the model, behaviours of 1-6 calls")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), level="model_checking", note=None, tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, observe=list(observe), level=level,
                  note=note or NOTE.format(**LIFE), tech=tech))


prop("P01", "Exact linear dynamics are recovered and forecast",
     "When the snapshots are noise-free samples of a diagonalisable linear system and the requested rank equals the number of modes present, every linear DMD variant reports the system's eigenvalues, mode-times-amplitude products that sum to the data, a reconstruction equal to the data and forecasts equal to the continued trajectory, and the one-step predictor maps each snapshot to the next. This holds for every combination of the options that do not change the ideal answer (exact or projected modes, how amplitudes are fitted, mode rescaling, eigenvalue sorting, zero regularisation, total-least-squares of sufficient rank, delays). Two recorded defects are excluded: forward-backward estimation with more than one mode, and least-squares amplitudes of projected modes on a single trajectory.",
     ["inputs", "configurations"], "all linear systems, all estimator classes, all combinations of options",
     "Tests fix one data file and a handful of option values one at a time and mostly assert shapes; combinations of options, ranks, sensors fewer/more than snapshots and complex data are not sampled.",
     ["pydmd/dmd.py", "pydmd/dmdbase.py", "pydmd/dmdoperator.py", "pydmd/utils.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/subspacedmd.py", "pydmd/spdmd.py", "pydmd/edmd.py", "pydmd/fbdmd.py", "pydmd/hankeldmd.py", "pydmd/hodmd.py"],
     M(operator="pydmd/dmdoperator.py", amplitudes="pydmd/dmdbase.py:_compute_amplitudes, _optimal_dmd_matrices", reconstruction="pydmd/dmdbase.py:reconstructed_data, dynamics"),
     ["eigs", "modes*amplitudes", "reconstructed_data", "predict"])
prop("P02", "Reconstruction times follow the clock and the requested window",
     "After a fit the reconstruction covers exactly the original instants; after the user changes the initial time, the sampling interval or the output window (by item or as a whole, with integers or floats, inside, before or beyond the data), the reported time steps are exactly the requested ones and the reconstruction at each of them is the fitted dynamics evaluated at that time. Changing the window never changes eigenvalues, modes, amplitudes or the original instants.",
     ["inputs", "histories", "configurations"], "all windows, clocks and histories of changes to them",
     "Tests use dt=1 or one window; extra/missing steps appear only for particular float steps, offsets or after several changes.",
     ["pydmd/dmdbase.py", "pydmd/hankeldmd.py", "pydmd/dmd.py"],
     M(timesteps="pydmd/dmdbase.py:dmd_timesteps, original_timesteps, _translate_eigs_exponent", dynamics="pydmd/dmdbase.py:dynamics", delay_window="pydmd/hankeldmd.py:_update_sub_dmd_time, reconstructed_data"),
     ["dmd_timesteps", "original_timesteps", "reconstructed_data"])
prop("P03", "Deactivated modes vanish from every result, consistently and reversibly",
     "At any time the eigenvalues, modes, amplitudes, dynamics and reconstruction describe exactly the active modes, in unchanged order and aligned with one another; a deactivated mode comes back unchanged when it is activated again. Slicing an estimator by index, negative index, slice, list or array gives an independent view with exactly those modes active and leaves the original as it was; invalid masks or indexes are rejected and change nothing.",
     ["histories", "inputs"], "all sequences of activation changes and slicings, mixed with the other operations",
     "Tests set one mask and look at one attribute; interplay of masks with slices, copies, amplitudes computed before or after, and windows is a history property.",
     ["pydmd/dmdbase.py", "pydmd/hankeldmd.py"],
     M(proxy="pydmd/dmdbase.py:ActivationBitmaskProxy, modes_activation_bitmask", slicing="pydmd/dmdbase.py:__getitem__"),
     ["eigs", "modes", "amplitudes", "reconstructed_data", "modes_activation_bitmask"])
prop("P04", "Mode selection and stabilisation change exactly the modes they should",
     "Selecting modes (by modulus interval, distance from the unit circle, integral contribution over the original time span or a user function) keeps exactly the active modes that satisfy the criterion, in place or on an independent copy as requested, returns exactly the indexes it removed, and with nullification zeroes their amplitudes instead. Stabilising moves exactly the eigenvalues whose modulus lies in the given annulus onto the unit circle, keeping their phase and scaling their amplitude by the old modulus, and leaves every other mode untouched.",
     ["histories", "inputs"], "all spectra, thresholds, call styles and histories before the call",
     "Tests call each selector once on a freshly fitted estimator with all modes active.",
     ["pydmd/dmd_modes_tuner.py"],
     M(select="pydmd/dmd_modes_tuner.py:select_modes", stabilize="pydmd/dmd_modes_tuner.py:stabilize_modes", tuner="pydmd/dmd_modes_tuner.py:ModesTuner"),
     ["eigs", "amplitudes", "modes_activation_bitmask", "reconstructed_data", "returned indexes"])
prop("P05", "A refit depends only on the new data",
     "Calling fit again on an estimator gives the same results as fitting a new estimator with the same options: nothing of the previous data, activation mask, time window, clock, stabilisation, selection or cached values survives, whatever the shapes, ranks and number of snapshots of the old and new data and whatever was read in between.",
     ["histories"], "all histories of operations before the refit, all pairs of data sets",
     "Tests fit an object once; stale state shows only for particular orders of operations and changes of shape.",
     ["pydmd/dmdbase.py", "pydmd/dmd.py", "pydmd/cdmd.py", "pydmd/rdmd.py", "pydmd/hankeldmd.py", "pydmd/dmdoperator.py"],
     M(reset="pydmd/dmdbase.py:_reset", fit="pydmd/dmd.py:fit and the other fit methods"),
     ["all results after the second fit"])
prop("P06", "Every accepted form of the same data is treated alike, and left untouched",
     "The same snapshots given as a C- or Fortran-ordered matrix, a strided or read-only view, integers, a list or tuple of arrays, or with a multi-dimensional space give the same results, the same reported snapshots and spatial shape, and the caller's arrays are never modified. Data that cannot be a sequence of snapshots (a single snapshot, a vector), invalid masks and indexes, and access before fitting are rejected with an error and leave the estimator's state intact.",
     ["inputs", "histories"], "all input forms and malformed inputs, for every estimator",
     "Tests pass one C-ordered float matrix per class; aliasing and layout errors need other forms or a look at the caller's array afterwards.",
     ["pydmd/snapshots.py", "pydmd/dmdbase.py", "pydmd/hankeldmd.py"],
     M(snapshots="pydmd/snapshots.py:Snapshots", reset="pydmd/dmdbase.py:_reset"),
     ["snapshots", "snapshots_shape", "results", "caller's arrays"])
prop("P08", "Copies, pickles and saved files are faithful and independent",
     "A deep copy, a pickle round trip or a save/load round trip of an estimator in any state gives an object with identical observable results, including active modes, time window, clock and tuned eigenvalues and amplitudes. From then on changing either object by any operation never changes the other.",
     ["histories"], "all states reachable by sequences of operations, and all continuations on either object",
     "Tests save a freshly fitted object and compare two attributes; sharing of mutable state shows only after further operations on one of the two.",
     ["pydmd/dmdbase.py"],
     M(save="pydmd/dmdbase.py:save, load", state="objects held by DMDBase"),
     ["all results of both objects"])
prop("P09", "Eigenvalues come in the requested order and stay aligned with everything",
     "With sorting by modulus or by real part the eigenvalues are in ascending order, and under every option and after every operation the k-th eigenvalue, mode, amplitude, dynamics row and frequency belong to the same mode. The frequency of a mode is the argument of its eigenvalue divided by two pi and the current sampling interval.",
     ["inputs", "configurations", "histories"], "all spectra, sorting options and histories",
     "Tests check sortedness on one data set, where misaligned amplitudes or modes still pass.",
     ["pydmd/dmdoperator.py", "pydmd/dmdbase.py"],
     M(sorting="pydmd/dmdoperator.py:_compute_eigenquantities", frequency="pydmd/dmdbase.py:frequency"),
     ["eigs", "modes*amplitudes", "frequency"])
prop("P10", "Delay-embedded DMD reconstructs the original signal in the original space",
     "For any number of delays, reconstruction method (first, mean, weights), window and clock, delay-embedded DMD recovers all modes of a signal with fewer sensors than modes and returns a reconstruction in the original space, on the requested instants, equal to the signal (or its continuation) when the signal is an exact sum of the requested number of modes.",
     ["inputs", "configurations", "histories"], "all signals, delays, reconstruction methods, windows and histories",
     "Tests check shapes and one signal; index arithmetic of the delays fails only for particular offsets, delays and window steps.",
     ["pydmd/hankeldmd.py", "pydmd/hodmd.py", "pydmd/utils.py"],
     M(embedding="pydmd/utils.py:pseudo_hankel_matrix", reconstruction="pydmd/hankeldmd.py:reconstructed_data, reconstructions_of_timeindex", window="pydmd/hankeldmd.py:_update_sub_dmd_time"),
     ["eigs", "reconstructed_data", "dmd_timesteps"])
prop("P22", "Reading a result never changes it or any other result",
     "Reading or plotting any result, in any order and any number of times, predicting, or attempting an invalid operation that raises, leaves every observable of the estimator, of its copies and of its slices as it was.",
     ["histories"], "all interleavings of reads with the other operations",
     "Tests read attributes in one order; lazily computed or cached values show only when a read comes at another point of the history.",
     ["pydmd/dmdbase.py", "pydmd/hankeldmd.py", "pydmd/dmdoperator.py"],
     M(lazy="pydmd/dmdbase.py:amplitudes, dynamics, reconstructed_data", subdmd="pydmd/hankeldmd.py"),
     ["all results"])

# (properties of the other specifications are added below)
exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {
    "version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "bash check.sh %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"], "level": p["level"], "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "TLA+ specifications in spec/, bound to the code by replay and trace validation (harness/). No hooks in /repo: every observation is made through the public API. Known findings: KNOWN_FINDINGS.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
