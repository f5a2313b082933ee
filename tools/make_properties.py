#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that titles, statements and anchors live in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/hera_pspec/"
prop("C01", "Baseline and baseline-pair integers identify antennas uniquely",
 "For antenna numbers 0..899, encoding a baseline or a baseline-pair as an integer and decoding it returns exactly the same ordered antenna tuples, so two different baselines or pairs never share an integer. Splitting a pair integer gives the integers of its two baselines, and conjugating a baseline or pair (first, second or both members) reverses exactly the antenna order asked for and nothing else, so conjugating twice gives the original back.",
 ["inputs"], "All antenna numbers 0..899 in every position (6.5e11 baseline-pairs), including the floating-point divisions the decoder uses.",
 "Tests decode a handful of integers; the decoder uses float division and floor, so only an argument over every antenna tuple and every rounding settles it.",
 [S+"uvpspec_utils.py", S+"uvpspec.py"],
 [("integer codecs", S+"uvpspec_utils.py:_blpair_to_antnums/_antnums_to_blpair/_bl_to_antnums/_antnums_to_bl"),
  ("conjugation helpers", S+"uvpspec_utils.py:_conj_blpair_int/_conj_bl_int/_conj_blpair/_blpair_to_bls"),
  ("public methods", S+"uvpspec.py:UVPSpec.antnums_to_blpair etc.")])
prop("C02", "Polarization-pair integers identify polarization pairs uniquely",
 "Every pair of valid polarization numbers (-8..4) encodes to an integer that decodes back to the same ordered pair, from numbers or from polarization strings, one at a time or as a list. Integers that do not decode to valid polarizations are rejected with an error instead of being returned as a pair.",
 ["inputs"], "All 13x13 ordered polarization pairs, and every integer outside their image.",
 "Tests try a few pairs; the decoder slices decimal strings, so digit boundaries and swapped order need every pair.",
 [S+"uvpspec_utils.py"], [("polpair codec", S+"uvpspec_utils.py:polpair_int2tuple/polpair_tuple2int")])
prop("C03", "A key returns exactly the rows, window and polarization it names",
 "For any stored set of spectra, requesting data, weights, integrations, sample counts, covariance, error statistics or window functions by a (window, baseline-pair, polarization-pair) key returns, in stored order, exactly the rows of that baseline-pair for that window and polarization, and nothing of any other. Looking up indices of baseline-pairs, times, windows, delays, frequencies or polarization-pairs returns exactly the matching positions, and keys that match nothing raise an error.",
 ["inputs"], "All numbers of rows, delays, windows and polarizations, all contents, folded and unfolded data, integer or tuple keys.",
 "The suite reads one small file layout with few baseline-pairs; it cannot cover every ordering of rows, key form and window layout.",
 [S+"uvpspec.py"], [("key parsing", S+"uvpspec.py:UVPSpec.key_to_indices"), ("accessors", S+"uvpspec.py:get_data/get_wgts/get_integrations/get_nsamples/get_cov/get_stats/get_window_function"),
  ("index lookups", S+"uvpspec.py:spw_indices/spw_to_freq_indices/spw_to_dly_indices/blpair_to_indices/polpair_to_indices/time_to_indices")])
prop("C04", "Selecting keeps exactly the requested spectra, all arrays aligned",
 "Selecting by window, baseline, baseline-pair, time, LST or polarization-pair keeps exactly the rows, windows and polarizations that satisfy the request, in their stored order and with unchanged values. Every array that describes them (spectra, weights, integrations, sample counts, covariances, statistics, window functions, times, LSTs, baseline-pairs, frequencies, delays, scalars, beam integrals) and every count stays mutually aligned, and with a copy requested the original object is untouched.",
 ["inputs"], "All selections and combinations of selections on all row orders and sizes, including single-row, evenly strided and irregular picks.",
 "Tests select from one regular layout; the slice optimisation, window renumbering and two-step indexing depend on the pattern picked.",
 [S+"uvpspec_utils.py", S+"uvpspec.py"], [("selection", S+"uvpspec_utils.py:_select"), ("baseline filter", S+"uvpspec_utils.py:_get_blpairs_from_bls"), ("public method", S+"uvpspec.py:UVPSpec.select")])
prop("C05", "Writing and reading back a spectrum file loses and changes nothing",
 "Reading a written spectrum file gives an object equal to the one written, for every attribute that was set, with exactly its values. Reading only part of a file (by window, baseline, baseline-pair, time, LST or polarization-pair) equals reading everything and then selecting, reading only metadata gives the same metadata, and refusing to overwrite leaves an existing file as it was.",
 ["inputs"], "All combinations of optional attributes, contents, windows and selections.",
 "The tests that write files use one object with one set of attributes; the optional ones and partial reads take separate code paths.",
 [S+"uvpspec.py", S+"uvpspec_utils.py"], [("writer", S+"uvpspec.py:write_hdf5/write_to_group"), ("reader", S+"uvpspec.py:read_hdf5/read_from_group"), ("partial read", S+"uvpspec_utils.py:_select (h5file)")])
prop("C06", "Combining sets of spectra keeps every spectrum under its own label",
 "Combining objects that differ along exactly one axis (windows, baseline-pair-times or polarization-pairs) yields one object holding every input spectrum with its weights, integrations, sample counts, covariance, window function, times, LSTs and scalars under the same window, baseline-pair, time and polarization labels it had, and nothing else. The values found under a label do not depend on the order of the inputs or of their rows, and inputs that overlap or are incompatible are refused.",
 ["inputs"], "All input orders, row orders, window orders and sizes along each of the three axes.",
 "The suite combines a few objects cut from one file, whose rows and windows are already sorted.",
 [S+"uvpspec.py", S+"uvpspec_utils.py"], [("combination", S+"uvpspec.py:combine_uvpspec/get_uvp_overlap"), ("row lookup", S+"uvpspec_utils.py:_fast_lookup_blpairts")])
prop("C07", "Averaging spectra is the weighted mean of exactly the group's members",
 "Averaging over baseline-pair groups, with or without averaging time, returns for each group the mean over its members (and over times) weighted as requested: by integration time, or by inverse error squared when an error field is named. The sum of member sample counts, the weighted total integration, the propagated error and covariance, the mean window function and the averaged times and LSTs come with it, and the data of pairs outside a group never contribute to it.",
 ["inputs"], "All group structures, group weights, sizes, contents and error fields.",
 "The tests compare a few averages of one file to hand-picked numbers with equal weights.",
 [S+"grouping.py"], [("average", S+"grouping.py:average_spectra")])
prop("C08", "Folding averages each positive delay with its negative partner",
 "Folding replaces each spectrum by the mean of the values at each positive delay and its negative partner and leaves nothing at negative delays, doubles the sample count once, and is refused on already folded data. Covariances, error statistics and window functions are folded by the same combination (errors in quadrature), for even and odd numbers of delays, and no other array changes.",
 ["inputs"], "All delay counts, even and odd, all rows, windows and polarizations, with and without covariance, statistics and window functions.",
 "Tests fold one or two sizes and compare a few sums; even and odd counts take different code paths.",
 [S+"grouping.py", S+"uvpspec.py"], [("fold", S+"grouping.py:fold_spectra"), ("delay grid of folded spectra", S+"uvpspec.py:get_dlys")])
prop("C09", "Subtracting and matching sets of spectra pairs equal labels",
 "Restricting several objects to what they have in common leaves each with exactly the windows, baseline-pairs, times or LSTs and polarization-pairs present in all of them, and raises an error when nothing is shared. The difference of two objects holds, under each common label, the first value minus the second, with sample counts, integrations, weights and errors propagated, and leaves the operands unchanged.",
 ["inputs"], "All contents, subset relations and row orders of the operands.",
 "Tests use objects cut from one file with identical polarizations and ordering.",
 [S+"uvpspec_utils.py"], [("common selection", S+"uvpspec_utils.py:select_common"), ("difference", S+"uvpspec_utils.py:subtract_uvp")])
prop("C10", "Spherical averaging bins every mode once with its weight",
 "The spherically averaged spectrum in a k bin is the weighted mean of exactly the delay modes whose wavenumber magnitude falls inside that bin, with errors and window functions propagated by the same weights. Every time keeps its own average, and modes outside all bins contribute nothing.",
 ["inputs"], "All bin layouts, baseline lengths, delays, weights, times and windows.",
 "Tests average a single flat spectrum, for which any weights give the same answer.",
 [S+"grouping.py"], [("spherical average", S+"grouping.py:spherical_average")])
prop("C11", "Grouping and resampling of baselines never lose or invent members",
 "Dividing baselines into groups uses each of them at most once, in groups of the stated size or count; grouping by redundancy puts every baseline-pair into exactly one group; and resampling draws only from the given members with the requested number of draws. Equal seeds give equal draws, and a bootstrap draw is the average over exactly the drawn multiset.",
 ["inputs"], "All member lists, group counts, seeds and draws.",
 "Random draws are tested for a couple of seeds and counts only.",
 [S+"grouping.py"], [("grouping", S+"grouping.py:group_baselines/sample_baselines"), ("bootstrap", S+"grouping.py:bootstrap_average_blpairs/bootstrap_resampled_error"), ("redundant pairs", S+"utils.py:get_blvec_reds"), ])
prop("C12", "Cosmological conversions are mutually consistent",
 "Frequency-to-redshift and redshift-to-frequency are inverse; every distance, conversion and volume factor equals its definition in terms of the expansion rate; and switching little-h units rescales each result by exactly its power of h. The transverse and line-of-sight wavenumbers follow from those distances, and the volume factor is the product of the transverse and line-of-sight ones.",
 ["inputs"], "All redshifts, frequencies and parameter sets with positive H0.",
 "Tests compare a few numbers for one cosmology.",
 [S+"conversions.py"], [("conversions", S+"conversions.py:Cosmo_Conversions")])
prop("C13", "Noise power follows the radiometer formula for every row",
 "The noise power spectrum equals scalar x Tsys^2 / (integration x coherent x sqrt(incoherent)) with the stated conversions of form and units. Per-row noise of a stored object uses that row's own integration time, sample count, scalar and system temperature, and the derived error bars combine signal and noise by the documented formula at every row, window and polarization.",
 ["inputs"], "All temperatures, integrations, sample counts, scalars, rows, windows and polarizations.",
 "Tests compare a few numbers for a constant integration time.",
 [S+"noise.py", S+"uvpspec.py", S+"utils.py"], [("sensitivity", S+"noise.py:calc_P_N/Sensitivity"), ("per-row noise", S+"uvpspec.py:generate_noise_spectra"), ("error bars", S+"utils.py:uvp_noise_error")])
prop("C14", "Band powers are the stated quadratic form of unflagged data",
 "The unnormalised band power of every delay and time equals half the quadratic form of the two weighted data vectors with the delay's response matrix, whichever computational shortcut is used, and flagged samples never influence it. Changing taper, weighting, window or delay count takes effect on the next estimate instead of reusing stale matrices.",
 ["inputs", "histories"], "All data, flags, tapers, weightings, window ranges, delay counts and orders of setter calls.",
 "Tests compare a few configurations on fixed data; cached matrices depend on the whole call history.",
 [S+"pspecdata.py"], [("estimator", S+"pspecdata.py:q_hat/get_Q_alt/get_Q/R/Y/x/w"), ("caches", S+"pspecdata.py:clear_cache/set_R/set_iC/set_weighting/set_spw/set_taper")],
 observe=["PSpecData.q_hat", "PSpecData.R"])
prop("C15", "Band-power normalisation makes every window function sum to one",
 "For each supported normalisation M follows its definition from the response matrices and every row of W sums to one whenever it is defined; W is M H (for H^-1 and I normalised by row, for I with the response matrix G). The normalised band powers are M applied to the unnormalised ones, and their propagated covariance is M C M-dagger at every time.",
 ["inputs"], "All response matrices with non-zero row sums, all sizes, all normalisation modes.",
 "Tests use a few random matrices of a single size.",
 [S+"pspecdata.py"], [("normalisation", S+"pspecdata.py:get_MW/p_hat/cov_p_hat")])
prop("C16", "Empirical covariance is Hermitian and ignores flagged samples",
 "The empirical covariance of weighted data equals the weighted mean of the products minus the product of the weighted means, is Hermitian (for one data set), and samples with zero weight have no influence on it. Variances are real, and non-negative for weights of zero and one.",
 ["inputs"], "All sizes, data and weights.",
 "Tests compare a few random draws with loose tolerance.",
 [S+"utils.py"], [("covariance", S+"utils.py:cov")])
prop("C17", "Flag broadcasting only ever widens flags to whole times or channels",
 "After broadcasting, for every data set, baseline and polarization: a channel of a given spectral range flagged in more than the threshold fraction of times (not counting times flagged at all frequencies) is flagged at all times, and a time with any other flagged channel in the range is flagged over the whole range. No original flag is cleared, nothing outside the given ranges or on other baselines changes; with unflag, exactly the given ranges are cleared.",
 ["inputs"], "All flag patterns, thresholds, spectral ranges, baselines, polarizations and data sets.",
 "Tests use one pattern and threshold.",
 [S+"pspecdata.py"], [("broadcast", S+"pspecdata.py:broadcast_dset_flags")])
prop("C18", "Pseudo-Stokes visibilities combine the right feeds, flags and counts",
 "Each pseudo-Stokes visibility is the documented half-sum or half-difference (with its i factor) of the two linear-feed visibilities at the same baseline, time and frequency; it is flagged if either was flagged. Its sample count combines both inputs by the documented rule, and any Stokes output that cannot be built from the inputs present is refused or omitted, never substituted.",
 ["inputs"], "All data, flags, sample counts, polarization orders and available polarization sets.",
 "Tests check one data file with fixed polarization order.",
 [S+"pstokes.py"], [("combination", S+"pstokes.py:_combine_pol/construct_pstokes/generate_pstokes_argparser/filter_dset_on_stokes_pol")])
prop("C19", "A container returns what was stored and never loses other spectra",
 "In a container file, a spectrum stored under a group and name is returned equal to what was stored, until it is explicitly overwritten; storing, refused overwrites, failed operations and read-only access leave every other stored spectrum unchanged. Listings show exactly the groups and names stored, and merging split spectra replaces them by their combination without losing or altering any other spectrum.",
 ["histories", "fault_sequences"], "All sequences of store, overwrite, refused store, read, list, failed call and merge over any names.",
 "Tests use one or two names and no name that contains another.",
 [S+"container.py"], [("container", S+"container.py:PSpecContainer"), ("merge", S+"container.py:combine_psc_spectra"), ("transactions", S+"container.py:transactional")])
prop("C20", "Baseline pairing forms exactly the pairs the options allow",
 "Constructing baseline-pairs from a list of baselines yields each allowed pair exactly once, honouring exclusion of auto-pairs, of cross-pairs and of permutations, and grouping them changes no pair. Pairing within redundant groups never pairs baselines of different groups, honours length, angle and antenna cuts, and uses only baselines present in both data sets.",
 ["inputs"], "All baseline lists and option combinations.",
 "Tests check a few lists and options.",
 [S+"utils.py"], [("pairing", S+"utils.py:construct_blpairs/calc_blpair_reds/get_reds/get_bl_lens_angs")])
prop("C21", "Spectral windows and delays follow from the frequency axis",
 "A spectral window requested by frequency or redshift covers exactly the channels inside the requested range. Delay arrays for any channel count are evenly spaced by the inverse bandwidth, contain zero, are ordered, and match the wavenumbers reported for each window, and every baseline length and angle reported belongs to its own baseline.",
 ["inputs"], "All frequency axes, ranges and delay counts.",
 "Tests use one axis and a few ranges.",
 [S+"utils.py", S+"uvpspec.py"], [("ranges", S+"utils.py:spw_range_from_freqs/spw_range_from_redshifts"), ("delays", S+"utils.py:get_delays"), ("wavenumbers", S+"uvpspec.py:get_kparas/get_kperps/get_dlys")])
prop("C22", "Unit and beam conversions scale spectra by the stated factor only",
 "Converting to dimensionless units multiplies each value by k^3/2pi^2 at its own wavenumber (its error and covariance by the matching power). Loss corrections multiply spectra, covariance and statistics of each window by that window's factors; changing cosmology rescales spectra and errors by the ratio of new to old scalar only. Beam conversion factors and the volume scalar follow the documented integrals of the beam's solid angles at every frequency.",
 ["inputs"], "All contents, windows, polarizations, cosmologies and beams.",
 "Tests use a single flat beam and constant factors.",
 [S+"uvpspec.py", S+"loss.py", S+"pspecbeam.py"], [("units", S+"uvpspec.py:convert_to_deltasq/set_cosmology"), ("loss", S+"loss.py:apply_bias_correction"), ("beam", S+"pspecbeam.py:_compute_pspec_scalar/Jy_to_mK")])
prop("C23", "Stored weighting parameters survive compression for every baseline",
 "Compressing per-baseline weighting parameters and decompressing them returns, for every baseline key, exactly the parameters given for it, however many baselines share equal parameters. After selecting part of the data, the kept baselines keep their parameters and only theirs.",
 ["inputs"], "All parameter dictionaries.",
 "Tests use one dictionary with two distinct entries.",
 [S+"uvpspec_utils.py", S+"uvpspec.py"], [("compression", S+"uvpspec_utils.py:compress_r_params/decompress_r_params"), ("selection", S+"uvpspec_utils.py:_select")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
