#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
PY="src/python/pycold/"; C="src/cxx/"

prop("P01","QA words decode to the highest-precedence class of the product's bit layout",
 "Stacking turns every QA word of a Landsat Collection 1, Landsat Collection 2 or HLS image into exactly one class value (clear 0, water 1, shadow 2, snow 3, cloud 4, fill 255): the highest class flagged in that product's bit layout in the order cloud, shadow, snow, water, clear, where dilated/adjacent cloud counts as cloud. A Landsat word that flags none of these classes is fill, the HLS word 255 is fill, and any other HLS word that flags none of them is clear. The class of one pixel depends on that pixel's word only, never on its neighbours.",
 ["inputs"],"every QA word (all 16-bit words, and every wider non-negative word) of each of the three products, at every pixel position of an array of any size",
 "The stable tests never import the stacking tool (its dependencies are absent) and no test feeds a QA word at all; precedence shows only on words flagging two or more classes.",
 [PY+"imagetool/prepare_ard.py"],
 [("qabitval_array (C1: bits 1 clear, 2 water, 3 shadow, 4 snow, 5 cloud)","imagetool/prepare_ard.py"),("qabitval_array_c2 (bits 1 dilated, 3 cloud, 4 shadow, 5 snow, 6 clear, 7 water)","imagetool/prepare_ard.py"),("qabitval_array_HLS (bits 1 cloud, 2 adjacent, 3 shadow, 4 snow, 5 water)","imagetool/prepare_ard.py")])

prop("P02","Pixel, block and tile addresses convert into each other without loss",
 "For any tile split evenly into blocks, the block number to block (column, row) conversion and the pixel position to in-block (row, column) conversions are mutually consistent: every block number maps to a distinct block cell in row-major order, and every pixel of a block maps to its own tile row and column and back to the same in-block index. In-block rows and columns of a pixel that lies in the block are always inside the block. Nothing depends on the tile or the block being square.",
 ["inputs","configurations"],"every tile and block geometry (any numbers of block columns and rows, any block width and height, square or not) and every pixel of it",
 "Tests use one tiny square tile with one or four blocks, where swapping width and height, or rows and columns, gives the same number.",
 [PY+"utils.py",PY+"common.py"],
 [("get_block_x / get_block_y","utils.py"),("get_col_index / get_row_index","utils.py"),("get_rowcol_intile / get_id_inblock","utils.py"),("DatasetInfo.__post_init__","common.py")])

prop("P03","Block results are assembled at their own place in the tile map",
 "Whenever per-block results are assembled into a tile map (change-magnitude maps, object-analysis maps, classification features and cover maps), the value computed for tile pixel (row, column) is found at exactly (row, column) of the assembled map, every pixel is filled once, and the map has the tile's shape. This holds for every block grid, square or not.",
 ["inputs","configurations"],"every block grid (numbers of block columns and rows, block width and height), every pixel and every per-block content",
 "Tests assemble maps of one small square grid, where transposing block rows and block columns cannot be told from the right answer.",
 [PY+"utils.py",PY+"pyclassifier.py",PY+"ob_analyst.py"],
 [("assemble_array","utils.py"),("assemble_cmmaps","utils.py"),("save_obiaresult / get_allobiaresult_asarray","ob_analyst.py"),("step4_assemble, get_fullfeature_forcertainyear","pyclassifier.py")])

prop("P04","An object is change exactly when its scaled magnitude exceeds its threshold",
 "Object-based analysis marks a change object exactly when its mean magnitude times min(2, 0.95 + slope x log10(object size)) strictly exceeds the threshold, with threshold and slope taken from the object's majority land-cover class (1 to 8), from the defaults when there is no thematic map or the class is 255, and from the uniform pair when a thematic map and both uniform values are given. The resulting change map is 1 exactly on the superpixels of the objects so marked and 0 elsewhere.",
 ["inputs","configurations"],"every object size, magnitude, majority class, parameter table and choice of uniform override; every pair of object maps",
 "Tests run one scene with one parameter table; a wrong class-to-threshold pairing or a wrong scale cap shows only for particular classes and sizes.",
 [PY+"ob_analyst.py",PY+"constants.yaml"],
 [("is_change_object","ob_analyst.py"),("object_analysis, modeby","ob_analyst.py")])

prop("P05","Classification features come from the segment that covers the requested date",
 "For each pixel and requested day, every classification feature is taken from the one time segment of that pixel that covers the day (its start day up to, not including, the next segment's start, or its own end for the last one), each feature name reading its own coefficient of the requested band, with a0 the intercept plus slope x day / 10000 and c1 the slope / 10000. Undefined (NaN) features are 0, and a day that no segment covers leaves the NA value in all features.",
 ["inputs"],"every list of segments ordered in time, every coefficient value including NaN, every band, every list of requested days and feature names",
 "Tests compare one block's features for a few years; segment boundaries, NaN coefficients and the rarely used features are never exercised.",
 [PY+"pyclassifier.py"],
 [("extract_features","pyclassifier.py"),("PyClassifier.predict_features","pyclassifier.py")])

prop("P06","Training sample quotas follow the class proportions within their bounds",
 "For every land-cover map, the number of training samples of class k is the class's share of the total sample budget, rounded, raised to the minimum and cut to the maximum per class, and never more than the number of pixels of that class; pixels whose value is above the last class do not count. A class that does not occur gets no sample.",
 ["inputs","configurations"],"every land-cover map (any mix and absence of classes, out-of-range values) and every quota configuration with minimum not above maximum",
 "Tests use one map with fixed quotas, so the interaction of the three bounds and missing classes is not reached.",
 [PY+"pyclassifier.py"],
 [("generate_sample_num","pyclassifier.py")])

prop("P07","Detector parameters are accepted exactly in their documented ranges",
 "The detection entry points reject, with an error naming the parameter, every value outside the documented type and range of a parameter and accept every value inside it, bounds included or excluded as documented. Observation arrays of different lengths or of more than one dimension are always rejected before any detection runs.",
 ["inputs"],"every integer and real value of every numeric parameter of the detection entry points, and every combination of array lengths",
 "Tests call the detectors with default parameters only.",
 [PY+"colds.py",PY+"_param_validation.py"],
 [("Interval.__contains__ and the other constraints","_param_validation.py"),("_parameter_constraints, _validate_params, _validate_data","colds.py")])

prop("P08","Detector arguments reach the algorithm in their own roles",
 "Every argument given to a detection entry point reaches the algorithm in the role its name documents, in the binding layer as well as in the Python wrapper: dates, the seven bands and the QA series in their own slots, and threshold, consecutive count, position, regularisation and interval in theirs, with documented defaults for the ones left out. The caller's arrays are never modified.",
 ["inputs","configurations"],"every combination of argument values of every detection entry point",
 "Tests use default parameters and positional bands, so two swapped parameters of the same type, or two swapped bands in one entry point, go unnoticed.",
 [PY+"colds.py",PY+"_colds_cython.pyx"],
 [("cold_detect, obcold_reconstruct, sccd_detect, sccd_update, sccd_identify","colds.py"),("_cold_detect, _obcold_reconstruct, _sccd_detect, _sccd_update","_colds_cython.pyx")])

prop("P09","Saved S-CCD state is restored unchanged",
 "Flattening an S-CCD state to plain lists for storage and indexing it again yields the same state: position, minimum noise, mode, every stored segment, the current model and the observation queue, field by field. A list that does not have the right number of parts is refused.",
 ["inputs","histories"],"every S-CCD state: any number of segments, with or without a current model and a queue, any field values",
 "The S-CCD tests are skipped in this environment and only ever round-trip one recorded state.",
 [PY+"utils.py",PY+"common.py"],
 [("unindex_sccdpack / index_sccdpack","utils.py"),("sccd_dt, nrtmodel_dt, nrtqueue_dt","common.py")])

prop("P10","Break categories in exported maps follow the documented spectral rule",
 "In exported break maps a break is regrowth or afforestation exactly when near infrared rises and red and first shortwave fall beyond the threshold, afforestation when moreover the next segment's trends point the same way more strongly than the broken segment's, and disturbance otherwise; for object-based results a disturbance repeated within five years with at least four sign flips is reported as its own category.",
 ["inputs"],"every pair of consecutive segments: all change magnitudes, slopes, break days and previous categories",
 "The export tool cannot be imported in the test environment and has no tests.",
 [PY+"imagetool/export_change_map.py"],
 [("getcategory_cold / getcategory_obcold / getcategory_sccd","imagetool/export_change_map.py")])

prop("P11","Calendar conversions agree with the proleptic Gregorian calendar",
 "For every supported date, year plus day-of-year converts to the proleptic Gregorian ordinal day number (1 January of year 1 is day 1) and the ordinal converts back to the same year and day of year; year plus month converts to the right first day of year, and leap years are the Gregorian ones. File names built from an ordinal date carry that date's year and three-digit day of year.",
 ["inputs"],"every date from 1973 on for the year and day-of-year conversions, every year and month, every ordinal date",
 "Tests never call the conversions; errors sit at leap days, year ends and the first supported year.",
 [C+"input.c",C+"misc.c",PY+"utils.py",PY+"ob_analyst.py"],
 [("convert_year_doy_to_ordinal / convert_jday_to_year_doy_from_0000 / is_leap_year","input.c"),("yearmonth2doy","misc.c"),("get_doy, cmname_fromdate","utils.py, ob_analyst.py")])

prop("P12","Only valid observations count, and masked values never influence a result",
 "An observation is usable exactly when its QA class is not fill and every band lies in its physical range (blue above -200, other reflective bands above 0, all below 10000; Collection 1 thermal converted from tenths of kelvin between -93.2 and 70.7 degrees, Collection 2 thermal unrestricted), and the clear, water, shadow, snow and cloud counts are the exact counts of those QA classes, clear including water; an undefined QA class makes the pixel fail. For a pixel with at least 24 clear observations the detection result does not change when band values of fill, cloud or shadow observations change, an observation out of its range is as good as none, and of the usable observations of one date only the first counts.",
 ["inputs"],"every observation series: any length, any band values and any QA values, both Landsat collections",
 "Tests run a few recorded pixels; band-specific range bounds and QA class counts are never probed at their limits.",
 [C+"utilities.c",C+"cold.c"],
 [("preprocessing","utilities.c"),("cold (observation selection before fitting)","cold.c")])

prop("P13","Sorting orders the keys and keeps every observation together with its key",
 "Every sorting routine used on observation series leaves its keys in non-decreasing order, is a permutation of its input, and moves all attached values (band values, QA, sensor, index) with the key they belonged to; nothing outside the sorted range changes.",
 ["inputs"],"every array content and range, duplicates and already sorted or reversed input included, any number of attached bands",
 "Tests feed chronologically sorted series without ties only.",
 [C+"utilities.c",C+"misc.c"],
 [("quick_sort_float/double/long/buf/buf_sensor/index, partition_*","utilities.c"),("quick_sort_int, quick_sort_2d_float/double, partition_2d_*","misc.c")])

prop("P14","Model complexity follows the number of observations and unused terms are zero",
 "The number of harmonic coefficients fitted is 4, 6 or 8 as the number of observations is below 18, below 24, or at least 24, never above the requested maximum, and every coefficient beyond the fitted number is exactly 0 in the stored record. It never decreases when observations are added. Each fitted coefficient is stored at the term of the harmonic model it belongs to, the residuals are observed minus predicted values, and the error is normalised by the number of observations less the number of coefficients; a fit the solver cannot make stores no coefficients.",
 ["inputs"],"every series and range, every number of observations and every requested maximum",
 "Tests see only a handful of segment lengths and compare coefficients to a recorded output.",
 [C+"misc.c",C+"cold.c"],
 [("update_cft","misc.c"),("auto_ts_fit, auto_ts_fit_float, auto_ts_fit_sccd, c_glmnet","misc.c")])

prop("P15","Every predictor evaluates the same harmonic model",
 "All routines that predict reflectance from coefficients - the batch predictors, the state-space predictor and the Python helpers - evaluate intercept + slope x day / 10000 + the cosine and sine pairs of one, two and three cycles per 365.25 days, using exactly the first 4, 6 or 8 coefficients. For the same coefficients and day they agree. Only the double-precision predictor takes its slope per day, as the double-precision fit stores it.",
 ["inputs"],"every coefficient vector, day, band and model size, and every range of predicted days",
 "Tests compare end results for recorded pixels; a wrong term in a rarely used model size or in one of the duplicate predictors is not seen.",
 [C+"misc.c",C+"KFAS.c",C+"s_ccd.c",PY+"utils.py"],
 [("auto_ts_predict, auto_ts_predict_float","misc.c"),("KF_ts_predict_conse, compute_f","s_ccd.c, KFAS.c"),("coefficient_matrix, predict_ref","utils.py")])

prop("P16","State conversions lose nothing and the Kalman filter makes its step",
 "Converting a harmonic fit to a state-space vector at a date and back at the same date gives the original coefficients, the observed component of the vector is the fit's prediction at that date, and advancing the vector by any number of days with the state transition gives the vector of the same fit at the later date. At an observation the filter applies the Kalman update (innovation, gain, state, covariance) and moves one day; on every further day up to the next observation only the covariance advances, by the transition and the disturbance covariance (not at all once steady); a skipped observation advances the covariance alone.",
 ["inputs"],"every coefficient vector with non-zero slope term, every date and any number of daily steps",
 "The S-CCD tests are skipped here, and the recorded cases visit a few dates only.",
 [C+"KFAS.c",C+"s_ccd.c"],
 [("fit_cft2vec_a / vec_a2fit_cft","KFAS.c"),("initialize_ssmconstants, filter1step_missingobs, filter1step_validobs","KFAS.c"),("KF_ts_filter_regular, KF_ts_filter_falsechange","s_ccd.c")])

prop("P17","COLD returns well-formed, chronological, non-overlapping segments",
 "For every observation series COLD returns no more than forty segments, in time order: each starts no later than it ends, ends before its break when it has one, and starts no earlier than the previous segment's break; start, end and break are dates of usable observations. Every segment but the last has a break and probability 100; the last one's probability lies in 0 to 100, above zero exactly when it has a break. The number of observations is that of the segment's last fit, positive and not above the number of usable ones; it decides the number of coefficients (4 below 18, 6 below 24, 8 from there on), which is the category, except for the four-coefficient models before the first model (14) and at the end of the series (24); coefficients beyond those are zero. The position is the one given; dates out of order are an error.",
 ["inputs"],"every observation series, threshold, consecutive count and regularisation in the documented ranges",
 "Tests check two recorded pixels; the guarantees must hold for sparse, snowy, cloudy, constant, noisy and very long series alike.",
 [C+"cold.c",PY+"colds.py"],
 [("stand_procedure, inefficientobs_procedure","cold.c")])

prop("P18","Object-based reconstruction honours the supplied break dates",
 "Object-based reconstruction cuts a pixel's series only at supplied break dates: zero and negative dates are ignored, a date less than 365.25 days after the previously retained one is dropped, and each retained date's break is at the clear usable observation nearest to it (the earlier of two equally near). A retained date gives a segment when at least six observations, after the removal of outliers, remain since the previous break used. Segments are chronological and do not overlap; each starts and ends at the date of a clear usable observation, counts its observations, has the number of coefficients its count calls for, ends with a break of probability 100 - except the last, which has no break, probability and magnitudes 0 - and carries the pixel's position. There are at most forty; when there would be none the pixel gets the one model of pixels with few observations.",
 ["inputs"],"every observation series and every list of break dates (unsorted, duplicated, zero-padded, outside the series)",
 "One recorded pixel with its recorded breaks is tested.",
 [C+"cold.c",PY+"colds.py"],
 [("obcold_reconstruction_procedure","cold.c")])

prop("P19","Change-magnitude outputs stay inside their grid, types and fill values",
 "The change-magnitude outputs have one entry per output interval from the starting date on, entries without an evaluated observation hold the fill value, each evaluated one holds the magnitude scaled by 100 and saturated at the 16-bit maximum with a date inside its own interval, and the number of intervals covers the whole period from the first to the last date. Nothing is written outside the arrays for any interval and starting date not after the first observation.",
 ["inputs","configurations"],"every observation series, starting date, output interval and number of intervals",
 "Tests look at the shape of one output.",
 [C+"cold.c",PY+"imagetool/tile_processing.py",PY+"utils.py"],
 [("stand_procedure, CM outputs","cold.c"),("reading_start_dates_nmaps","tile_processing.py"),("get_anchor_days","utils.py")])

prop("P20","S-CCD near-real-time state keeps the newest observations and a consistent mode",
 "The near-real-time state returned by S-CCD has a queue exactly in the modes that need one and a model exactly in the modes that need one, and the mode follows the documented rule (a confirmed change of a continued pixel asks for a new model, a pixel with enough observations is monitored). The queue holds given observations only, with all their bands, in chronological order, at most 240 of them and never losing the newest; the monitoring model carries exactly the newest observations of the change window, and where it re-enters the series the series is again that of the given observations; its number of observations counts those of its segment, and after a change it is the model of the segment just closed. Segments follow one another and begin and end on given observations, as do pinpoint records; updating with new observations never alters segments already closed; at most forty segments and forty pinpoint records are kept, and nothing is read outside the series or written beyond the records.",
 ["inputs","histories"],"every observation series and every split of it into an initial run and later updates",
 "The S-CCD tests are skipped here and cover one recorded pixel.",
 [C+"s_ccd.c",PY+"_colds_cython.pyx"],
 [("sccd, step3_processing_end, sccd_snow, sccd_standard","s_ccd.c"),("_sccd_detect, _sccd_update","_colds_cython.pyx")])

prop("P21","Two-dimensional work arrays have the requested shape and disjoint rows",
 "Every allocated two-dimensional array gives rows x columns elements of the requested size, all inside one block, with rows that do not overlap and are contiguous and properly aligned for their element type; the rows and columns recorded in it are the requested ones, and freeing it releases the whole block, while a pointer that is no such array is reported and not freed. A request that cannot be satisfied (negative, or larger than memory) returns null instead of a partial array.",
 ["inputs"],"every number of rows and columns and every element size, the impossible ones included",
 "Tests only allocate the few shapes the detectors use.",
 [C+"2d_array.c"],
 [("allocate_2d_array, free_2d_array","2d_array.c")])

prop("P22","Noise statistics equal their mathematical definition",
 "The medians, means, norms, root mean squares and variograms used as noise estimates equal their mathematical definition over exactly the requested range: the median of an even-length range is the mean of its two middle values, the variogram of two or more observations is the median absolute difference of successive ones, the mean angle is the mean of the angles between successive change vectors (0 for parallel ones), and de-duplication keeps the first observation of every date, in order, with all its bands. No statistic reads or changes anything outside its range.",
 ["inputs"],"every array, band index, range start and length of at least the documented minimum",
 "Tests compare final coefficients of a few recorded pixels, where an off-by-one in a range is within tolerance or masked by later selection.",
 [C+"misc.c"],
 [("matlab_2d_*_median, matlab_*_partial_median, *_mean, *_norm, rmse","misc.c"),("adjust_median_variogram, singleband_variogram","misc.c"),("get_ids_length, matlab_unique","misc.c"),("MeanAngl, MeanAngl_float","misc.c")])

prop("P23","Pixels with few clear observations get one segment from their own values",
 "A pixel with fewer than 24 clear observations gets at most one segment. When more than three quarters of its clear and snow observations are snow, the segment is fitted to the snow and clear observations (none below twelve), each band against the dates of its own unsaturated values, a saturated optical band being the constant 10000 and a thermal band with fewer than twelve valid values all zero; otherwise it is fitted to the valid observations, the first of every date, whose green is below the median green plus 400, every band paired with its own dates, and no segment is returned below twelve. The record's number of observations is that of the observations used and its start and end are their first and last dates.",
 ["inputs"],"every series of dates, QA classes and band values with fewer than 24 clear observations",
 "No test covers pixels with few clear observations; a value paired with the date of another observation still yields plausible coefficients.",
 [C+"cold.c"],
 [("inefficientobs_procedure","cold.c"),("cold (choice of procedure)","cold.c"),("matlab_unique, matlab_2d_float_median","misc.c")])
prop("P24","Result records have the same layout in C, in the binding and in numpy",
 "Every record the C code writes into the output buffers (COLD segments, S-CCD segments, near-real-time models, queued observations, pinpoint records) has the same size, field order, field types, field shapes and byte offsets as the numpy record type its buffer is read with and as the declaration in the binding layer.",
 ["configurations"],"every record type and field",
 "Tests read a handful of fields on one platform; a layout that differs in padding or in the width of one field shifts every later field of every record silently.",
 ["src/python/pycold/common.py","src/python/pycold/_colds_cython.pyx",C+"output.h",C+"s_ccd.h"],
 [("Output_t, Output_sccd, output_nrtqueue, output_nrtmodel, Output_sccd_pinpoint","output.h"),("dtypes","common.py"),("ctypedef struct","_colds_cython.pyx")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
