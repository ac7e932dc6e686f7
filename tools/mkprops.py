#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script only so that the JSON stays well-formed).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Grouping is a partition of all subsequences",
  "After a dataset is grouped, for every length from 2 up to the series length, every contiguous subsequence of that length of every series is a member of exactly one group of that length, and groups contain nothing else. No group is empty, each group's reported size equals its number of members, and the group count returned to the caller is the total number of groups over all lengths.",
  ["inputs","configurations"],"every dataset content and shape, every threshold",
  "Tests group three fixed files and only look at the number of groups (often just > 20); membership is never inspected.",
  ["src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/GlobalGroupSpace.cpp"],
  [("one pass over all (start, series) pairs, each appended once to a linked member list","src/LocalLengthGroupSpace.cpp generateGroups"),("member list threaded through a per-length membership map","src/Group.cpp addMember/getMembers")],
  ["group members and sizes of each length","saved group file"])
p("C02","Group members are within half the threshold of their representative",
  "Every member of a group lies within half of the grouping threshold of the group's representative (normalised Euclidean distance), and the representative is the subsequence that founded the group, itself a member at distance zero. A subsequence founds a new group only if no existing representative is that near, and otherwise joins a group whose representative is the nearest among those existing at that moment.",
  ["inputs"],"every dataset content, every non-negative finite threshold",
  "No test looks at distances inside groups; the group counts asserted hold for many wrong assignments.",
  ["src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/distance/Distance.cpp"],
  [("nearest-representative scan with running best as cut-off","src/LocalLengthGroupSpace.cpp generateGroups"),("cut-off in point-wise distance","src/distance/Distance.cpp pairwiseDistance")],
  ["group members and representatives"])
p("C03","Warped distance is the optimum over all paths in the band",
  "The warped distance between two series equals the square root of the smallest total squared point difference over all monotone warping paths that start at both first points, end at both last points and stay inside the warping band, divided by twice the longer length. It is infinite exactly when no such path exists (length difference larger than the band).",
  ["inputs","configurations"],"all series values, all length pairs from 2 up, all warping band ratios in [0,1]",
  "Tests compare a handful of hand-computed distances, mostly with the band fully open.",
  ["src/distance/Distance.cpp"],
  [("banded dynamic program","src/distance/Distance.cpp warpedDistance"),("band size from ratio","src/distance/Distance.cpp calculateWarpingBandSize")],
  ["return value of the warped distance"])
p("C04","Early-abandon cut-offs never change a distance below the cut-off",
  "For the point-wise, the warped and the cascaded (lower-bound pruned) distance: given any cut-off, if the true distance is below the cut-off the exact distance is returned, and otherwise the result is either the exact distance or infinity. Pruning therefore never makes a candidate look nearer than it is and never hides a candidate nearer than the cut-off.",
  ["inputs","configurations"],"all series values, lengths, band ratios and cut-offs >= 0 (including infinity)",
  "Only one test passes a finite cut-off, and it is far above the distance.",
  ["src/distance/Distance.cpp"],
  [("cut-off mapped to squared scale","src/distance/Distance.cpp _euc_inorm, _euc_inorm_dtw"),("row minimum abandon, partial sum abandon, lower-bound abandon","src/distance/Distance.cpp warpedDistance, pairwiseDistance, cascadeDistance")],
  ["return values of the distance functions"])
p("C05","Keogh lower bounds never exceed the warped distance",
  "For any two series that have a warping path inside the band, the Keogh lower bound in either direction is at most their warped distance; the two-sided bound is also at most the warped distance, or is infinite only when the warped distance exceeds the given cut-off.",
  ["inputs","configurations"],"all series values, all (also unequal) lengths, band ratios and cut-offs",
  "One test checks one Keogh value for one pair; nothing relates the bound to the distance.",
  ["src/distance/Distance.cpp","src/TimeSeries.cpp","src/lib/trillionDTW.cpp"],
  [("envelope-based bound using the band of the longer series","src/distance/Distance.cpp keoghLowerBound, crossKeoghLowerBound")],
  ["return values of the lower bounds"])
p("C06","Envelopes are the exact sliding minimum and maximum",
  "For every series and every band width of at least zero, the upper (lower) envelope at each position is exactly the maximum (minimum) of the series' values within that band width of the position, clipped to the series. Computing it never reads or writes outside the series or its work buffers.",
  ["inputs","configurations"],"all series values (any order pattern, ties included), lengths and band widths, also bands wider than the series; subsequences at any offset",
  "Tests fix two series and six bands; the monotone-queue logic depends on the order pattern of the values.",
  ["src/lib/trillionDTW.cpp","src/lib/deque.cpp","src/TimeSeries.cpp"],
  [("monotone deques over a circular array of 2r+2","src/lib/trillionDTW.cpp lower_upper_lemire, src/lib/deque.cpp"),("band clamped to length-1","src/TimeSeries.cpp generateKeoghLU")],
  ["envelope arrays of a series"])
p("C07","Distances obey the laws a dissimilarity must obey",
  "Point-wise and warped distances are never negative, are symmetric, and are zero between equal series; the point-wise distance is zero only for equal series and equals the root mean squared difference. For equal lengths the warped distance never exceeds half the point-wise distance divided by the square root of the length. The point-wise distance refuses series of different lengths with an error.",
  ["inputs","configurations"],"all series values, lengths and band ratios, no cut-off",
  "Tests check single values, never a relation between two evaluations.",
  ["src/distance/Distance.cpp"],
  [("squared differences, normalisation by length","src/distance/Distance.cpp pairwiseDistance, warpedDistance")],
  ["return values of the distance functions"])
p("C08","A reported match is real and its distance is true",
  "The best match returned for a query is a contiguous subsequence of the searched dataset (valid series index, start and length, length at least 2 and within the warping band of the query length), its values are those of the dataset, and the reported distance is the warped distance between the query and exactly that subsequence.",
  ["inputs","configurations"],"all datasets, queries (from any dataset and any position), thresholds, band ratios",
  "Tests query the dataset with its own subsequences and look only at distance 0.",
  ["src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp","src/OnexAPI.cpp"],
  [("search order over lengths, best representative, then best member","src/GlobalGroupSpace.cpp getBestMatch, src/Group.cpp getBestMatch")],
  ["result of a match query"])
p("C09","The match comes from the nearest group and is its nearest member",
  "Among all groups of all lengths within the warping band of the query length, no group's representative is nearer to the query (warped distance) than the representative of the group the match was taken from, and no other member of that group is nearer to the query than the match.",
  ["inputs","configurations"],"all datasets, queries, thresholds, band ratios",
  "Tests never compare the answer with the alternatives.",
  ["src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp"],
  [("running best distance passed as cut-off through lengths, groups and members","src/GlobalGroupSpace.cpp getBestMatch, src/LocalLengthGroupSpace.cpp getBestGroup, src/Group.cpp getBestMatch")],
  ["result of a match query compared with every group representative and member"])
p("C10","The search visits exactly the lengths the band allows, once each",
  "For a query length q present among the grouped lengths, the lengths searched are q itself first and then exactly those lengths L between 2 and the series length whose difference to q is at most the warping band of the longer of the two, each exactly once; on either side of q, nearer lengths come before farther ones.",
  ["inputs","configurations"],"all query lengths, series lengths and band ratios in [0,1]",
  "One test checks one order for one ratio.",
  ["src/GlobalGroupSpace.cpp","src/distance/Distance.cpp"],
  [("two-sided expansion from the query length","src/GlobalGroupSpace.cpp generateTraverseOrder")],
  ["sequence of searched lengths"])
p("C11","A loaded dataset is exactly the table in the file",
  "After a successful load, row i and column j of the dataset is the value parsed from field startCol+j of line i of the file, the series length is the number of fields minus the discarded columns, and the series count is the number of lines, or the requested maximum if that is positive and smaller. Any of the given separator characters separates fields, runs of separators count as one, and lines after the requested maximum have no influence.",
  ["inputs","configurations"],"all well-formed table files, separators, row limits and start columns",
  "Tests load six fixed files and check four values.",
  ["src/TimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("line count pass, tokenizer, row-major buffer","src/TimeSeriesSet.cpp loadData")],
  ["dataset info and values after load"])
p("C12","Loading any file is safe and malformed input is refused",
  "Whatever the file contains and whatever row limit, start column and separators are given, loading either succeeds with at least one value per series and non-negative counts, or fails with an error; it never touches memory outside its buffers, in the double and in the single precision build. A file that cannot be opened, has rows of different length, fields that do not begin with a number, values outside the numeric range, no data, or fewer columns than are to be discarded is refused with an error and leaves no dataset behind.",
  ["inputs","configurations"],"arbitrary file contents, row limits, start columns (also negative or too large), separators; both precision options",
  "Tests try one uneven, one text and one out-of-range file; never a negative or too large start column, an empty file or the single precision build.",
  ["src/TimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("row length check, conversion errors mapped to one error type","src/TimeSeriesSet.cpp loadData")],
  ["error or dataset info; memory accesses"])
p("C13","Saving a dataset and loading it back is lossless",
  "Saving a loaded dataset with a separator character that cannot occur in a number, and loading the file again with that separator, yields a dataset with the same number of series, the same series length and exactly the same values, also after normalisation or aggregation.",
  ["inputs"],"all dataset values and shapes, separators",
  "There is no test that saves a dataset.",
  ["src/TimeSeriesSet.cpp"],
  [("text output of every value","src/TimeSeriesSet.cpp saveData"),("text input","src/TimeSeriesSet.cpp loadData")],
  ["values before save and after reload"])
p("C14","Saved groups load back as the same groups",
  "Saving the groups of a dataset and loading them into a dataset with the same dimensions and data restores, for every length, the same groups: same number, same order, same sizes, same members and exactly the same representative values, so that matches found afterwards are as good as before. The loaded group count equals the one reported when grouping.",
  ["inputs"],"all datasets, thresholds and queries",
  "No test saves or loads groups.",
  ["src/Group.cpp","src/LocalLengthGroupSpace.cpp","src/GlobalGroupSpace.cpp","src/GroupableTimeSeriesSet.cpp"],
  [("group file writer and reader","src/Group.cpp saveGroup/loadGroup; src/GroupableTimeSeriesSet.cpp saveGroups/loadGroups")],
  ["group file; matches before and after"])
p("C15","Damaged or incompatible group files are refused safely",
  "Loading a group file that is missing, has another version, other dimensions, an unknown distance name, is truncated at any point, is a sizes-only file, or refers to members outside the dataset fails with an error and never accesses memory out of bounds. After such a failure the dataset still works: it either keeps its previous groups intact or reports that it is not grouped.",
  ["inputs","crash_points"],"all group file contents obtained by truncation at any point or by changing any field; any previous grouping state",
  "No test loads a group file at all.",
  ["src/GroupableTimeSeriesSet.cpp","src/GlobalGroupSpace.cpp","src/LocalLengthGroupSpace.cpp","src/Group.cpp"],
  [("header compatibility checks","src/GroupableTimeSeriesSet.cpp loadGroups"),("field checks while reading groups","src/GlobalGroupSpace.cpp, src/LocalLengthGroupSpace.cpp, src/Group.cpp loadGroups/loadGroup")],
  ["error or group count; later match"])
p("C16","Normalisation maps the whole dataset onto [0,1] by min-max",
  "Normalising a dataset replaces every value v by (v - min) / (max - min), where min and max are the smallest and largest value over the whole dataset, and returns exactly that min and max; all results lie in [0,1] and both ends are attained. A dataset whose values are all equal becomes all zeros, a dataset without values is refused with an error, and the dataset is reported as normalised only after it has been normalised.",
  ["inputs"],"all dataset values and shapes (every parity of row count and row length)",
  "Tests normalise two files whose extremes sit where the scan looks.",
  ["src/TimeSeriesSet.cpp"],
  [("pairwise min/max scan per row","src/TimeSeriesSet.cpp normalize")],
  ["values and returned pair"])
p("C17","Piecewise aggregation yields the mean of every block",
  "Aggregating with block size n turns every series of length L into one of length ceil(L/n) whose k-th value is the mean of the k-th block of n consecutive values (the last block may be shorter); the number of series is unchanged and a non-positive block size is refused with an error leaving the dataset unchanged.",
  ["inputs"],"all dataset values and shapes, all block sizes",
  "One test aggregates one file with three block sizes.",
  ["src/TimeSeriesSet.cpp"],
  [("running block sum","src/TimeSeriesSet.cpp doPAA, PAA")],
  ["dataset info and values"])
p("C18","Out-of-range access is always refused, in-range access is exact",
  "Asking a dataset for a subsequence succeeds exactly if the series index is valid and either both positions are negative (whole series) or 0 <= start < end <= series length, and then element k of the result is value start+k of that series; every other request fails with an error. Reading element k of any series succeeds exactly for 0 <= k < length, and adding two series succeeds exactly when their lengths agree and adds element-wise.",
  ["inputs"],"all index, start, end and element arguments (full integer range), all dataset shapes",
  "Tests try six invalid requests and one valid one.",
  ["src/TimeSeriesSet.cpp","src/TimeSeries.cpp"],
  [("range checks","src/TimeSeriesSet.cpp getTimeSeries; src/TimeSeries.cpp operator[], operator+=")],
  ["value or error"])
p("C19","Dataset ids are stable and bookkeeping is exact over any history",
  "Over any sequence of loads, failed loads, unloads and unload-alls: a successful load gets the smallest id not in use, an id keeps denoting the same dataset until it is unloaded, the dataset count and the list of datasets equal the datasets currently loaded, and every operation on an id not in use fails with an error and changes nothing. A failed load leaves ids, count and all loaded datasets as they were.",
  ["histories"],"all sequences of registry operations with arbitrary ids",
  "Tests run two fixed histories.",
  ["src/OnexAPI.cpp"],
  [("slot vector with null holes and a counter","src/OnexAPI.cpp loadDataset/unloadDataset/unloadAllDataset/_checkDatasetIndex")],
  ["ids, counts, info, errors"])
p("C20","Groups never outlive or misrepresent the data they were built from",
  "After any operation that changes a grouped dataset's values (normalisation, aggregation, reloading), a match is either answered correctly for the current values or refused because the dataset is no longer grouped; stale groups, stale envelopes or released memory are never used. The dataset is reported as grouped exactly when a match can be answered from its groups.",
  ["histories"],"all sequences of group, match, normalise, aggregate, reload, load groups and failed operations",
  "No test changes a dataset after grouping it.",
  ["src/GroupableTimeSeriesSet.cpp","src/TimeSeriesSet.cpp","src/OnexAPI.cpp","src/Group.cpp"],
  [("representatives point into the dataset's buffer","src/Group.cpp setCentroid"),("groups dropped when the data changes","src/GroupableTimeSeriesSet.hpp/.cpp")],
  ["match results, grouped flag, memory accesses"])
p("C21","Grouping works for every dataset size and any clock",
  "Grouping succeeds for every loaded dataset, however few series or points it has and however extreme its values or the threshold, and its result depends only on the data and the threshold, not on the wall-clock time or on progress reporting.",
  ["inputs","schedules"],"all dataset shapes down to one series and one point; all clock readings, also jumping back and forth",
  "Tests group datasets with at least 45 subsequences per length; the clock is whatever it is.",
  ["src/LocalLengthGroupSpace.cpp"],
  [("progress log every tenth second","src/LocalLengthGroupSpace.cpp generateGroups")],
  ["group count and members; absence of crashes"])
p("C22","Series values behave as values and memory is released exactly once",
  "Copying, assigning (also to itself) and moving series keeps every copy's contents independent and correct: a copy equals its source, later changes to one owned series never show in another, and a derived envelope always reflects the series' current contents after assignment, addition or a change of band. Every allocation made by series, datasets and groups is released exactly once with the matching operation, with nothing leaked.",
  ["histories"],"all sequences of construction, copy, assignment, addition, envelope queries and destruction; grouping, matching and unloading of datasets",
  "Tests never copy or assign an owning series, and run without memory checking.",
  ["src/TimeSeries.hpp","src/TimeSeries.cpp","src/TimeSeriesSet.cpp","src/Group.cpp"],
  [("ownership flag, deep copy, envelope cache flag","src/TimeSeries.hpp, src/TimeSeries.cpp")],
  ["values, envelopes, heap state"])
p("C23","The command line survives every command and executes what was typed",
  "Every input line makes the command line either carry out exactly the requested operation with the given arguments, or print an error and leave all datasets unchanged; wrong argument counts, arguments that do not begin with a number where one is needed, unknown commands and refused operations are reported as errors and the session goes on. Only exit, quit or end of input end it, and no line makes it access memory out of bounds.",
  ["inputs","histories"],"all command lines: any command name, any number of arguments, numeric or not, in any sequence",
  "The command line has no tests.",
  ["cli/OnexCLI.cpp","cli/Command.hpp"],
  [("argument count checks, exception mapping in the main loop","cli/OnexCLI.cpp")],
  ["printed output, API state"])
p("C24","Candidates are ranked by distance, then by position",
  "When two match candidates' distances differ by more than the tie tolerance (1e-12), the nearer one ranks first; within the tolerance they rank by series index, then start, then length. The ranking never puts both of two candidates before each other and never ranks a candidate before itself.",
  ["inputs"],"all pairs of candidates: distances, series indices, starts and lengths",
  "The ranking is never exercised by a test.",
  ["src/TimeSeries.hpp"],
  [("ordering with tolerance","src/TimeSeries.hpp candidate_time_series_t::operator<")],
  ["comparison result"])
p("C25","A query that cannot be answered is refused, never a crash",
  "A match request fails with an error (and without touching memory out of bounds) if the searched or the querying dataset does not exist, the requested query range is invalid, the searched dataset is not grouped, the query has fewer than two points, or no grouped length lies within the warping band of the query length. Any other request on a grouped dataset, including queries longer than the dataset's series, returns a match.",
  ["inputs","configurations"],"all dataset and query ids, ranges, query lengths relative to the dataset, band ratios",
  "Tests try three refusals; never a query longer than the searched series.",
  ["src/GlobalGroupSpace.cpp","src/GroupableTimeSeriesSet.cpp","src/OnexAPI.cpp"],
  [("query length check, traversal limited to existing lengths","src/GlobalGroupSpace.cpp getBestMatch, generateTraverseOrder")],
  ["match or error"])
p("C26","The bundled search kernels agree with their definitions",
  "The bundled banded warped-distance kernel returns the optimum over all warping paths in the band for equal-length series when it is not abandoned, and a value not below the given best-so-far when it is; the bundled cumulative envelope bounds and the hierarchical first/last-point bound never exceed that optimum for the normalised data, and the per-position contributions they write sum up to the bound.",
  ["inputs","configurations"],"all series values, means, positive deviations, lengths (at least 6 for the first/last-point bound), bands, best-so-far values",
  "The kernels have no tests.",
  ["src/lib/trillionDTW.cpp"],
  [("rolling-array dynamic program; ordered early-abandon sums","src/lib/trillionDTW.cpp dtw, lb_kim_hierarchy, lb_keogh_cumulative, lb_keogh_data_cumulative")],
  ["return values and contribution arrays"])
p("C27","Queries and exports never change anything",
  "Matching, listing, getting information, computing a distance, saving a dataset and saving groups leave every dataset's values, dimensions, groups and flags unchanged; asking the same query again, after any other queries and band changes back and forth, gives the same answer.",
  ["histories"],"all sequences of read-only operations, with band ratio changes in between that are undone",
  "Tests never repeat a query or compare state before and after.",
  ["src/OnexAPI.cpp","src/GlobalGroupSpace.cpp","src/TimeSeries.cpp"],
  [("envelope cache keyed by band","src/TimeSeries.cpp getKeoghLower/getKeoghUpper")],
  ["values, info, match results, saved files"])
p("C28","I/O faults are reported, not swallowed",
  "If writing any part of a dataset or group file fails, the save operation fails with an error; if reading a dataset file fails at any point, the load fails with an error and leaves no dataset behind. An operation that returns normally has written, or read, everything.",
  ["fault_sequences"],"a read or write fault at any operation on the file, dataset and group files",
  "Tests have no fault injection.",
  ["src/TimeSeriesSet.cpp","src/GroupableTimeSeriesSet.cpp"],
  [("stream state checks","src/TimeSeriesSet.cpp loadData/saveData; src/GroupableTimeSeriesSet.cpp saveGroups")],
  ["error versus normal return"])
p("C29","Regrouping replaces the old groups completely",
  "Grouping an already grouped dataset gives exactly the groups that grouping it freshly would give, whatever thresholds or distances were used before. A grouping request that fails (no data, unknown distance name) reports an error, and the dataset is afterwards either grouped as before or not grouped, never half grouped.",
  ["histories","inputs"],"all sequences of grouping requests with any thresholds and distance names, all dataset values",
  "One test groups twice and checks that both counts exceed 20.",
  ["src/GroupableTimeSeriesSet.cpp","src/GlobalGroupSpace.cpp"],
  [("old groups cleared before new ones are built","src/GroupableTimeSeriesSet.cpp groupAllLengths; src/GlobalGroupSpace.cpp group/reset")],
  ["group count, group file, grouped flag"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
