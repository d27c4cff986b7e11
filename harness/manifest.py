#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property file in harness/props, the remaining properties under not_applicable."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
T = {  # technique, level note
 "G01": ("property-based testing of the full edge set against a long double O(n^2) threshold oracle", "Exact oracle on every pair of each generated instance; instances are sampled. Pairs equal up to rounding are not judged."),
 "G02": ("property-based testing with statistical oracle: per-pair and grouped edge counts over seeds against the model probability (two-stage Chernoff tests)", "Deviations of the probability above what the number of sampled graphs resolves (evidence lists trials) are seen; smaller ones are not. False alarm probability per run below 1e-6."),
 "G03": ("property-based testing of pairwise association between edges/regions/runs over seeds (two-stage exact tests)", "Detects shared streams and pairwise dependence between edges; higher-order dependence only where it shows in region counts."),
 "G04": ("property-based and differential testing: graph invariants, edge list against callback, exact edge counts of constructed graphs", "Exact oracle on sampled instances."),
 "G05": ("stateful property-based testing: random call histories replayed shuffled, concurrently and with delays, compared with each other", "Equality oracle over sampled histories and schedules."),
 "G06": ("property-based testing of sampled weights: DKW bounds, per-index distribution, correlation and duplicate tests", "Statistical: resolves deviations of the distribution function above about 1e-3; false alarm probability below 1e-9 per test."),
 "G07": ("property-based testing of sampled positions: DKW bounds, per-index distribution, correlation and duplicate tests", "Statistical: resolves deviations of the distribution function above about 1e-3; false alarm probability below 1e-9 per test."),
 "G08": ("property-based testing against the closed form of the expected degree, evaluated for all pairs in long double", "Exact oracle for the expectation on sampled weight vectors and parameters."),
 "G09": ("property-based testing of error reporting and unchanged inputs over valid and invalid alpha", "Exact oracle on sampled inputs."),
 "G10": ("property-based round-trip testing: generated graphs are written, parsed and compared", "Exact oracle on sampled graphs; file faults: missing directory, directory in place of the file, existing longer file."),
 "G11": ("property-based testing of the command line tool against the library (differential), with generated valid and invalid parameter lists", "The tool is run as a process in a scratch directory; its files are parsed and compared with the library's result."),
 "H01": ("property-based testing of the full edge set against a long double O(n^2) distance oracle", "Exact oracle on every pair of each generated instance; instances are sampled. Pairs at distance R up to rounding are not judged."),
 "H02": ("property-based testing with statistical oracle: per-pair and grouped edge counts over seeds against the model probability (two-stage Chernoff tests)", "Deviations of the probability above what the number of sampled graphs resolves are seen; smaller ones are not. False alarm probability per run below 1e-6."),
 "H03": ("property-based testing of pairwise association between edges/regions/runs over seeds (two-stage exact tests)", "Detects shared streams and pairwise dependence between edges; higher-order dependence only where it shows in region counts."),
 "H04": ("property-based and differential testing: graph invariants, edge list against callback, exact edge counts of constructed graphs", "Exact oracle on sampled instances."),
 "H05": ("stateful property-based testing: random call histories replayed shuffled, concurrently and with delays, compared with each other", "Equality oracle over sampled histories and schedules."),
 "H06": ("property-based testing of sampled radii: DKW bounds, per-index distribution, correlation and duplicate tests", "Statistical: resolves deviations of the distribution function above about 1e-3; false alarm probability below 1e-9 per test."),
 "H07": ("property-based testing of sampled angles: DKW bounds, per-index distribution, correlation and duplicate tests", "Statistical: resolves deviations of the distribution function above about 1e-3; false alarm probability below 1e-9 per test."),
 "H08": ("property-based testing against the closed form and against degrees of sampled graphs", "Exact for the formula on sampled parameters; the sampled degree is a statistical and asymptotic comparison."),
 "H09": ("property-based testing: the returned radius is put back into the degree equation", "Exact oracle on sampled parameters."),
 "H10": ("property-based testing of the command line tool against the library (differential), with generated valid and invalid parameter lists", "The tool is run as a process in a scratch directory; its files are parsed and compared with the library's result."),
 "H11": ("property-based testing under generated thread counts, nesting and runtime limits with hang detection and an exact oracle", "Termination is observed with a watchdog (idle process or far beyond the expected time); results have an exact oracle."),
 "C01": ("model-based property testing against std::stable_sort over generated sequences, containers, key types and thread counts", "Exact oracle on sampled inputs; small sizes and power-of-two key ranges are hit deliberately."),
 "C02": ("model-based property testing of layer queries against a brute force filter of the points", "Exact oracle on sampled point sets; all cells of all levels for small trees, sampled cells for deep ones."),
 "C03": ("property-based testing of cell functions against long double reference geometry, exhaustive for shallow levels", "Exhaustive over all cell pairs of shallow levels, sampled below."),
 "C04": ("property-based testing of cell functions against long double reference geometry, exhaustive for shallow levels", "Exhaustive over all cell pairs of shallow levels, sampled below."),
 "C05": ("property-based testing of point arithmetic and filters against long double reference formulas", "Exact oracle with a rounding margin on sampled points and probabilities."),
 "C06": ("property-based differential testing of both Morton implementations against a bit-by-bit reference", "Exhaustive for small codes, sampled beyond."),
 "C07": ("property-based round-trip and metamorphic testing of the mapping; sandwich relation checked on every pair of generated instances", "Exact oracle with rounding margins on sampled inputs."),
 "X01": ("differential property-based testing across build configurations", "Equality between builds of the current tree on sampled inputs; assertion builds must not abort."),
 "X02": ("property-based fuzzing of the public API under AddressSanitizer and UndefinedBehaviorSanitizer", "What the sanitizers detect on sampled valid inputs, including borders of the domain."),
 "X03": ("property-based fuzzing of parallel calls under ThreadSanitizer with a pthread OpenMP runtime that perturbs schedules", "Happens-before races of executed code on sampled inputs and schedules; results compared between schedules."),
 "X04": ("property-based testing of work growth: executed basic blocks counted over generated scaled instances", "Deterministic counts, bound on the growth of work per vertex and edge over a range of sizes."),
}
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".cpp")):
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check compiles the sources of the current tree itself. See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
