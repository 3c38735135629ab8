#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (a property is claimed when
sim/checks/<id>.py exists)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FF = "hftools/file_formats/"
P = []
TECH = "deterministic simulation with fault injection: "


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, state=state, observe=observe))


SAVEQ = ("all datasets the format can hold (sizes, values incl. nan, subnormals and extremes, output formats, comments, "
         "block names, units), over nothing, an older file or junk, and every failing, short, interrupted or disk-full operation of the save")
SAVEWHY = "The tests save a handful of fixed datasets to a working disk; no test makes an operation fail, and none varies sizes past one buffer."
SAVENOTE = ("Real save and read code over a simulated operating system; every single-operation fault of each sampled save up to a cap "
            "per run (10 quick, 60 thorough), plus disk-full at random bytes and a dying device. Oracle is an independent numpy model. "
            "Datasets are sampled by seed, not exhausted; power loss (unsynced pages) is not modelled because hftools never syncs.")


def save_prop(id, name, what, files, mech, extra=""):
    prop(id, "%s saves: acknowledged means complete, a failing disk is reported" % name,
         "If %s returns normally, reading the file back gives exactly the data saved (%s), whatever was at that path before and however the operating system "
         "splits or interrupts the writes and reads. If an operation on the file fails or the disk fills up, the save raises instead of returning, "
         "and a later save to the same path on a healthy disk succeeds with the complete data.%s" % (mech[0], what, extra),
         ["inputs", "fault_sequences", "histories"], SAVEQ, SAVEWHY, files,
         [dict(name=m, where=files[0]) for m in mech],
         TECH + "seeded datasets, per-operation disk faults under the real writer, read-back against a reference model",
         "fault_enumeration", SAVENOTE, observe=mech)


save_prop("C01", "Touchstone", "frequencies, the S matrix of any number of ports in the right element order, scalar variables, comment lines and the properties in them, each number as its output format writes it, nan and inf included",
          [FF + "touchstone.py", FF + "common.py", FF + "readbase.py", "hftools/dataset/comments.py"], ["save_touchstone", "read_touchstone"])
save_prop("C02", "CITI", "block name, every dimension and its values, every scalar, vector and matrix variable, comment lines and the properties in them, each number as its output format writes it, nan and inf included",
          [FF + "citi.py", FF + "common.py", FF + "readbase.py"], ["save_citi", "read_citi"])
save_prop("C03", "SP-data", "first dimension with its unit, one index per combination of the other dimensions with their values alongside (the dimensions themselves with hyper=True), every vector, matrix, text and real scalar variable with its unit, comments and their properties, each number as its output format writes it, nan and inf included",
          [FF + "spdata.py", FF + "common.py", FF + "merge.py"], ["save_spdata", "read_spdata"])
save_prop("C04", "MDIF", "block name, first dimension, one index per combination of the sweep variables with their values alongside, per-block attributes, every column variable, each number as its output format writes it, nan and inf included",
          [FF + "mdif.py", FF + "merge.py"], ["save_mdif", "read_mdif"])
save_prop("C05", "HDF5", "every variable with its exact values, type, dimension names and order, unit and (version 0.2) output format; every dimension, used by a variable or not, with its values, class, unit and (version 0.2) output format; block name and comments in version 0.1",
          [FF + "hdf5/hdf5.py", FF + "hdf5/v_01.py", FF + "hdf5/v_02.py", FF + "hdf5/helper.py"], ["save_hdf5", "read_hdf5"])

prop("C06", "Appending to HDF5 keeps every acknowledged record, in order, untouched",
     "An expandable HDF5 file always reads as the first record and every acknowledged append stacked in order along the record dimension (second in each variable, numbered consecutively from "
     "the first record's index), with units and text intact, also after reopening or after the appending process died. Values of another type than "
     "the column's are stored exactly (rounded only when the column is of floating point) or the record is rejected. An append with a missing variable, another shape or values the column "
     "cannot hold, or to a version 0.1 file, is rejected and changes nothing.",
     ["histories", "crash_points", "fault_sequences"],
     "all histories of creating, appending, rejected appends, closing, reopening and crashing after an acknowledgement, with disk faults in between, over datasets of 0-3 dimensions of numbers, text, dates and booleans",
     "Tests append once or twice to one fixed dataset and never reject, reopen, crash or fail an operation.",
     [FF + "hdf5/v_02.py", FF + "hdf5/hdf5.py", "hftools/dataset/arrayobj.py"],
     [dict(name="append_hdf5", where=FF + "hdf5/v_02.py"), dict(name="expand", where=FF + "hdf5/v_02.py"), dict(name="flush before returning", where=FF + "hdf5/v_02.py")],
     TECH + "append histories with crashes and disk faults against a stacking reference model", "fault_enumeration",
     "What a failed (raised) append leaves behind is not promised and the file is rolled back by the simulator. Crashes keep what was handed to write().")

prop("C07", "Reads are all or nothing under read faults, and leave nothing open",
     "Reading files through any reader, alone or several at once, returns the complete data or raises: an open or read that fails or a device that dies never yields data with anything missing or different, "
     "and short or interrupted reads change nothing. The generic reader finds the format from the content, whatever the file is called (Touchstone needs its extension), and reads the same as the reader of that format. Whether a read succeeds or fails, no file is left open, and the same read afterwards on a healthy disk returns the same data.",
     ["inputs", "fault_sequences"], "all saved files of the six layouts, single or merged, through the generic or the specific reader, and every failing, short or interrupted open and read",
     "Tests only read intact files from a working disk.",
     [FF + "__init__.py", FF + "readbase.py", FF + "common.py", FF + "touchstone.py", FF + "citi.py", FF + "spdata.py", FF + "mdif.py", FF + "hdf5/hdf5.py"],
     [dict(name="read_data", where=FF + "__init__.py"), dict(name="make_block_iterator", where=FF + "readbase.py"), dict(name="context managers around every open", where=FF)],
     TECH + "every open/read fault of each sampled read, compared with the undisturbed read", "fault_enumeration",
     "Open handles after a failed HDF5 read are not judged: the HDF5 library keeps the descriptor after a failed close.")

prop("C08", "Saving never alters the dataset, and a retry equals a first try",
     "Saving a dataset in any format leaves the dataset exactly as it was, whether the save succeeds, the disk fails at any point or the data cannot be formatted. "
     "After a failed save nothing is left open, and saving again to the same path produces the same file as an undisturbed save, with no other file left behind.",
     ["inputs", "fault_sequences"], "all datasets of the six layouts and every failing operation, disk-full point and formatting failure of the save",
     "No test compares a dataset before and after saving, or fails a save.",
     [FF + "touchstone.py", FF + "citi.py", FF + "spdata.py", FF + "mdif.py", FF + "hdf5/v_01.py", FF + "hdf5/v_02.py"],
     [dict(name="save_* work on copies", where=FF), dict(name="files closed on failure", where=FF)],
     TECH + "per-operation faults during saves, state comparison before/after, byte comparison of the retry", "fault_enumeration",
     "HDF5 files are compared by content, text formats by bytes (the clock is virtual, so the creation stamp is equal).")

prop("C09", "A file cut short by a crash is rejected or read as an exact prefix",
     "If the process dies while saving a text format, reading the torn file either raises or returns an exact prefix of what was saved: rows in order and unchanged, no column missing, never invented or misplaced values. "
     "CITI files are all or nothing, and an MDIF block is complete or rejected; only the row in which an SP-data file was cut may differ, and Touchstone is judged at row ends only.",
     ["crash_points", "inputs"], "all datasets of the four text formats and every byte at which the writing process can die",
     "Tests contain no torn file except one or two hand-made ones; the crash point is a quantifier over every byte.",
     [FF + "touchstone.py", FF + "citi.py", FF + "spdata.py", FF + "mdif.py", FF + "common.py"],
     [dict(name="row width and END checks in the readers", where=FF)],
     TECH + "process crashes at arbitrary bytes of the save, then the real reader on what survived, judged by a prefix model", "fault_enumeration",
     "HDF5 is left out: a torn metadata flush of the HDF5 library can lose attributes and hftools has no say in it. Touchstone rows cut in the middle are a valid file of another device.")

prop("C10", "The data cache only ever serves complete data",
     "Reading a source that holds one dataset through a cache entry of its own always hands out the complete data of the source as it is now or as it was when the cache was filled, whatever crash, disk fault, exception in the caller's block or concurrent process interrupted an earlier fill. "
     "A fill that completed is used by the next call, a re-read request bypasses it, a block that raised caches nothing, what the block that filled the cache changed in the data is what is kept, concurrent processes sharing one cache directory all succeed, and once faults stop the next call succeeds.",
     ["schedules", "crash_points", "fault_sequences", "histories"], "all histories of fills, re-reads, source changes, failing blocks, disk faults, crashes at any operation and 2-3 processes interleaved at every system call, with one killed",
     "Tests fill and read one cache once, in one process, on a working disk.",
     [FF + "__init__.py", FF + "hdf5/hdf5.py", "hftools/utils.py"],
     [dict(name="read_to_cache: temporary file and rename", where=FF + "__init__.py"), dict(name="make_dirs", where="hftools/utils.py")],
     TECH + "seeded histories; processes interleaved at system-call granularity; crash and kill points; set-of-possible-contents model", "fault_enumeration",
     "Interleavings are sampled (mostly 1-4 preemptions), not exhausted. Source changes are not noticed by design; only the versions the cache may hold are tracked.")

prop("C11", "Reading many files takes each exactly once, in natural order",
     "A pattern, a list of patterns or a list of files reads every matching file exactly once (once for each pattern of the list that it matches) and keeps each file's data with its own name: patterns in the order given and, inside a pattern, by natural order of the whole path (runs of digits by value, before text), "
     "independent of the order in which the directory lists its entries. A member that cannot be read makes the read fail instead of shrinking the result, no match at all for any pattern is an error, and files appearing or vanishing meanwhile never mix up the data of the others.",
     ["inputs", "schedules", "fault_sequences"], "all sets of names, listing orders, pattern lists, member faults and interleavings with another process creating or deleting a member",
     "Tests read two or three files with well-behaved names in whatever order the test machine lists them.",
     ["hftools/utils.py", FF + "common.py", FF + "readbase.py", FF + "merge.py", FF + "__init__.py"],
     [dict(name="glob, lex_order, split_num", where="hftools/utils.py"), dict(name="merge_blocks_to_datablock", where=FF + "merge.py")],
     TECH + "shuffled directory listings, member faults and a second process interleaved, against a stacking model", "fault_enumeration",
     "Names cover digits, text, signs, nan/inf-like text and subdirectories; a directory that cannot be listed is invisible to glob and not claimed.")

NA = [
 ("C40", "Arithmetic on labelled arrays aligns operands by dimension",
  "For every pair of arrays, an elementwise operation pairs elements by dimension name and broadcasts missing dimensions, independent of the order of dimensions in either operand, and raises when shared dimensions disagree.",
  ["hftools/dataset/arrayobj.py", "hftools/dataset/dim.py", "hftools/dataset/helper.py"], "make_same_dims, make_matching_arrays"),
 ("C41", "Network representations convert into each other consistently",
  "Converting an n-port between S, Z, Y, H, G, T, ABCD and X forms and back gives the original wherever the conversion exists, for every matrix.",
  ["hftools/networks/multiports.py", "hftools/networks/spar_functions.py"], "conversion methods of the multiport classes"),
 ("C42", "Cascading and de-embedding are inverse",
  "De-embedding a two-port that was cascaded returns the remaining two-port for every invertible pair.",
  ["hftools/networks/multiports.py", "hftools/networks/spar_functions.py"], "cascade, deembed"),
 ("C43", "SI prefixes and unit conversion preserve the value",
  "Formatting a number with an SI prefix and parsing it, or converting between unit multiples, preserves the quantity for every value and prefix.",
  ["hftools/constants/si_units.py"], "SIFormat, format_number, convert_with_unit"),
 ("C44", "Mathematical helpers respect dimensions and definitions",
  "Unwrapping, interpolation, derivation, averaging and matrix helpers equal their definition along the named dimension for every array.",
  ["hftools/math.py", "hftools/dataset/arrayobj.py", "hftools/dataset/dataset.py"], "unwrap_phase, interpolate, delay"),
 ("C45", "Reshaping and sorting a dataset lose and invent nothing",
  "Converting a swept dimension into several, sorting along a dimension, renaming and replacing dimensions permute the data without loss for every dataset.",
  ["hftools/dataset/dataset.py"], "hyper, sort, rename, replace_dim"),
 ("C46", "Plot projections transform values as documented",
  "Every projection draws exactly the documented transformation of the plotted values (dB, magnitude, phase, group delay, Smith chart) and its formatter shows the inverse.",
  ["hftools/plotting/helper.py", "hftools/plotting/smith.py"], "projection classes"),
]
NAREASON = ("Pure computation: no concurrency, time, I/O, randomness or fault can change the outcome, so a simulator has nothing to schedule or inject; "
            "deciding it would be property testing or proof, which is another technique.")


def load_more():
    p = os.path.join(ROOT, "tools", "props_more.py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"), globals())


def main():
    load_more()
    for id, title, st, files, mech in NA:
        prop(id, title, st, ["inputs"], "all inputs of the functions", "The tests sample a few fixed arrays; the statement ranges over all of them.",
             files, [dict(name=mech, where=files[0])], na=NAREASON)
    checks, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            have = os.path.exists(os.path.join(ROOT, "sim", "checks", p["id"].lower() + ".py"))
            if not have and not p["na"]:
                continue
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"], state=list(p["state"]),
                                                 observe_at=list(p["observe"]), hook_needed=None)), ensure_ascii=True) + "\n")
            if p["na"]:
                na.append(dict(property=p["id"], reason=p["na"]))
            else:
                checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"],
                                   thorough_cmd="./check %s --tier thorough" % p["id"],
                                   evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                                   level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the seams are the libc boundary (LD_PRELOAD shim), the interpreter's trace hook and lock "
                   "factories, and process environment. Replays: ./check <id> --replay <file>. Same seed, same runs: ./check <id> --digest.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
