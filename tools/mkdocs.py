#!/usr/bin/env python3
# Generates properties.jsonl and MANIFEST.json (committed results; not run by any check).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
HOOK = "the page-cache limits for core blocks and open files become variables under DRPM_SIM"

prop("C01", "A made delta applied to the old RPM restores the new RPM byte for byte",
 "For every pair of well-formed RPM packages and every supported delta type, version, compression and add-block setting, making a delta succeeds, and applying that delta to the old package produces a file byte-identical to the new package. The delta file itself is well-formed: it records the right packages, digest, sizes, sequence, offset adjustments, compression and copy instructions, so that an independent reader rebuilds the same file from it. Short reads and writes never lead to other bytes, and the size of the internal block cache makes no difference.",
 ["inputs", "configurations", "fault_sequences"],
 "over generated package pairs (contents, file kinds, payload compression and level, digests, colours, hard links, payload order, file sizes around block borders), all make options, cache limits, and every placement of short reads and short writes",
 "The tests use one fixed pair of RPMs and a handful of option settings, read with full-length reads and with a cache that never fills, so page-out, partial I/O, most compressors and levels, and most file layouts are never reached.",
 ["src/drpm.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_search.c", "src/drpm_write.c", "src/drpm_read.c", "src/drpm_block.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_rpm.c", "src/drpm_deltarpm.c"],
 [("binary diff with suffix sort", "src/drpm_diff.c make_diff, src/drpm_search.c"), ("delta writer", "src/drpm_write.c write_deltarpm"), ("delta reader", "src/drpm_read.c read_deltarpm"), ("block cache and paging", "src/drpm_block.c get_block, push_block"), ("apply loop and digest check", "src/drpm.c drpm_apply")],
 ["return values of drpm_make and drpm_apply", "bytes of the delta and of the rebuilt RPM"], HOOK)
prop("C02", "Apply never reports success with a wrong or incomplete target",
 "Whatever fails while a delta is applied (allocation, open, read, write, close, compression library, helper process, package database, full disk, stored bytes flipped or files changed by another process meanwhile), if apply reports success then the output file exists and is exactly the new package. If nothing failed, applying the right delta to the right package succeeds.",
 ["fault_sequences", "inputs", "configurations"],
 "over every position and kind of injected fault during apply, singly and in combinations, on RPM and installed-file sources, small and large caches",
 "The tests never inject a failing call; the paths where an error must travel through the block cache, the compressors and the final close to the caller are not executed at all.",
 ["src/drpm.c", "src/drpm_block.c", "src/drpm_rpm.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_apply.c", "src/drpm_read.c", "src/drpm_utils.c"],
 [("error propagation and cleanup", "src/drpm.c drpm_apply"), ("final MD5 of the output", "src/drpm.c drpm_apply"), ("write and close errors", "src/drpm_rpm.c rpm_write, src/drpm.c"), ("short read handling", "src/drpm_utils.c, src/drpm_decompstrm.c")],
 ["return value of drpm_apply against the bytes of the output file"], HOOK)
prop("C03", "Make never reports success with a broken delta or sequence file",
 "Whatever fails while a delta is made, if make reports success then the delta file is complete and valid: an independent reader parses it, its digests match, and applying it to the old package gives exactly the new package; and a requested sequence file exists and holds exactly the old package's name and sequence. If nothing failed, make succeeds for well-formed packages.",
 ["fault_sequences", "inputs", "configurations"],
 "over every position and kind of injected fault (allocation, reads, writes, close with lost data, full disk, compression library) during make, over generated packages and options, with an older output in place or not",
 "The tests run make without any failing call; errors of write, close and compressor finish are never observed.",
 ["src/drpm.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_write.c", "src/drpm_rpm.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c"],
 [("delta and sequence writers", "src/drpm_write.c write_deltarpm, write_seqfile"), ("compression stream finish", "src/drpm_compstrm.c"), ("error propagation", "src/drpm.c drpm_make")],
 ["return value of drpm_make against the delta and sequence file"], None)
prop("C04", "Every call ends with a documented code and without memory errors",
 "Every library call, on any input and with any combination of failures, ends after a bounded number of steps, returns one of the documented error codes (never the one reserved for mistakes inside the library), never accesses memory it must not, never aborts or exits the caller's process, and never hands out an object together with an error. Arguments that cannot mean anything (missing objects, unknown tags or numbers) are answered with the argument error. This includes damaged inputs, failing allocations and interrupted system calls.",
 ["fault_sequences", "inputs", "histories"],
 "over sequences of make, apply, read, check and check-sequence calls on intact and damaged packages, deltas, patch lists and installed files, with faults at arbitrary events",
 "Valgrind runs over the fixed test inputs only; error paths, damaged inputs and failing allocations are not reached.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_read.c", "src/drpm_write.c", "src/drpm_rpm.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_options.c"],
 [("argument and size validation", "all readers"), ("cleanup labels", "all public functions")],
 ["AddressSanitizer, return codes, event budget and CPU limit per call"], HOOK)
prop("C05", "Every call gives back all resources it took, also after failures",
 "When a library call returns, whether it succeeded or failed at any point, every memory block, file descriptor, stream, header, package-database handle, compression context and temporary file it acquired has been released exactly once, except the result object handed to the caller, whose release gives back the rest. No call closes or frees anything it does not own, and no helper process is left unawaited.",
 ["fault_sequences", "inputs", "histories"],
 "over sequences of calls with faults at arbitrary events, on intact and damaged inputs",
 "The memcheck test covers successful calls on fixed inputs; leaks and double releases live on failure paths.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_read.c", "src/drpm_write.c", "src/drpm_rpm.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_options.c"],
 [("cleanup labels and destructors", "blocks_destroy, rpm_destroy, compstrm_destroy, decompstrm_destroy, drpm_free, free_deltarpm")],
 ["ledger of live resources at every return"], HOOK)
prop("C06", "Applying from installed files gives the same target as from the old RPM",
 "If the old package is installed and every file the delta needs still has its packaged content, applying without the old RPM file produces exactly the new package, for any order of files, any number of files, any limit on open files and cached blocks, and for prelinked executables whose original can be recovered. The numbers of files kept open and of blocks kept in memory at once stay within fixed limits. If a needed file is missing or changed, apply never reports success with a wrong result.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "over installed trees, prelinked images, tampering between calls and during a call, cache and open-file limits, and faults",
 "No test applies from the file system: it needs an installed package database, so the whole path is untested.",
 ["src/drpm_block.c", "src/drpm_apply.c", "src/drpm.c", "src/drpm_rpm.c"],
 [("file-system block filling", "src/drpm_block.c fillblock_filesystem, fillblock_prelink"), ("open-file eviction", "src/drpm_block.c get_open_file, open_new_file"), ("undoing prelinking", "src/drpm_apply.c prelink_open, is_prelinked"), ("sequence expansion", "src/drpm_apply.c expand_sequence")],
 ["return value and output of drpm_apply without old RPM", "simulated descriptor table"], HOOK)
prop("C07", "Check and check-sequence answer exactly whether the delta can be applied",
 "A full check succeeds if and only if the old package is installed, it has the files the delta was made from, and each needed file still has its packaged content (prelinked files compared after undoing prelinking); a size check differs only in comparing sizes. Checking a sequence against a package file succeeds if and only if it is the package the sequence was made from. Missing packages, mismatches and I/O problems are told apart by the documented codes, and no failure during the check turns into success.",
 ["inputs", "histories", "fault_sequences"],
 "over installed and uninstalled packages, tampering, wrong packages of the same name, damaged sequences, all check modes, and faults during the check",
 "One test calls check-sequence on one RPM; drpm_check and the installed modes are never run.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_rpm.c"],
 [("file checks", "src/drpm_apply.c check_full, check_filesize, check_prelink"), ("sequence digest", "src/drpm_apply.c expand_sequence"), ("package lookup", "src/drpm_rpm.c rpm_read_header")],
 ["return values of drpm_check and drpm_check_sequence against a model of the installed files"], None)
prop("C08", "A delta applied to any other package or file set is refused",
 "Applying a delta to a package file or an installed package that it was not made from (another name, epoch, version or release, another set of files, other modes, sizes, link targets or digests, or another package digest for deltas of the whole package) returns an error; a missing installed package is reported as not installed. In no case does apply report success with anything but the exact new package.",
 ["inputs", "histories", "fault_sequences"],
 "over rebuilt or tampered twins of the old package, unrelated packages of the same name and version, the new package itself, and installed variants, with faults",
 "Tests only apply deltas to the package they were made from.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_rpm.c"],
 [("NEVR comparison", "src/drpm.c drpm_apply"), ("sequence digest over files", "src/drpm_apply.c expand_sequence"), ("output digest", "src/drpm.c drpm_apply")],
 ["return value and output of drpm_apply"], None)
prop("C09", "Reading a delta reports exactly what the file holds",
 "For every valid delta, reading succeeds and each query returns the value stored in the file: kind, version, compression, package names, sequence, digest, sizes, target compression and parameters, header length, payload format offset, lead, adjustments, copy lists and data lengths, whichever integer width is asked for. Wrong tags are refused, and after a failed read or query no value is made up.",
 ["inputs", "configurations", "fault_sequences"],
 "over deltas of all types, versions and compressions of generated packages, decoded independently, with faults during the read",
 "The read tests print a few fixed deltas and compare them with stored text for one architecture of data; large copy lists, negative offsets, all compressions and partial reads are not covered.",
 ["src/drpm.c", "src/drpm_read.c", "src/drpm_deltarpm.c", "src/drpm_decompstrm.c"],
 [("delta reader", "src/drpm_read.c"), ("conversion to the public object", "src/drpm_read.c deltarpm_to_drpm"), ("getters", "src/drpm.c drpm_get_*")],
 ["values of drpm_get_* against an independent decoder"], None)
prop("C10", "Only named outputs and private temporary files are ever modified",
 "At every moment, under any failure and at any point where the process may die, a call has created, changed or removed nothing but the outputs the caller named and temporary files it created exclusively for itself; read, check and check-sequence write nothing but such temporary files. Source packages, deltas, installed files and existing files in the temporary directory are never touched.",
 ["crash_points", "fault_sequences", "inputs"],
 "over process death at every system call and allocation, and all other faults, during make, apply, check and read",
 "Tests do not look at other files and never kill the library mid-call.",
 ["src/drpm.c", "src/drpm_block.c", "src/drpm_apply.c", "src/drpm_write.c", "src/drpm_rpm.c"],
 [("output creation", "src/drpm.c, src/drpm_write.c, src/drpm_rpm.c"), ("page file and prelink temporary file", "src/drpm_block.c, src/drpm_apply.c mkstemp")],
 ["set of names touched in the simulated file system"], HOOK)
prop("C11", "Concurrent and repeated calls neither disturb nor remember each other",
 "Calls running at the same time on different outputs, interleaved at any system call, allocation or library call, each behave as if they ran alone, including when some of them fail; a call's result depends only on its arguments and the files it names, so the same call always writes the same bytes whatever ran before.",
 ["schedules", "histories", "fault_sequences"],
 "over seeded interleavings of two to four concurrent calls of all kinds, with faults hitting some of them, followed by repetition of earlier calls",
 "All tests are sequential and run each operation once per process.",
 ["src/drpm.c", "src/drpm_apply.c", "src/drpm_block.c", "src/drpm_make.c", "src/drpm_diff.c", "src/drpm_search.c", "src/drpm_compstrm.c", "src/drpm_decompstrm.c", "src/drpm_rpm.c"],
 [("no shared mutable state", "whole library"), ("private temporary names", "src/drpm_block.c, src/drpm_apply.c")],
 ["results and outputs of interleaved calls against the same calls run alone"], HOOK)
prop("C12", "After a crash or failure, the same call run again gives the right result",
 "If make or apply dies or fails at any point, leaving whatever it had written, and the same call is then made again with the same arguments, it succeeds and its outputs are byte-identical to those of an undisturbed run. Nothing left behind by the earlier attempts, such as longer partial outputs or temporary files, influences it.",
 ["crash_points", "fault_sequences", "histories"],
 "over up to three disturbed attempts (death at any event with torn writes, I/O errors, full disk, failed allocations) followed by one undisturbed attempt",
 "Tests never leave a partial output behind.",
 ["src/drpm.c", "src/drpm_write.c", "src/drpm_rpm.c", "src/drpm_block.c", "src/drpm_apply.c"],
 [("output truncation at open", "src/drpm.c, src/drpm_write.c, src/drpm_rpm.c creat"), ("unique temporary names", "src/drpm_block.c, src/drpm_apply.c")],
 ["results of the final attempt"], HOOK)
prop("C13", "Make options behave like plain values, also when allocations fail",
 "Any sequence of setting, resetting and copying make options leaves the object with exactly the last accepted values: refused values change nothing and are answered as bad arguments, copies are independent of their source, resetting restores the defaults, and a failed allocation is reported and never taken for success. A delta made with the object honours its type, version, compression and level, add-block, sequence-file and patch-list settings.",
 ["histories", "inputs", "fault_sequences"],
 "over random sequences of option calls on two objects, with valid and invalid values and failing allocations, followed by make",
 "Tests set one or two valid options and never copy, reset or fail.",
 ["src/drpm_options.c", "src/drpm.c", "src/drpm_make.c", "src/drpm_write.c"],
 [("option setters and copies", "src/drpm_options.c"), ("use of options", "src/drpm.c drpm_make")],
 ["return codes of the setters and the delta produced, against a model"], None)
prop("C14", "Damaged deltas and packages never yield a wrong target reported as good",
 "If a delta, an old package or an installed file has been truncated, extended, torn or altered in any way, also inside its compressed parts, the library either reports an error or, for apply, produces exactly a file with the digest recorded in the delta; it never crashes, reads outside its data or loops. Reading a damaged delta that is still well-formed reports what is stored.",
 ["inputs", "fault_sequences", "histories"],
 "over bit flips, truncations, zeroed, duplicated and random ranges and targeted changes of every length, count and offset field of the (recompressed) delta body and of package payloads, between and during calls",
 "The tests contain no damaged input.",
 ["src/drpm_read.c", "src/drpm_rpm.c", "src/drpm_block.c", "src/drpm.c", "src/drpm_make.c", "src/drpm_apply.c", "src/drpm_decompstrm.c"],
 [("validation while reading", "src/drpm_read.c, src/drpm_decompstrm.c"), ("copy range checks", "src/drpm_block.c, src/drpm.c"), ("final digest", "src/drpm.c drpm_apply")],
 ["return value, output digest, AddressSanitizer"], HOOK)
prop("C15", "Error texts exist for every documented code",
 "Every documented error code has a distinct message, and any other number yields a fixed text saying it is undefined.",
 ["inputs"], "over all integers", "The existing tests only print messages on failure.",
 ["src/drpm.c"], [("message table", "src/drpm.c drpm_strerror")], ["return value of drpm_strerror"], None)
prop("C16", "Patch lists exclude exactly the unpatched files and never harm a delta",
 "A standard delta made with an rpm-print and a patch list leaves out exactly those regular files of the old package that the print marks as not patched and whose digest in the patch list is missing or different; everything else about the delta is as without lists. It still restores the new package byte for byte from the old package, and also from an installed system on which the excluded files have been changed or removed, and checks do not look at those files. Lists of another package are refused as bad arguments, and truncated, malformed or missing lists with an error; whole-package deltas do not read them.",
 ["inputs", "histories", "fault_sequences"],
 "over generated patch lists (prefix-compressed names, all field widths, present, differing, empty and absent digests, a package as the print, lists of other packages, damaged lists) for generated packages, followed by apply, check and sequence checks on old packages and on tampered installed files, with faults",
 "No test passes a patch list to the library.",
 ["src/drpm_make.c", "src/drpm.c", "src/drpm_options.c"],
 [("list reader", "src/drpm_make.c read_rpmlist, rpml_get_filename, patches_read"), ("exclusion", "src/drpm_make.c is_unpatched, parse_cpio_from_rpm_filedata"), ("package comparison", "src/drpm_make.c patches_check_nevr")],
 ["return values; sequence and bytes of the delta; results of apply and check"], None)

NA = {"C15": "drpm_strerror is a pure function of one integer: no schedule, fault, clock, I/O or history can influence it, so there is nothing for a simulation to decide"}
NOTE = "Seeded sampling of inputs, options, faults and interleavings in a simulated world around the real library code; strong evidence within the explored runs, not a proof. Trusts the simulator's file-system and process model, the independent reference decoder/encoder, AddressSanitizer, librpm's header code and the compression libraries."
SECS = {"C04": 95, "C05": 95, "C14": 95}
def main():
    open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
    checks = []
    for p in P:
        i = p["id"]
        if i in NA: continue
        s = SECS.get(i, 85)
        checks.append({"property": i, "quick_cmd": f"bash run.sh check {i} --tier quick --runs 100000 --secs {s}", "thorough_cmd": f"bash run.sh check {i} --tier thorough --runs 100000000 --secs 780",
            "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search, minimised replayable plans)", "level": "exploration", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "bash build.sh",
      "hooks": {"guard": "DRPM_SIM", "enable": "build.sh compiles /repo/src with -DDRPM_SIM (the cache limits in src/drpm_block.c become variables the simulator sets); every other seam is made by renaming undefined symbols of the compiled objects with objcopy, so it needs no change in /repo",
        "source_commits": [os.popen("git -C /repo rev-parse 18a4a07").read().strip()]},
      "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if any(p["id"] == k for p in P)],
      "notes": "run.sh rebuilds the simulator from /repo's working tree (content-hash object cache in .build) and runs it; replays are written to /verif/replays and re-run with `bash run.sh replay FILE`."}
    open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
main()
