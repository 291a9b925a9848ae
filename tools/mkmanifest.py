#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
M = [
 ("C01", "exploration", "reference-model monitor of typed round trips (run-time serde programs and real derived types)",
  "Held on the generated types and values; lengths, nesting and index classes are covered by construction, not exhaustively. Trusts that the run-time serde programs drive the (de)serializer as derived code does; a corpus of real derived types runs beside them."),
 ("C02", "exploration", "byte-for-byte monitor against an independent reference encoder",
  "Held on the generated values. Trusts refmodel/src/wire.rs as the statement of the format."),
 ("C03", "exploration", "exhaustive and dense sweeps of integer coding under a reference-model monitor",
  "8- and 16-bit domains complete; 32-bit complete in the thorough tier, strided plus dense around every power of two in the quick one; 64-bit dense windows and random values."),
 ("C04", "exploration", "hostile-input workload under panic, overflow-check, allocation, CPU and stuck-reader monitors",
  "Held on the hostile inputs generated. Three known findings (stack depth, zero-width elements) are kept out of the generators and probed apart. The memory oracle is a linear budget with generous constants."),
 ("C05", "exploration", "reference-model monitor of the header codec, with complete short inputs and allocation monitor",
  "All header byte strings of up to two bytes (and three where they matter) complete; larger ones sampled. Known finding: stack depth."),
 ("C06", "exploration", "monitor of bodies decoded under the header their type reports",
  "Held on the corpus of real types and on generated shapes."),
 ("C07", "exploration", "monitor of validate verdicts and body round trips against a structural model",
  "Held on the generated (header, body) pairs; mutations reach every depth."),
 ("C08", "exploration", "differential monitor: typed against header-driven decoding",
  "Held on the inputs generated, plus all two-byte inputs of a set of types."),
 ("C09", "exploration", "history monitor: streams of headers and values against their concatenated encodings",
  "Held on the generated streams."),
 ("C10", "fault_enumeration", "fault injection at every byte of each encoding, on the write and the read side",
  "Every byte position of encodings of up to 600 bytes, a sample beyond, with persistent and one-time faults."),
 ("C11", "exploration", "reference-decoder monitor of accept and reject verdicts",
  "Held on the valid, non-minimal and hostile inputs generated. Forms the format leaves open may go either way."),
 ("C12", "exploration", "reference-model monitor of big-number encodings through wrappers and format modules",
  "Held on the generated numbers. Trusts num-bigint and bigdecimal arithmetic."),
 ("C13", "exploration", "reference-model monitor of dates and instants, with sweeps of the calendar",
  "Every year's ends and a stride of days (every day in the thorough tier); raw encodings around every limit. Trusts the time crate's calendar."),
 ("C14", "exploration", "refusal monitor: unsupported requests at every nesting position",
  "Held on the generated requests. Known finding: sequences and maps of unknown length."),
 ("C15", "exploration", "history and concurrency monitor against a history-free reference",
  "Held on the generated histories and thread interleavings."),
 ("C16", "exploration", "differential transcript monitor over feature sets and build profiles",
  "Held on the configurations built in this tier and the inputs of the transcript program."),
 ("C17", "exploration", "generated derive programs compiled and monitored against a model of their headers and bodies",
  "Held on the generated programs. Known findings: skipped variants before others, layout-changing container attributes."),
 ("C18", "exploration", "delivery-schedule monitor: short and interrupted transfers against whole delivery",
  "Held on the generated schedules."),
 ("C19", "exploration", "allocation-conservation monitor over windows of thousands of operations of every kind and outcome",
  "Held on the kinds of operation listed in harness/src/checks/cost.rs; a leak shows when it recurs in each of four windows and comes to 1 KB."),
 ("C20", "exploration", "cost monitor: transfers, allocated bytes and CPU time at two sizes",
  "Held for the kinds of content listed, up to 1 MB (4 MB thorough). CPU time is judged with wide margins, so that only work that grows clearly faster than the data is reported."),
 ("C21", "fault_enumeration", "fault injection into user code at a chosen step, with monitors on the error, later calls and transfers",
  "Held on the generated types, values and steps."),
 ("C22", "exploration", "differential transcript monitor over platforms: native 32-bit x86, Miri for big-endian ones, against x86-64",
  "Held on the inputs of the transcript program. The big-endian part is executed by Miri, at some hundred cases."),
 ("C23", "exploration", "AddressSanitizer, MemorySanitizer, ThreadSanitizer (instrumented standard library) and Miri over hostile, dishonest and concurrent workloads",
  "Held on the executions observed; sanitizers see what is executed."),
 ("C24", "exploration", "algebraic-law monitor over comparisons of equal, neighbouring and unrelated values, against equality of the reference model",
  "Held on the groups of values explored."),
]
claimed = os.environ.get("CLAIM", " ".join(m[0] for m in M)).split()
checks = [dict(property=p, quick_cmd="python3 run_check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + p,
               evidence_file="evidence/%s.json" % p, technique=t, level=l, level_note=n) for p, l, t, n in M if p in claimed]
na = [dict(property=p, reason="check under construction") for p, *_ in M if p not in claimed]
j = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every monitor observes the public API. See DESIGN.md and known-findings.txt.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(j, f, indent=1)
    f.write("\n")
