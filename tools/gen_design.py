#!/usr/bin/env python3
"""DESIGN.md from the texts below, harness/checks.json (bounds), properties.jsonl (titles) and tools/detected.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/harness/checks.json"))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
HEAD = """# Model checking wisardpkg

(DESIGN.md is put together by tools/gen_design.py; bounds come from harness/checks.json.)

## What is explored, and how

wisardpkg is a sequential in-memory library. It starts no threads (C28 is about callers that do); what is not fixed by the calls made is the C random
generator, the clock that seeds it, the file system (file-backed saves) and damaged saved text. The form of model checking
that fits is *stateless exploration of the real code*: every operation sequence, input, configuration, environment answer
and fault up to a stated bound is executed on the real implementation, and after every step the implementation is compared
with a small reference model (or with a twin of itself where the property is about independence). Nothing is sampled: a
suite either finishes its whole space or reports CAPPED (and the evidence says `exhaustive: false`).

* `harness/mc.hpp, mc.cc`: the explorer. A suite is a function that calls `choose(n)`; depth-first search with replay runs it
  for every sequence of choices. Shards are forked processes that split the space by a hash of the first choices; a crash, a
  sanitizer report, a failed libstdc++ assertion or a hang (60 s) is pinned to its exact choice path through shared memory.
  Every violation is replayed in a fresh process before it is reported, so the replay file always shows the trace.
  `rand`, `srand`, `time`, `read`, `write` and `writev` are defined in the checker's binary (C29, C30: `memory.hpp` the
  allocator too): random outcomes, the clock, I/O faults and missing memory are choices of the explorer. A process that takes
  more than 2 GB is a reported crash. malloc fills fresh memory with a pattern (MALLOC_PERTURB_, -ftrivial-auto-var-init) so
  that uninitialised members show.
* `harness/api.hpp, backend.cc`: one API over three implementations. GEN: a header generated from /repo/src with
  generate_include.py, as build.sh does; HDR: the committed include/wisardpkg.hpp (skipped while it is byte-identical to
  GEN); PY: the real binding (src/wisard_bind.cc) loaded into an embedded interpreter and called through Python objects.
  C27 loads all three as plug-ins of one process (`plug.cc`).
* `harness/ref.hpp`: the reference: Base64, packing of cells, addresses as digit lists (not numbers), counts per address in
  ordinary maps, bleaching by its definition, decoding of saved documents into canonical form (independent of the order of
  cells, keys or file names). `clus.hpp`: the growth rule as a relation between the saved states before and after a step.
  `obs.hpp`: complete observation of an object (everything it answers and saves). `confs.hpp`: small configurations of the
  models that use every option between them. `acts.hpp`: every operation of every kind of object, also refused ones, as a
  numbered list from which C28, C29 and C30 take their programs. `race.hpp, race_plug.cc`: recording of memory accesses.
* `check.py ID [quick|thorough]` builds from /repo's working tree in a temporary directory, explores, writes evidence/ID.json,
  prints `VIOLATION property=ID replay=PATH`; `check.py --replay PATH` runs that one execution again and prints its trace.

There is no separate model whose traces would have to be validated: the transitions are those of the real code, and the
reference model is compared with it at every step of every execution ("traces_validated_against_impl" in the evidence is the
number of complete executions). All suites run on every implementation a property concerns. Bounds were chosen to finish
in about a minute on 8 cores (quick); thorough tiers enlarge the same suites. Values where machine representations change (7/8/9 bits, 31/32/33 bits,
53 bits, 63/64 bits, 255/256, 32767/32768, 65535/65536, 2^31-1) are included explicitly in `scale`-like suites, and lists
longer than ten (where textual and numeric order differ).

The checks judge what the code answers and saves. They do not look at private members, at the number or order of random
draws (except C24, C25: see there), at the order of cells or keys in saved text, nor at error messages.

No property is not applicable: all of them are decided by this technique (not_applicable in MANIFEST.json is empty).

## Properties

"""
T = {
"C01": ("Reference: a map from the tuple of values a RAM reads to the number of training calls that had it. The mapping is the one the model itself reports, so no random draw is assumed.", "Tests never look at a vote."),
"C02": ("Oracle: exact integer arithmetic on b^n (refused above 2^64, accepted up to it) and pairwise different probe tuples that must be counted apart.", "The 64-bit limit lies far from every tested size."),
"C03": ("Every outcome of the random generator is a choice (rand() answers are enumerated while at most 7 are drawn) and the reported mapping, cross-checked by probing which positions influence which vote, must satisfy the addressing rules; explicit indexes and mappings are compared literally.", "Tests see one random layout per run."),
"C04": ("Count matrices are put into a model through its saved form (and, in `trainings`, by really training); the reference applies the bleaching rule by definition to the counts.", "Needs count matrices whose classes differ only above threshold 1; tests have none."),
"C05": ("Each class, as saved, must equal a map of counts over the class's own examples; histories of all batchings, list or DataSet.", "Orders, batchings and interleavings are a product space tests do not enter."),
"C06": ("The same reference with examples removed; content, answers, mental images and the example count are compared after every step. Every restore in between is a step of the history.", "No test untrains."),
"C07": ("Twin: the original and each model restored from it are driven on through the same steps and observed completely after each. Random addressing drawn later is not compared (only its shape).", "Tests restore once and compare predictions."),
"C08": ("Twin as in C07; names of files repeat in 8 ways (generator streams), and every write is failed once, half done, or failing from there on: then either json() raises or the document restores completely. Missing and shortened files must be refused.", "File-backed saves are untested."),
"C09": ("A model from jsonConfig() must have the classes, options and addressing of the original, an empty content, and after the same trainings the same content as the reference.", "jsonConfig is untested."),
"C10": ("An RFC 4648 codec written from the table, compared in both directions.", "One string is encoded by the tests."),
"C11": ("A vector of bits.", "BinInput is untested."),
"C12": ("A list of (bits, optional label); files are saved, reloaded, overwritten, and writes fail as in C08.", "DataSet is untested."),
"C13": ("A vector of maps address -> value; edited data put back into a saved model must change exactly the votes of that cell.", "RAMDataHandle is untested."),
"C14": ("Two models of the same addressing, one trained with lists, the other with packed forms in every mixture; both compared with C01's reference.", "Packed inputs are untested."),
"C15": ("The growth rule as a relation: from the saved clusters before a step the scores of all discriminators follow, and the clusters after the step must be one of the outcomes the rule allows. Scores within 1e-6 of a limit may be decided either way.", "Cluster contents are never looked at."),
"C16": ("Twin: the same steps one by one through train(list) and classify. The generator answers with a constant so that both twins draw the same addressing whatever the number of draws.", "One labelling of one list is tested."),
"C17": ("C15's relation on the unsupervised cluster, splitting of calls, and the bleaching reference for the numbers; supervised content must stay as it was.", "Tests assert nothing about the outcome."),
"C18": ("As C04 with discriminators instead of classes; the set of labels owning a best discriminator is computed and the answer must be one of them (which of them is left open).", "Two plain labels are tested."),
"C19": ("Sum over RAM inputs of the number of trained examples with a non-zero value there, from C01's reference.", "One small test."),
"C20": ("Degrees computed from the counts as exact fractions (tolerance 1e-5).", "The flags are untested."),
"C21": ("Twin: one model with queries inserted at every subset of places, one without; equal answers, equal saved content, equal answer when asked twice.", "Tests never compare before and after."),
"C22": ("Twin: a model given the refused call, and one given only the examples before the refused one; complete observations equal. AddressSanitizer on.", "No invalid call in the tests."),
"C23": ("AddressSanitizer, libstdc++ assertions, a hang limit and pattern-filled memory; whatever is accepted is trained, queried, saved and restored. Exceptions are fine, anything else is not.", "Tests only load good text."),
"C24": ("The explorer answers rand() and counts, for every position, in how many of the outcomes it is on. Assumes one rand() answer r decides a draw through r mod maximum or any other rule under which the outcomes 0..k*maximum-1 are equally likely; freshness is checked by enumerating sequences of outcomes and by the usual generator under a standing and a ticking clock.", "Untested."),
"C25": ("Kernels are placed by answering rand() (kernel-major, one answer per coordinate: the only place where the order of draws matters), distances are computed in long double, near ties may fall either way.", "One sequence in one configuration."),
"C26": ("Each object is compared with a lone twin that did the same steps; AddressSanitizer catches shared or dangling storage after copies and destructions.", "Tests use one object at a time."),
"C27": ("Every script of calls is run by each implementation under the same generator, clock and directory; the lists of results (values and refusals) must be equal, saved text in canonical form.", "The two test suites are never compared."),
"C28": ("No scheduler is needed where nothing is to be scheduled: every pair of operations is run in two threads, one after the other, and every byte they touch is recorded (`race.hpp` answers the calls -fsanitize=thread inserts; memory one thread frees is not given to the other; locks, acquire/release atomics and guarded statics order accesses). If no byte is written by one and touched by the other, all interleavings are equivalent to the one run: the independence relation of partial-order reduction, checked instead of assumed. A conflict is reported as a violation with both places.", "Tests run in one thread."),
"C29": ("The allocator of the checker's binary counts blocks and bytes, the descriptors are counted, before and after every life of an object.", "No test looks at memory."),
"C31": ("A writer and a reader of the format, written from its description, stand between the library and the reference models of C01, C04, C15 and C18; C07 and C08 only ask that the library understands itself.", "No test has a stored document."),
"C32": ("Twins: one object is driven with arguments that are kept and, after the call, changed or destroyed, and (Python) results that are changed, the other with temporaries. Kept results are looked at again after all later calls and after the object's destruction. AddressSanitizer on.", "Literals hide aliasing."),
"C33": ("The signature of an object is everything that can be asked of it and does not depend on the random addressing, before and after training; equal option values must give equal signatures, different ones different signatures.", "A wrong default in one constructor of several is invisible to them."),
"C34": ("Sizes met anywhere in the exploration are remembered by content (as read from the saved text): one content, one size; differences must be a common multiple of one amount per cell.", "No size is ever looked at."),
"C35": ("Standard input, output and error are files of the checker, the process state (about thirty things) and the files below a scratch directory, which is also HOME, TMPDIR and the working directory, are compared around each call; surroundings are compared with the outcome in the usual one. The locale with a decimal comma is made with localedef (left out if that is missing).", "Nobody reads the output of the tests."),
"C37": ("The module runs in an interpreter embedded in the checker. Each call is made with one or two places of its arguments replaced by other Python values and compared with a twin called with the plain value, or, if refused, with the object before; what follows the refusal is compared too. Calls made while an argument is read, and calls of a second thread made at any allocation or random number at which the interpreter lock is not held, are compared with the serial order. How pybind11 treats objects made with __new__ only is outside.", "Tests pass plain lists of ints and texts."),
"C36": ("The work of a call is counted, not timed: edges of the control flow passed (-fsanitize-coverage=trace-pc), bytes allocated, moved and searched. It is compared with the work of the same call at n, 2n, 4n and 8n, after longer histories, with larger counts and in larger address spaces; from n to 8n at most a factor of 12 is allowed, so a quadratic step shows and a change of constants does not.", "No test measures work, and at their sizes nothing shows."),
"C30": ("The allocator fails at every request in turn, once and from then on; the object is compared with twins that did none, some or all of the call's examples.", "No test runs out of memory."),
}
out = [HEAD]
det = json.load(open(V + "/tools/detected.json")) if os.path.exists(V + "/tools/detected.json") else {}
for i in sorted(props):
    c = conf.get(i); o, w = T.get(i, ("", ""))
    out.append(f"### {i} {props[i]['title']}\n\n{o}\n\nBounds ({', '.join(c['backends'])}{', AddressSanitizer' if c.get('asan') else ''}; thorough always with AddressSanitizer in C++): {c['bounds'].strip()}\n")
    if c.get("assumptions"): out.append("Assumes: " + "; ".join(c["assumptions"]) + ".\n")
    out.append("Beyond the tests: " + w + "\n")
    b = sorted(k for k, v in det.items() if v["property"] == i)
    if b: out.append("Planted changes: " + ", ".join(f"{k} ({v['result']})" for k, v in ((k, det[k]) for k in b)) + "\n")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
