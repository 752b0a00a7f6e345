#!/usr/bin/env python3
# Writes MANIFEST.json from the properties and the notes below. Run by hand; not part of any check.
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
SIM="path-sensitive abstract interpretation (ESP-style typestate) over the SSA form"
FLOW="interprocedural dataflow over the SSA form"
# property -> (technique, note)
CH={
"C01":(SIM,"Every path of the log parser, the processor and the forwarders is followed; the parser's text format of git log is trusted, as is that git's output does not end in an empty line while a patch is open."),
"C02":(SIM,"All paths per file of a commit; trusts git's patch header format, which the rule states."),
"C03":(SIM,"All paths from a processed commit to the stored state; the carry-over loop is judged for every file of every parent."),
"C04":(SIM,"All paths of Apply and of the hunk parser; line arithmetic is decided symbolically as linear terms, not by ranges."),
"C05":(SIM,"All paths of the merge application; loop order and candidate choice decided symbolically."),
"C06":(FLOW,"Every write through a pointer, slice or map that can reach a published blame, from any function, is listed and judged by where its memory comes from."),
"C07":(FLOW,"Every byte slice that can outlive the next read of its buffer is traced backward to where its memory comes from."),
"C08":(SIM,"Every fallible call of the library on every path to a successful end; closing a reader is not counted as fallible; numstat counts are trusted to be digits; git's own exit status is trusted. Two known findings (gzip stream not ended, unexpected EOF taken as end)."),
"C30":(FLOW+" and path-sensitive simulation of the scan loops","Every scanner of the pipeline and its limit, every path to the end of a scan loop, every comparison of an input length with a large constant."),
"C09":("exhaustive static exploration of the communication skeleton (abstract interpretation of the SSA form with sliced data, all interleavings, partial-order reduction)","All interleavings of the sliced skeleton of every exported entry point and channel-making command closure; at most two goroutines of one go statement, channel capacities up to two."),
"C10":("exhaustive static exploration of the communication skeleton (abstract interpretation of the SSA form with sliced data, all interleavings, partial-order reduction) and typestate of readers","As C09; besides, every reader of a git process is closed on every path. Nontermination of loops without communication is not looked at."),
"C14":(SIM,"All paths of the unload bookkeeping; the threshold constant is compared with the documented one."),
"C28":(SIM,"All paths to every application of a patch, with the binary flags known on them; the stored texts of the lines git blame printed. Which printed lines are skipped by the loops over them is not judged."),
"C11":(SIM,"Every path of the checkpoint writer as an automaton over file operations; the file system's rename is trusted to be atomic, power loss (fsync) is out of scope, C08 lists what the reader cannot notice."),
"C12":(SIM+" with symbolic correspondence of the tables of writer, reader and codecs","All paths of writer and reader and of the generated codecs of every record type; trusts the msgp and gzip libraries and the absence of collisions of the 64-bit content hash."),
"C13":(SIM,"All paths from the entry points to reading, writing and labelling a checkpoint."),
"C15":(SIM+" that collects the argument lists of git commands","All argument lists of the three git commands under every combination of options; trusts the documented meaning of git's options."),
"C16":(SIM+" and "+FLOW,"Every call that starts a program or changes a file in code reachable from the library; the command line tool itself is not covered."),
"C18":(SIM+" of an arbitrary step of every walk over the commit graph","Every recursive function and worklist loop over the commit graph reachable from the library, for any commit and any state of the captured variables; what the graph itself holds is trusted here (C08, C19)."),
"C19":(SIM+" with symbolic comparison of record fields","Every path to every point where a branch record is sent; trusts git rev-list for the root commits. Whether the order of the listed commits is the wanted one is left to the unit tests."),
"C20":(SIM+" with symbolic parsing of the ref listing's format","Every path of the ref listing and of the function that makes the records, workers included; trusts what git's format atoms print and the order in which a worker takes an item and sends its record."),
"C24":(SIM+" over an abstract domain of text shapes (constants and arbitrary holes)","Every log git can print under the grammar derived from the --pretty format and stated for headers, raw lines and numstat, as a fixpoint over position in the log and reader state; the grammar itself is trusted; what a regular expression or string function does is evaluated on the shape with its holes left unknown."),
"C25":(SIM+" over an abstract domain of text shapes (constants and arbitrary holes)","As C24, for the raw and numstat lines, renames and merges included. Two known findings: a file listed only in numstat, and a rename line that reads two ways."),
"C22":(SIM+" (gate automaton)","Every path of the file inspection to the language detection and each return, and every path to each file record. The filters' own classifications (configuration, dot file, vendored) are those of the language library; C23 covers the exclusion list."),
"C26":(SIM+" with loop invariants for per-line lists","Every path to a file record; loops over the lines are followed as an arbitrary iteration. Trusts that the counter calls back once per line with its number. One known finding: lines older than the start of an incremental run have no author data."),
"C23":("decision of language equality of the compiled pattern and the published list (product of subset constructions), and "+SIM+" of the matcher's use","All texts, for the pattern in the source and the list in custom_patterns.txt under the translation its generator documents; every path of the inspection of a file for its use."),
"C31":(SIM+" over an abstract domain of text shapes (constants and arbitrary holes)","Every path of the patch parser over every patch of one file under the grammar of git's patches stated in the rule, to a fixpoint over position in the patch and parser state. The functions that read the declaration line and the numbers of a hunk header are judged only by text rules: paths stored unchanged, numbers stored without arithmetic, no search from the end of the header; beyond that their results are only followed."),
"C32":(SIM,"Every path of every function in the command table and of main, with the helpers, callbacks and the directory walk they call; library calls are opaque and may fail. Numbers are followed up to two. git's exit status 1 of rev-parse --verify --quiet is trusted to mean that HEAD names no commit (git says the same of a branch file with rubbish in it). Starting a profile is not looked at."),
"C21":(FLOW+" (order independence of every loop without a fixed order; provenance of clock and random values)","Every loop over a map, over a list filled in such an order, or over a channel that several goroutines read, with everything it calls. Which of several errors is reported may vary. Order that leaves a loop through an object shared under two names is not seen."),
"C17":(FLOW+" (accesses of every goroutine against everything that can run at the same time, with locksets and joins; lock discipline on every path)","Every go statement of the library against the rest of its starter, its callers and its other instances. Objects are told apart by where they are made and by field, not by alias; a value received from a channel belongs to the receiver; calls of the API made at the same time by the user are not looked at."),
"C34":(SIM+" that collects the argument lists of git commands, judged against a table of settings","As C15, for a table of settings that change what git prints; settings that only order files (diff.orderFile), choose among right diffs (diff.algorithm) or leave files out of both logs (diff.relative, diff.ignoreSubmodules), core.bigFileThreshold and environment variables of git (GIT_DIFF_OPTS) are not in the table."),
"C35":(SIM+" over an abstract domain of text shapes (constants and arbitrary holes)","Every path of the parser for lines with no to three parents (longer lists only repeat), of the derivation of the children and of the functions that set the graph; trusts the order and content of git's lines. A parser that collects the parents into a list of fixed size by index is reported as undecided."),
"C33":(SIM+" with symbolic comparison of record fields","As C26, for the counter's job and the fields copied from it; what the counter computes is C41."),
"C27":(SIM,"Every path after the creation of a temporary file or directory, including error ends; panics and signals are not ends of an operation."),
"C29":(SIM,"Every path between the exported entry points and the constructors of the stages, with the value of every option."),
}
NA={
"C40":"quantifies over git's own blame algorithm on every history: the two diff heuristics are not comparable from the source of this repository; no sound static argument in reach",
"C41":"the numbers are defined by the grammars of some two hundred languages implemented in a vendored counter; the source holds no independent definition to compare with",
"C42":"a bound on memory and time over run-time histories; no sound static bound in reach (the discarding rule itself is C14)",
"C43":"the right language or license of a text is defined by external classifiers and corpora, not by this source",
}
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CH:
        t,n=CH[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"other",
          "level_note":"Static analysis of the whole current source, no execution. "+n+" Sound up to the assumptions listed in DESIGN.md (abstract terms for values, no unsafe or reflection, library contracts as stated)."})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"All checks run one analyzer (ripcheck/) over /repo's working tree; see DESIGN.md. There are no hooks in /repo."}
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
