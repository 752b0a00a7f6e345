import json,glob
HEAD='''# Design

Static analysis of pinpt/ripsrc: 35 properties (C01–C35) are decided from the source; 4 (C40–C43) are
not applicable (reasons at the end). Nothing of the code under test is executed, concretely or with a
solver. There are no hooks in /repo.

## Layout

| Path | What |
|---|---|
| `properties.jsonl` | the properties |
| `MANIFEST.json` (written by `mkmanifest.py`) | checks, technique and level per property |
| `check.sh ID…` | builds the analyzer if needed and decides the properties for /repo's working tree |
| `setup.sh` | builds the analyzer, offline |
| `ripcheck/` | the analyzer (Go, golang.org/x/tools v0.29.0 from the module cache) |
| `known_findings.txt` | genuine defects: repaired (`fixed:`) and recorded (`known:`) |
| `doc/` | generator of this file |
| `seeded/` | planted bugs with demonstrations (read by no check) |
| `selftest/` | single edits of the source, bugs and behaviour-preserving ones, with the expected verdict |
| `evidence/` | what each run covered (rewritten by every run) |

## How a property is decided

`ripcheck` type-checks all packages of /repo's current tree from source (go/packages), builds the SSA form
and a call graph (VTA over CHA), and runs the rule of the property. A rule does not look at names of internal
functions, at line numbers or at text. It is anchored on the exported API, on exported record types and
their fields, and on operations (git commands, channel operations, file operations, map and slice
accesses); internal helpers are found by what they do and by their types, and are inlined, so that
extracting a helper, reordering statements or rewriting a loop does not matter.

Three engines:

* **Simulator** (`sim.go`, `term.go`): path-sensitive abstract interpretation in the style of ESP
  property simulation. A state is a stack of activations, the symbolic term of every live value (where it
  comes from: call results, fields, constants, linear integer terms, elements of loops), facts
  (condition values, nil-ness, equalities) and the automaton of the rule. Calls into the module are inlined
  (context-sensitive); loops are followed to a fixpoint with an arbitrary iteration. States that agree are
  merged; nothing is cut off silently: hitting the state cap, the recursion limit or an unknown construct is
  reported as a violation. `shape.go` adds a domain of texts made of constants and holes of arbitrary
  content, on which string functions and regular expressions are evaluated where the holes allow it, and
  both outcomes are followed where they do not.
* **Dataflow** (`flow.go`, `origin.go`, `shapes.go`, `c17.go`, `c21.go`): interprocedural, field-based
  forward and backward propagation of values, effects and locksets.
* **Communication skeleton** (`skel.go`, `skelslice.go`, `skelpor.go`): for C09/C10 the program is sliced
  to what can influence goroutines, channels, wait groups and locks; all interleavings of the abstract
  skeleton are explored with partial-order reduction. (Data is abstracted to nil / not nil / true / false /
  small counts / unknown: this is abstract interpretation of the source, no path is handed to a solver.)

An obligation is keyed by rule and construct, not by line. Findings have a replay file (the path through the
program: functions, calls, branches taken). A check **fails** if: an obligation is violated or cannot be
decided; an anchor cannot be resolved; the number of rule instances is below the number confirmed by hand
(kept low, so that restructuring does not trip it); the tree does not type-check; the analyzer panics.
Findings listed in `known_findings.txt` by key are printed as `KNOWN-FINDING:` and do not fail it.

The quick and the thorough command are the same: every run is the complete analysis (1–60 s per property),
there is no deeper bound left to explore.

Common assumptions: no `unsafe`, reflection or linkname in the library (there is none; the vendored
modules are opaque and used by their documented contracts); library contracts of the Go standard library
as stated in the rules; git behaves as documented for the commands used. Terms of different origin are taken to be possibly equal unless a
fact says otherwise. Inputs are arbitrary.

## Properties
'''
WHY={
'C01':'The ways git output can be sequenced (merge parts, empty commits, binary parts, first/last commit) are unbounded; tests sample a few histories.',
'C02':'Quantifies over all patches; tests sample a handful of header combinations.',
'C03':'An induction over the whole history: each step must keep every untouched file.',
'C04':'Quantifies over all files, hunks and markers.',
'C05':'Needs all numbers of parents and all combinations of surviving lines.',
'C06':'Aliasing: a test sees a later change only if it keeps the old object and compares.',
'C07':'Depends on buffer sizes and on when the reader refills; small test inputs never overwrite.',
'C08':'Failures of processes and files are not injected by tests, and each site fails alone.',
'C09':'Depends on the schedule and on the error path.',
'C10':'Leaked goroutines do not fail a test.',
'C11':'Crash points cannot be sampled completely.',
'C12':'Round trip for every state; a dropped field shows up only for the state that has it.',
'C13':'Depends on combinations of options, errors and earlier runs.',
'C14':'Needs histories of more than 1000 discardable commits.',
'C15':"Depends on option sets and on the user's git configuration.",
'C16':'A side effect on the repository is not looked at by tests; names come from the input.',
'C17':'Races need a schedule; the race detector sees only the one that ran.',
'C18':'Quantifies over all graphs; exponential walks only show on large ones.',
'C19':'Quantifies over all graphs and branch positions.',
'C20':'Quantifies over all sets of refs and their names.',
'C21':"Go's map order varies between runs; a test passes with some probability.",
'C22':'Limits lie far outside test inputs.',
'C23':'Quantifies over all paths.',
'C24':'Quantifies over header texts.',
'C25':'Quantifies over status letters, names and orders of lines.',
'C26':'Quantifies over files and histories.',
'C27':'Tests do not look at the temporary directory, least of all after errors.',
'C28':'Needs histories in which files change between binary and text in every order.',
'C29':'Combinations of options.',
'C30':'Inputs at the limits are too large for tests.',
'C31':'Quantifies over patch texts, content that looks like headers included.',
'C32':'Exit codes on failures are not tested.',
'C34':'Tests run with one configuration, normally the default.',
'C35':'Quantifies over histories; octopus merges and several roots are not in the tests.',
'C33':'Quantifies over files; mixed-up figures show only if they differ.',
}
LIM={
'C01':"git's log format is trusted, also that its output does not end in an empty line while a patch is open. A commit's merge parts are recognised by the same hash in consecutive records.",
'C02':"git's patch header format is stated in the rule and trusted (C31 judges the parser that reads it).",
'C03':'The carry-over loop is judged for an arbitrary file of an arbitrary parent. A renamed file keeps its old path in the state (harmless, allowed: only extra entries).',
'C04':'Line arithmetic is decided on linear symbolic terms, not by ranges; a hunk whose numbers contradict the file is git\'s error. "\\r" at the end of a CRLF line is dropped by the scanner of the unchanged code where a file is read from blame output; the rule concerns the text of the patch line. A hunk header with a single number (`-1 +1`) is as the unit tests encode it.',
'C05':"Which lines survive is C04 for each parent's view. Loops may run over parents or lines first.",
'C06':'Objects are told apart by their allocation and by whether they were published, not by index.',
'C07':'Field-based: a field that holds a view of a buffer anywhere taints it everywhere.',
'C08':"Closing a reader is not counted as fallible; numstat counts are trusted to be digits; git's own exit status is trusted. `os.IsNotExist` of Remove/Rename is accepted as 'nothing there'. After an error return that closes a git reader early the goroutine that runs git panics on the closed pipe (the text allows aborting). No fsync is asked for. Two known findings.",
'C09':'At most two goroutines of one go statement, channel capacities up to two, integers up to three. Data races do not add interleavings (C17).',
'C10':'As C09. Nontermination of loops without communication is not looked at. Workers of branches2 that return early on an error would leave the producer blocked, but no call there can fail (decided: always-nil results).',
'C11':'rename(2) is trusted to be atomic; power loss is out of scope. A half-removed old checkpoint reads as none because the reader opens every file (checked).',
'C12':'Trusts the msgp and gzip libraries and the absence of collisions of the 64-bit content hash.',
'C13':'The directory layout is compared between reader and writer; the content of the label only through the string written.',
'C14':'The threshold is compared with the documented 1000.',
'C15':"Trusts the documented meaning of git's options. Other settings are C34.",
'C16':'The command line tool itself (profiles, output) is not covered, the library it calls is. Environment variables given to git are not analysed.',
'C17':'Objects are told apart by creation site and by field, not by alias; a received value belongs to its receiver; concurrent API calls by the user are not looked at.',
'C18':'What the graph holds is trusted here. `graph.Graph.LastCommonParent` is exponential, but used by nothing except tests.',
'C19':'`git rev-list` is trusted for the root commits. The order of the listed commits (depth first) is fixed by unit tests. A branch whose head is the default head lists all commits: not claimed either way.',
'C20':"Trusts what git's format atoms print. `WantedBranchRefs` is nil from the public API.",
'C21':'Which of several errors is reported may vary. Order that leaves a loop through an object shared under two names is not seen. Loops of the checkpoint writer are judged by C12 (numbers are internal to the checkpoint).',
'C22':'The filters\' own classifications belong to the language library; C23 covers the exclusion list. Files the metadata does not list, or with an empty path, get no record (C02 judges the first).',
'C23':"The pattern must be a constant given to regexp.MustCompile; word and line boundary assertions inside are not followed (they would be reported).",
'C24':"git's log grammar is stated in the rule (`logGrammar`) and trusted; a date git prints that RFC 3339 cannot express ends in an error, as C08 allows.",
'C25':'As C24. Names with quotes, backslashes or control characters stay quoted as git prints them; letters M with a score, U and X are rejected by a panic (allowed). Two known findings.',
'C26':'Trusts that the counter calls back once per line. One known finding.',
'C27':'Panics and signals are not ends of an operation.',
'C28':'The binary flag of a diff is C31.',
'C29':'Callers outside the module are arbitrary.',
'C30':'Limits are found by constant propagation. The commit graph reader\'s limit (1 MB per line of hashes) is not part of the patch pipeline.',
'C31':'The functions that read the declaration line and the numbers in a hunk header are judged by text rules only (paths stored unchanged, numbers stored without arithmetic, no search from the end of the header); beyond that their results are followed. Merge declarations give no paths, as documented.',
'C32':"git's exit status 1 of `rev-parse --verify --quiet` is trusted to mean that HEAD names no commit. A panic counts as visible. Starting a profile is not looked at. `.git` files (worktrees, submodules) are not repositories for the tool.",
'C34':'The table of settings is stated in the rule; settings that only order files (diff.orderFile), choose among right diffs (diff.algorithm), leave files out of both logs (diff.relative, diff.ignoreSubmodules), core.bigFileThreshold and environment variables (GIT_DIFF_OPTS) are not in it. A missing blame.ignoreRevsFile still ends git blame with an error.',
'C35':'Lines with up to three parents (the parser treats a longer list alike, or is reported). Which commits git lists is C15.',
'C33':'What the counter computes is C41. Generated files have statistics up to the line where counting stopped and the reason "generated".',
}
TAIL=''
TAIL='''## Genuine defects

Repaired in /repo, one `fix:` commit each (also in `known_findings.txt`):

'''
import re as _re
for _l in open('/verif/known_findings.txt'):
    _m=_re.match(r'fixed: property=(\S+) (\S+) (.*)',_l)
    if _m: TAIL+='* %s `%s` %s\n'%_m.groups()
TAIL+='''
Recorded, not repaired (each shown against the real code; a repair would change formats, the shape of the
results or the way the metadata log is read, which is more than a small patch):

'''
for _l in open('/verif/known_findings.txt'):
    _m=_re.match(r'known: property=(\S+) key=\{(.*?)\} (.*)',_l)
    if _m: TAIL+='* %s (`%s`) %s\n'%_m.groups()
TAIL+='''
Observed, outside every stated property: the context given to the API does not reach the git processes;
`CommitFromMakeNonIncl` is documented to skip checkpoints, but does not; an incremental run from a root commit fails
(`ROOT^..HEAD`); file names with quotes, backslashes or control characters stay quoted as git prints
them; files deleted by a merge are listed as modified (part of the C25 finding).

## Testing the checks

* `selftest/run.py` applies single edits to a scratch copy and compares the verdict with the expected one: BUGS
  edits that break a property, OKS that keep the behaviour (helpers extracted, statements reordered,
  loops rewritten, other library calls). The bug edits are reported by the property they name, the others by
  none; every behaviour-preserving edit was also run against all other properties. `cases_blind.py` was written
  from the texts of the properties without looking at the rules.
* `seeded/`: bugs planted with a demonstration against the real code. All are caught:

| Bug | Property | Caught by |
|---|---|---|
SEEDS

False alarms found on the way (and what was done): rules compared fixed shapes of code in early versions, for
instance that a file list is a map or that the merged blame is built in place; they now accept every way the
value can be made (sorted lists, copies, appends, fresh buffers by any library call, tolerated
`os.IsNotExist`), and each such edit is kept in `selftest/`. C19's rule for the first commit of the default
branch was too strong (it asked for the oldest root); the statement now says one root commit.

## Not applicable

'''
for _p in json.load(open('/verif/MANIFEST.json'))['not_applicable']:
    TAIL+='* %s: %s\n'%(_p['property'],_p['reason'])
import subprocess as _s
_o=_s.run("grep -hoE '^ *(bug|ok)\\(' /verif/selftest/cases*.py | sort | uniq -c",shell=True,capture_output=True,text=True).stdout.split()
seeds=''
for _f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    _d=json.load(open(_f)); seeds+='| `%s`: %s | %s | %s |\n'%(_f.split('/')[-2],_d['what_it_breaks'],_d['property'],_d.get('caught','the check of '+_d['property']))
import glob as _g
_n=[]
for _f in _g.glob('/verif/selftest/cases*.py'): exec(open(_f).read(),{'bug':lambda *a:_n.append('b'),'ok':lambda *a:_n.append('o')})
TAIL=TAIL.replace('BUGS',str(_n.count('b'))).replace('OKS',str(_n.count('o')))
TAIL=TAIL.replace('SEEDS',seeds.rstrip())
