From f871301dbb415bd134112f8601c420f32b568770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 01/20] fix: keep file paths unquoted in both git logs

With core.quotePath at its default git quotes non-ASCII paths in the raw and
numstat output, so they never match the paths taken from the patch output and
the files are dropped from the code results.
---
 ripsrc/commitmeta/commitmeta.go    | 1 +
 ripsrc/history3/process/process.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..a7c9ee6 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -185,6 +185,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 	args := []string{
 		"-c", "core.attributesFile=" + f.Name(),
 		"-c", "diff.renameLimit=10000",
+		"-c", "core.quotePath=false",
 		"log",
 		"-c",
 		"--raw",
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..45ab373 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -807,6 +807,7 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 	args := []string{
 		"-c", "core.attributesFile=" + f.Name(),
 		"-c", "diff.renameLimit=10000",
+		"-c", "core.quotePath=false",
 		"log",
 		"-p",
 		"-m",
-- 
2.43.0


From 73beef42552b9c571cb63395e42b64c908fe26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 02/20] fix: skip the symbolic origin/HEAD entry when listing
 origin branches

git prints refs/remotes/origin/HEAD as just "origin" with refname:short, which
made branchmeta.Get panic on every normal clone.
---
 ripsrc/branchmeta/branchmeta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..73ab6ff 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -71,6 +71,10 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b.CommitCommitterTime = date
 		if opts.UseOrigin {
+			if b.Name == "origin" {
+				// short name of the symbolic refs/remotes/origin/HEAD, not a branch
+				continue
+			}
 			if !strings.HasPrefix(b.Name, "origin/") {
 				panic("branch name does not have origin/ prefix")
 			}
-- 
2.43.0


From bcecbbb7216e124c080fd32f01bef4ed920314e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 03/20] fix: keep commits without files in checkpoints

A commit whose tree is empty had no row in the checkpoint, so resuming from it
panicked with "commit not found".
---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  4 ++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..52b2e91 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..58a19c7 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -83,6 +83,10 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	}
 
 	for ch, commit := range repo {
+		if len(commit) == 0 {
+			// keep commits without files, blame pointers start from 1
+			writeRepoRow(ch, "", 0)
+		}
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-- 
2.43.0


From 0088dd1ddab80ef9a18b7dc56c99ed1b42092e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/20] fix: remove the temporary attributes file of the git
 log commands

---
 ripsrc/commitmeta/commitmeta.go    |  9 ++++++++-
 ripsrc/gitexec/gitexec.go          | 19 +++++++++++++++++++
 ripsrc/history3/process/process.go |  8 +++++++-
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index a7c9ee6..7fee835 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"os"
 	"os/exec"
 	"path"
 	"regexp"
@@ -179,6 +180,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 	}
 	err = f.Close()
 	if err != nil {
+		os.Remove(f.Name())
 		return nil, err
 	}
 
@@ -213,7 +215,12 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		}
 	}
 
-	return gitexec.ExecPiped(context.Background(), s.gitCommand, s.repoDir, args)
+	r, err := gitexec.ExecPiped(context.Background(), s.gitCommand, s.repoDir, args)
+	if err != nil {
+		os.Remove(f.Name())
+		return nil, err
+	}
+	return gitexec.RemoveOnClose(r, f.Name()), nil
 }
 
 var (
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..40f75c4 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -157,6 +157,25 @@ func ExecIntoWriter(ctx context.Context, wr io.Writer, gitCommand string, repoDi
 	return nil
 }
 
+// RemoveOnClose returns a reader that also removes the file at loc when it is closed.
+// Use it for temporary files that have to stay in place while the command is running.
+func RemoveOnClose(r io.ReadCloser, loc string) io.ReadCloser {
+	return removeOnClose{ReadCloser: r, loc: loc}
+}
+
+type removeOnClose struct {
+	io.ReadCloser
+	loc string
+}
+
+func (s removeOnClose) Close() error {
+	err := s.ReadCloser.Close()
+	if rerr := os.Remove(s.loc); err == nil {
+		err = rerr
+	}
+	return err
+}
+
 type noopReadCloser struct {
 	io.Reader
 }
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 45ab373..e8c6420 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -801,6 +801,7 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 	}
 	err = f.Close()
 	if err != nil {
+		os.Remove(f.Name())
 		return nil, err
 	}
 
@@ -839,7 +840,12 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 	ctx := context.Background()
 	//if s.opts.DisableCache {
 
-	return gitexec.ExecPiped(ctx, s.gitCommand, s.opts.RepoDir, args)
+	r, err := gitexec.ExecPiped(ctx, s.gitCommand, s.opts.RepoDir, args)
+	if err != nil {
+		os.Remove(f.Name())
+		return nil, err
+	}
+	return gitexec.RemoveOnClose(r, f.Name()), nil
 	//}
 	//return gitexec.ExecWithCache(ctx, s.gitCommand, s.opts.RepoDir, args)
 }
-- 
2.43.0


From 048d45f741c5c8d131203db637ac78bb500d11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 05/20] fix: exit with a non-zero status when a single error is
 reported

---
 ripsrc/cmd/cmdutils/errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..03116e4 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
-- 
2.43.0


From e617bf5384d3a6d6758f1c2f77545bd4b19678e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/20] fix: always pick the same license when several match
 equally well

---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..3eaea01 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// same confidence happens for close variants of a license, always pick the same one
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From a289ea20a3a249d4d49b6c80db55d6fb8082a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/20] fix: report unreadable or over-long commit metadata
 lines

The scanner stopped silently at lines longer than 64 KB, so the remaining
commits were lost and the processing of their patches panicked.
---
 ripsrc/commitmeta/commitmeta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 7fee835..dff79e0 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -133,6 +133,9 @@ func (s *Processor) RunMap() (map[string]Commit, error) {
 	return res, err
 }
 
+const mb = 1000 * 1000
+const maxLine = 100 * mb
+
 func (s *Processor) Run(res chan Commit) error {
 	defer close(res)
 	r, err := s.gitLog()
@@ -156,6 +159,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -165,6 +169,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return err
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
-- 
2.43.0


From bf3501b72848cace55df8b04f5efbaef5f5d364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 08/20] fix: stop the file jobs goroutine when commit metadata
 processing ends

---
 ripsrc/commitmeta/commitmeta.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index dff79e0..037d22a 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -151,6 +151,7 @@ func (s *Processor) Run(res chan Commit) error {
 
 	// we don't need this in new code. TODO: check and remove
 	fjChan := make(chan *CommitFile, 100)
+	defer close(fjChan)
 	go func() {
 		for range fjChan {
 
-- 
2.43.0


From b1d19bcb49631302248c8420a883faff1503a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 09/20] fix: report errors of completing a cached git output
 file

The cache file was renamed into place even if its last block could not be
written, so later runs read truncated output from it.
---
 ripsrc/gitexec/gitexec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index 40f75c4..f67f08e 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -88,20 +88,24 @@ func newGzipFileCloser(f *os.File) (io.ReadCloser, error) {
 
 func execToFile(ctx context.Context, loc string, gitCommand string, repoDir string, args []string) error {
 	f, err := os.Create(loc)
-	defer f.Close()
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	gw := gzip.NewWriter(f)
-	defer gw.Close()
 
 	err = ExecIntoWriter(ctx, gw, gitCommand, repoDir, args)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	err = gw.Close()
+	if err != nil {
+		return err
+	}
+
+	return f.Close()
 }
 
 func hashString(str string) string {
-- 
2.43.0


From 07fc8ed375ac0c34a75ad161b4c9945477324843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 10/20] fix: report one first commit when the default branch
 has several roots

git rev-list prints every root commit and all of them ended up in FirstCommit,
separated by newlines.
---
 ripsrc/branches2/process.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..67d38c7 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"runtime"
 	"strings"
 	"sync"
@@ -107,7 +108,12 @@ func (s *Process) getFirstCommit() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", errors.New("could not get the first commit")
+	}
+	// newest first, more than one if unrelated histories were merged
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
-- 
2.43.0


From 90140a2454e81bd2b5a0385ba8b8c9b7f77804e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 11/20] fix: do not keep a commit graph that could not be read

---
 ripsrc/ripsrc.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index 9da0c47..c497dc6 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -94,11 +94,16 @@ func (s *Ripsrc) buildCommitGraph(ctx context.Context) error {
 		return nil
 	}
 
-	s.commitGraph = parentsgraph.New(parentsgraph.Opts{
+	graph := parentsgraph.New(parentsgraph.Opts{
 		RepoDir:     s.opts.RepoDir,
 		AllBranches: s.opts.AllBranches,
 		Logger:      s.opts.Logger,
 	})
+	err := graph.Read()
+	if err != nil {
+		return err
+	}
 
-	return s.commitGraph.Read()
+	s.commitGraph = graph
+	return nil
 }
-- 
2.43.0


From a84695f670c295010ac911371aaca1d19ed539cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 12/20] fix: stop when the log parser failed before a
 checkpoint is written

---
 ripsrc/history3/process/process.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index e8c6420..76bfb02 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -160,14 +160,10 @@ func (s *Process) Run(resChan chan Result) error {
 
 	done := make(chan bool)
 
+	var parseErr error
 	go func() {
-		defer func() {
-			done <- true
-		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parseErr = p.Run(commits)
+		done <- true
 	}()
 
 	drainAndExit := func() {
@@ -194,6 +190,12 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	// the log was read to the end or failed, do not continue with a part of it
+	<-done
+	if parseErr != nil {
+		return parseErr
+	}
+
 	if len(s.mergeParts) > 0 {
 		s.processGotMergeParts(resChan)
 	}
@@ -201,20 +203,17 @@ func (s *Process) Run(resChan chan Result) error {
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
-- 
2.43.0


From e4ae3cc0dd2a0a7abd7685768dba4e518e7da7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 13/20] fix: count only commits missing from the branch as
 behind

---
 ripsrc/branches2/behind_branch.go | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..c64684f 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,15 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// all commits of the branch, since commits that are on both may also be
+	// reachable from default head without passing the branch point
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From dfbdbc01b91399facd1283b4e1a4a9fdcfbdc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:00 +0000
Subject: [PATCH 14/20] fix: branches named like a tag got a longer name, or
 stopped the program

---
 ripsrc/branchmeta/branchmeta.go | 10 +++-------
 ripsrc/branchmeta/default.go    |  4 ++--
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index 73ab6ff..a414214 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -35,7 +35,8 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		// not refname:short, that is longer if there is a tag with the same name
+		"%(objectname)@@@%(refname:lstrip=2)@@@%(committerdate)",
 	}
 	if opts.UseOrigin {
 		args = append(args, "refs/remotes/origin")
@@ -71,10 +72,6 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b.CommitCommitterTime = date
 		if opts.UseOrigin {
-			if b.Name == "origin" {
-				// short name of the symbolic refs/remotes/origin/HEAD, not a branch
-				continue
-			}
 			if !strings.HasPrefix(b.Name, "origin/") {
 				panic("branch name does not have origin/ prefix")
 			}
@@ -99,14 +96,13 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 func getDefaultBranch(opts Opts) (string, error) {
 	args := []string{
 		"symbolic-ref",
-		"--short",
 		"HEAD",
 	}
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
+	res := strings.TrimPrefix(strings.TrimSpace(string(data)), "refs/heads/")
 	if len(res) == 0 {
 		return "", errors.New("could not get the default branch name")
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..568c2e4 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -27,7 +27,7 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 }
 
 func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--symbolic-full-name", "HEAD"})
 	if err != nil {
 		return "", err
 	}
@@ -35,7 +35,7 @@ func headBranch(ctx context.Context, gitCommand string, repoDir string) (string,
 	if res == "HEAD" {
 		return "", errors.New("cound not retrieve the name of the default branch")
 	}
-	return res, nil
+	return strings.TrimPrefix(res, "refs/heads/"), nil
 }
 
 func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-- 
2.43.0


From 14300602b15dfb631f2c208fcbf827c9e486ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 15/20] fix: branch names that contain @@@ stopped the program

---
 ripsrc/branchmeta/branchmeta.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a414214..ff1f96f 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -36,7 +36,8 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		"for-each-ref",
 		"--format",
 		// not refname:short, that is longer if there is a tag with the same name
-		"%(objectname)@@@%(refname:lstrip=2)@@@%(committerdate)",
+		// the name last, it may contain the separator
+		"%(objectname)@@@%(committerdate)@@@%(refname:lstrip=2)",
 	}
 	if opts.UseOrigin {
 		args = append(args, "refs/remotes/origin")
@@ -65,8 +66,8 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
+		b.Name = parts[2]
+		date, err := gittime.Parse(parts[1])
 		if err != nil {
 			panic("invalid date format")
 		}
-- 
2.43.0


From 808fa19d05ff4a8477cb1df78ae7a560c697f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:37 +0000
Subject: [PATCH 16/20] fix: file names that start with a space lost it in
 commit metadata

---
 ripsrc/commitmeta/commitmeta.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 037d22a..7b8d756 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -437,7 +437,7 @@ func (p *parser) parse(line string) (bool, error) {
 				action := tok2[0]
 				paths := tok2[1:]
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := string(paths[0])
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
@@ -446,8 +446,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := string(paths[0])
+					toFn := string(paths[1])
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -467,8 +467,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := string(paths[0])
+					toFn := string(paths[1])
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -478,7 +478,7 @@ func (p *parser) parse(line string) (bool, error) {
 					p.commit.Files[toFn] = cf
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := string(paths[0])
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
-- 
2.43.0


From 9f99198bf35849109c4f6ed4fffbfd51a0653375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 17/20] fix: line counts of files named like a rename were
 given to another file

---
 ripsrc/commitmeta/commitmeta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 7b8d756..ed8198d 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -495,7 +495,11 @@ func (p *parser) parse(line string) (bool, error) {
 			// handle the file stats output
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
-				fn, _, _ := getFilename(tok[2])
+				fn := tok[2]
+				if p.commit.Files[fn] == nil {
+					// not the name of a file that looks like a rename
+					fn, _, _ = getFilename(fn)
+				}
 				file := p.commit.Files[fn]
 				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
 				if file == nil {
-- 
2.43.0


From f4bc8714981e95e88406d8ccce72ec108fcbe4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 18/20] fix: the exclusion matcher lost the last pattern of the
 list (.parquet), which has no newline

---
 genignore.go                 | 11 ++++++-----
 ripsrc/fileinfo/gitignore.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/genignore.go b/genignore.go
index 86d8937..6287757 100644
--- a/genignore.go
+++ b/genignore.go
@@ -49,13 +49,14 @@ func parseFile(filename string) ([]string, error) {
 	matches := []string{}
 	for {
 		line, err := b.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
-		line = strings.TrimSpace(line[0 : len(line)-1])
+		if line == "" {
+			// end of file, the last line may have no newline
+			break
+		}
+		line = strings.TrimSpace(line)
 		if line == "" || line == "\n" || line[0] == '#' || line[0] == '!' || line[0] == '\t' {
 			continue
 		}
diff --git a/ripsrc/fileinfo/gitignore.go b/ripsrc/fileinfo/gitignore.go
index 8121c0b..814cdb2 100644
--- a/ripsrc/fileinfo/gitignore.go
+++ b/ripsrc/fileinfo/gitignore.go
@@ -4,4 +4,4 @@ package fileinfo
 
 import "regexp"
 
-var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$)`)
+var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$|\.parquet$)`)
-- 
2.43.0


From a0647fe069d3222ace725da60e5cb9fd5861315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 19/20] fix: repositories git cannot open were skipped as empty
 ones

---
 ripsrc/cmd/cmdutils/repo_run.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ripsrc/cmd/cmdutils/repo_run.go b/ripsrc/cmd/cmdutils/repo_run.go
index b807d31..2465f95 100644
--- a/ripsrc/cmd/cmdutils/repo_run.go
+++ b/ripsrc/cmd/cmdutils/repo_run.go
@@ -1,13 +1,11 @@
 package cmdutils
 
 import (
-	"bytes"
 	"context"
 	"errors"
 	"fmt"
 	"io"
 	"os/exec"
-	"strings"
 	"time"
 
 	"github.com/fatih/color"
@@ -18,12 +16,17 @@ var ErrRevParseFailed = errors.New("git rev-parse HEAD failed")
 func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() error) error {
 	start := time.Now()
 	fmt.Fprintf(color.Output, "starting processing repo:%v\n", color.GreenString(repoDir))
-	if !hasHeadCommit(ctx, repoDir) {
+	hasHead, err := hasHeadCommit(ctx, repoDir)
+	if err != nil {
+		fmt.Fprintf(color.Output, "failed to check HEAD in repo: %v err: %v\n", color.RedString(repoDir), color.RedString(err.Error()))
+		return err
+	}
+	if !hasHead {
 		fmt.Fprintf(wr, "git rev-parse HEAD failed, happens for empty repos, repo: %v \n", repoDir)
 		return ErrRevParseFailed
 	}
 
-	err := run()
+	err = run()
 	if err != nil {
 		fmt.Fprintf(color.Output, "completed repo processing in %v repo: %v err: %v\n", time.Since(start), color.RedString(repoDir), color.RedString(err.Error()))
 
@@ -35,15 +38,16 @@ func RunOnRepo(ctx context.Context, wr io.Writer, repoDir string, run func() err
 	return nil
 }
 
-func hasHeadCommit(ctx context.Context, repoDir string) bool {
-	out := bytes.NewBuffer(nil)
-	c := exec.Command("git", "rev-parse", "HEAD")
+// hasHeadCommit returns false for repos without commits. Any other failure is an error.
+func hasHeadCommit(ctx context.Context, repoDir string) (bool, error) {
+	c := exec.Command("git", "rev-parse", "--verify", "--quiet", "HEAD")
 	c.Dir = repoDir
-	c.Stdout = out
-	c.Run()
-	res := strings.TrimSpace(out.String())
-	if len(res) != 40 {
-		return false
+	err := c.Run()
+	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 1 {
+		return false, nil
+	}
+	if err != nil {
+		return false, fmt.Errorf("git rev-parse HEAD failed to run: %v", err)
 	}
-	return true
+	return true, nil
 }
-- 
2.43.0


From d6e1d8d42b15c290689ce114a8eda69ad5718f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:35 +0000
Subject: [PATCH 20/20] fix: settings of the user's git configuration changed
 or broke the results

---
 ripsrc/commitmeta/commitmeta.go    |  6 +++---
 ripsrc/gitblame2/gitblame.go       |  2 ++
 ripsrc/gitexec/gitexec.go          | 20 ++++++++++++++++++++
 ripsrc/history3/process/process.go |  7 ++++---
 ripsrc/parentsgraph/parents.go     |  4 ++--
 5 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index ed8198d..32599b8 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -192,8 +192,8 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		return nil, err
 	}
 
-	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+	args := append(gitexec.LogSettings(),
+		"-c", "core.attributesFile="+f.Name(),
 		"-c", "diff.renameLimit=10000",
 		"-c", "core.quotePath=false",
 		"log",
@@ -202,7 +202,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--reverse",
 		"--numstat",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
-	}
+	)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..7fd476a 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -33,6 +33,8 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 		"blame",
 		commitHash,
 		"--porcelain",
+		"--no-textconv",
+		"--ignore-revs-file=",
 		"--",
 		file,
 	}
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index f67f08e..2843e5b 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -17,6 +17,26 @@ import (
 const cacheDir = "pp-git-cache"
 const casheVersion = "1"
 
+// LogSettings returns the options that keep settings of the user and of the repository from changing the output of git log.
+func LogSettings() []string {
+	return []string{
+		"-c", "color.diff=false",
+		"-c", "diff.context=3",
+		"-c", "diff.dstPrefix=b/",
+		"-c", "diff.mnemonicPrefix=false",
+		"-c", "diff.noprefix=false",
+		"-c", "diff.renames=true",
+		"-c", "diff.srcPrefix=a/",
+		"-c", "diff.submodule=short",
+		"-c", "diff.suppressBlankEmpty=false",
+		"-c", "i18n.logOutputEncoding=UTF-8",
+		"-c", "log.decorate=false",
+		"-c", "log.diffMerges=separate",
+		"-c", "log.showRoot=true",
+		"-c", "log.showSignature=false",
+	}
+}
+
 func ExecWithCache(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	//return ExecPiped(ctx, gitCommand, repoDir, args)
 
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 76bfb02..0a97576 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -804,18 +804,19 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 		return nil, err
 	}
 
-	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
+	args := append(gitexec.LogSettings(),
+		"-c", "core.attributesFile="+f.Name(),
 		"-c", "diff.renameLimit=10000",
 		"-c", "core.quotePath=false",
 		"log",
 		"-p",
 		"-m",
+		"--no-textconv",
 		"--date-order",
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=short",
-	}
+	)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/parentsgraph/parents.go b/ripsrc/parentsgraph/parents.go
index 2040872..0f19f24 100644
--- a/ripsrc/parentsgraph/parents.go
+++ b/ripsrc/parentsgraph/parents.go
@@ -84,13 +84,13 @@ func (s *Graph) retrieveParents() error {
 }
 
 func (s *Graph) gitLogParents() (io.ReadCloser, error) {
-	args := []string{
+	args := append(gitexec.LogSettings(),
 		"log",
 		"-m",
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=format:%H@%P",
-	}
+	)
 
 	if s.opts.AllBranches {
 		args = append(args, "--all")
-- 
2.43.0

