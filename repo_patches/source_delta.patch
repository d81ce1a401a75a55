From 920ee923ab6b1cee3be6b976127e4b5d03124a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 1/8] fix: reject events and channels with an empty channel
 name

Such an event was accepted by the parser, but printed as a text that cannot be
parsed again (the output of rtcg-read-traces was rejected by rtcg-make-stms).
---
 internal/testlang/channel/channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..19cb5ca 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.IsEmpty() {
+		return nil, ErrEmptyName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -136,3 +140,6 @@ type BadFieldCountError struct {
 func (b BadFieldCountError) Error() string {
 	return fmt.Sprintf("needed two or three %q delimited fields, got %d", EventSep, b.Got)
 }
+
+// ErrEmptyName is the error when the channel name in the text of an Event or Channel is blank.
+var ErrEmptyName = errors.New("channel name must not be empty")
-- 
2.43.0


From e03b4876a89892c9fea3282549243dabe911d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 2/8] fix: report a test without a root node instead of
 crashing

A test suite such as {"t": null} made validation dereference a nil pointer.
---
 internal/validate/errors.go | 3 +++
 internal/validate/node.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..ab0eb78 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test has no root node.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/node.go b/internal/validate/node.go
index 204c5d7..fd73c9d 100644
--- a/internal/validate/node.go
+++ b/internal/validate/node.go
@@ -8,6 +8,10 @@ import (
 
 // Root checks whether node is a valid root node.
 func Root(node *testlang.Node) error {
+	if node == nil {
+		return ErrNoRoot
+	}
+
 	if node.Event != nil {
 		return ErrRootHasEvent
 	}
-- 
2.43.0


From e5f3d6757ba890cc65a0dd2c77931fdc3cdc4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 3/8] fix: write transitions on events without a value

Serialising such a transition failed, so no state machine suite could be written
for a trace containing an event that carries no value.
---
 internal/stm/transition/transition.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/stm/transition/transition.go b/internal/stm/transition/transition.go
index 1892077..fca2985 100644
--- a/internal/stm/transition/transition.go
+++ b/internal/stm/transition/transition.go
@@ -2,6 +2,7 @@
 package transition
 
 import (
+	"encoding/json"
 	"fmt"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
@@ -16,6 +17,27 @@ type Transition struct {
 	// TODO: record which test this transition is from
 }
 
+// MarshalJSON marshals a Transition, leaving out its value if it is absent.
+func (t Transition) MarshalJSON() ([]byte, error) {
+	var content struct {
+		Value *value.Value    `json:"value,omitempty"`
+		Next  testlang.NodeID `json:"next,omitempty"`
+	}
+
+	content.Next = t.Next
+
+	if t.Value.IsPresent() {
+		content.Value = &t.Value
+	}
+
+	bs, err := json.Marshal(content)
+	if err != nil {
+		return nil, fmt.Errorf("couldn't marshal transition: %w", err)
+	}
+
+	return bs, nil
+}
+
 func (t Transition) String() string {
 	return fmt.Sprintf("-[%s]-> %s", &t.Value, t.Next)
 }
-- 
2.43.0


From 0eb6d46ed817138139e66a2a4b083b03c671c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 4/8] fix: reject suites with missing machines or states when
 reading

A suite such as {"tests": {"t": null}} was accepted, and the generator then
dereferenced a nil pointer.
---
 internal/stm/suite.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..9c4a4e6 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,9 +22,38 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	if err := suite.check(); err != nil {
+		return nil, fmt.Errorf("malformed state machine suite: %w", err)
+	}
+
 	return &suite, nil
 }
 
+// check makes sure that there are no missing machines or states in s.
+func (s *Suite) check() error {
+	for name, machine := range s.Tests {
+		if machine == nil {
+			return fmt.Errorf("%w: %s", ErrNoMachine, name)
+		}
+
+		for _, state := range machine.States {
+			if state == nil {
+				return fmt.Errorf("%w: %s", ErrNoState, name)
+			}
+		}
+	}
+
+	return nil
+}
+
+var (
+	// ErrNoMachine occurs when a suite being read has a test without a state machine.
+	ErrNoMachine = errors.New("test has no state machine")
+
+	// ErrNoState occurs when a suite being read has a state machine with a missing state.
+	ErrNoState = errors.New("state machine has a missing state")
+)
+
 // Write pretty-prints a state machine suite, as JSON, into writer w.
 func (s *Suite) Write(w io.Writer) error {
 	if err := serial.WriteJSON(w, s); err != nil {
-- 
2.43.0


From fe30356fd9c59ce328f48336c15a538360490d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 5/8] fix: refuse to collapse chains without exactly one
 passing node before the end

Collapse returned a trace for chains that no trace expands to: those with no
passing node, with several, or with inconclusive nodes after it.
---
 internal/trace/collapse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/trace/collapse.go b/internal/trace/collapse.go
index 9c3e568..363741e 100644
--- a/internal/trace/collapse.go
+++ b/internal/trace/collapse.go
@@ -21,6 +21,8 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 		return collapsed, fmt.Errorf("test does not start with a valid root: %w", err)
 	}
 
+	passed := false
+
 	for done, pos := false, 1; !done; pos++ {
 		if test, err = validate.OneNext(test); err != nil {
 			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
@@ -30,6 +32,13 @@ func Collapse(test *testlang.Node) (Forbidden, error) {
 			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
 		}
 
+		// The passing node must come directly before the failing node, and nowhere else.
+		if passed != (test.Outcome == testlang.OutcomeFail) {
+			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}
+		}
+
+		passed = test.Outcome == testlang.OutcomePass
+
 		if done, err = collapseNode(&collapsed, test, pos); err != nil {
 			return collapsed, err
 		}
-- 
2.43.0


From aab7f351fe57e2728932271e5dad98074c371778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 6/8] fix: generate code when no channel type is overridden

The conversion header is always written and always included, but its directory
was only created, and only put on the include path, if there was an override.
---
 internal/gen/cpp/cpp.go                             | 10 ++++++++++
 internal/gen/makefile/embed/templates/Makefile.tmpl |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..7c4600e 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -10,6 +11,10 @@ import (
 	"github.com/UoY-RoboStar/rtcg/internal/stm"
 )
 
+const (
+	convertDirPerms = 0o754 // convertDirPerms is the conversion directory permission mask.
+)
+
 // Generator is a C++ code generator.
 type Generator struct {
 	config    cfg.Config       // config is the configuration for this Generator.
@@ -95,6 +100,11 @@ func (o *OnSuite) Generate() error {
 }
 
 func (o *OnSuite) generateCommon() error {
+	// The conversion header is always generated, even if there is no user-supplied conversion code.
+	if err := os.MkdirAll(o.parent.srcDirSet.OutputPath(convertDir), convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make conversion directory: %w", err)
+	}
+
 	if err := o.copyConvertFile(); err != nil {
 		return err
 	}
diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..3d26c5c 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{- end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From ed4c2987426f1d8f667dfcca761c97ac25053ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 7/8] fix: refuse to generate tests whose names are not plain
 file names

A test with a name such as ../../x had its files written outside of the output
directory.
---
 internal/gen/gen.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..e7c1f5d 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -2,8 +2,10 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +125,20 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +150,20 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames makes sure that the name of each test can be used as the name of its directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if name == "." || name != filepath.Base(name) || !filepath.IsLocal(name) {
+			return fmt.Errorf("%w: %q", ErrBadTestName, name)
+		}
+	}
+
+	return nil
+}
+
+// ErrBadTestName occurs if the name of a test isn't a plain file name.
+var ErrBadTestName = errors.New("test name can't be used as a directory name")
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
-- 
2.43.0


From 763096ed49084b5f78b661fe5e6d2f2b0ee6930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 8/8] fix: never clean a directory containing the current
 directory

Only "." was refused; "..", "../..", "/" or an absolute path of the current
directory were removed.
---
 cmd/rtcg-gen/main.go | 45 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..b89bb32 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -86,8 +86,8 @@ func (a *genAction) maybeClean() error {
 		return nil
 	}
 
-	if a.outputDir == "." {
-		return ErrCleanDot
+	if err := a.checkClean(); err != nil {
+		return err
 	}
 
 	if err := os.RemoveAll(a.outputDir); err != nil {
@@ -97,10 +97,47 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
-// ErrCleanDot occurs if we try to clean "." (current directory).
+// checkClean makes sure that cleaning won't remove the current directory.
+func (a *genAction) checkClean() error {
+	cwd, err := os.Getwd()
+	if err != nil {
+		return fmt.Errorf("couldn't get current directory: %w", err)
+	}
+
+	// Either path might go through symbolic links, so compare the actual directories.
+	if cwd, err = filepath.EvalSymlinks(cwd); err != nil {
+		return fmt.Errorf("couldn't resolve current directory: %w", err)
+	}
+
+	target, err := os.Stat(a.outputDir)
+	if errors.Is(err, os.ErrNotExist) {
+		return nil
+	}
+
+	if err != nil {
+		return fmt.Errorf("couldn't inspect %q: %w", a.outputDir, err)
+	}
+
+	for dir := cwd; ; dir = filepath.Dir(dir) {
+		info, err := os.Stat(dir)
+		if err != nil {
+			return fmt.Errorf("couldn't inspect %q: %w", dir, err)
+		}
+
+		if os.SameFile(info, target) {
+			return ErrCleanDot
+		}
+
+		if dir == filepath.Dir(dir) {
+			return nil
+		}
+	}
+}
+
+// ErrCleanDot occurs if we try to clean "." (current directory), or a directory containing it.
 //
 // We don't support this because it would then change or confuse the current working directory.
-var ErrCleanDot = errors.New("can't clean current directory")
+var ErrCleanDot = errors.New("can't clean current directory, or a directory containing it")
 
 func (a *genAction) readSuite() (*stm.Suite, error) {
 	file, err := cli.OpenFileOrStdin(a.inputFile)
-- 
2.43.0

