From 7530fc0138e0aa867dadcc8fbb7d411d33a2b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/51] fix: skip-all requested by the callback ends the
 traversal without an error

---
 driver.go                          | 8 ++++++++
 internal/kernel/navigator-agent.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index d690cf3..7a4cf94 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
 	"github.com/snivilised/agenor/internal/third/bus"
+	"github.com/snivilised/agenor/stock"
 )
 
 const (
@@ -31,6 +32,13 @@ func (d *driver) Navigate(ctx context.Context) (core.TraverseResult, error) {
 	d.s.start()
 	result, err := d.s.exec(ctx)
 
+	// a skip is a request to the navigator, not a failure to be reported
+	// back to the client who made that request.
+	//
+	if stock.IsBenignError(err) {
+		err = nil
+	}
+
 	d.s.finish(result)
 
 	return result, err
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..5a200a8 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -191,7 +191,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 			case errors.Is(err, fs.SkipDir):
 				continue
 			case errors.Is(err, fs.SkipAll):
-				break
+				return continueTraversal, err
 			default:
 				return continueTraversal, err
 			}
-- 
2.43.0


From b83859417006ab501eff5289537bcd1db1cc9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/51] fix: skip-dir returned for a file only skips the rest
 of its directory

---
 internal/kernel/navigator-agent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 5a200a8..3975c25 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -178,7 +178,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					// processing of all of the parent node's remaining children.
 					// (see the ✨ below ...)
 					//
-					return skipTraversal, err
+					return continueTraversal, err
 				}
 
 				return continueTraversal, err
-- 
2.43.0


From 3b1feaf91943e903688fec8e1b23b247d60df154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 03/51] fix: the answer of the skip handler is honoured by
 every navigator

---
 internal/kernel/navigator-directories.go | 7 +++++++
 internal/kernel/navigator-files.go       | 5 +++++
 internal/kernel/navigator-universal.go   | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..0f27a24 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -2,6 +2,7 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -42,7 +43,13 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
+		if e == nil {
+			e = fs.SkipAll
+		}
+
 		return continueTraversal, e
+	} else if skip == enums.SkipDirTraversal {
+		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..e6e5ac8 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -2,6 +2,7 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -50,6 +51,10 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal || err != nil {
+		if e == nil && skip == enums.SkipAllTraversal {
+			e = fs.SkipAll
+		}
+
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return true, e
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..aa62d08 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -2,6 +2,7 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -42,6 +43,10 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
+		if e == nil {
+			e = fs.SkipAll
+		}
+
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
-- 
2.43.0


From a99c619e1ceafcce2c159ebc466588b2a022c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 04/51] fix: a panic raised by the callback for the top node is
 rescued

---
 internal/kernel/navigator-agent.go | 55 ++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 3975c25..b4f2d10 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -60,19 +60,60 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
-				servant{
-					node: core.Top(ns.tree, info),
-				},
-			)
-
-			return te
+			return n.launch(ctx, ns, servant{
+				node: core.Top(ns.tree, info),
+			})
 		},
 	)
 
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// launch visits the top node. A panic that occurs whilst visiting any other node
+// is recovered by travel, on behalf of the directory being travelled, but
+// there is no such directory for the top node.
+func (n *navigatorAgent) launch(ctx context.Context,
+	ns *navigationStatic,
+	top servant,
+) (err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			err = n.rescue(data, &navigationVapour{
+				ns:      ns,
+				present: top.node,
+			})
+		}
+	}()
+
+	_, err = ns.mediator.impl.Traverse(ctx, ns, top)
+
+	return err
+}
+
+// rescue hands over a panic to the panic handler and returns the error that
+// denotes the outcome.
+func (n *navigatorAgent) rescue(data any, vapour inspection) error {
+	static := vapour.static()
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data:     data,
+		anc:      static.mediator.tree,
+		vap:      vapour,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	})
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = errors.New("")
+	}
+
+	if rescueErr != nil {
+		return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+	}
+
+	return locale.NewTraversalSavedError(to, panicErr)
+}
+
 // Result is the single point at which a Result is constructed. Due to
 // the spawn resume strategy, a Result may occur more than once during
 // a navigation session. The session knows when completion occurs. Any
-- 
2.43.0


From bdc6ade5d6edf93a80d04fbcfd6d79e80d4ba764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 05/51] fix: a file node always has (empty) contents

---
 internal/kernel/navigator-files.go     | 1 +
 internal/kernel/navigator-universal.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index e6e5ac8..e5662b8 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -85,6 +85,7 @@ func (n *navigatorFiles) inspect(ns *navigationStatic,
 		vapour.Pick(enums.EntryTypeAll)
 	} else {
 		vapour.clear()
+		vapour.cargo = NewContents(n.ro.behaviour, n.ro.hooks.sort, nil)
 	}
 
 	extend(ns, vapour)
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index aa62d08..cd89a54 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -77,6 +77,7 @@ func (n *navigatorUniversal) inspect(ns *navigationStatic,
 		vapour.Pick(enums.EntryTypeAll)
 	} else {
 		vapour.clear()
+		vapour.cargo = NewContents(n.ro.behaviour, n.ro.hooks.sort, nil)
 	}
 
 	extend(ns, vapour)
-- 
2.43.0


From 857b7b470f471448e0cc050a0854a3bca1934602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 06/51] fix: sub-path of a tree whose path is not ASCII only

---
 pref/defaults.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..2196dd0 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -48,15 +48,14 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	})
 }
 
-// tail extracts the end part of a string, starting from the offset
+// tail extracts the end part of a string, starting from the offset (in bytes,
+// as denoted by len)
 func tail(input string, offset int) string {
-	asRunes := []rune(input)
-
-	if offset >= len(asRunes) {
+	if offset >= len(input) {
 		return ""
 	}
 
-	return string(asRunes[offset:])
+	return input[offset:]
 }
 
 // difference returns the difference between a child path and a parent path
-- 
2.43.0


From c505a74aeb8f91345c1239a350a6a7cd8a703d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 07/51] fix: a sampled directory which can't be read is
 reported

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From c909a54ee62ea48824ed0ef5e14eccbbfe57468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 08/51] fix: glob-ex filter matches file names without regard
 to case

---
 internal/filtering/glob-ex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..a39748b 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -192,6 +192,10 @@ func (s *patternSpec) match(name string) bool {
 }
 
 func (s globSpec) IsMatch(name string) bool { //nolint: gocritic
+	// the patterns have been converted to lower case, see newSpec
+	//
+	name = strings.ToLower(name)
+
 	for _, spec := range s.specs {
 		if spec.excluded(name) {
 			return false
-- 
2.43.0


From 3b581931a8cff79a7e80818e13d9d72f47319205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 09/51] fix: wake notification is un-muted with all the others

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From b14b3b45edfd7381599e30e7742550b0fc697ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 10/51] fix: fastward resume arrives at a path that is not
 itself presented

---
 internal/feat/resume/strategy-fastward.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..37fb66d 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -3,6 +3,8 @@ package resume
 import (
 	"context"
 	"fmt"
+	"path/filepath"
+	"strings"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -39,6 +41,18 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
+	// the current path may not be presented itself, because of the subscription
+	// or of a filter, in which case its contents denote that we have arrived
+	//
+	if node.Path == f.source ||
+		strings.HasPrefix(node.Path, f.source+string(filepath.Separator)) {
+		return true
+	}
+
+	if node.Parent == nil {
+		return false
+	}
+
 	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
 }
 
-- 
2.43.0


From 933d06053a9d3e05194ff114184c600a732e29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 11/51] fix: an incomplete resume file is rejected instead of
 dereferenced

---
 extent.go                     | 2 +-
 internal/persist/marshaler.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/extent.go b/extent.go
index 218a6bf..9aef320 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); handler != nil && err == nil {
 		handler.OnLoad(loaded.State)
 	}
 
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..753d770 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -2,6 +2,7 @@ package persist
 
 import (
 	ejson "encoding/json"
+	"fmt"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -92,6 +93,10 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, err
 	}
 
+	if mr.JO == nil || mr.Active == nil {
+		return nil, fmt.Errorf("incomplete resume state in %q", request.Restore.Path)
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 7ab91d728a89fe2698aacc498572211bfe6e7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 12/51] fix: the facade of a resume is validated

---
 scaffold.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..3893309 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -63,6 +63,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
-- 
2.43.0


From df6cf7ab13590a9d6b832f20aba140837beb5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 13/51] fix: metrics of a failed navigation can be queried

---
 internal/enclave/kernel-result.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index b6e2a98..28e9b10 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -23,7 +23,9 @@ func NewResult(session core.Session,
 }
 
 func NewFailed() *KernelResult {
-	return &KernelResult{}
+	return &KernelResult{
+		reporter: NewSupervisor(),
+	}
 }
 
 func (r *KernelResult) Merge(other core.Metrics) {
-- 
2.43.0


From 0e18f4130d685c27653dcd684fb6979c3202fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 14/51] fix: an unknown subscription is reported as an error

---
 internal/kernel/navigator-factory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/kernel/navigator-factory.go b/internal/kernel/navigator-factory.go
index 16d2c2a..4804d71 100644
--- a/internal/kernel/navigator-factory.go
+++ b/internal/kernel/navigator-factory.go
@@ -67,6 +67,12 @@ func newImpl(o *pref.Options,
 		impl = &navigatorUniversal{
 			navigatorAgent: agent,
 		}
+
+	default:
+		err = locale.ErrUsageMissingSubscription
+		impl = &navigatorUniversal{
+			navigatorAgent: agent,
+		}
 	}
 
 	return impl, err
-- 
2.43.0


From 3848c59acbffd3573b67a9d5839e39c4ca19e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 15/51] fix: navigations that start concurrently do not race
 for the broker

---
 driver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/driver.go b/driver.go
index 7a4cf94..05fddef 100644
--- a/driver.go
+++ b/driver.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
@@ -17,7 +18,14 @@ type driver struct {
 	s session
 }
 
+// registration protects the broker, which is shared by all navigations, from
+// those that start at the same time.
+var registration sync.Mutex
+
 func (d *driver) init() {
+	registration.Lock()
+	defer registration.Unlock()
+
 	services.Broker.RegisterHandler(badge, bus.Handler{
 		Handle: func(_ context.Context, m bus.Message) {
 			_ = m.Data
-- 
2.43.0


From 34903d32560932fc74897bef2010e03b515613fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 16/51] fix: a poly filter is built from its own definition

---
 internal/filtering/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..ed2d5e3 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -63,7 +63,11 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
 
 	// enforce the correct filter scopes
 	//
-- 
2.43.0


From 702093f0dc382c7369b01a10b516607571980335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 17/51] fix: custom node filter no longer replaces wake and
 sleep conditions

---
 internal/feat/hiber/hibernate-defs.go           | 11 +++++++++++
 internal/feat/hiber/hibernate-simple-profile.go |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/feat/hiber/hibernate-defs.go b/internal/feat/hiber/hibernate-defs.go
index b9c34d3..28793a5 100644
--- a/internal/feat/hiber/hibernate-defs.go
+++ b/internal/feat/hiber/hibernate-defs.go
@@ -65,3 +65,14 @@ func launch(ho *core.HibernateOptions) enums.Hibernation {
 
 	return enums.HibernationActive
 }
+
+// triggerOptions: a trigger is defined by its own definition; the custom
+// filter of the client only stands in for a trigger that asks for it, otherwise
+// it would replace every wake and sleep condition.
+func (c *common) triggerOptions(definition *core.FilterDef) *pref.FilterOptions {
+	if definition.Type == enums.FilterTypeCustom {
+		return c.fo
+	}
+
+	return &pref.FilterOptions{}
+}
diff --git a/internal/feat/hiber/hibernate-simple-profile.go b/internal/feat/hiber/hibernate-simple-profile.go
index cdd801e..3791b6a 100644
--- a/internal/feat/hiber/hibernate-simple-profile.go
+++ b/internal/feat/hiber/hibernate-simple-profile.go
@@ -23,7 +23,7 @@ func (p *simple) init(controls *life.Controls) error {
 	p.controls = controls
 
 	if p.common.ho.WakeAt != nil {
-		filter, err := filtering.New(p.common.ho.WakeAt, p.common.fo)
+		filter, err := filtering.New(p.common.ho.WakeAt, p.common.triggerOptions(p.common.ho.WakeAt))
 		if err != nil {
 			return err
 		}
@@ -40,7 +40,7 @@ func (p *simple) init(controls *life.Controls) error {
 	}
 
 	if p.common.ho.SleepAt != nil {
-		filter, err := filtering.New(p.common.ho.SleepAt, p.common.fo)
+		filter, err := filtering.New(p.common.ho.SleepAt, p.common.triggerOptions(p.common.ho.SleepAt))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 92cfb7521ba155e4fd6f55c0850e0777e2206666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 18/51] fix: spawn resume on an absolute file system climbs up
 to the tree

---
 internal/feat/resume/strategy-spawn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..eb152bd 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -70,7 +70,10 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
+	// not Split; for an absolute path this leaves a separator at the end of the
+	// parent, in which case we would never climb beyond it.
+	//
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
 	following, err := s.following(parent,
 		child,
 		conc.inclusive,
-- 
2.43.0


From b236ccff09b548932e139031b3a153864a2af9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 19/51] fix: spawn resume continues with what follows in
 visiting order

---
 internal/feat/resume/strategy-spawn.go | 41 ++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index eb152bd..ca0cd13 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -3,6 +3,7 @@ package resume
 import (
 	"context"
 	"io/fs"
+	"slices"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -125,6 +126,27 @@ func (s *spawnStrategy) following(parent, anchor string,
 		return nil, err
 	}
 
+	entries = s.arrange(entries)
+
+	// what follows is determined by the order in which entries are visited and
+	// not by a comparison of their names
+	//
+	if at := slices.IndexFunc(entries, func(entry fs.DirEntry) bool {
+		return entry.Name() == anchor
+	}); at >= 0 {
+		if !inclusive {
+			at++
+		}
+
+		return &shard{
+			siblings: kernel.NewContents(
+				&s.o.Behaviours.Sort,
+				s.o.Hooks.Sort,
+				entries[at:],
+			),
+		}, nil
+	}
+
 	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
 		if inclusive {
 			return entry.Name() >= anchor
@@ -141,3 +163,22 @@ func (s *spawnStrategy) following(parent, anchor string,
 		),
 	}, nil
 }
+
+// arrange puts the entries of a directory into the order in which they are
+// visited, without those that the subscription doesn't navigate.
+func (s *spawnStrategy) arrange(entries []fs.DirEntry) []fs.DirEntry {
+	contents := kernel.NewContents(
+		&s.o.Behaviours.Sort,
+		s.o.Hooks.Sort,
+		entries,
+	)
+	contents.Sort(enums.EntryTypeAll)
+
+	switch s.active.Subscription {
+	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
+		return contents.Directories()
+	case enums.SubscribeUndefined, enums.SubscribeFiles, enums.SubscribeUniversal:
+	}
+
+	return contents.All()
+}
-- 
2.43.0


From 50f86125e4c4702aa713f16eac618f9f097cc1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 20/51] fix: spawn resume at the tree itself visits the tree

---
 internal/feat/resume/strategy-spawn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index ca0cd13..5880ff1 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -34,6 +34,15 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	// between the previous navigation session and this resume session.
 	s.mediator.Bridge(s.active)
 
+	// when the tree itself is where navigation stopped, there are no siblings
+	// to continue with, rather the whole tree still has to be visited
+	//
+	if s.active.CurrentPath == s.active.Tree {
+		s.complete = true
+
+		return s.mediator.Spawn(ctx, s.active.Tree)
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
-- 
2.43.0


From d4c7167d037443f6cdb35cd72093d4f17e69c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 21/51] fix: skip-dir requested during a spawn resume does not
 end it

---
 internal/feat/resume/strategy-spawn.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 5880ff1..f6cb6a1 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,6 +2,7 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
 	"slices"
 
@@ -118,6 +119,18 @@ func (s *spawnStrategy) seed(ctx context.Context,
 		top := s.calc.Join(parent, entry.Name())
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
+		if errors.Is(err, fs.SkipDir) {
+			// the same as what travel does for a child that is not spawned; a skip
+			// requested for a file abandons its remaining siblings, all others just
+			// relate to the entry itself.
+			//
+			if !entry.IsDir() && s.active.Subscription == enums.SubscribeFiles {
+				return result, nil
+			}
+
+			continue
+		}
+
 		if err != nil {
 			return intermediate, err
 		}
-- 
2.43.0


From 3a49412c10dd7e824f0366d3faa73ea88445c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 22/51] fix: depth of spawned nodes is relative to the original
 tree

---
 internal/kernel/mediator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..25d6593 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -3,6 +3,8 @@ package kernel
 import (
 	"context"
 	"io/fs"
+	"path/filepath"
+	"strings"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -90,6 +92,10 @@ func (m *mediator) Read(path string) ([]fs.DirEntry, error) {
 func (m *mediator) Spawn(ctx context.Context,
 	tree string,
 ) (*enclave.KernelResult, error) {
+	// the depth of what is spawned is relative to the original tree
+	//
+	m.periscope.Offset(m.depth(tree) - m.periscope.Depth() - 1)
+
 	return m.impl.Top(ctx, &navigationStatic{
 		mediator:     m,
 		tree:         tree,
@@ -99,6 +105,18 @@ func (m *mediator) Spawn(ctx context.Context,
 	})
 }
 
+// depth of a path within the tree; the depth of the tree itself is 0
+func (m *mediator) depth(path string) int {
+	separator := string(filepath.Separator)
+	rest := strings.Trim(strings.TrimPrefix(path, m.tree), separator)
+
+	if rest == "" {
+		return 0
+	}
+
+	return strings.Count(rest, separator) + 1
+}
+
 // Bridge combines information gleaned from the previous traversal that was
 // interrupted, into the resume traversal
 func (m *mediator) Bridge(active *core.ActiveState) {
-- 
2.43.0


From 5abfff59a68d264ed8fdd940ce8041ead069e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 23/51] fix: sub path of spawned nodes is relative to the
 original tree

---
 internal/kernel/extend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/kernel/extend.go b/internal/kernel/extend.go
index 9de85a9..4fd1113 100644
--- a/internal/kernel/extend.go
+++ b/internal/kernel/extend.go
@@ -38,7 +38,7 @@ func extend(ns *navigationStatic, vapour inspection) {
 	keepTrailingSep := ns.mediator.o.Behaviours.SubPath.KeepTrailingSep
 
 	spInfo := &core.SubPathInfo{
-		Tree:            ns.tree,
+		Tree:            ns.mediator.tree,
 		Node:            current,
 		KeepTrailingSep: keepTrailingSep,
 	}
-- 
2.43.0


From f22fbf2ba6628c28cf2046b43f9d183bd04121db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 24/51] fix: spawned nodes have a parent

---
 internal/kernel/navigator-agent.go | 45 +++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index b4f2d10..00be6e3 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -7,7 +7,9 @@ import (
 	"path/filepath"
 
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
+	"github.com/snivilised/agenor/internal/level"
 	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/locale"
 	"github.com/snivilised/agenor/pref"
@@ -61,7 +63,7 @@ func (n *navigatorAgent) top(ctx context.Context,
 		},
 		func() error {
 			return n.launch(ctx, ns, servant{
-				node: core.Top(ns.tree, info),
+				node: n.present(ns, ns.tree, info),
 			})
 		},
 	)
@@ -69,6 +71,47 @@ func (n *navigatorAgent) top(ctx context.Context,
 	return ns.mediator.impl.Result(ctx), err
 }
 
+// present creates the node for the top of a navigation. When this is not the
+// tree requested by the client, because it's been spawned by a resume, the node
+// does have a parent.
+func (n *navigatorAgent) present(ns *navigationStatic,
+	path string, info fs.FileInfo,
+) *core.Node {
+	if info == nil || ns.mediator.depth(path) == 0 || filepath.Dir(path) == path {
+		return core.Top(path, info)
+	}
+
+	return core.New(path, fs.FileInfoToDirEntry(info), info,
+		n.ancestor(ns, filepath.Dir(path)), nil,
+	)
+}
+
+// ancestor creates the node for a directory whose contents are being spawned.
+// It is not a leaf, since it is on the path to where navigation was halted.
+func (n *navigatorAgent) ancestor(ns *navigationStatic, path string) *core.Node {
+	info, err := n.ao.hooks.QueryStatus.Invoke()(
+		ns.mediator.resources.Forest.T, path,
+	)
+
+	if err != nil {
+		return nil
+	}
+
+	depth := ns.mediator.depth(path)
+	node := n.present(ns, path, info)
+	parent, name := filepath.Split(path)
+	scope := level.New()
+	scope.Offset(depth + 1)
+	node.Extension = core.Extension{
+		Depth:  depth,
+		Name:   name,
+		Parent: parent,
+		Scope:  scope.Scope(false) | enums.ScopeDirectory,
+	}
+
+	return node
+}
+
 // launch visits the top node. A panic that occurs whilst visiting any other node
 // is recovered by travel, on behalf of the directory being travelled, but
 // there is no such directory for the top node.
-- 
2.43.0


From b9bcef05d1bb438dc438caca0f8e0f6d48e11557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 25/51] fix: spawn resume at a path outside of the tree is an
 error

---
 internal/feat/resume/strategy-spawn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index f6cb6a1..bb875c8 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -4,7 +4,9 @@ import (
 	"context"
 	"errors"
 	"io/fs"
+	"path/filepath"
 	"slices"
+	"strings"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -44,6 +46,14 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		return s.mediator.Spawn(ctx, s.active.Tree)
 	}
 
+	// climbing up from elsewhere never gets to the tree
+	//
+	if !strings.HasPrefix(s.active.CurrentPath,
+		strings.TrimSuffix(s.active.Tree, string(filepath.Separator))+string(filepath.Separator),
+	) {
+		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
+	}
+
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
 		tree:      s.active.Tree,
-- 
2.43.0


From 81745c9874945434794d414c623078ef6b4489fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 26/51] fix: depth saved when the top node panics

---
 internal/kernel/navigator-agent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 00be6e3..c40050c 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -121,6 +121,11 @@ func (n *navigatorAgent) launch(ctx context.Context,
 ) (err error) {
 	defer func() {
 		if data := recover(); data != nil {
+			// the top node has already been ascended from, but its depth is saved
+			//
+			ns.mediator.periscope.Offset(1)
+			defer ns.mediator.periscope.Offset(-1)
+
 			err = n.rescue(data, &navigationVapour{
 				ns:      ns,
 				present: top.node,
-- 
2.43.0


From 33796b1eb9e28a5184e6a2524464a5a153cfe0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 27/51] fix: merge includes metrics only present in the other

---
 core/metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/metrics.go b/core/metrics.go
index 67a0052..92cc412 100644
--- a/core/metrics.go
+++ b/core/metrics.go
@@ -58,6 +58,14 @@ func (m *NavigationMetric) Times(increment uint) MetricValue {
 }
 
 func (m Metrics) Merge(other Metrics) {
+	for mt := range other {
+		if _, found := m[mt]; !found {
+			m[mt] = &NavigationMetric{
+				T: mt,
+			}
+		}
+	}
+
 	for mt := range maps.Keys(m) {
 		if om, foundOther := other[mt]; foundOther {
 			if metric, found := m[mt]; found {
-- 
2.43.0


From 68b44f14423fe3621bddabffc1242afeafd612cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 28/51] fix: a concurrent navigation ends when its context is
 cancelled

---
 synchronise.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..331cd00 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -69,9 +69,16 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
-
-			return nil
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			//
+			select {
+			case c.inputCh <- input:
+				return nil
+			case <-ctx.Done():
+				// the pool no longer reads its input once the context is done
+				//
+				return ctx.Err()
+			}
 		})
 	}
 
-- 
2.43.0


From d3c733496d81ef5f17d8923a0bd69fdbad7bd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 29/51] fix: jobs queued by a concurrent navigation are not
 lost when it returns

---
 synchronise.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/synchronise.go b/synchronise.go
index 331cd00..18f0dde 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,13 +48,51 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	jobs    tally
+}
+
+// tally keeps count of the jobs that have been submitted to the pool, but
+// which have not completed yet.
+type tally struct {
+	mx      sync.Mutex
+	pending int
+	sealed  bool
+	done    chan struct{}
+}
+
+func (t *tally) add(delta int) {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	t.pending += delta
+	t.check()
+}
+
+// seal denotes that there are no more jobs to come; returns the channel that is
+// closed when all of them have completed.
+func (t *tally) seal() <-chan struct{} {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	t.done = make(chan struct{})
+	t.sealed = true
+	t.check()
+
+	return t.done
+}
+
+func (t *tally) check() {
+	if t.sealed && t.pending == 0 {
+		close(t.done)
+		t.sealed = false
+	}
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
 	defer func() {
 		c.close()
 		if c.pool != nil {
-			c.pool.Release(ctx)
+			c.release(ctx)
 		}
 	}()
 
@@ -71,12 +110,16 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 
 			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
 			//
+			c.jobs.add(1)
+
 			select {
 			case c.inputCh <- input:
 				return nil
 			case <-ctx.Done():
 				// the pool no longer reads its input once the context is done
 				//
+				c.jobs.add(-1)
+
 				return ctx.Err()
 			}
 		})
@@ -84,6 +127,8 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.jobs.add(-1)
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -119,6 +164,26 @@ func (c *concurrent) open(ctx context.Context) {
 	c.inputCh = c.pool.Source(ctx, c.wg)
 }
 
+// release the pool, but not until the jobs that have been submitted to it have
+// completed, because a pool that's been released rejects those still queued. This
+// doesn't hold up the navigator, but the client's wait group.
+func (c *concurrent) release(ctx context.Context) {
+	completed := c.jobs.seal()
+
+	c.wg.Add(1)
+
+	go func(pool *core.TraversePool) {
+		defer c.wg.Done()
+
+		select {
+		case <-completed:
+		case <-ctx.Done():
+		}
+
+		pool.Release(ctx)
+	}(c.pool)
+}
+
 func (c *concurrent) close() {
 	if c.inputCh != nil {
 		close(c.inputCh)
-- 
2.43.0


From bf7741d9adbcb8cb7b33285af22cae31bdca9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 30/51] fix: a resume state with an empty metric is rejected
 instead of crashing

---
 internal/persist/marshaler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 753d770..542eaaa 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -97,6 +97,12 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, fmt.Errorf("incomplete resume state in %q", request.Restore.Path)
 	}
 
+	for _, metric := range mr.Active.Metrics {
+		if metric == nil {
+			return nil, fmt.Errorf("incomplete metrics in resume state in %q", request.Restore.Path)
+		}
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 061bc132ef7dd58ad2c89cb5dd3720212e5eb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 31/51] fix: a filter definition no filter can be made of is
 rejected instead of crashing

---
 internal/filtering/builders.go   |  7 +++++++
 internal/filtering/child.go      | 10 ++++++----
 internal/filtering/new-filter.go |  9 ++++++++-
 internal/filtering/sample.go     | 10 ++++++----
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index ed2d5e3..fcea88d 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -32,6 +32,9 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
 	if err != nil {
@@ -123,6 +126,10 @@ func buildConstituent(definition *core.FilterDef,
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
+
 	if err := filter.Validate(); err != nil {
 		return nil, err
 	}
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..7f7ffb0 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -43,10 +43,12 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 	case enums.FilterTypePoly:
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if filter == nil {
+		return nil, locale.ErrFilterUndefined
+	}
+
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
diff --git a/internal/filtering/new-filter.go b/internal/filtering/new-filter.go
index 43082e5..1d20d55 100644
--- a/internal/filtering/new-filter.go
+++ b/internal/filtering/new-filter.go
@@ -2,13 +2,14 @@ package filtering
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/locale"
 	"github.com/snivilised/agenor/pref"
 )
 
 func New(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
-	return OrFuncE(
+	filter, err := OrFuncE(
 		func() (core.TraverseFilter, error) {
 			return buildPolyNodeFilter(definition, fo, buildNativeNodeFilter, getCustomFilter)
 		},
@@ -19,4 +20,10 @@ func New(definition *core.FilterDef,
 			return buildNativeNodeFilter(definition)
 		},
 	)
+
+	if err == nil && filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
+	return filter, err
 }
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..d61210a 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -70,10 +70,12 @@ func NewSample(def *core.SampleFilterDef,
 		return nil, locale.ErrFilterMissingType
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if filter == nil {
+		return nil, locale.ErrFilterUndefined
+	}
+
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
-- 
2.43.0


From da5d43d2973d3be781606bb05cfb84dc8a15b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 32/51] fix: the wait group of a cancelled concurrent
 navigation doesn't wait forever for a worker

---
 synchronise.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 18f0dde..54e8481 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -166,7 +166,9 @@ func (c *concurrent) open(ctx context.Context) {
 
 // release the pool, but not until the jobs that have been submitted to it have
 // completed, because a pool that's been released rejects those still queued. This
-// doesn't hold up the navigator, but the client's wait group.
+// doesn't hold up the navigator, but the client's wait group. The pool needs to be
+// able to dismiss its idle workers even if the context is done, otherwise a job
+// waiting for one waits forever.
 func (c *concurrent) release(ctx context.Context) {
 	completed := c.jobs.seal()
 
@@ -180,7 +182,7 @@ func (c *concurrent) release(ctx context.Context) {
 		case <-ctx.Done():
 		}
 
-		pool.Release(ctx)
+		pool.Release(context.WithoutCancel(ctx))
 	}(c.pool)
 }
 
-- 
2.43.0


From 0e9f6bee5b8a9a56002036401d7d0969b74a1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 33/51] fix: no callback runs once the wait group of a
 cancelled concurrent navigation is done

---
 synchronise.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 4 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 54e8481..6e8cd55 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -56,8 +56,52 @@ type concurrent struct {
 type tally struct {
 	mx      sync.Mutex
 	pending int
+	running int
 	sealed  bool
 	done    chan struct{}
+	idle    chan struct{} // non-nil once halted
+}
+
+// start denotes that a job is about to be run; false if it must not, because
+// the jobs have been halted.
+func (t *tally) start() bool {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	if t.idle != nil {
+		return false
+	}
+
+	t.running++
+
+	return true
+}
+
+// finish is the counterpart of a successful start
+func (t *tally) finish() {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	t.running--
+
+	if t.idle != nil && t.running == 0 {
+		close(t.idle)
+	}
+}
+
+// halt denotes that no more jobs are to be started; returns the channel that is
+// closed when those that are running have finished.
+func (t *tally) halt() <-chan struct{} {
+	t.mx.Lock()
+	defer t.mx.Unlock()
+
+	t.idle = make(chan struct{})
+
+	if t.running == 0 {
+		close(t.idle)
+	}
+
+	return t.idle
 }
 
 func (t *tally) add(delta int) {
@@ -129,6 +173,16 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
 			defer c.jobs.add(-1)
 
+			if !c.jobs.start() {
+				err := ctx.Err()
+
+				return &core.TraverseOutput{
+					Servant: input.Servant,
+					Error:   err,
+				}, err
+			}
+			defer c.jobs.finish()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -165,10 +219,11 @@ func (c *concurrent) open(ctx context.Context) {
 }
 
 // release the pool, but not until the jobs that have been submitted to it have
-// completed, because a pool that's been released rejects those still queued. This
-// doesn't hold up the navigator, but the client's wait group. The pool needs to be
-// able to dismiss its idle workers even if the context is done, otherwise a job
-// waiting for one waits forever.
+// completed, because a pool that's been released rejects those still queued. When
+// the context is done, those that have not been started are abandoned, but those
+// that are running are still waited for. This doesn't hold up the navigator, but
+// the client's wait group. The pool needs to be able to dismiss its idle workers
+// even if the context is done, otherwise a job waiting for one waits forever.
 func (c *concurrent) release(ctx context.Context) {
 	completed := c.jobs.seal()
 
@@ -180,6 +235,7 @@ func (c *concurrent) release(ctx context.Context) {
 		select {
 		case <-completed:
 		case <-ctx.Done():
+			<-c.jobs.halt()
 		}
 
 		pool.Release(context.WithoutCancel(ctx))
-- 
2.43.0


From b46e69ac4c5e675e92e2b379c41c105b7cedba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 34/51] fix: report a missing forest or file system instead of
 a nil dereference

---
 scaffold.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaffold.go b/scaffold.go
index 3893309..82bc32c 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,10 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil && (ext.trees == nil || ext.trees.T == nil) {
+		err = core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
@@ -201,11 +205,11 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 	// that matches the loaded active state from the previous session.
 	//
 
-	if forest.T.IsRelative() != active.TraverseDescription.IsRelative {
+	if forest.T != nil && forest.T.IsRelative() != active.TraverseDescription.IsRelative {
 		forest.T = nil
 	}
 
-	if forest.R.IsRelative() != active.ResumeDescription.IsRelative {
+	if forest.R != nil && forest.R.IsRelative() != active.ResumeDescription.IsRelative {
 		forest.R = nil
 	}
 
-- 
2.43.0


From 7805d095e6a5bc5ac83084e0a5a58abdd0fb81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 35/51] fix: refuse a resume strategy that is not known

---
 pref/facade.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pref/facade.go b/pref/facade.go
index b29aba2..fb176fc 100644
--- a/pref/facade.go
+++ b/pref/facade.go
@@ -141,7 +141,11 @@ func (f *Relic) Validate() error {
 		return locale.ErrUsageMissingRestorePath
 	}
 
-	if f.Strategy == enums.ResumeStrategyUndefined {
+	switch f.Strategy {
+	case enums.ResumeStrategyFastward, enums.ResumeStrategySpawn:
+	case enums.ResumeStrategyUndefined:
+		fallthrough
+	default:
 		return locale.ErrUsageMissingSubscription // TODO: THIS IS WRONG ERROR
 	}
 
-- 
2.43.0


From 0045bdbbc018ed5ad0cffbc4423a2f467a31b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 36/51] fix: provide the session in the result of a navigation
 that failed to start

---
 internal/enclave/kernel-result.go  |  3 ++-
 internal/kernel/navigator-hades.go | 10 ++++++----
 synchronise.go                     |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index 28e9b10..31d5c6c 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -22,8 +22,9 @@ func NewResult(session core.Session,
 	}
 }
 
-func NewFailed() *KernelResult {
+func NewFailed(session core.Session) *KernelResult {
 	return &KernelResult{
+		session:  session,
 		reporter: NewSupervisor(),
 	}
 }
diff --git a/internal/kernel/navigator-hades.go b/internal/kernel/navigator-hades.go
index 1687da7..fa52d8b 100644
--- a/internal/kernel/navigator-hades.go
+++ b/internal/kernel/navigator-hades.go
@@ -16,14 +16,16 @@ func HadesNav(o *pref.Options, err error) enclave.KernelController {
 }
 
 type navigatorHades struct {
-	o   *pref.Options
-	err error
+	o       *pref.Options
+	err     error
+	session core.Session
 }
 
 func (n *navigatorHades) Rank() {
 }
 
-func (n *navigatorHades) Ignite(*enclave.Ignition) {
+func (n *navigatorHades) Ignite(ignition *enclave.Ignition) {
+	n.session = ignition.Session
 }
 
 func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -31,7 +33,7 @@ func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, e
 }
 
 func (n *navigatorHades) Result(_ context.Context) *enclave.KernelResult {
-	return enclave.NewFailed()
+	return enclave.NewFailed(n.session)
 }
 
 func (n *navigatorHades) Snooze(context.Context,
diff --git a/synchronise.go b/synchronise.go
index 6e8cd55..0ecd76d 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -31,7 +31,7 @@ func (t *trunk) extent() extent {
 }
 
 func (t *trunk) IsComplete() bool {
-	return t.ext.complete()
+	return t.err == nil && t.ext.complete()
 }
 
 func (t *trunk) Ignite(ignition *enclave.Ignition) {
-- 
2.43.0


From c66d6d7b5b4edd19f3242876574efaa42b1fe6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 37/51] fix: refuse a glob filter whose pattern is malformed

---
 internal/filtering/glob.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/internal/filtering/glob.go b/internal/filtering/glob.go
index f0d8be9..2e5b229 100644
--- a/internal/filtering/glob.go
+++ b/internal/filtering/glob.go
@@ -2,6 +2,7 @@ package filtering
 
 import (
 	"io/fs"
+	"path"
 	"path/filepath"
 
 	"github.com/snivilised/agenor/core"
@@ -22,11 +23,29 @@ func createGlobFilter(def *core.FilterDef,
 	}
 }
 
+// validateGlob checks the syntax of the pattern, which does not depend on what
+// it is matched against; unlike its counterpart in filepath, this Match checks
+// all of the pattern, even if only the first part of it is required to decide.
+func validateGlob(pattern string) error {
+	_, err := path.Match(pattern, "")
+
+	return err
+}
+
 // Glob wildcard filter.
 type Glob struct {
 	Base
 }
 
+// Validate ensures the filter definition is valid
+func (f *Glob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validateGlob(f.pattern)
+}
+
 // IsMatch does this node match the filter
 func (f *Glob) IsMatch(node *core.Node) bool {
 	if f.IsApplicable(node) {
@@ -43,6 +62,11 @@ type ChildGlob struct {
 	Child
 }
 
+// Validate ensures the filter definition is valid
+func (f *ChildGlob) Validate() error {
+	return validateGlob(f.Pattern)
+}
+
 // Matching returns the collection of files contained within this
 // node's directory that matches this filter.
 func (f *ChildGlob) Matching(children []fs.DirEntry) []fs.DirEntry {
@@ -66,6 +90,15 @@ type SampleGlob struct {
 	Sample
 }
 
+// Validate ensures the filter definition is valid
+func (f *SampleGlob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validateGlob(f.pattern)
+}
+
 func (f *SampleGlob) Matching(entries []fs.DirEntry) []fs.DirEntry {
 	filterable, bypass := f.fetch(entries)
 
-- 
2.43.0


From d79a03d6cf4e42a93ad89d5c92481e34bccc01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 38/51] fix: keep subscribed life cycle handlers when options
 are reused

---
 life/events.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/life/events.go b/life/events.go
index 13364cb..2bc573e 100644
--- a/life/events.go
+++ b/life/events.go
@@ -1,6 +1,8 @@
 package life
 
 import (
+	"slices"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/tapable"
 )
@@ -82,14 +84,26 @@ func (c *Controls) UnmuteAll() {
 }
 
 // Bind attaches the underlying notification controllers to the
-// Events.
+// Events. Handlers that are already subscribed to the Events (they have been
+// bound before, because the options are being reused), remain subscribed.
 func (e *Events) Bind(cs *Controls) {
-	e.Ascend = &cs.Ascend
-	e.Begin = &cs.Begin
-	e.Descend = &cs.Descend
-	e.End = &cs.End
-	e.Wake = &cs.Wake
-	e.Sleep = &cs.Sleep
+	e.Ascend = inherit(&cs.Ascend, e.Ascend)
+	e.Begin = inherit(&cs.Begin, e.Begin)
+	e.Descend = inherit(&cs.Descend, e.Descend)
+	e.End = inherit(&cs.End, e.End)
+	e.Wake = inherit(&cs.Wake, e.Wake)
+	e.Sleep = inherit(&cs.Sleep, e.Sleep)
+}
+
+// inherit carries over the subscriptions of an event to its new controller.
+func inherit[F any](ctrl *NotificationCtrl[F], event Event[F]) *NotificationCtrl[F] {
+	if bound, ok := event.(*NotificationCtrl[F]); ok && bound != nil {
+		ctrl.dispatcher.Invoke = bound.dispatcher.Invoke
+		ctrl.subscribed = bound.subscribed
+		ctrl.listeners = slices.Clone(bound.listeners)
+	}
+
+	return ctrl
 }
 
 // On subscribes to a life cycle event
-- 
2.43.0


From cbcf72a62392284cd945be3f7a0ed72fb31d1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 39/51] fix: leave the client's filter definitions as they are

---
 internal/filtering/builders.go | 21 ++++++++++++---------
 internal/filtering/glob-ex.go  |  4 ++--
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index fcea88d..b1b3b33 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -72,29 +72,32 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
-	// enforce the correct filter scopes
+	// enforce the correct filter scopes; the definitions belong to the client,
+	// so this is done to copies of them.
 	//
-	polyDef.File.Scope.Set(enums.ScopeFile)
-	polyDef.File.Scope.Clear(enums.ScopeDirectory)
+	fileDef, directoryDef := polyDef.File, polyDef.Directory
 
-	polyDef.Directory.Scope.Set(enums.ScopeDirectory)
-	polyDef.Directory.Scope.Clear(enums.ScopeFile)
+	fileDef.Scope.Set(enums.ScopeFile)
+	fileDef.Scope.Clear(enums.ScopeDirectory)
 
-	if polyDef.File.Type == enums.FilterTypePoly {
+	directoryDef.Scope.Set(enums.ScopeDirectory)
+	directoryDef.Scope.Clear(enums.ScopeFile)
+
+	if fileDef.Type == enums.FilterTypePoly {
 		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
-	file, err := buildConstituent(&polyDef.File, fo, nativeFn, customFn)
+	file, err := buildConstituent(&fileDef, fo, nativeFn, customFn)
 
 	if err != nil {
 		return nil, err
 	}
 
-	if polyDef.Directory.Type == enums.FilterTypePoly {
+	if directoryDef.Type == enums.FilterTypePoly {
 		return nil, locale.ErrPolyFilterIsInvalid
 	}
 
-	directory, err := buildConstituent(&polyDef.Directory, fo, nativeFn, customFn)
+	directory, err := buildConstituent(&directoryDef, fo, nativeFn, customFn)
 
 	if err != nil {
 		return nil, err
diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index a39748b..754c99c 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -30,7 +30,7 @@ func createGlobExFilter(def *core.FilterDef,
 
 	// we ignore the scope on the filter because use of this type
 	// of filter implies the correct scope, ie file scope.
-	def.Scope = enums.ScopeFile
+	const scope = enums.ScopeFile
 
 	directoryBase, directoryExclusion := splitGlob(segments[0])
 
@@ -38,7 +38,7 @@ func createGlobExFilter(def *core.FilterDef,
 	filter = &GlobEx{
 		Base: Base{
 			name:            def.Description,
-			scope:           def.Scope,
+			scope:           scope,
 			pattern:         def.Pattern,
 			negate:          def.Negate,
 			ifNotApplicable: ifNotApplicable,
-- 
2.43.0


From de5143cf31d6a548d47ead15c68c1da67876f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 40/51] fix: hand the sample filter to the client's sink

---
 internal/feat/filter/scheme-sampler.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index 37570f1..b3d5307 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -8,6 +8,7 @@ import (
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
 	"github.com/snivilised/agenor/internal/third/lo"
+	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -35,7 +36,17 @@ func (s *samplerScheme) create() error {
 		},
 	)
 
-	return filter.Validate()
+	if err := filter.Validate(); err != nil {
+		return err
+	}
+
+	if s.o.Filter.Sink != nil {
+		s.o.Filter.Sink(pref.FilterReply{
+			Sampler: s.filter,
+		})
+	}
+
+	return nil
 }
 
 func (s *samplerScheme) next(servant core.Servant,
-- 
2.43.0


From 9c51b36a84991423507adbca184d6ad2cc58970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 41/51] fix: stop the clock of a session that has finished

---
 session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session.go b/session.go
index a77f608..0c276df 100644
--- a/session.go
+++ b/session.go
@@ -11,11 +11,13 @@ type session struct {
 	sync     synchroniser
 	started  time.Time
 	duration time.Duration
+	finished bool
 	plugins  []enclave.Plugin
 }
 
 func (s *session) start() {
 	s.started = time.Now()
+	s.finished = false
 	s.sync.Ignite(&enclave.Ignition{
 		Session: s,
 	})
@@ -23,6 +25,7 @@ func (s *session) start() {
 
 func (s *session) finish(result *enclave.KernelResult) {
 	s.duration = time.Since(s.started)
+	s.finished = true
 	s.sync.Bye(result)
 }
 
@@ -35,6 +38,10 @@ func (s *session) StartedAt() time.Time {
 }
 
 func (s *session) Elapsed() time.Duration {
+	if s.finished {
+		return s.duration
+	}
+
 	return time.Since(s.started)
 }
 
-- 
2.43.0


From 1298df0c4c96f4286f830e197f3b5379be73c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:02 +0000
Subject: [PATCH 42/51] fix: tell where a traversal has been saved

---
 locale/messages-errors.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..8d31e03 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,13 +722,14 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Destination string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-saved.age.dynamic-error",
 		Description: "traversal saved due to panic (dynamic error)",
-		Other:       "traversal saved: {{.Field}}",
+		Other:       "traversal saved: {{.Destination}}",
 	}
 }
 
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Destination: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -765,7 +768,7 @@ func (td TraversalNotSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-not-saved.age.dynamic-error",
 		Description: "panic induced traversal not saved (dynamic error)",
-		Other:       "field: {{.Reason}}",
+		Other:       "traversal not saved",
 	}
 }
 
-- 
2.43.0


From 42f25560aba62e2bf628c94f7f57c0d68b00f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:26 +0000
Subject: [PATCH 43/51] fix: an invalid poly filter is reported as such

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index 8d31e03..9062ec2 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From 974fb9eac395d41c573614b378e185e333a0fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 44/51] fix: save to a relative resume file system

---
 internal/kernel/author.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..7e3e4ee 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -7,6 +7,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
 	"github.com/snivilised/agenor/pref"
+	"github.com/snivilised/agenor/tfs"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -21,7 +22,7 @@ func (a *author) write(vex vexation) (string, error) {
 	forest := static.mediator.resources.Forest
 	fS := forest.R
 	calc := fS.Calc()
-	directory, file := a.destination(vex, calc)
+	directory, file := a.destination(vex, fS)
 
 	if err := fS.MakeDirAll(directory, a.perms.Dir); err != nil {
 		return "", err
@@ -46,12 +47,21 @@ func (a *author) write(vex vexation) (string, error) {
 	return path, err
 }
 
-func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file string) {
+func (a *author) destination(v vexation, fS tfs.TraversalFS) (directory, file string) {
+	calc := fS.Calc()
 	mag := v.magnitude()
 	cause := v.cause()
 	now := core.Now()
 
-	directory = nef.ResolvePath(a.o.Monitor.Admin.Path)
+	directory = a.o.Monitor.Admin.Path
+
+	// a relative file system contains nothing but what is below its root, so
+	// a path relative to that root must not be made absolute.
+	//
+	if !fS.IsRelative() || strings.HasPrefix(directory, "~") {
+		directory = nef.ResolvePath(directory)
+	}
+
 	if !strings.HasSuffix(directory, core.ResumeTail) {
 		directory = calc.Join(directory, core.ResumeTail)
 	}
-- 
2.43.0


From 5d74c4d0a6a5c01ed027e2a9b336c468f3c2a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 45/51] fix: never overwrite a saved navigation

The name of the file that a navigation is saved in only denotes when that
was to the nearest second, so that navigations saved within the same second
overwrote each other's state. An existing file or directory is now never
used as the destination.
---
 internal/kernel/author.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 7e3e4ee..1f801ed 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"fmt"
 	"strings"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
@@ -11,6 +12,10 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+// saving serialises the navigations that are saved by this process, so that a
+// path found to be vacant by one of them is not also used by another.
+var saving sync.Mutex
+
 type author struct {
 	o     *pref.Options
 	perms core.Permissions
@@ -28,7 +33,10 @@ func (a *author) write(vex vexation) (string, error) {
 		return "", err
 	}
 
-	path := calc.Join(directory, file)
+	saving.Lock()
+	defer saving.Unlock()
+
+	path := a.vacant(fS, calc.Join(directory, file))
 	active := vapour.active(vex.ancestor(), forest,
 		static.mediator.periscope.Depth(),
 		static.mediator.metrics,
@@ -72,3 +80,18 @@ func (a *author) destination(v vexation, fS tfs.TraversalFS) (directory, file st
 
 	return directory, file
 }
+
+// vacant ensures that an existing file is never overwritten; the file name
+// only denotes when the save occurred to the nearest second, so it does not
+// identify the save uniquely.
+func (a *author) vacant(fS tfs.TraversalFS, path string) string {
+	const ext = ".json"
+
+	stem := strings.TrimSuffix(path, ext)
+
+	for i := 1; fS.FileExists(path) || fS.DirectoryExists(path); i++ {
+		path = fmt.Sprintf("%v.%v%v", stem, i, ext)
+	}
+
+	return path
+}
-- 
2.43.0


From e17f0da10a285b03eb7f27e5052f8fd3fb06e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 46/51] fix: honour depth limits which don't fit into an int

The limit is an unsigned value; limits beyond the maximum int, such as
math.MaxUint, became negative and prevented anything from being visited.
---
 internal/level/periscope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/level/periscope.go b/internal/level/periscope.go
index 4f67545..2ec07f4 100644
--- a/internal/level/periscope.go
+++ b/internal/level/periscope.go
@@ -68,7 +68,7 @@ func (p *Periscope) Delta(tree, current string) (err error) {
 }
 
 func (p *Periscope) Descend(maximum uint) bool {
-	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
+	if maximum > 0 && p.depth > 0 && uint(p.depth) > maximum {
 		return false
 	}
 
-- 
2.43.0


From 7d688b35965a22a638f271f866c1a3129f9f08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 47/51] fix: carry on behind a resumed directory in which
 nothing is left

Fast forwarding came to an end only with the first node presented in the
directory in which navigation was interrupted. When there are none any more,
everything that follows was fast forwarded as well and the end was never
notified.
---
 internal/feat/resume/strategy-fastward.go | 36 ++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 37fb66d..fd801aa 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -3,6 +3,7 @@ package resume
 import (
 	"context"
 	"fmt"
+	"io/fs"
 	"path/filepath"
 	"strings"
 
@@ -85,8 +86,9 @@ func (g *FastwardGuardianSealer) IsSealed(enclave.Link) bool {
 type fastwardStrategy struct {
 	baseStrategy
 	enclave.Link
-	role   enums.Role
-	filter core.TraverseFilter
+	role    enums.Role
+	filter  core.TraverseFilter
+	arrived bool
 }
 
 func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
@@ -118,9 +120,36 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 		return err
 	}
 
+	// we have also arrived when there is nothing left in the current path to be
+	// presented, in which case it's what follows that has to be.
+	//
+	s.o.Hooks.ReadDirectory.Chain(func(entries []fs.DirEntry, err error,
+		_ fs.ReadDirFS, path string,
+	) ([]fs.DirEntry, error) {
+		if path == load.State.CurrentPath {
+			if e := s.arrive(); e != nil {
+				return entries, e
+			}
+		}
+
+		return entries, err
+	})
+
 	return err
 }
 
+// arrive puts an end to fast forwarding
+func (s *fastwardStrategy) arrive() error {
+	if s.arrived {
+		return nil
+	}
+
+	s.arrived = true
+	s.resources.Binder.Controls.UnmuteAll()
+
+	return s.mediator.Unwind(s.role)
+}
+
 func (s *fastwardStrategy) ignite() {
 	s.resources.Binder.Controls.MuteAll()
 }
@@ -135,8 +164,7 @@ func (s *fastwardStrategy) Next(servant core.Servant,
 	match = s.filter.IsMatch(node)
 
 	if match {
-		err = s.mediator.Unwind(s.role)
-		s.resources.Binder.Controls.UnmuteAll()
+		err = s.arrive()
 	}
 
 	return match, err
-- 
2.43.0


From 564a75edb907d6f40631c288fc1e0bb12609b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:26 +0000
Subject: [PATCH 48/51] fix: report that there is nowhere to save an
 interrupted navigation to

---
 internal/kernel/author.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 1f801ed..c05962a 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -26,6 +26,11 @@ func (a *author) write(vex vexation) (string, error) {
 	static := vapour.static()
 	forest := static.mediator.resources.Forest
 	fS := forest.R
+
+	if fS == nil {
+		return "", core.ErrNilForest
+	}
+
 	calc := fS.Calc()
 	directory, file := a.destination(vex, fS)
 
-- 
2.43.0


From 0d95e996d7c3c34de2033251d2b050a351835cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:32 +0000
Subject: [PATCH 49/51] fix: sub paths of what is in the trees . and /

---
 pref/defaults.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2196dd0..ca0e80e 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -64,16 +64,33 @@ func tail(input string, offset int) string {
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
+	separator := string(filepath.Separator)
+
+	// the paths of what is beneath these don't consist of the parent, a separator
+	// and the rest.
+	//
+	if parent == "." || parent == separator {
+		return separator + strings.TrimPrefix(child, separator)
+	}
+
 	return tail(child, len(parent))
 }
 
 // RootItemSubPathHook
 func RootItemSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	return difference(info.Tree, info.Node.Path)
 }
 
 // DefaultSubPathHook
 func DefaultSubPathHook(info *core.SubPathInfo) string {
+	if info.Node.Path == info.Tree {
+		return ""
+	}
+
 	if info.Node.Extension.Scope == enums.ScopeTop {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
-- 
2.43.0


From bbf1c48b183618f4e8a41223b10ae7c4fd097122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:32 +0000
Subject: [PATCH 50/51] fix: clean the tree path, so that what is in it is
 known by clean paths

---
 internal/kernel/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/builder.go b/internal/kernel/builder.go
index daa3c0b..63d5078 100644
--- a/internal/kernel/builder.go
+++ b/internal/kernel/builder.go
@@ -1,6 +1,8 @@
 package kernel
 
 import (
+	"path/filepath"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -36,7 +38,7 @@ func (fn Builder) Build(inception *Inception) *Artefacts {
 
 func (i *Inception) NavigationTree() string {
 	if using, ok := i.Facade.(*pref.Using); ok {
-		return using.Tree
+		return filepath.Clean(using.Tree)
 	}
 
 	return i.Harvest.Loaded().State.Tree
-- 
2.43.0


From e62a79398e4c618725c181b155af36ec33664947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:32 +0000
Subject: [PATCH 51/51] fix: resume a navigation of the tree .

---
 internal/feat/resume/strategy-fastward.go |  7 ++++++-
 internal/feat/resume/strategy-spawn.go    | 19 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index fd801aa..4bcf5c0 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -21,6 +21,7 @@ type FastwardFilter struct {
 	description string
 	scope       enums.FilterScope
 	parent      string
+	tree        string
 	name        string
 }
 
@@ -50,7 +51,10 @@ func (f *FastwardFilter) IsMatch(node *core.Node) bool {
 		return true
 	}
 
-	if node.Parent == nil {
+	// only the tree "." has paths without a parent of their own, but it's a path
+	// that these are known by.
+	//
+	if node.Parent == nil || f.tree == "." {
 		return false
 	}
 
@@ -111,6 +115,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				scope:  scope,
 				source: load.State.CurrentPath,
 				parent: parent,
+				tree:   load.State.Tree,
 				name:   calc.Base(load.State.CurrentPath),
 			},
 		},
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index bb875c8..5dcc301 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -48,9 +48,7 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 
 	// climbing up from elsewhere never gets to the tree
 	//
-	if !strings.HasPrefix(s.active.CurrentPath,
-		strings.TrimSuffix(s.active.Tree, string(filepath.Separator))+string(filepath.Separator),
-	) {
+	if !s.within() {
 		return s.kc.Result(ctx), core.ErrDetectedSpawnStackOverflow
 	}
 
@@ -64,6 +62,19 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 	return result, err
 }
 
+// within is the current path beneath the tree
+func (s *spawnStrategy) within() bool {
+	separator := string(filepath.Separator)
+
+	if s.active.Tree == "." {
+		return !strings.HasPrefix(s.active.CurrentPath, separator)
+	}
+
+	return strings.HasPrefix(s.active.CurrentPath,
+		strings.TrimSuffix(s.active.Tree, separator)+separator,
+	)
+}
+
 func (s *spawnStrategy) ifResult() bool {
 	return s.complete
 }
@@ -126,7 +137,7 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	result := s.kc.Result(ctx)
 
 	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
+		top := s.calc.Clean(s.calc.Join(parent, entry.Name()))
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
 		if errors.Is(err, fs.SkipDir) {
-- 
2.43.0

