From 6268d353258c0bd3499af4cfdc6a8d9324f1cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 01/32] fix: report errors closing the destination of
 files.Copy

A delayed write error (full disk, quota, network file system) is only reported
when the file is closed. Ignoring it made the job server hand out truncated
artifacts as if they had been persisted successfully.
---
 internal/files/files.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index 66a4efc..56323a8 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -15,7 +15,7 @@ import (
 )
 
 // Copy creates a copy of `oldname` at `newname`.
-func Copy(ctx context.Context, oldname string, newname string) error {
+func Copy(ctx context.Context, oldname string, newname string) (err error) {
 	log := zerolog.Ctx(ctx).With().
 		Str("oldname", oldname).
 		Str("newname", newname).
@@ -31,7 +31,12 @@ func Copy(ctx context.Context, oldname string, newname string) error {
 	if err != nil {
 		return fmt.Errorf("create %q: %w", newname, err)
 	}
-	defer out.Close()
+	defer func() {
+		// Delayed write errors may only be reported on close; the copy is not complete then.
+		if closeErr := out.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("close %q: %w", newname, closeErr)
+		}
+	}()
 
 	bytes, err := io.Copy(out, in)
 	if err != nil {
-- 
2.43.0


From 7f54aca8cee963f712bf832b139e4ae7994b6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 02/32] fix: treat job server error responses with a blank
 message as errors

A task that failed without a message made every process waiting for it receive
a successful response without any result.
---
 internal/jobserver/common/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index 82e0bc9..ef9f7b5 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -110,14 +110,14 @@ func UnmarshalResponse[T any](ctx context.Context, data []byte) (_ T, err error)
 
 	var parsed struct {
 		successResponse[T]
-		errorResponse
+		Error *string `json:"error"` // Only present in an [errorResponse], where it may be blank.
 	}
 	if err := json.Unmarshal(data, &parsed); err != nil {
 		return parsed.Result, err
 	}
 
-	if parsed.Error != "" {
-		return parsed.Result, errors.New(parsed.Error)
+	if parsed.Error != nil {
+		return parsed.Result, errors.New(*parsed.Error)
 	}
 
 	return parsed.Result, nil
-- 
2.43.0


From 6619fdd1a91ab35b369a47614fa0daced4375137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 03/32] fix: do not share the span context among concurrently
 handled requests

---
 internal/jobserver/common/handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index ef9f7b5..395e956 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -40,6 +40,7 @@ func HandleRequest[Res any, Req Request[Res]](ctx context.Context, handler Reque
 
 		// Spawn the handler in a new goroutine to avoid blocking the NATS subscription poller.
 		go func() {
+			ctx := ctx // Requests are handled concurrently, so they must not share the (span) context.
 			if spanCtx, err := tracer.Extract(traceutil.NATSCarrier{Msg: msg}); err == nil && spanCtx != nil {
 				span := tracer.StartSpan("nats.server",
 					tracer.ServiceName("github.com/DataDog/orchestrion/internal/jobserver"),
-- 
2.43.0


From c26f3be00bcddcfdac5c2b93f2165dfc00b9eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 04/32] fix: handle client connect and disconnect events in
 order

---
 internal/jobserver/server.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index 0e68e1f..f7f25ac 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"net"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -185,10 +186,10 @@ func New(ctx context.Context, opts *Options) (srv *Server, err error) {
 
 		res.inactivityTimeout = opts.InactivityTimeout
 		res.clients = make(map[uint64]string)
-		if _, err := sysConn.Subscribe(fmt.Sprintf("$SYS.ACCOUNT.%s.CONNECT", userAccount.Name), res.handleClientConnect); err != nil {
-			return nil, err
-		}
-		if _, err := sysConn.Subscribe(fmt.Sprintf("$SYS.ACCOUNT.%s.DISCONNECT", userAccount.Name), res.handleClientDisconnect); err != nil {
+		// A single subscription is used for both events, so that they are handled in the order they occurred: separate
+		// subscriptions have independent dispatchers, and a short-lived client would be tracked forever if its disconnect
+		// event was handled before its connect event.
+		if _, err := sysConn.Subscribe(fmt.Sprintf("$SYS.ACCOUNT.%s.*", userAccount.Name), res.handleClientEvent); err != nil {
 			return nil, err
 		}
 
@@ -257,6 +258,16 @@ func (s *Server) handleClients(msg *nats.Msg) {
 	msg.Respond(data)
 }
 
+// handleClientEvent is called when a client connects or disconnects.
+func (s *Server) handleClientEvent(msg *nats.Msg) {
+	switch {
+	case strings.HasSuffix(msg.Subject, ".CONNECT"):
+		s.handleClientConnect(msg)
+	case strings.HasSuffix(msg.Subject, ".DISCONNECT"):
+		s.handleClientDisconnect(msg)
+	}
+}
+
 func (s *Server) handleClientConnect(msg *nats.Msg) {
 	defer msg.Ack()
 
-- 
2.43.0


From 37b1fe513b7a2b5058d229fb1c1e3f6c69ff09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 05/32] fix: honour interruption of the job server, and do not
 panic when it exits normally

cancel() was called twice when the server terminated without having been interrupted, which closed the channel twice; and
the interruption check was inverted, so that a first SIGINT was ignored.
---
 internal/cmd/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 3fff346..7314fbd 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	"github.com/DataDog/orchestrion/internal/filelock"
@@ -194,14 +195,14 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 // cancellation function that can be used to uninstall the signal handler.
 func deleteOnInterrupt(ctx context.Context, path string) func() {
 	sigChan := make(chan os.Signal, 1)
-	cancel := func() {
+	cancel := sync.OnceFunc(func() {
 		signal.Stop(sigChan)
 		close(sigChan)
-	}
+	})
 
 	go func() {
-		_, closed := <-sigChan
-		if closed {
+		if _, interrupted := <-sigChan; !interrupted {
+			// The channel was closed by cancel, there is nothing to do.
 			return
 		}
 		defer cancel()
-- 
2.43.0


From 0e8c33678f4330662f5840b6b8ba7e6309e251f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 06/32] fix: do not dereference a nil parent process when
 resolving the go command's flags

---
 internal/goflags/flags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index cf28d54..4fa8173 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -385,10 +385,11 @@ func parentGoCommandFlags(ctx context.Context, pid int) (flags CommandFlags, err
 	// Backtrack through the process stack until we find the parent Go command
 	var args []string
 	for {
-		p, err = p.ParentWithContext(ctx)
+		parent, err := p.ParentWithContext(ctx)
 		if err != nil {
 			return flags, fmt.Errorf("failed to find parent process of %d: %w", p.Pid, err)
 		}
+		p = parent
 		args, err = p.CmdlineSliceWithContext(ctx)
 		if err != nil {
 			return flags, fmt.Errorf("failed to get command line of %d: %w", p.Pid, err)
-- 
2.43.0


From c14a3eff1060994ac662f7321a93de9724dda78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 07/32] fix: do not busy-wait for the URL file once the spawned
 job server has exited

---
 internal/jobserver/client/env.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/jobserver/client/env.go b/internal/jobserver/client/env.go
index 056adaf..4122126 100644
--- a/internal/jobserver/client/env.go
+++ b/internal/jobserver/client/env.go
@@ -217,6 +217,8 @@ func waitForURLFile(ctx context.Context, path string, cmd *exec.Cmd, exitChan <-
 					Str("url-file", path).
 					Msg("Job server process exited with status 0 (another process is serving)")
 			}
+			// The channel gets closed after the exit status was received, so it'd remain ready to be received from forever.
+			exitChan = nil
 
 		case <-retry.C:
 			// The retry timer has elapsed, we shall try again!
-- 
2.43.0


From ffd39bf33568fc2ee6dbfa9a65d32a860181906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 08/32] fix: find cycles regardless of the order in which edges
 are visited

A child from which the target cannot be reached discarded the path found through another child, so whether a cycle was
detected depended on map iteration order.
---
 internal/jobserver/common/graph.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index fd65830..2197fd6 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -62,7 +62,12 @@ func (g *Graph) path(from string, to string) []string {
 		if child == to {
 			return []string{from, to}
 		}
-		if childPath := g.path(child, to); path == nil || len(childPath) < len(path) {
+		childPath := g.path(child, to)
+		if childPath == nil {
+			// There is no path through this child...
+			continue
+		}
+		if path == nil || len(childPath) < len(path) {
 			path = childPath
 		}
 	}
-- 
2.43.0


From 8110de8983cbd7e340db9a553d1bcf2ef8cfaa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 09/32] fix: keep edges of the resolution graph until all of
 their requests are done

Several requests can add the same edge concurrently; the first one of them to complete removed it for all.
---
 internal/jobserver/common/graph.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index 2197fd6..82bb2f5 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -13,12 +13,13 @@ import (
 
 // Graph keeps track of a directed acyclic graph.
 type Graph struct {
-	nodes map[string]map[string]struct{}
+	nodes map[string]map[string]int // The number of times each edge was added
 	mu    sync.Mutex
 }
 
 // AddEdge adds a new edge to this graph. Returns an error if the new edge would
-// introduce a cycle in the graph.
+// introduce a cycle in the graph. An edge may be added several times, in which
+// case it remains until it has been removed just as many times.
 func (g *Graph) AddEdge(from string, to string) error {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -32,16 +33,16 @@ func (g *Graph) AddEdge(from string, to string) error {
 	}
 
 	if g.nodes == nil {
-		g.nodes = make(map[string]map[string]struct{})
+		g.nodes = make(map[string]map[string]int)
 	}
 
 	edges := g.nodes[from]
 	if edges == nil {
-		edges = make(map[string]struct{})
+		edges = make(map[string]int)
 		g.nodes[from] = edges
 	}
 
-	edges[to] = struct{}{}
+	edges[to]++
 	return nil
 }
 
@@ -50,8 +51,14 @@ func (g *Graph) RemoveEdge(from string, to string) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	delete(g.nodes[from], to)
-	if len(g.nodes[from]) == 0 {
+	edges := g.nodes[from]
+	if edges[to] > 1 {
+		edges[to]--
+		return
+	}
+
+	delete(edges, to)
+	if len(edges) == 0 {
 		delete(g.nodes, from)
 	}
 }
-- 
2.43.0


From 854820daaf6bfe93fa83f19ef6a35446531804b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 10/32] fix: report circular woven dependencies instead of
 waiting forever

When package x needs y woven in, and y needs x, the nested build of x waits for the ongoing one (builds are never made
twice), so it never gets to make the request that would have been found to close the cycle.
---
 internal/jobserver/pkgs/resolve.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 0890622..3f80a3f 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -132,6 +132,14 @@ func (s *service) resolve(ctx context.Context, req *ResolveRequest) (ResolveResp
 		}
 		defer s.graph.RemoveEdge(req.resolveParentID, req.toolexecImportpath)
 	}
+	if req.toolexecImportpath != "" {
+		// The package being built waits for the one it needs resolved. This must be known before nested builds start, as
+		// these may have to wait for other builds that are in progress, and would not get to make requests of their own.
+		if err := s.graph.AddEdge(req.toolexecImportpath, req.Pattern); err != nil {
+			return nil, err
+		}
+		defer s.graph.RemoveEdge(req.toolexecImportpath, req.Pattern)
+	}
 
 	resolved, err := s.resolved.Load(reqHash, func() (_ resolvedPackageSet, err error) {
 		if req.TestVariantFor == "" {
-- 
2.43.0


From 0679727b9765c42ade8442ce08a700c8372f5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 11/32] fix: report circular woven dependencies when a nested
 build waits for another one

A package woven into one of its own dependencies is built again by the nested
build that resolves it, which then waits for the ongoing build of the
dependency, forever. Have these builds tell which pattern they resolve, so that
waiting on an ongoing build is subject to cycle detection, too.
---
 internal/jobserver/nbt/nbt.go           | 15 +++++++++++++--
 internal/jobserver/pkgs/pkgs.go         |  5 +++--
 internal/jobserver/pkgs/resolve.go      | 11 +++++++++++
 internal/jobserver/pkgs/testvariants.go |  6 ++++++
 internal/jobserver/server.go            |  5 +++--
 internal/toolexec/proxy/compile.go      |  3 ++-
 6 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/internal/jobserver/nbt/nbt.go b/internal/jobserver/nbt/nbt.go
index cae3410..db0de6e 100644
--- a/internal/jobserver/nbt/nbt.go
+++ b/internal/jobserver/nbt/nbt.go
@@ -32,6 +32,7 @@ type (
 	service struct {
 		state sync.Map
 		dir   string
+		graph *common.Graph // Packages waiting for others to be built
 	}
 	buildState struct {
 		initOnce sync.Once
@@ -46,7 +47,7 @@ type (
 	}
 )
 
-func Subscribe(ctx context.Context, conn *nats.Conn) (cleanup func(context.Context) error, resErr error) {
+func Subscribe(ctx context.Context, conn *nats.Conn, graph *common.Graph) (cleanup func(context.Context) error, resErr error) {
 	dir, err := os.MkdirTemp("", "orchestrion.nbt-*")
 	if err != nil {
 		return nil, fmt.Errorf("creating storage directory: %w", err)
@@ -60,7 +61,7 @@ func Subscribe(ctx context.Context, conn *nats.Conn) (cleanup func(context.Conte
 		}
 	}()
 
-	s := &service{dir: dir}
+	s := &service{dir: dir, graph: graph}
 	_, err = conn.Subscribe(startSubject,
 		common.HandleRequest(
 			zerolog.Ctx(ctx).With().Str("nats.subject", startSubject).Logger().WithContext(ctx),
@@ -91,6 +92,8 @@ type (
 	StartRequest struct {
 		ImportPath string `json:"importPath"`
 		BuildID    string `json:"buildID"`
+		// ResolvedPattern is the pattern being resolved by the nested build this task belongs to, if any.
+		ResolvedPattern string `json:"resolvedPattern,omitempty"`
 	}
 	// StartResponse informs the caller about what should be done with the
 	// compilation task. If a [*StartResponse.FinishToken] is present, the caller
@@ -157,6 +160,14 @@ func (s *service) start(ctx context.Context, req StartRequest) (*StartResponse,
 		zerolog.Ctx(ctx).Trace().Str("token", state.token).Str("import-path", req.ImportPath).Msg("Waiting for concurrent task to complete...")
 		defer zerolog.Ctx(ctx).Trace().Str("token", state.token).Str("import-path", req.ImportPath).Msg("Concurrent was completed!")
 
+		if req.ResolvedPattern != "" && req.ResolvedPattern != req.ImportPath && !state.isDone.Load() {
+			// If the ongoing task waits for that pattern to be resolved, it'll never complete.
+			if err := s.graph.AddEdge(req.ResolvedPattern, req.ImportPath); err != nil {
+				return nil, err
+			}
+			defer s.graph.RemoveEdge(req.ResolvedPattern, req.ImportPath)
+		}
+
 		<-state.done
 		if state.error != nil {
 			return nil, state.error
diff --git a/internal/jobserver/pkgs/pkgs.go b/internal/jobserver/pkgs/pkgs.go
index 574111d..37b2edb 100644
--- a/internal/jobserver/pkgs/pkgs.go
+++ b/internal/jobserver/pkgs/pkgs.go
@@ -32,14 +32,15 @@ type resolvedPackageSet struct {
 type service struct {
 	resolved  common.Cache[resolvedPackageSet]
 	loaded    common.Cache[*packages.Package]
-	graph     common.Graph
+	graph     *common.Graph
 	serverURL string
 }
 
-func Subscribe(ctx context.Context, serverURL string, conn *nats.Conn, stats *common.CacheStats) (config.PackageLoader, error) {
+func Subscribe(ctx context.Context, serverURL string, conn *nats.Conn, stats *common.CacheStats, graph *common.Graph) (config.PackageLoader, error) {
 	s := &service{
 		loaded:    common.NewCache[*packages.Package](stats),
 		resolved:  common.NewCache[resolvedPackageSet](stats),
+		graph:     graph,
 		serverURL: serverURL,
 	}
 
diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 3f80a3f..75d6fe2 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -28,6 +28,7 @@ import (
 
 const (
 	envVarParentID = "ORCHESTRION_PKG.RESOLVE_PARENT_ID"
+	envVarPattern  = "ORCHESTRION_PKG.RESOLVE_PATTERN"
 	envVarGotmpdir = "GOTMPDIR"
 )
 
@@ -44,6 +45,7 @@ var envIgnoreList = map[string]func(*ResolveRequest, string){
 	// Known to change between invocations & irrelevant to the resolution, but can be used to detect cycles.
 	"TOOLEXEC_IMPORTPATH":       func(r *ResolveRequest, path string) { r.toolexecImportpath = path },
 	envVarParentID:              func(r *ResolveRequest, id string) { r.resolveParentID = id },
+	envVarPattern:               func(r *ResolveRequest, pattern string) { r.resolvePattern = pattern },
 	envVarResolvingTestVariants: nil,
 }
 
@@ -57,6 +59,7 @@ type (
 
 		// Fields set by canonicalization
 		resolveParentID    string // The value of the [envVarParentID] environment variable
+		resolvePattern     string // The value of the [envVarPattern] environment variable
 		toolexecImportpath string // The value of the TOOLEXEC_IMPORTPATH environment variable
 		canonical          bool   // Whether this request was canonicalized yet
 	}
@@ -132,6 +135,13 @@ func (s *service) resolve(ctx context.Context, req *ResolveRequest) (ResolveResp
 		}
 		defer s.graph.RemoveEdge(req.resolveParentID, req.toolexecImportpath)
 	}
+	if req.resolvePattern != "" && req.resolvePattern != req.toolexecImportpath {
+		// All requests for the pattern being resolved wait for this build, not only the one that started resolving it.
+		if err := s.graph.AddEdge(req.resolvePattern, req.toolexecImportpath); err != nil {
+			return nil, err
+		}
+		defer s.graph.RemoveEdge(req.resolvePattern, req.toolexecImportpath)
+	}
 	if req.toolexecImportpath != "" {
 		// The package being built waits for the one it needs resolved. This must be known before nested builds start, as
 		// these may have to wait for other builds that are in progress, and would not get to make requests of their own.
@@ -252,6 +262,7 @@ func resolveEnvironment(ctx context.Context, req *ResolveRequest) []string {
 	if req.toolexecImportpath != "" {
 		env = append(env, fmt.Sprintf("%s=%s", envVarParentID, req.toolexecImportpath))
 	}
+	env = append(env, fmt.Sprintf("%s=%s", envVarPattern, req.Pattern))
 	if req.TempDir != "" {
 		env = append(env, fmt.Sprintf("%s=%s", envVarGotmpdir, req.TempDir))
 	}
diff --git a/internal/jobserver/pkgs/testvariants.go b/internal/jobserver/pkgs/testvariants.go
index f1a66af..f1be446 100644
--- a/internal/jobserver/pkgs/testvariants.go
+++ b/internal/jobserver/pkgs/testvariants.go
@@ -31,6 +31,12 @@ func ResolvingTestVariants() bool {
 	return os.Getenv(envVarResolvingTestVariants) != ""
 }
 
+// ResolvedPattern returns the pattern being resolved by the nested build the current process
+// belongs to, or a blank string if it does not belong to such a build.
+func ResolvedPattern() string {
+	return os.Getenv(envVarPattern)
+}
+
 func mergeTestVariant(
 	ctx context.Context,
 	req *ResolveRequest,
diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index f7f25ac..e4ce706 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -157,14 +157,15 @@ func New(ctx context.Context, opts *Options) (srv *Server, err error) {
 		clientURL:  clientURL,
 		log:        log,
 	}
-	pkgLoader, err := pkgs.Subscribe(ctx, clientURL, conn, res.CacheStats)
+	graph := &common.Graph{}
+	pkgLoader, err := pkgs.Subscribe(ctx, clientURL, conn, res.CacheStats, graph)
 	if err != nil {
 		return nil, err
 	}
 	if err := buildid.Subscribe(ctx, conn, pkgLoader, res.CacheStats); err != nil {
 		return nil, err
 	}
-	cleanup, err := nbt.Subscribe(ctx, conn)
+	cleanup, err := nbt.Subscribe(ctx, conn, graph)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/toolexec/proxy/compile.go b/internal/toolexec/proxy/compile.go
index b702e4e..d8cd327 100644
--- a/internal/toolexec/proxy/compile.go
+++ b/internal/toolexec/proxy/compile.go
@@ -18,6 +18,7 @@ import (
 	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
 	"github.com/DataDog/orchestrion/internal/jobserver/client"
 	"github.com/DataDog/orchestrion/internal/jobserver/nbt"
+	"github.com/DataDog/orchestrion/internal/jobserver/pkgs"
 	"github.com/DataDog/orchestrion/internal/toolexec/aspect/linkdeps"
 	"github.com/DataDog/orchestrion/internal/toolexec/importcfg"
 	"github.com/blakesmith/ar"
@@ -261,7 +262,7 @@ func parseCompileCommand(ctx gocontext.Context, importPath string, args []string
 		return nil, err
 	}
 
-	res, err := client.Request(ctx, jobs, nbt.StartRequest{ImportPath: importPath, BuildID: cmd.Flags.BuildID})
+	res, err := client.Request(ctx, jobs, nbt.StartRequest{ImportPath: importPath, BuildID: cmd.Flags.BuildID, ResolvedPattern: pkgs.ResolvedPattern()})
 	if err != nil {
 		return nil, fmt.Errorf("sending never-build-twice request: %w", err)
 	}
-- 
2.43.0


From 3d6d7f85be173a109cdf88f216908e676fbc0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 12/32] fix: do not panic adding imports to a package that had
 none

---
 internal/toolexec/importcfg/importcfg.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 48615d0..b53c8be 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -53,6 +53,9 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 
+	// Packages without imports have no packagefile entries; callers add theirs to this map regardless.
+	reg.PackageFile = make(map[string]string)
+
 	for scanner.Scan() {
 		if err = scanner.Err(); err != nil {
 			return
@@ -77,9 +80,6 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 				continue
 			}
 
-			if reg.PackageFile == nil {
-				reg.PackageFile = make(map[string]string)
-			}
 			reg.PackageFile[importPath] = archive
 
 		case "importmap":
-- 
2.43.0


From 1ff78e79066a15f1e073ca2c998745abb32a20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 13/32] fix: link packages that are the targets of relocations
 woven into the main package

---
 internal/toolexec/aspect/oncompile-main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index a5fb5b0..73d9dd6 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -79,11 +79,19 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 	if err != nil {
 		return fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
 	}
-	if len(stack) == 0 {
+
+	// Relocation targets woven into this very package are part of its importcfg file already (see [Weaver.OnCompile]),
+	// yet nothing imports them, so the linker would not load them.
+	newDeps := make([]string, 0, len(stack))
+	for _, path := range cmd.LinkDeps.Dependencies() {
+		if _, found := reg.PackageFile[path]; found && cmd.LinkDeps.Kind(path) == linkdeps.RelocationDependency {
+			newDeps = append(newDeps, path)
+		}
+	}
+	if len(stack) == 0 && len(newDeps) == 0 {
 		return nil
 	}
 
-	newDeps := make([]string, 0, len(stack))
 	pending := make(map[string]pendingLinkDep, len(stack))
 	processed := make(map[string]pkgs.ResolvedArchive)
 	paths := make([]string, 0, len(stack))
-- 
2.43.0


From 2fe8dd8b8dc3a87ac62ba9b92fe2375ebfd56c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 14/32] fix: record woven dependencies in the same order for
 every build

---
 internal/toolexec/aspect/oncompile-main.go |  5 +++--
 internal/toolexec/aspect/oncompile.go      | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index 73d9dd6..191db45 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -12,6 +12,7 @@ import (
 	"go/ast"
 	"go/format"
 	"go/token"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -128,8 +129,8 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 			log.Debug().Str("import-path", p).Str("archive", archive).Msg("Recording resolved " + linkdeps.Filename + " dependency")
 		}
 
-		for p, resolved := range deps {
-			archive := resolved.ExportFile
+		for _, p := range slices.Sorted(maps.Keys(deps)) {
+			archive := deps[p].ExportFile
 			// The package may have its own link-time dependencies we need to resolve.
 			tDeps, err := linkdeps.FromArchive(ctx, archive)
 			if err != nil {
diff --git a/internal/toolexec/aspect/oncompile.go b/internal/toolexec/aspect/oncompile.go
index 7d66382..c634a3a 100644
--- a/internal/toolexec/aspect/oncompile.go
+++ b/internal/toolexec/aspect/oncompile.go
@@ -8,6 +8,7 @@ package aspect
 import (
 	"context"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -130,7 +131,11 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 	}
 
 	var regUpdated bool
-	for depImportPath, kind := range references.Map() {
+	// Whether a dependency is already satisfied depends on those processed before it, so this goes by sorted import path
+	// in order to always produce the same [linkdeps.Filename].
+	refs := references.Map()
+	for _, depImportPath := range slices.Sorted(maps.Keys(refs)) {
+		kind := refs[depImportPath]
 		if depImportPath == "unsafe" {
 			// Unsafe isn't like other go packages, and it does not have an associated archive file.
 			continue
@@ -163,8 +168,8 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 		if err != nil {
 			return fmt.Errorf("resolving woven dependency on %s: %w", depImportPath, err)
 		}
-		for dep, resolved := range deps {
-			archive := resolved.ExportFile
+		for _, dep := range slices.Sorted(maps.Keys(deps)) {
+			archive := deps[dep].ExportFile
 			deps, err := linkdeps.FromArchive(ctx, archive)
 			if err != nil {
 				return fmt.Errorf("reading %s from %s[%s]: %w", linkdeps.Filename, dep, archive, err)
-- 
2.43.0


From ad9ed8d9792194be4533b9bc58422de922f368b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 15/32] fix: do not shut down when a client came and left while
 the inactivity timer fired

---
 internal/jobserver/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index e4ce706..fbcef1b 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -48,6 +48,7 @@ type (
 		// Tracking connected clients for automatic shutdown on inactivity...
 		clients           map[uint64]string
 		shutdownTimer     *time.Timer
+		shutdownTimerID   uint64 // Changes whenever the timer is started or stopped
 		clientsMu         sync.Mutex
 		inactivityTimeout time.Duration
 	}
@@ -293,6 +294,7 @@ func (s *Server) handleClientConnect(msg *nats.Msg) {
 	if s.shutdownTimer != nil {
 		s.shutdownTimer.Stop()
 		s.shutdownTimer = nil
+		s.shutdownTimerID++
 	}
 }
 
@@ -324,10 +326,17 @@ func (s *Server) handleClientDisconnect(msg *nats.Msg) {
 // startShutdownTimer initiates the automated shutdown timer. The caller must guarantee it has exclusive access to the
 // underlying server instance (e.g, during initialization), or have acquired `s.clientsMu`.
 func (s *Server) startShutdownTimer() {
+	s.shutdownTimerID++
+	id := s.shutdownTimerID
 	s.shutdownTimer = time.AfterFunc(s.inactivityTimeout, func() {
 		s.clientsMu.Lock()
 		defer s.clientsMu.Unlock()
 
+		if s.shutdownTimerID != id {
+			// A client has connected (and possibly disconnected) since this timer fired.
+			return
+		}
+
 		if len(s.clients) == 0 {
 			s.log.Info().Dur("timeout", s.inactivityTimeout).Msg("No NATS client connected since shutdown timer started, shutting down...")
 			s.Shutdown()
-- 
2.43.0


From 2378a38108f9c80e8465600a4b546d235569dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 16/32] fix: tell the job server about builds that fail before
 the compile command is run

---
 internal/toolexec/proxy/compile.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/toolexec/proxy/compile.go b/internal/toolexec/proxy/compile.go
index d8cd327..0a724a7 100644
--- a/internal/toolexec/proxy/compile.go
+++ b/internal/toolexec/proxy/compile.go
@@ -270,14 +270,10 @@ func parseCompileCommand(ctx gocontext.Context, importPath string, args []string
 	if res.FinishToken != "" {
 		cmd.finishToken = res.FinishToken
 
-		imports, err := importcfg.ParseFile(ctx, cmd.Flags.ImportCfg)
-		if err != nil {
-			return nil, fmt.Errorf("parsing %q: %w", cmd.Flags.ImportCfg, err)
-		}
-
-		cmd.LinkDeps, err = linkdeps.FromImportConfig(ctx, &imports)
-		if err != nil {
-			return nil, fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
+		if err := cmd.loadLinkDeps(ctx); err != nil {
+			// The command will not be run (nor closed), so the job server must be told about the failure now, or
+			// concurrent builds of the same package would be waiting for the outcome forever.
+			return nil, errors.Join(err, cmd.notifyJobServer(ctx, err))
 		}
 
 		return cmd, nil
@@ -315,4 +311,20 @@ func parseCompileCommand(ctx gocontext.Context, importPath string, args []string
 	return nil, nil
 }
 
+// loadLinkDeps initializes the link-time dependencies of the command from the
+// packages listed in its importcfg file.
+func (cmd *CompileCommand) loadLinkDeps(ctx gocontext.Context) error {
+	imports, err := importcfg.ParseFile(ctx, cmd.Flags.ImportCfg)
+	if err != nil {
+		return fmt.Errorf("parsing %q: %w", cmd.Flags.ImportCfg, err)
+	}
+
+	cmd.LinkDeps, err = linkdeps.FromImportConfig(ctx, &imports)
+	if err != nil {
+		return fmt.Errorf("reading %s closure from %s: %w", linkdeps.Filename, cmd.Flags.ImportCfg, err)
+	}
+
+	return nil
+}
+
 var _ Command = (*CompileCommand)(nil)
-- 
2.43.0


From 5cb7f3fdfd2b06d3d32483faef6e1a85ef31e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 17/32] fix: report errors reading the global header of
 archives

---
 internal/toolexec/aspect/linkdeps/linkdeps.go | 22 ++++++++++++++++++-
 internal/toolexec/proxy/testmain.go           |  4 ++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/toolexec/aspect/linkdeps/linkdeps.go b/internal/toolexec/aspect/linkdeps/linkdeps.go
index e5ef923..e9c6de1 100644
--- a/internal/toolexec/aspect/linkdeps/linkdeps.go
+++ b/internal/toolexec/aspect/linkdeps/linkdeps.go
@@ -264,7 +264,12 @@ func readArchiveData(archive string, entry string) (rc io.ReadCloser, err error)
 		err = errors.Join(err, file.Close())
 	}()
 
-	rd := ar.NewReader(file)
+	src := &errorRecorder{ReadSeeker: file}
+	rd := ar.NewReader(src)
+	if src.err != nil {
+		// The archive reader ignores errors reading the archive's global header...
+		return nil, fmt.Errorf("reading archive header: %w", src.err)
+	}
 	for {
 		hdr, err := rd.Next()
 		if errors.Is(err, io.EOF) {
@@ -291,6 +296,21 @@ func (l *LinkDeps) MarshalZerologArray(a *zerolog.Array) {
 	}
 }
 
+// errorRecorder retains the last error (other than [io.EOF]) encountered while
+// reading from the underlying [io.ReadSeeker].
+type errorRecorder struct {
+	io.ReadSeeker
+	err error
+}
+
+func (r *errorRecorder) Read(p []byte) (int, error) {
+	n, err := r.ReadSeeker.Read(p)
+	if err != nil && !errors.Is(err, io.EOF) {
+		r.err = err
+	}
+	return n, err
+}
+
 type arReadCloser struct {
 	*ar.Reader
 	io.Closer
diff --git a/internal/toolexec/proxy/testmain.go b/internal/toolexec/proxy/testmain.go
index b872777..64e629f 100644
--- a/internal/toolexec/proxy/testmain.go
+++ b/internal/toolexec/proxy/testmain.go
@@ -94,6 +94,10 @@ func readTestMain(filename string) (string, bool, error) {
 	}
 
 	rd := ar.NewReader(file)
+	if pos, err := file.Seek(0, io.SeekCurrent); err != nil || pos != int64(len(magic)) {
+		// The archive reader ignores errors reading the archive's global header...
+		return "", false, errors.Join(fmt.Errorf("reading link input %q", filename), err)
+	}
 	for {
 		hdr, err := rd.Next()
 		if errors.Is(err, io.EOF) {
-- 
2.43.0


From b425444f71a0bc087702cc452ee33020324d7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 18/32] fix: report errors reading and closing importcfg files

---
 internal/toolexec/importcfg/importcfg.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index b53c8be..952ad96 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -10,6 +10,7 @@ package importcfg
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -57,10 +58,6 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 	reg.PackageFile = make(map[string]string)
 
 	for scanner.Scan() {
-		if err = scanner.Err(); err != nil {
-			return
-		}
-
 		line := strings.TrimSpace(scanner.Text())
 		if line == "" || line[0] == '#' {
 			continue
@@ -99,6 +96,8 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 		}
 	}
 
+	// Not checking this would take an incompletely read file for a complete one.
+	err = scanner.Err()
 	return
 }
 
@@ -116,12 +115,12 @@ func (r *ImportConfig) CombinePackageFile(other *ImportConfig) (changed bool) {
 
 // WriteFile writes the content of the package register to the provided file, in the format expected
 // by the standard go toolchain commands.
-func (r *ImportConfig) WriteFile(filename string) error {
+func (r *ImportConfig) WriteFile(filename string) (err error) {
 	file, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() { err = errors.Join(err, file.Close()) }()
 
 	return r.write(file)
 }
-- 
2.43.0


From 02a8599a52a339bac63bb92ff04e7d81b4c6b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 19/32] fix: report errors closing the file of synthetic
 imports

---
 internal/toolexec/aspect/oncompile-main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index 191db45..67c5e96 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -205,7 +205,7 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 	if err != nil {
 		return fmt.Errorf("create %q: %w", genFile, err)
 	}
-	defer file.Close()
+	defer func() { err = errors.Join(err, file.Close()) }()
 	if err := format.Node(file, token.NewFileSet(), fileAST); err != nil {
 		return fmt.Errorf("formatting generated code for %s: %w", genFile, err)
 	}
-- 
2.43.0


From 0dbc5e813613a47f6b8b9519c74b08cd88972ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 20/32] fix: report failures to read archives instead of
 skipping instrumentation

---
 internal/injector/check.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/internal/injector/check.go b/internal/injector/check.go
index ed880af..612c4f6 100644
--- a/internal/injector/check.go
+++ b/internal/injector/check.go
@@ -7,11 +7,14 @@ package injector
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/importer"
 	"go/token"
 	"go/types"
+	"io"
+	"io/fs"
 	"runtime"
 	"strings"
 
@@ -32,9 +35,22 @@ func (i *Injector) typeCheck(ctx context.Context, fset *token.FileSet, files []p
 		Scopes: make(map[ast.Node]*types.Scope),
 	}
 
+	// The type checker reports failures to read the archives of dependencies like it does errors in the sources.
+	var readErrs []error
+	lookup := func(path string) (io.ReadCloser, error) {
+		rd, err := i.Lookup(path)
+		if err != nil {
+			if pathErr := (*fs.PathError)(nil); errors.As(err, &pathErr) {
+				readErrs = append(readErrs, err)
+			}
+			return nil, err
+		}
+		return &errorRecorder{ReadCloser: rd, errs: &readErrs}, nil
+	}
+
 	checkerCfg := types.Config{
 		GoVersion: i.GoVersion,
-		Importer:  importer.ForCompiler(fset, runtime.Compiler, i.Lookup),
+		Importer:  importer.ForCompiler(fset, runtime.Compiler, lookup),
 	}
 	checker := types.NewChecker(&checkerCfg, fset, pkg, &typeInfo)
 
@@ -51,12 +67,31 @@ func (i *Injector) typeCheck(ctx context.Context, fset *token.FileSet, files []p
 			return types.Info{}, fmt.Errorf("orchestrion was built with Go version %s but package %q requires a newer go version, please reinstall and pin orchestrion with a newer Go version: type-checking files: %w", runtime.Version(), i.ImportPath, err)
 		}
 
+		if len(readErrs) > 0 {
+			// The compiler may well be able to read these archives, and would then build code that is not instrumented.
+			return types.Info{}, fmt.Errorf("type-checking files: %w", errors.Join(readErrs...))
+		}
+
 		return types.Info{}, typeCheckingError{cause: err}
 	}
 
 	return typeInfo, nil
 }
 
+// errorRecorder is an [io.ReadCloser] that keeps track of the errors of [io.Reader.Read].
+type errorRecorder struct {
+	io.ReadCloser
+	errs *[]error
+}
+
+func (r *errorRecorder) Read(p []byte) (int, error) {
+	n, err := r.ReadCloser.Read(p)
+	if err != nil && !errors.Is(err, io.EOF) {
+		*r.errs = append(*r.errs, err)
+	}
+	return n, err
+}
+
 type typeCheckingError struct {
 	cause error
 }
-- 
2.43.0


From e11bc7548d9fca82cb1eabc9e9c64e9bb7ad3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 21/32] fix: wait for job servers to clean up after themselves

---
 internal/cmd/diff.go         |  3 ++-
 internal/goproxy/proxy.go    | 27 ++++++++++++++++++++-------
 internal/jobserver/server.go | 22 +++++++++++++---------
 3 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/internal/cmd/diff.go b/internal/cmd/diff.go
index fe8a18e..2b4a7ea 100644
--- a/internal/cmd/diff.go
+++ b/internal/cmd/diff.go
@@ -165,10 +165,11 @@ func executeBuildAndCaptureWorkDir(clictx *cli.Context, buildArgs []string) (str
 		return "", cli.Exit(err, -1)
 	}
 
-	cmd, err := goproxy.BuildCmd(clictx.Context, buildArgs, goproxy.WithToolexec(binpath.Orchestrion, "toolexec"))
+	cmd, shutdown, err := goproxy.BuildCmd(clictx.Context, buildArgs, goproxy.WithToolexec(binpath.Orchestrion, "toolexec"))
 	if err != nil {
 		return "", fmt.Errorf("building command: %w", err)
 	}
+	defer shutdown()
 
 	r, w, err := os.Pipe()
 	if err != nil {
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index 062ffbd..b706ce9 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -54,8 +54,10 @@ func WithToolexec(bin string, args ...string) Option {
 	}
 }
 
-// BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied.
-func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
+// BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied. The returned
+// function must be called once the command has completed: it shuts down the job server that was started for the
+// command, if any, and waits until it has cleaned up after itself.
+func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, func(), error) {
 	log := zerolog.Ctx(ctx)
 
 	var cfg config
@@ -65,12 +67,12 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 
 	goArgs, err := processDashC(ctx, goArgs)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	goBin, err := goenv.GoBinPath()
 	if err != nil {
-		return nil, fmt.Errorf("locating 'go' binary: %w", err)
+		return nil, nil, fmt.Errorf("locating 'go' binary: %w", err)
 	}
 
 	// Pre-allocate space for extra arguments...
@@ -85,6 +87,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 	var (
 		server         *jobserver.Server
 		serverStartErr error
+		shutdown       = func() {}
 		env            = os.Environ()
 	)
 	if len(argv) > 1 {
@@ -105,7 +108,15 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 
 				log.Debug().Msg("Starting job server goroutine")
 				serverStarted := make(chan struct{})
+				serverStopped := make(chan struct{})
+				ctx, cancel := context.WithCancel(ctx)
+				shutdown = func() {
+					cancel()
+					<-serverStopped
+				}
 				go func() {
+					defer close(serverStopped)
+
 					// We'll need a job server to support toolexec operations
 					log.Debug().Msg("Initializing job server")
 					server, serverStartErr = jobserver.New(ctx, nil)
@@ -145,7 +156,8 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		}
 	}
 	if serverStartErr != nil {
-		return nil, fmt.Errorf("job server failed to start: %w", serverStartErr)
+		shutdown()
+		return nil, nil, fmt.Errorf("job server failed to start: %w", serverStartErr)
 	}
 
 	log.Trace().Strs("command", argv).Msg("exec")
@@ -155,7 +167,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 	cmd.Stdout = os.Stdout
 	cmd.Stderr = os.Stderr
 
-	return cmd, nil
+	return cmd, shutdown, nil
 }
 
 // Run takes a go command ("build", "install", etc...) with its arguments, and
@@ -165,10 +177,11 @@ func Run(ctx context.Context, goArgs []string, opts ...Option) error {
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 
-	cmd, err := BuildCmd(ctx, goArgs, opts...)
+	cmd, shutdown, err := BuildCmd(ctx, goArgs, opts...)
 	if err != nil {
 		return fmt.Errorf("building command: %w", err)
 	}
+	defer shutdown()
 
 	span, _ := tracer.StartSpanFromContext(ctx, "exec",
 		tracer.ResourceName(cmd.String()),
diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index fbcef1b..54ca34a 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -44,6 +44,7 @@ type (
 		log        zerolog.Logger
 
 		shutdownHooks []func(context.Context) error
+		shutdownOnce  sync.Once // Ensures hooks run only once
 
 		// Tracking connected clients for automatic shutdown on inactivity...
 		clients           map[uint64]string
@@ -233,23 +234,26 @@ func (s *Server) ClientURL() string {
 	return s.clientURL
 }
 
-// Shutdown initiates the shutdown of this server.
+// Shutdown shuts this server down, and waits until it has cleaned up after itself.
 func (s *Server) Shutdown() {
 	s.server.Shutdown()
-	go s.WaitForShutdown()
+	s.WaitForShutdown()
 }
 
-// WaitForShutdown waits indefinitely for this server to have shut down.
+// WaitForShutdown waits indefinitely for this server to have shut down, and cleaned up after itself.
 func (s *Server) WaitForShutdown() {
 	s.server.WaitForShutdown()
-	s.log.Trace().Msg(s.CacheStats.String())
 
-	ctx := s.log.WithContext(context.Background())
-	for _, cb := range s.shutdownHooks {
-		if err := cb(ctx); err != nil {
-			s.log.Error().Err(err).Msg("Shutdown hook error")
+	s.shutdownOnce.Do(func() {
+		s.log.Trace().Msg(s.CacheStats.String())
+
+		ctx := s.log.WithContext(context.Background())
+		for _, cb := range s.shutdownHooks {
+			if err := cb(ctx); err != nil {
+				s.log.Error().Err(err).Msg("Shutdown hook error")
+			}
 		}
-	}
+	})
 }
 
 func (s *Server) handleClients(msg *nats.Msg) {
-- 
2.43.0


From f2e9508e4cf5dde36ca69c3135e24151948a1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 22/32] fix: tell package-name apart from import-path in
 configuration fingerprints

---
 internal/injector/aspect/join/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 0f13fc1..9aeb8f4 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -76,7 +76,7 @@ func (p packageName) Matches(ctx context.AspectContext) bool {
 }
 
 func (p packageName) Hash(h *fingerprint.Hasher) error {
-	return h.Named("import-path", fingerprint.String(p))
+	return h.Named("package-name", fingerprint.String(p))
 }
 
 type packageFilter struct {
-- 
2.43.0


From f956218be51336ed413f46dd056b7613c538d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 23/32] fix: make configuration fingerprints depend on the root
 module that package-filter matches

---
 internal/injector/aspect/join/package.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 9aeb8f4..0462da0 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -250,9 +250,21 @@ func (pf packageFilter) Matches(ctx context.AspectContext) bool {
 }
 
 func (pf packageFilter) Hash(h *fingerprint.Hasher) error {
+	// What is matched depends on the root module, which is not necessarily the
+	// same for all builds that share a build cache (e.g, in a workspace).
+	var rootModulePath string
+	if pf.root {
+		var err error
+		rootModulePath, err = goenv.RootModulePath(gocontext.Background())
+		if err != nil && !errors.Is(err, goenv.ErrNoModulePath) {
+			return err
+		}
+	}
+
 	return h.Named("package-filter",
 		fingerprint.Bool(pf.root),
 		fingerprint.String(pf.pattern),
+		fingerprint.String(rootModulePath),
 	)
 }
 
-- 
2.43.0


From fb9cacf679ad89887709acb325b7d8f5176a0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 24/32] fix: report failures to determine the root module
 instead of not weaving

---
 internal/injector/aspect/join/package.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 0462da0..dcb8cff 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -371,6 +371,14 @@ func init() {
 			return nil, errors.New("package-filter requires a 'pattern' field")
 		}
 
+		if config.Root {
+			// Failures to determine the root module are otherwise indistinguishable from
+			// the absence of a match. Successes are remembered.
+			if _, err := goenv.RootModulePath(ctx); err != nil && !errors.Is(err, goenv.ErrNoModulePath) {
+				return nil, err
+			}
+		}
+
 		return PackageFilter(config.Root, config.Pattern), nil
 	}
 }
-- 
2.43.0


From 521b8da0aadcbdf380a3cfc97d6251e34951c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 25/32] fix: retain the template of assign-value advice

---
 internal/injector/aspect/advice/assign.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/aspect/advice/assign.go b/internal/injector/aspect/advice/assign.go
index 1f8a39d..ac23bb7 100644
--- a/internal/injector/aspect/advice/assign.go
+++ b/internal/injector/aspect/advice/assign.go
@@ -56,10 +56,10 @@ func (a *assignValue) Hash(h *fingerprint.Hasher) error {
 
 func init() {
 	unmarshalers["assign-value"] = func(ctx gocontext.Context, node ast.Node) (Advice, error) {
-		var template *code.Template
+		var template code.Template
 		if err := yaml.NodeToValueContext(ctx, node, &template); err != nil {
 			return nil, err
 		}
-		return AssignValue(template), nil
+		return AssignValue(&template), nil
 	}
 }
-- 
2.43.0


From dfe9658c79467b4f258eb3c29af7c995654d42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 26/32] fix: filter aspects by file regardless of the order in
 which files are parsed

---
 internal/injector/parse/parser.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/injector/parse/parser.go b/internal/injector/parse/parser.go
index c6dc47d..d53b9ed 100644
--- a/internal/injector/parse/parser.go
+++ b/internal/injector/parse/parser.go
@@ -84,12 +84,27 @@ func (p *Parser) ParseFiles(ctx context.Context, files []string, aspects []*aspe
 			if err != nil {
 				return fmt.Errorf("reading %q: %w", file, err)
 			}
+			p.filesBytesCount.Add(uint64(len(p.rawFiles[idx].content)))
+			return nil
+		})
+	}
+
+	if err := p.wg.Wait(); err != nil {
+		return nil, err
+	}
 
+	// Whether aspects are filtered must not depend on the order in which files are processed, as an
+	// aspect that cannot match on a file may still match on what gets woven into that file.
+	filterAspects := !p.hasApplicableAspects()
+
+	for idx, file := range files {
+		idx, file := idx, file
+		p.wg.Go(func() error {
 			fileAspects := aspects
-			p.filesBytesCount.Add(uint64(len(p.rawFiles[idx].content)))
-			if !p.hasApplicableAspects() {
+			if filterAspects {
 				// While the current package still has a chance to not require all files to be parsed, we can try to filter out
 				// aspects that cannot match on this file before parsing it.
+				var err error
 				fileAspects, err = p.fileFilterAspects(fileAspects, p.rawFiles[idx])
 				if err != nil {
 					return fmt.Errorf("filtering aspects for %q: %w", file, err)
@@ -102,6 +117,7 @@ func (p *Parser) ParseFiles(ctx context.Context, files []string, aspects []*aspe
 			}
 
 			p.mustParseAll.Store(true)
+			var err error
 			p.parsedFiles[idx], err = p.parseFile(ctx, p.rawFiles[idx], fileAspects)
 			return err
 		})
-- 
2.43.0


From e5ed7d03143b887c907bd94f68c10cc3d366439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 27/32] fix: weave the test variants of packages like the
 packages themselves

---
 internal/cmd/toolexec.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/toolexec.go b/internal/cmd/toolexec.go
index 17a647a..a51c17a 100644
--- a/internal/cmd/toolexec.go
+++ b/internal/cmd/toolexec.go
@@ -86,7 +86,10 @@ var Toolexec = &cli.Command{
 		}
 
 		log.Debug().Strs("command", proxyCmd.Args()).Msg("Toolexec original command")
-		weaver := aspect.Weaver{ImportPath: importPath}
+		// Test variants are qualified by the test they are built for (e.g. "example.com/pkg [example.com/pkg.test]"), which
+		// is not part of the import path that join points refer to.
+		wovenPath, _, _ := strings.Cut(importPath, " ")
+		weaver := aspect.Weaver{ImportPath: wovenPath}
 
 		if err := proxy.ProcessCommand(ctx, proxyCmd, weaver.OnCompile); errors.Is(err, proxy.ErrSkipCommand) {
 			log.Trace().Msg("OnCompile processor requested command skipping...")
-- 
2.43.0


From 729e13ca61b5f548395741139bb4e784b29710f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 28/32] fix: build test mains against the packages that their
 tests are linked with

---
 internal/toolexec/aspect/oncompile.go | 8 +++++++-
 internal/toolexec/aspect/resolve.go   | 7 ++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile.go b/internal/toolexec/aspect/oncompile.go
index c634a3a..fe9f379 100644
--- a/internal/toolexec/aspect/oncompile.go
+++ b/internal/toolexec/aspect/oncompile.go
@@ -116,6 +116,12 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 		return err
 	}
 
+	// The dependencies woven into a test main are linked together with the package under test, including its tests.
+	var testVariantFor string
+	if injector.TestMain {
+		testVariantFor = strings.TrimSuffix(w.ImportPath, ".test")
+	}
+
 	references := typed.ReferenceMap{}
 	for gofile, modFile := range results {
 		log.Debug().Str("original", gofile).Str("updated", modFile.Filename).Msg("Replacing argument for modified source code")
@@ -164,7 +170,7 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 		}
 
 		// Imported packages need to be provided in the compilation's importcfg file
-		deps, err := resolvePackageFiles(ctx, depImportPath, cmd.WorkDir)
+		deps, err := resolvePackageFilesForTest(ctx, depImportPath, testVariantFor, cmd.WorkDir)
 		if err != nil {
 			return fmt.Errorf("resolving woven dependency on %s: %w", depImportPath, err)
 		}
diff --git a/internal/toolexec/aspect/resolve.go b/internal/toolexec/aspect/resolve.go
index b49f69e..eee93f6 100644
--- a/internal/toolexec/aspect/resolve.go
+++ b/internal/toolexec/aspect/resolve.go
@@ -20,11 +20,8 @@ import (
 
 // resolvePackageFiles attempts to retrieve the archive for the designated import path. It attempts
 // to locate the archive for `importPath` and its dependencies using `go list`. If that fails, it
-// will try to resolve it using `go get`.
-func resolvePackageFiles(ctx context.Context, importPath string, workDir string) (_ pkgs.ResolveResponse, err error) {
-	return resolvePackageFilesForTest(ctx, importPath, "", workDir)
-}
-
+// will try to resolve it using `go get`. If testVariantFor is not blank, archives are those built
+// for the tests of that package.
 func resolvePackageFilesForTest(ctx context.Context, importPath string, testVariantFor string, workDir string) (_ pkgs.ResolveResponse, err error) {
 	span, ctx := tracer.StartSpanFromContext(ctx, "aspect.resolvePackageFiles",
 		tracer.ResourceName(importPath),
-- 
2.43.0


From 1b91ce7f82593021e8c85ceec115c36bb16b3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 29/32] fix: do not mistake test variants for the packages they
 are variants of when looking for cycles

---
 internal/jobserver/pkgs/resolve.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/jobserver/pkgs/resolve.go b/internal/jobserver/pkgs/resolve.go
index 75d6fe2..2a3f78d 100644
--- a/internal/jobserver/pkgs/resolve.go
+++ b/internal/jobserver/pkgs/resolve.go
@@ -145,10 +145,10 @@ func (s *service) resolve(ctx context.Context, req *ResolveRequest) (ResolveResp
 	if req.toolexecImportpath != "" {
 		// The package being built waits for the one it needs resolved. This must be known before nested builds start, as
 		// these may have to wait for other builds that are in progress, and would not get to make requests of their own.
-		if err := s.graph.AddEdge(req.toolexecImportpath, req.Pattern); err != nil {
+		if err := s.graph.AddEdge(req.toolexecImportpath, req.node()); err != nil {
 			return nil, err
 		}
-		defer s.graph.RemoveEdge(req.toolexecImportpath, req.Pattern)
+		defer s.graph.RemoveEdge(req.toolexecImportpath, req.node())
 	}
 
 	resolved, err := s.resolved.Load(reqHash, func() (_ resolvedPackageSet, err error) {
@@ -162,9 +162,13 @@ func (s *service) resolve(ctx context.Context, req *ResolveRequest) (ResolveResp
 		if err != nil {
 			return resolvedPackageSet{}, err
 		}
+		if err := s.graph.AddEdge(req.node(), ordinaryReq.node()); err != nil {
+			return resolvedPackageSet{}, err
+		}
 		ordinary, err := s.resolved.Load(ordinaryHash, func() (resolvedPackageSet, error) {
 			return loadResolvedPackages(ctx, &ordinaryReq, *log)
 		})
+		s.graph.RemoveEdge(req.node(), ordinaryReq.node())
 		if err != nil {
 			return resolvedPackageSet{}, err
 		}
@@ -262,7 +266,7 @@ func resolveEnvironment(ctx context.Context, req *ResolveRequest) []string {
 	if req.toolexecImportpath != "" {
 		env = append(env, fmt.Sprintf("%s=%s", envVarParentID, req.toolexecImportpath))
 	}
-	env = append(env, fmt.Sprintf("%s=%s", envVarPattern, req.Pattern))
+	env = append(env, fmt.Sprintf("%s=%s", envVarPattern, req.node()))
 	if req.TempDir != "" {
 		env = append(env, fmt.Sprintf("%s=%s", envVarGotmpdir, req.TempDir))
 	}
@@ -277,6 +281,15 @@ func (r *ResolveRequest) canonicalize() {
 	r.canonical = true
 }
 
+// node returns the name of what this request resolves in the graph that is used to detect cycles.
+func (r *ResolveRequest) node() string {
+	if r.TestVariantFor == "" {
+		return r.Pattern
+	}
+	// Resolving a test variant may involve building the package's ordinary variant, so these are not the same.
+	return fmt.Sprintf("%s [%s.test]", r.Pattern, r.TestVariantFor)
+}
+
 func (r *ResolveRequest) hash() (string, error) {
 	hash := sha512.New()
 	encoder := json.NewEncoder(hash)
-- 
2.43.0


From c746bf24af137f3ebbeb3d97f2615629aa155f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 30/32] fix: write the tool file after pruning imports from it

---
 internal/pin/pin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index fb127f3..60fb9f6 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -146,6 +146,9 @@ func PinOrchestrion(ctx context.Context, opts Options) error {
 	if err != nil {
 		return fmt.Errorf("pruning imports from %q: %w", toolFile, err)
 	}
+	if err := writeUpdated(toolFile, dstFile); err != nil {
+		return fmt.Errorf("updating %q: %w", toolFile, err)
+	}
 
 	if pruned {
 		// Run "go mod tidy" to ensure the `go.mod` file is up-to-date with detected dependencies.
-- 
2.43.0


From 8d08418d2098cd08fdc4f44a0d4ad7fceff8ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 31/32] fix: do not prune imports because their configuration
 could not be read

---
 internal/injector/config/config.go | 13 ++++++++++++-
 internal/pin/pin.go                | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/injector/config/config.go b/internal/injector/config/config.go
index 955dd32..f3f9a07 100644
--- a/internal/injector/config/config.go
+++ b/internal/injector/config/config.go
@@ -122,5 +122,16 @@ func (l *Loader) markLoaded(filename string) bool {
 }
 
 func (l *Loader) packages(ctx context.Context, patterns ...string) ([]*packages.Package, error) {
-	return l.pkgLoader(ctx, l.dir, patterns...)
+	pkgs, err := l.pkgLoader(ctx, l.dir, patterns...)
+	if err != nil {
+		return nil, &PackageLoadError{err}
+	}
+	return pkgs, nil
 }
+
+// PackageLoadError is returned if a [PackageLoader] fails, in which case it is not known whether
+// there is any configuration, or whether it is valid.
+type PackageLoadError struct{ err error }
+
+func (e *PackageLoadError) Error() string { return e.err.Error() }
+func (e *PackageLoadError) Unwrap() error { return e.err }
diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 60fb9f6..2f87f3f 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -16,6 +16,7 @@ import (
 	"go/token"
 	goversion "go/version"
 	"io"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"strings"
@@ -312,6 +313,10 @@ func pruneImports(ctx context.Context, importSet *importSet, opts Options) (bool
 	var pruned bool
 	for _, pkg := range pkgs {
 		hasConfig, err := config.HasConfig(ctx, nil, pkg, opts.Validate)
+		if failedToRead(err) {
+			// This does not mean that there is no configuration, nor that it is invalid.
+			return false, fmt.Errorf("checking configuration of %q: %w", pkg.PkgPath, err)
+		}
 		if err != nil {
 			pruned = pruneImport(importSet, pkg.PkgPath, err.Error(), opts) || pruned
 			continue
@@ -327,6 +332,20 @@ func pruneImports(ctx context.Context, importSet *importSet, opts Options) (bool
 	return pruned, nil
 }
 
+// failedToRead determines whether the error is a failure to obtain configuration, rather than due to
+// what it contains.
+func failedToRead(err error) bool {
+	var (
+		pathErr *fs.PathError
+		loadErr *config.PackageLoadError
+	)
+	if errors.As(err, &loadErr) {
+		return true
+	}
+	// Referring to a file which does not exist is a problem of the configuration.
+	return errors.As(err, &pathErr) && !errors.Is(err, fs.ErrNotExist)
+}
+
 // pruneImport prunes a single import from the supplied [*importSet], unless
 // [*Options.NoPrune] is set, in which case it prints a warning using the
 // provided `reason` message.
-- 
2.43.0


From 6e177e82994299a2a8a9e50f37eca16655f460aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 32/32] fix: do not leave a temporary file behind if the tool
 file cannot be written

---
 internal/pin/pin.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 2f87f3f..303900f 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -371,7 +371,7 @@ func pruneImport(importSet *importSet, path string, reason string, opts Options)
 
 // writeUpdated writes the updated AST to the given file, using a temporary file
 // to write the content before renaming it, to maximize atomicity of the update.
-func writeUpdated(filename string, file *dst.File) error {
+func writeUpdated(filename string, file *dst.File) (err error) {
 	var src bytes.Buffer
 	if err := decorator.Fprint(&src, file); err != nil {
 		return fmt.Errorf("formatting source code for %q: %w", filename, err)
@@ -383,6 +383,11 @@ func writeUpdated(filename string, file *dst.File) error {
 	}
 
 	tmpFilename := tmpFile.Name()
+	defer func() {
+		if err != nil {
+			err = errors.Join(err, os.Remove(tmpFilename))
+		}
+	}()
 	if _, err := io.Copy(tmpFile, &src); err != nil {
 		return errors.Join(fmt.Errorf("writing to temporary file %q: %w", tmpFilename, err), tmpFile.Close())
 	}
-- 
2.43.0

