From d29c5d17ae75c0e31519b3955a0abaa747bdf40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 01/53] fix: directive/controller: keep the callback lists
 after removing a callback

The result of removeFromCallbacks was discarded, so releasing a callback left
the last callback of the list registered twice.
---
 directive/controller/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index bf50e72..0d672aa 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -359,12 +359,12 @@ func (i *directiveInstance) handleIdleStateLocked() {
 
 // removeReleaseCallbackLocked removes a release callback while i.c.mtx is locked.
 func (i *directiveInstance) removeReleaseCallbackLocked(cb *callback[func()]) {
-	removeFromCallbacks(i.rels, cb)
+	i.rels = removeFromCallbacks(i.rels, cb)
 }
 
 // removeIdleCallbackLocked removes a idle callback while i.c.mtx is locked.
 func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.IdleCallback]) {
-	removeFromCallbacks(i.idles, cb)
+	i.idles = removeFromCallbacks(i.idles, cb)
 }
 
 // addValueLocked adds a value to the instance while i.c.mtx is locked
-- 
2.43.0


From 287e2958dbf9e095ec4536352e697514d12168c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 02/53] fix: directive/controller: report the idle state once
 the handlers were called

The instance could be reported idle before the initial handlers were called,
and its tracked idle state stayed false when there were no resolvers, so that
callbacks missed the next change or heard the same state twice.
---
 directive/controller/controller.go | 3 ++-
 directive/controller/instance.go   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 30a7243..9f2d452 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -105,12 +105,13 @@ func (c *Controller) AddDirective(
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock() // note: unlocked in Defer above
 
-	di.ready = true
 	if !di.released.Load() {
 		for _, res := range resolvers {
 			di.attachStartResolverLocked(res)
 		}
 	}
+	di.ready = true
+	di.handleIdleStateLocked()
 
 	return di, diRef, nil
 }
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 0d672aa..05145d0 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -334,7 +334,7 @@ func (i *directiveInstance) checkIdleLocked() bool {
 
 // handleIdleStateLocked checks if the idle state of the instance changes & handles that if so.
 func (i *directiveInstance) handleIdleStateLocked() {
-	idle := i.checkIdleLocked()
+	idle := i.ready && i.checkIdleLocked()
 	if i.idle == idle {
 		return
 	}
-- 
2.43.0


From d1d0c596cb8f3ac443f5879cb1f24a4151e271b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 03/53] fix: directive/controller: do not attach resolvers of
 removed handlers or instances

The handler or the instance may be removed while HandleDirective runs without
the lock: the returned resolvers were attached and started anyway and nothing
ever stopped them or withdrew their values.
---
 directive/controller/controller.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 9f2d452..8926b22 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -105,8 +105,9 @@ func (c *Controller) AddDirective(
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock() // note: unlocked in Defer above
 
-	if !di.released.Load() {
-		for _, res := range resolvers {
+	for _, res := range resolvers {
+		// the directive or the handler may have been removed in the meantime
+		if !di.released.Load() && !res.hnd.rel.Load() {
 			di.attachStartResolverLocked(res)
 		}
 	}
@@ -164,7 +165,10 @@ func (c *Controller) addHandlerLocked(handler directive.Handler) (func(), error)
 	// attach returned resolvers while mtx is locked
 	c.mtx.Lock()
 	for i, res := range resolvers {
-		dis[i].attachStartResolverLocked(res)
+		// the directive may have been removed in the meantime
+		if !dis[i].released.Load() {
+			dis[i].attachStartResolverLocked(res)
+		}
 	}
 	relHandler := func() {
 		if !hnd.rel.Swap(true) {
-- 
2.43.0


From 666dff764f4db8fca8b01075f13c5ab090f0838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 04/53] fix: directive/controller: tolerate list changes while
 callbacks are called

Removing an instance or resolver calls callbacks with the mutex unlocked, so
the lists can change underneath the loops that remove them: elements were
skipped, or indexes ran out of range.
---
 directive/controller/controller.go | 8 ++++++--
 directive/controller/instance.go   | 7 +++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/directive/controller/controller.go b/directive/controller/controller.go
index 8926b22..36e9c5c 100644
--- a/directive/controller/controller.go
+++ b/directive/controller/controller.go
@@ -63,13 +63,16 @@ func (c *Controller) AddDirective(
 
 	// Check if any equivalent directives exist, if applicable.
 	if eqDir, eqDirOk := dir.(directive.DirectiveWithEquiv); eqDirOk {
-		for diIdx, di := range c.dir {
+		for diIdx := 0; diIdx < len(c.dir); diIdx++ {
+			di := c.dir[diIdx]
 			if !di.released.Load() && eqDir.IsEquivalent(di.dir) {
 				// Directive is equivalent to di.
 				spDir, spDirOk := eqDir.(directive.DirectiveWithSuperceeds)
 				if spDirOk && spDir.Superceeds(di.dir) {
 					// Remove the other directive (superceed it)
 					di.removeLocked(diIdx)
+					// c.mtx may have been unlocked: check the list again
+					diIdx = -1
 				} else {
 					// Add a reference to the other directive & return.
 					return di, di.addReferenceLocked(ref, false), nil
@@ -202,7 +205,8 @@ func (c *Controller) removeHandlerLocked(hnd *handler) bool {
 		return false
 	}
 	// cancel all resolvers associated with the handler
-	for _, di := range c.dir {
+	// note: c.mtx may be unlocked while callbacks are called
+	for _, di := range slices.Clone(c.dir) {
 		di.removeHandlerLocked(hnd)
 	}
 	return true
diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 05145d0..37e05ce 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -693,11 +693,10 @@ func (i *directiveInstance) removeLocked(diIdx int) {
 // removeHandlerLocked removes all resolvers associated with the handler.
 // caller locks c.mtx
 func (i *directiveInstance) removeHandlerLocked(hnd *handler) {
-	for idx := 0; idx < len(i.res); idx++ {
-		res := i.res[idx]
+	// note: c.mtx may be unlocked while callbacks are called
+	for _, res := range slices.Clone(i.res) {
 		if res.hnd == hnd {
-			i.removeResolverLocked(idx, res)
-			idx--
+			i.removeResolverLocked(-1, res)
 		}
 	}
 }
-- 
2.43.0


From d4e2d01a4f9edf8958a3e029e1bb87746834e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 05/53] fix: directive/controller: never run two activations of
 a resolver at once

A routine canceled while waiting for the previous one exited early, and the
routine waiting for it started while the first one was still running.
---
 directive/controller/resolver-handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive/controller/resolver-handler.go b/directive/controller/resolver-handler.go
index 0172199..5535d29 100644
--- a/directive/controller/resolver-handler.go
+++ b/directive/controller/resolver-handler.go
@@ -172,10 +172,10 @@ func (r *resolverHandler) AddResolver(res directive.Resolver, removedCb func())
 func (r *resolverHandler) executeResolver(ctx context.Context, exitedCh chan<- struct{}, waitCh <-chan struct{}) {
 	defer close(exitedCh)
 	if waitCh != nil {
-		select {
-		case <-ctx.Done():
+		// always wait: the next routine only waits for this one
+		<-waitCh
+		if ctx.Err() != nil {
 			return
-		case <-waitCh:
 		}
 	}
 
-- 
2.43.0


From 94c4a41275ce60b739e3485c81c7e0e72584ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 06/53] fix: directive/controller: call idle callbacks after
 resolvers were updated

Idle callbacks are called with the mutex unlocked. They were called while
resolvers were half updated, so that a resolver removed meanwhile was started
again, resolvers were stopped although the instance was no longer full, and a
reference added meanwhile was told of removed values it never received.
---
 directive/controller/instance.go | 9 +++++++--
 directive/controller/resolver.go | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 37e05ce..7431f8e 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -284,11 +284,11 @@ func (i *directiveInstance) handleFullLocked() {
 		if res.idle {
 			continue
 		}
+		// idle callbacks are called below, after all resolvers were updated
+		res.idle = true
 		if !res.exited && len(res.vals) == 0 {
 			res.stopped = true
 			res.updateContextLocked(nil)
-		} else {
-			res.idle = true
 		}
 	}
 
@@ -306,9 +306,12 @@ func (i *directiveInstance) handleNotFullLocked() {
 	// restart resolvers that exited with errors and/or were killed
 	for _, res := range i.res {
 		if (res.exited && res.err != nil) || res.stopped {
+			// idle callbacks are called below, after all resolvers were updated
+			res.idle = false
 			res.updateContextLocked(&i.ctx)
 		}
 	}
+	i.handleIdleStateLocked()
 }
 
 // checkFullLocked checks if we have reached the maximum value cap.
@@ -716,6 +719,8 @@ func (i *directiveInstance) removeResolverLocked(resIdx int, rres *resolver) {
 	// remove the resolver from the list
 	i.res = append(i.res[:resIdx], i.res[resIdx+1:]...)
 	// cancel the resolver
+	// idle callbacks are called below, after the values were removed
+	rres.idle = true
 	rres.updateContextLocked(nil)
 	// remove values associated with the resolver
 	vals := rres.vals
diff --git a/directive/controller/resolver.go b/directive/controller/resolver.go
index 64306e6..4489089 100644
--- a/directive/controller/resolver.go
+++ b/directive/controller/resolver.go
@@ -73,10 +73,11 @@ func (r *resolver) updateContextLocked(ctx *context.Context) {
 		r.exitedCh = exitedCh
 		r.err = nil
 		r.exited, r.stopped = false, false
-		r.setIdleLocked(false)
 		r.ctx, r.ctxCancel = context.WithCancel(*ctx)
 		hnd := &resolverHandler{r: r, ctx: r.ctx}
 		go hnd.executeResolver(r.ctx, exitedCh, waitCh)
+		// may unlock di.c.mtx to call callbacks
+		r.setIdleLocked(false)
 	}
 }
 
-- 
2.43.0


From bdb6b13fab98c8f7a5a264464172a86522e78b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 07/53] fix: directive/controller: start resolvers attached at
 the value cap later

A resolver attached while the instance was full was never started, not even
once the instance dropped below the cap.
---
 directive/controller/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 7431f8e..ac05802 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -621,7 +621,7 @@ func (i *directiveInstance) callHandlerUnlocked(handler *handler) (res []*resolv
 func (i *directiveInstance) attachStartResolverLocked(res *resolver) {
 	i.res = append(i.res, res)
 	if i.full {
-		res.idle = true
+		res.idle, res.stopped = true, true
 		res.updateContextLocked(nil)
 	} else {
 		res.updateContextLocked(&i.ctx)
-- 
2.43.0


From d638760b815d3d8e87c989976434454855b4d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 08/53] fix: directive/controller: tell new idle callbacks the
 tracked idle state

While callbacks are called the counted state can be ahead of the tracked one:
a callback added then heard the same state twice.
---
 directive/controller/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index ac05802..379abe1 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -546,7 +546,7 @@ func (i *directiveInstance) AddIdleCallback(cb directive.IdleCallback) func() {
 
 	rel := newCallback(cb)
 	i.idles = append(i.idles, rel)
-	isIdle := i.ready && i.checkIdleLocked()
+	isIdle := i.idle
 	errs := i.getResolverErrsLocked()
 	i.callCallbacksLocked(func() {
 		cb(isIdle, errs)
-- 
2.43.0


From cff4c3f6487d9902e79cd121df9e3a77966eb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 09/53] fix: bus: keep the first error of a one-off directive

The idle callback overwrote the error of the filter callback and the disposal
error, so that ExecOneOff returned a later value or waited forever.
---
 bus/oneoff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index 9046859..b051839 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -163,7 +163,10 @@ func ExecOneOffWithFilter(
 		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 			// idle or errors list changed
 			idle = isIdle
-			wait, resErr = idleCb(idle, errs)
+			// keep the first error
+			if resErr == nil {
+				wait, resErr = idleCb(idle, errs)
+			}
 			broadcast()
 		})
 	})()
-- 
2.43.0


From 62b43d42d100c00c3dfd6f496c93d327be481746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 10/53] fix: bus: do not read the transformed value while it is
 written

When ExecOneOffWithFilter returns an error or no value, the transform callback
can still be running and write the result that was being returned.
---
 bus/oneoff.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bus/oneoff.go b/bus/oneoff.go
index b051839..f1fac49 100644
--- a/bus/oneoff.go
+++ b/bus/oneoff.go
@@ -301,6 +301,10 @@ func ExecOneOffWithXfrm(
 			return true, nil
 		},
 	)
+	if err != nil || av == nil {
+		// note: xfrmCb might still be running in this case.
+		return nil, av, di, ref, err
+	}
 	return xfrm, av, di, ref, err
 }
 
@@ -342,9 +346,9 @@ func ExecOneOffWithXfrmTyped[T, R directive.ComparableValue](
 		},
 	)
 	if err != nil || av == nil {
-		// ensure xfrm is empty too
+		// note: xfrmCb might still be running in this case.
 		var empty R
-		xfrm = empty
+		return empty, av, di, ref, err
 	}
 	return xfrm, av, di, ref, err
 }
-- 
2.43.0


From b5235594ffc539c719b610ddd04882273c738129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 11/53] fix: bus: sort watched values by id

The difference of two uint32 ids is never negative: values arriving out of
order were not sorted, so the value with the lowest id was not selected.
---
 bus/watch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bus/watch.go b/bus/watch.go
index 33e7193..9424a76 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -1,6 +1,7 @@
 package bus
 
 import (
+	"cmp"
 	"context"
 	"slices"
 	"sync"
@@ -159,7 +160,7 @@ func ExecOneOffWatchSelectCb[T directive.ComparableValue](
 				tav := directive.NewTypedAttachedValue(vid, val)
 				sortedVals = append(sortedVals, tav)
 				slices.SortFunc(sortedVals, func(a, b directive.TypedAttachedValue[T]) int {
-					return int(a.GetValueID() - b.GetValueID())
+					return cmp.Compare(a.GetValueID(), b.GetValueID())
 				})
 				selectNextValue()
 			},
@@ -468,7 +469,7 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 	var xfrmVals []directive.TransformedAttachedValue[T, E]
 	sortXfrmVals := func() {
 		slices.SortFunc(xfrmVals, func(a, b directive.TransformedAttachedValue[T, E]) int {
-			return int(a.GetValueID() - b.GetValueID())
+			return cmp.Compare(a.GetValueID(), b.GetValueID())
 		})
 	}
 
-- 
2.43.0


From 0224f8a9bdd8aa93f139d4e8ccd8a4ddccf0d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 12/53] fix: bus: select another value when the selected one is
 removed

ExecOneOffWatchTransformEffect left no value selected until a new value was
added, although other values were still there to select from.
---
 bus/watch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bus/watch.go b/bus/watch.go
index 9424a76..17a0c47 100644
--- a/bus/watch.go
+++ b/bus/watch.go
@@ -519,6 +519,10 @@ func ExecOneOffWatchTransformEffect[T, E directive.ComparableValue](
 							effectRel()
 							effectRel = nil
 						}
+						// select the next value, if any
+						if len(xfrmVals) != 0 {
+							maybeCallEffect()
+						}
 					}
 				}
 				mtx.Unlock()
-- 
2.43.0


From 311ea917bc42575450ca7ae4b17111b8509be21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 13/53] fix: bus/inmem: recover controllers that panic

recover() was called one call below the deferred function, where it returns
nil: a panic in Execute terminated the process.
---
 bus/inmem/inmem.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 1765cfa..68b4c9d 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -57,7 +57,8 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	go func() {
 		var err error
 		defer func() {
-			b.handleControllerPanic(&err)
+			// note: recover must be called directly by the deferred function
+			b.handleControllerPanic(recover(), &err)
 			if err != nil {
 				subCtxCancel()
 				b.removeController(ctrl)
@@ -71,9 +72,9 @@ func (b *Bus) AddController(ctx context.Context, ctrl controller.Controller, cb
 	return relFunc, nil
 }
 
-// handleControllerPanic handles recover for a paniced controller.
-func (b *Bus) handleControllerPanic(outErr *error) {
-	if rerr := recover(); rerr != nil {
+// handleControllerPanic handles the recovered value of a paniced controller.
+func (b *Bus) handleControllerPanic(rerr any, outErr *error) {
+	if rerr != nil {
 		debug.PrintStack()
 		e, eOk := rerr.(error)
 		if eOk {
@@ -96,7 +97,8 @@ func (b *Bus) ExecuteController(ctx context.Context, c controller.Controller) (e
 	}
 
 	defer func() {
-		b.handleControllerPanic(&err)
+		// note: recover must be called directly by the deferred function
+		b.handleControllerPanic(recover(), &err)
 		if err != nil {
 			b.removeController(c)
 		}
-- 
2.43.0


From 6dcf42f280436e62f9d51fb4faebcaa2c6fa4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 14/53] fix: bus/inmem: call handlers and callbacks without
 holding the mutex

AddHandler and the handler release call directive handlers and reference
callbacks: those that list, add or remove controllers deadlocked on the mutex
of the bus held meanwhile.
---
 bus/inmem/controller.go |  3 +++
 bus/inmem/inmem.go      | 31 ++++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/bus/inmem/controller.go b/bus/inmem/controller.go
index 12e9fab..29659f4 100644
--- a/bus/inmem/controller.go
+++ b/bus/inmem/controller.go
@@ -7,5 +7,8 @@ type attachedCtrl struct {
 	// ctrl is the controller
 	ctrl controller.Controller
 	// rel releases the controller
+	// nil while the handler is being added
 	rel func()
+	// removed indicates the controller was removed
+	removed bool
 }
diff --git a/bus/inmem/inmem.go b/bus/inmem/inmem.go
index 68b4c9d..afe05b4 100644
--- a/bus/inmem/inmem.go
+++ b/bus/inmem/inmem.go
@@ -114,31 +114,48 @@ func (b *Bus) RemoveController(c controller.Controller) {
 
 // addController adds a controller to the bus
 func (b *Bus) addController(c controller.Controller) error {
+	ac := &attachedCtrl{ctrl: c}
 	b.mtx.Lock()
+	b.controllers = append(b.controllers, ac)
+	b.mtx.Unlock()
+
+	// note: calls the directive handlers, which may call the bus
 	rel, err := b.AddHandler(c)
-	if err == nil {
-		b.controllers = append(b.controllers, &attachedCtrl{
-			ctrl: c,
-			rel:  rel,
-		})
+	if err != nil {
+		b.removeController(c)
+		return err
 	}
+
+	b.mtx.Lock()
+	removed := ac.removed
+	ac.rel = rel
 	b.mtx.Unlock()
-	return err
+	if removed {
+		// removed while adding the handler
+		rel()
+	}
+	return nil
 }
 
 // removeController removes a controller from the bus
 func (b *Bus) removeController(c controller.Controller) {
+	var rel func()
 	b.mtx.Lock()
 	for i, ci := range b.controllers {
 		if ci.ctrl == c {
 			b.controllers[i] = b.controllers[len(b.controllers)-1]
 			b.controllers[len(b.controllers)-1] = nil
 			b.controllers = b.controllers[:len(b.controllers)-1]
-			ci.rel()
+			ci.removed = true
+			rel = ci.rel
 			break
 		}
 	}
 	b.mtx.Unlock()
+	// note: calls the directive callbacks, which may call the bus
+	if rel != nil {
+		rel()
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From b037fa2a1aac25c3c3d6148af0f281d9363aac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 15/53] fix: resolver/static: lock the factory map in
 GetFactories

---
 controller/resolver/static/resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller/resolver/static/resolver.go b/controller/resolver/static/resolver.go
index 4fff0a0..888c5ce 100644
--- a/controller/resolver/static/resolver.go
+++ b/controller/resolver/static/resolver.go
@@ -69,7 +69,9 @@ func (r *Resolver) AddFactory(factory controller.Factory) {
 
 // GetFactories returns the factories associated w/ the resolver.
 func (r *Resolver) GetFactories() []controller.Factory {
+	r.factoryMtx.Lock()
 	vals := slices.Collect(maps.Values(r.factories))
+	r.factoryMtx.Unlock()
 	slices.SortFunc(vals, func(a, b controller.Factory) int {
 		return strings.Compare(a.GetConfigID(), b.GetConfigID())
 	})
-- 
2.43.0


From 98bdb99bcb8b76dc61a22a1060829dad641edd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 16/53] fix: loader: WaitExecControllerRunning: call dispose if
 the controller leaves RUNNING

---
 controller/loader/ex-load-controller.go | 64 +++++++++++++++++++------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index fe2691e..3540c2b 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -3,6 +3,8 @@ package loader
 import (
 	"context"
 	"errors"
+	"slices"
+	"sync"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -19,29 +21,52 @@ func WaitExecControllerRunning(
 	disposeCb func(),
 ) (controller.Controller, directive.Instance, directive.Reference, error) {
 	subCtx, subCtxCancel := context.WithCancel(ctx)
+	var disposeOnce sync.Once
 	dispose := func() {
 		subCtxCancel()
 		if disposeCb != nil {
-			disposeCb()
+			disposeOnce.Do(disposeCb)
 		}
 	}
 	defer subCtxCancel()
 
-	execValueCh := make(chan ExecControllerValue, 1)
+	// mtx guards below fields
+	var mtx sync.Mutex
+	// pending contains the added values, without removed controller values.
+	var pending []directive.AttachedValue
+	// returnedID is the id of the returned value, if any.
+	var returnedID uint32
+
+	wakeCh := make(chan struct{}, 1)
 	di, diRef, err := b.AddDirective(dir, bus.NewCallbackHandler(
 		func(av directive.AttachedValue) {
 			retVal, _ := av.GetValue().(ExecControllerValue)
 			if retVal != nil {
+				mtx.Lock()
+				pending = append(pending, av)
+				mtx.Unlock()
 				select {
-				case <-execValueCh:
-				default:
-				}
-				select {
-				case execValueCh <- retVal:
+				case wakeCh <- struct{}{}:
 				default:
 				}
 			}
-		}, nil, dispose,
+		}, func(av directive.AttachedValue) {
+			retVal, _ := av.GetValue().(ExecControllerValue)
+			if retVal == nil || retVal.GetError() != nil {
+				return
+			}
+			mtx.Lock()
+			vid := av.GetValueID()
+			pending = slices.DeleteFunc(pending, func(v directive.AttachedValue) bool {
+				return v.GetValueID() == vid
+			})
+			returned := returnedID != 0 && returnedID == vid
+			mtx.Unlock()
+			if returned {
+				// the controller left the running state
+				dispose()
+			}
+		}, dispose,
 	))
 	if err != nil {
 		return nil, nil, nil, err
@@ -52,14 +77,23 @@ func WaitExecControllerRunning(
 		case <-subCtx.Done():
 			diRef.Release()
 			return nil, nil, nil, subCtx.Err()
-		case val := <-execValueCh:
-			if err := val.GetError(); err != nil {
-				diRef.Release()
-				return nil, nil, nil, err
-			}
-			if ctrl := val.GetController(); ctrl != nil {
-				return ctrl, di, diRef, nil
+		case <-wakeCh:
+			// check the most recently added values first
+			mtx.Lock()
+			for i := len(pending) - 1; i >= 0; i-- {
+				val, _ := pending[i].GetValue().(ExecControllerValue)
+				if err := val.GetError(); err != nil {
+					mtx.Unlock()
+					diRef.Release()
+					return nil, nil, nil, err
+				}
+				if ctrl := val.GetController(); ctrl != nil {
+					returnedID = pending[i].GetValueID()
+					mtx.Unlock()
+					return ctrl, di, diRef, nil
+				}
 			}
+			mtx.Unlock()
 		}
 	}
 }
-- 
2.43.0


From 944e4816b8b0a69bf07e4186177271fb28bc6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 17/53] fix: loader: stop the controller when the resolver is
 removed

---
 controller/loader/loader-resolve.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index f586179..4fc7621 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -155,7 +155,8 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 
 		// run execute
 		le.Debug("starting controller")
-		execErr := bus.ExecuteController(c.ctx, ci)
+		// note: the directive context is not canceled when the handler is removed
+		execErr := bus.ExecuteController(ctx, ci)
 
 		le := le.WithField("exec-dur", time.Since(t1).String())
 		ctxCanceled := ctx.Err() != nil
-- 
2.43.0


From f8ef2fbdd53e94b26b2ea4f6c1f20617db0f3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 18/53] fix: loader: retry without a time limit with the
 default backoff

---
 controller/loader/loader-resolve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index 4fc7621..ac2f1a8 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -34,7 +34,9 @@ func newExecBackoff() backoff.BackOff {
 	ebo.InitialInterval = time.Millisecond * 100
 	ebo.Multiplier = 1.8
 	ebo.MaxInterval = time.Second * 2
-	// ebo.MaxElapsedTime = time.Minute
+	// note: the elapsed time includes the time the controller was running
+	// retry without a time limit
+	ebo.MaxElapsedTime = 0
 	return ebo
 }
 
-- 
2.43.0


From c3dd79278654df502944b247e5330b396603eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 19/53] fix: resolver: release values of
 LoadControllerWithConfig when the resolver is removed

---
 bus/passthru.go                             | 30 ++++++++++++++++++---
 controller/resolver/res-load-with-config.go |  8 ++++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/bus/passthru.go b/bus/passthru.go
index 98cf068..0a5b7dc 100644
--- a/bus/passthru.go
+++ b/bus/passthru.go
@@ -1,14 +1,21 @@
 package bus
 
 import (
+	"sync"
+
 	"github.com/aperturerobotics/controllerbus/directive"
 )
 
 // PassThruHandler is a reference handler that passes through to a resolver handler.
 type PassThruHandler struct {
 	handler   directive.ResolverHandler
-	idMapping map[uint32]uint32
 	disposeCb func()
+
+	// mtx guards below fields
+	// not held while calling handler or disposeCb
+	mtx       sync.Mutex
+	idMapping map[uint32]uint32
+	disposed  bool
 }
 
 // NewPassThruHandler builds a new pass-through handler.
@@ -30,9 +37,19 @@ func (h *PassThruHandler) HandleValueAdded(
 ) {
 	if h.handler != nil {
 		id, accepted := h.handler.AddValue(v.GetValue())
-		if accepted {
+		if !accepted {
+			return
+		}
+		h.mtx.Lock()
+		disposed := h.disposed
+		if !disposed {
 			h.idMapping[v.GetValueID()] = id
 		}
+		h.mtx.Unlock()
+		if disposed {
+			// disposed while adding the value
+			_, _ = h.handler.RemoveValue(id)
+		}
 	}
 }
 
@@ -42,7 +59,10 @@ func (h *PassThruHandler) HandleValueRemoved(
 	v directive.AttachedValue,
 ) {
 	if h.handler != nil {
+		h.mtx.Lock()
 		mapping, ok := h.idMapping[v.GetValueID()]
+		delete(h.idMapping, v.GetValueID())
+		h.mtx.Unlock()
 		if ok {
 			_, _ = h.handler.RemoveValue(mapping)
 		}
@@ -52,8 +72,12 @@ func (h *PassThruHandler) HandleValueRemoved(
 // HandleInstanceDisposed is called when a directive instance is disposed.
 // This will occur if Close() is called on the directive instance.
 func (h *PassThruHandler) HandleInstanceDisposed(di directive.Instance) {
+	h.mtx.Lock()
+	idMapping := h.idMapping
+	h.idMapping, h.disposed = nil, true
+	h.mtx.Unlock()
 	if h.handler != nil {
-		for _, valID := range h.idMapping {
+		for _, valID := range idMapping {
 			_, _ = h.handler.RemoveValue(valID)
 		}
 	}
diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 0140231..46c0c94 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,11 +70,13 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	valCtx, valCtxCancel := context.WithCancel(r.ctx)
+	// note: the directive context is not canceled when the handler is removed
+	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecController(factory, conf)
 
 	// pass through all values.
-	_, execRef, err := r.bus.AddDirective(execDir, bus.NewPassThruHandler(vh, valCtxCancel))
+	passThru := bus.NewPassThruHandler(vh, valCtxCancel)
+	execInst, execRef, err := r.bus.AddDirective(execDir, passThru)
 	if err != nil {
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
@@ -101,6 +103,8 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		}
 		valCtxCancel()
 		execRef.Release()
+		// note: a released reference is not told that the values are removed
+		passThru.HandleInstanceDisposed(execInst)
 		if factoryRef != nil {
 			factoryRef.Release()
 		}
-- 
2.43.0


From ecef2ee12e0356b0fc44d08d89d112c38105174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 20/53] fix: resolver: use the retry backoff of
 LoadControllerWithConfig

---
 controller/resolver/res-load-with-config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 46c0c94..8a0ff40 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -72,7 +72,12 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 
 	// note: the directive context is not canceled when the handler is removed
 	valCtx, valCtxCancel := context.WithCancel(ctx)
-	execDir := loader.NewExecController(factory, conf)
+	execDir := loader.NewExecControllerWithOpts(
+		factory,
+		conf,
+		r.dir.GetExecControllerRetryBackoff(),
+		directive.ValueOptions{},
+	)
 
 	// pass through all values.
 	passThru := bus.NewPassThruHandler(vh, valCtxCancel)
-- 
2.43.0


From c304118084837c79715012f566865a6075b3858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 21/53] fix: configset: state callback of a reference to a key
 not yet applied

AddStateCallback dereferenced the nil running controller of a reference
to a key without a config, so LookupConfigSet of such a key panicked.
---
 controller/configset/controller/running-ctrl-ref.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index 37b4837..c012af6 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -50,9 +50,8 @@ func (r *runningControllerRef) GetState() configset.State {
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
 	r.mtx.Lock()
 	r.cbs = append(r.cbs, cb)
-	rc := r.rc
 	r.mtx.Unlock()
-	cb(rc.GetState())
+	cb(r.GetState())
 }
 
 // GetRunningController gets the running controller.
-- 
2.43.0


From 9aef78256df9d292354484156816f33d7ed3bf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 22/53] fix: configset: apply a new config after an invalid one

The running controller did not load the new config when it replaced an
invalid one, and re-validated the invalid config forever.
---
 controller/configset/controller/running-ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index 71be896..a6eec8f 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -90,6 +90,9 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 			case <-c.confRestartCh:
 				c.le.Info("restarting with new config")
 			}
+			c.mtx.Lock()
+			conf = c.conf
+			c.mtx.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 5f329a85c7937098f4342521581a5c40fa265760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 23/53] fix: configset: collect unreferenced controllers that
 were not started yet

A controller pushed and released before the configset controller woke was
started without any reference and ran until the next change.
---
 controller/configset/controller/controller.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/controller/configset/controller/controller.go b/controller/configset/controller/controller.go
index ef99228..4a0b9ca 100644
--- a/controller/configset/controller/controller.go
+++ b/controller/configset/controller/controller.go
@@ -60,17 +60,15 @@ ExecLoop:
 		}
 
 		c.mtx.Lock()
-		for k, cancel := range execControllers {
-			cv, ok := c.controllers[k]
-			if ok {
-				cv.mtx.Lock()
-				if len(cv.refs) == 0 { // garbage collect
-					delete(c.controllers, k)
-					ok = false
-				}
-				cv.mtx.Unlock()
+		for k, cv := range c.controllers {
+			cv.mtx.Lock()
+			if len(cv.refs) == 0 { // garbage collect
+				delete(c.controllers, k)
 			}
-			if !ok {
+			cv.mtx.Unlock()
+		}
+		for k, cancel := range execControllers {
+			if _, ok := c.controllers[k]; !ok {
 				cancel()
 				delete(execControllers, k)
 			}
-- 
2.43.0


From 9422a7de7379755840971a629789edf4e9d53598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 24/53] fix: configset: deadlock and leak when a directive ends
 as a state changes

The resolvers released their references with refsMtx locked, which waits
for the running controller, while the running controller waits for refsMtx
in the state callback. A reference added after the release was never
released.
---
 .../configset/controller/apply-config-set.go   | 18 ++++++++++++++----
 .../configset/controller/lookup-config-set.go  | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/controller/configset/controller/apply-config-set.go b/controller/configset/controller/apply-config-set.go
index 985bc55..a36e725 100644
--- a/controller/configset/controller/apply-config-set.go
+++ b/controller/configset/controller/apply-config-set.go
@@ -22,6 +22,7 @@ type applyConfigSetResolver struct {
 	// refsMtx guards refs
 	refsMtx sync.Mutex
 	// refs are the references
+	// nil once the references were released
 	refs map[configset.Reference]uint32
 }
 
@@ -82,8 +83,15 @@ func (r *applyConfigSetResolver) Resolve(
 
 		// Add reference to running instance
 		r.refsMtx.Lock()
-		r.refs[ref] = 0
+		released := r.refs == nil
+		if !released {
+			r.refs[ref] = 0
+		}
 		r.refsMtx.Unlock()
+		if released {
+			ref.Release()
+			return context.Canceled
+		}
 		ref.AddStateCallback(func(st configset.State) {
 			r.refsMtx.Lock()
 			v, vOk := r.refs[ref]
@@ -112,11 +120,13 @@ func (r *applyConfigSetResolver) Resolve(
 func (r *applyConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = nil
+	r.refsMtx.Unlock()
+	// refsMtx is locked by the state callbacks: release without it.
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
diff --git a/controller/configset/controller/lookup-config-set.go b/controller/configset/controller/lookup-config-set.go
index 06ab097..1de4db9 100644
--- a/controller/configset/controller/lookup-config-set.go
+++ b/controller/configset/controller/lookup-config-set.go
@@ -22,6 +22,7 @@ type lookupConfigSetResolver struct {
 	// refsMtx guards refs
 	refsMtx sync.Mutex
 	// refs are the references
+	// nil once the references were released
 	refs map[configset.Reference]uint32
 }
 
@@ -82,8 +83,15 @@ func (r *lookupConfigSetResolver) Resolve(
 		}
 
 		r.refsMtx.Lock()
-		r.refs[ref] = 0
+		released := r.refs == nil
+		if !released {
+			r.refs[ref] = 0
+		}
 		r.refsMtx.Unlock()
+		if released {
+			ref.Release()
+			return context.Canceled
+		}
 		ref.AddStateCallback(func(st configset.State) {
 			r.refsMtx.Lock()
 			v, vOk := r.refs[ref]
@@ -112,11 +120,13 @@ func (r *lookupConfigSetResolver) Resolve(
 func (r *lookupConfigSetResolver) waitCleanupRefs(ctx context.Context) {
 	<-ctx.Done()
 	r.refsMtx.Lock()
-	for ref := range r.refs {
+	refs := r.refs
+	r.refs = nil
+	r.refsMtx.Unlock()
+	// refsMtx is locked by the state callbacks: release without it.
+	for ref := range refs {
 		ref.Release()
-		delete(r.refs, ref)
 	}
-	r.refsMtx.Unlock()
 }
 
 // _ is a type assertion
-- 
2.43.0


From b107ba7fb58ffb78b2c6cd769a1342da9d8d240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 25/53] fix: configset: reference released while a config is
 applied to it

Release read the running controller without a lock, and a reference to be
applied could be added to the running controller after it was released or
miss the state pushed in between. The controller then never stopped.
---
 controller/configset/controller/running-ctrl-ref.go | 12 +++++++++---
 controller/configset/controller/running-ctrl.go     |  7 +------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index c012af6..b5fe5e2 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -14,6 +14,7 @@ type runningControllerRef struct {
 	mtx sync.Mutex
 	cbs []func(configset.State)
 	rc  *runningController // may be nil
+	rel bool               // released
 
 	relOnce sync.Once
 }
@@ -64,10 +65,11 @@ func (r *runningControllerRef) GetRunningController() *runningController {
 
 // setRunningController updates the running controller.
 // use ApplyReference
+// mtx of rc should be locked by caller
 func (r *runningControllerRef) setRunningController(rc *runningController, st configset.State) bool {
 	var updated bool
 	r.mtx.Lock()
-	if r.rc != rc {
+	if r.rc != rc && !r.rel {
 		r.rc = rc
 		updated = true
 		for _, cb := range r.cbs { // r.rc.pushState(st)
@@ -90,8 +92,12 @@ func (r *runningControllerRef) pushState(st configset.State) {
 // Release releases the reference.
 func (r *runningControllerRef) Release() {
 	r.relOnce.Do(func() {
-		if r.rc != nil {
-			r.rc.DelReference(r)
+		r.mtx.Lock()
+		r.rel = true
+		rc := r.rc
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.DelReference(r)
 		}
 		if cb := r.relInternalCallback; cb != nil {
 			go r.relInternalCallback()
diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index a6eec8f..a4d9900 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -185,17 +185,12 @@ func (c *runningController) AddReference(ref *runningControllerRef) {
 
 // ApplyReference applies an existing reference to the running controller.
 func (c *runningController) ApplyReference(ref *runningControllerRef) {
-	if ref.GetRunningController() == c {
-		return
-	}
 	c.mtx.Lock()
 	st := c.state
-	c.mtx.Unlock()
 	if ref.setRunningController(c, &st) {
-		c.mtx.Lock()
 		c.refs = append(c.refs, ref)
-		c.mtx.Unlock()
 	}
+	c.mtx.Unlock()
 }
 
 // DelReference removes a reference from the running controller.
-- 
2.43.0


From bea3ec9e955a6ed7952e8db357402189c835a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 26/53] fix: configset: initial state delivered after a newer
 state

AddStateCallback called the callback with the initial state without a lock,
so the callback could end with a state older than the current one.
---
 .../configset/controller/running-ctrl-ref.go  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/controller/configset/controller/running-ctrl-ref.go b/controller/configset/controller/running-ctrl-ref.go
index b5fe5e2..a600742 100644
--- a/controller/configset/controller/running-ctrl-ref.go
+++ b/controller/configset/controller/running-ctrl-ref.go
@@ -49,10 +49,30 @@ func (r *runningControllerRef) GetState() configset.State {
 // Should not block.
 // Will be called with the initial state.
 func (r *runningControllerRef) AddStateCallback(cb func(configset.State)) {
-	r.mtx.Lock()
-	r.cbs = append(r.cbs, cb)
-	r.mtx.Unlock()
-	cb(r.GetState())
+	for {
+		rc := r.GetRunningController()
+		// lock the state so that no state is pushed before the initial state.
+		if rc != nil {
+			rc.mtx.Lock()
+		}
+		r.mtx.Lock()
+		match := r.rc == rc
+		if match {
+			r.cbs = append(r.cbs, cb)
+			st := runningControllerState{id: r.id}
+			if rc != nil {
+				st = rc.state
+			}
+			cb(&st)
+		}
+		r.mtx.Unlock()
+		if rc != nil {
+			rc.mtx.Unlock()
+		}
+		if match {
+			return
+		}
+	}
 }
 
 // GetRunningController gets the running controller.
-- 
2.43.0


From fd97c0dd5bfc9cce8146f4c557adcecba2b3edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 27/53] fix: configset: state of a new config with the error of
 the old one

---
 controller/configset/controller/running-ctrl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller/configset/controller/running-ctrl.go b/controller/configset/controller/running-ctrl.go
index a4d9900..ac6f434 100644
--- a/controller/configset/controller/running-ctrl.go
+++ b/controller/configset/controller/running-ctrl.go
@@ -154,6 +154,7 @@ func (c *runningController) Execute(ctx context.Context) (rerr error) {
 		conf = c.conf
 		if c.state.ctrl != nil || c.state.conf != conf {
 			c.state.ctrl = nil
+			c.state.err = nil
 			c.state.conf = conf
 			s := c.state
 			c.pushState(&s)
-- 
2.43.0


From 36dea9e44cdcac149e0c85f96b62fb1039fce7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 28/53] fix: configset: null entry of a JSON or YAML config set
 crashes the bus

---
 controller/configset/json/controller-config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/configset/json/controller-config.go b/controller/configset/json/controller-config.go
index e1d4504..91eb8be 100644
--- a/controller/configset/json/controller-config.go
+++ b/controller/configset/json/controller-config.go
@@ -47,7 +47,7 @@ func (c *ControllerConfig) GetRev() uint64 {
 // Resolve resolves the config into a configset.ControllerConfig
 func (c *ControllerConfig) Resolve(ctx context.Context, b bus.Bus) (configset.ControllerConfig, error) {
 	if c == nil {
-		return nil, nil
+		return nil, errors.New("controller config cannot be nil")
 	}
 	if c.Id == "" {
 		return nil, errors.New("config id was not specified")
-- 
2.43.0


From 94d1939164cf8c81418fe092406d196383ae39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 29/53] fix: exec: YAML config replaces the proto config
 without overwrite

It also failed with the proto configs if the YAML configs can be executed.
---
 controller/exec/exec-request.go | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index 9bfc6d5..c099c7e 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -80,21 +80,6 @@ func (r *ExecControllerRequest) Execute(
 		confsList = make(map[string]*configset_proto.ControllerConfig)
 	}
 
-	confsYAML := r.GetConfigSetYaml()
-	if confsYAML != "" {
-		addedConfs, err := configset_json.UnmarshalYAML(
-			ctx,
-			cbus,
-			[]byte(confsYAML),
-			confSet,
-			r.GetConfigSetYamlOverwrite(),
-		)
-		if err != nil {
-			return err
-		}
-		sort.Strings(addedConfs)
-	}
-
 	niniterr := 0
 	var lastniniterr error
 	// TODO: sort and send sorted
@@ -106,6 +91,9 @@ func (r *ExecControllerRequest) Execute(
 		if _, ok := confSet[csID]; !ok {
 			confSet[csID], err = conf.Resolve(ctx, cbus)
 			if err != nil {
+				if ctx.Err() != nil {
+					return context.Canceled
+				}
 				resp.Id = csID
 				resp.Status = ControllerStatus_ControllerStatus_ERROR
 				resp.ErrorInfo = err.Error()
@@ -120,7 +108,22 @@ func (r *ExecControllerRequest) Execute(
 			}
 		}
 	}
-	if niniterr == len(confsList) && len(confsList) != 0 {
+	confsYAML := r.GetConfigSetYaml()
+	if confsYAML != "" {
+		addedConfs, err := configset_json.UnmarshalYAML(
+			ctx,
+			cbus,
+			[]byte(confsYAML),
+			confSet,
+			r.GetConfigSetYamlOverwrite(),
+		)
+		if err != nil {
+			return err
+		}
+		sort.Strings(addedConfs)
+	}
+
+	if niniterr == len(confsList) && len(confsList) != 0 && len(confSet) == 0 {
 		if len(confsList) == 1 && lastniniterr != nil {
 			return lastniniterr
 		}
-- 
2.43.0


From ad6b7e254ade3d18cca51f4c4cfee471c9fc1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 30/53] fix: exec: status of a controller stays behind its
 state

The added and the removed values arrived by two channels in any order, and
the callbacks blocked on them, also when called by AddDirective itself.
---
 controller/exec/exec-request.go | 51 ++++++++++++++----------------
 controller/exec/exec.go         | 35 ++++++++++-----------
 controller/exec/value-change.go | 56 +++++++++++++++++++++++++++++++++
 3 files changed, 97 insertions(+), 45 deletions(-)
 create mode 100644 controller/exec/value-change.go

diff --git a/controller/exec/exec-request.go b/controller/exec/exec-request.go
index c099c7e..1ae3fb9 100644
--- a/controller/exec/exec-request.go
+++ b/controller/exec/exec-request.go
@@ -135,8 +135,8 @@ func (r *ExecControllerRequest) Execute(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan configset.ApplyConfigSetValue, 1)
-	removedCh := make(chan configset.ApplyConfigSetValue, 1)
+	// one queue for both to process the changes in order
+	changes := newValueChangeQueue[configset.ApplyConfigSetValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		configset.NewApplyConfigSet(confSet),
@@ -147,11 +147,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				changes.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -159,11 +155,7 @@ func (r *ExecControllerRequest) Execute(
 				if !csValOk || csVal == nil || csVal.GetId() == "" {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				changes.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -177,8 +169,27 @@ func (r *ExecControllerRequest) Execute(
 		select {
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
+		case <-changes.wakeCh:
+			change, ok := changes.pop()
+			if !ok {
+				break
+			}
+			csv := change.val
 			csvID := csv.GetId()
+			if change.removed {
+				// removed == value is no longer applicable.
+				if prevStates[csvID] == ControllerStatus_ControllerStatus_CONFIGURING {
+					break
+				}
+				resp.Id = csvID
+				resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
+				prevStates[csvID] = resp.Status
+				if err := callCb(); err != nil {
+					return err
+				}
+				resp.Reset()
+				break
+			}
 			csvErr := csv.GetError()
 			resp.Id = csvID
 			if csvErr != nil {
@@ -199,20 +210,6 @@ func (r *ExecControllerRequest) Execute(
 				}
 			}
 			resp.Reset()
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			csvID := csv.GetId()
-			resp.Status = ControllerStatus_ControllerStatus_CONFIGURING
-			if prevStates[csvID] == resp.Status {
-				resp.Status = ControllerStatus_ControllerStatus_UNKNOWN
-				break
-			}
-			resp.Id = csvID
-			prevStates[csvID] = resp.Status
-			if err := callCb(); err != nil {
-				return err
-			}
-			resp.Reset()
 		}
 	}
 }
diff --git a/controller/exec/exec.go b/controller/exec/exec.go
index 84ece33..9c1abf4 100644
--- a/controller/exec/exec.go
+++ b/controller/exec/exec.go
@@ -26,8 +26,8 @@ func ExecuteController(
 	subCtx, subCtxCancel := context.WithCancel(ctx)
 	defer subCtxCancel()
 
-	addedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
-	removedCh := make(chan resolver.LoadControllerWithConfigValue, 1)
+	// one queue for both to process the changes in order
+	changes := newValueChangeQueue[resolver.LoadControllerWithConfigValue]()
 
 	_, dirRef, err := cbus.AddDirective(
 		resolver.NewLoadControllerWithConfig(conf),
@@ -38,11 +38,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case addedCh <- csVal:
-				}
+				changes.push(csVal, false)
 			},
 			// value removed
 			func(val directive.AttachedValue) {
@@ -50,11 +46,7 @@ func ExecuteController(
 				if !csValOk || csVal == nil {
 					return
 				}
-				select {
-				case <-subCtx.Done():
-					return
-				case removedCh <- csVal:
-				}
+				changes.push(csVal, true)
 			},
 			subCtxCancel,
 		),
@@ -78,7 +70,19 @@ func ExecuteController(
 			return nil
 		case <-subCtx.Done():
 			return subCtx.Err()
-		case csv := <-addedCh:
+		case <-changes.wakeCh:
+			change, ok := changes.pop()
+			if !ok {
+				break
+			}
+			csv := change.val
+			if change.removed {
+				// removed == value is no longer applicable.
+				if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
+					callCb(ControllerStatus_ControllerStatus_CONFIGURING)
+				}
+				break
+			}
 			ctrl := csv.GetController()
 			csvErr := csv.GetError()
 			if csvErr != nil {
@@ -90,11 +94,6 @@ func ExecuteController(
 			} else {
 				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
 			}
-		case csv := <-removedCh:
-			// removed == value is no longer applicable.
-			if csv.GetController() != nil && prevState == ControllerStatus_ControllerStatus_RUNNING {
-				callCb(ControllerStatus_ControllerStatus_CONFIGURING)
-			}
 		}
 	}
 }
diff --git a/controller/exec/value-change.go b/controller/exec/value-change.go
new file mode 100644
index 0000000..692538a
--- /dev/null
+++ b/controller/exec/value-change.go
@@ -0,0 +1,56 @@
+package controller_exec
+
+import (
+	"sync"
+)
+
+// valueChange is a value that was added or removed.
+type valueChange[T any] struct {
+	val     T
+	removed bool
+}
+
+// valueChangeQueue queues value changes in the order they occurred.
+//
+// push never blocks: it is called by the directive callbacks, some of which are
+// called by AddDirective, before the caller is able to process any changes.
+type valueChangeQueue[T any] struct {
+	mtx     sync.Mutex
+	changes []valueChange[T]
+	wakeCh  chan struct{}
+}
+
+// newValueChangeQueue constructs a new valueChangeQueue.
+func newValueChangeQueue[T any]() *valueChangeQueue[T] {
+	return &valueChangeQueue[T]{wakeCh: make(chan struct{}, 1)}
+}
+
+// push adds a change to the end of the queue.
+func (q *valueChangeQueue[T]) push(val T, removed bool) {
+	q.mtx.Lock()
+	q.changes = append(q.changes, valueChange[T]{val: val, removed: removed})
+	q.mtx.Unlock()
+	select {
+	case q.wakeCh <- struct{}{}:
+	default:
+	}
+}
+
+// pop removes the change at the start of the queue, if any.
+func (q *valueChangeQueue[T]) pop() (change valueChange[T], ok bool) {
+	q.mtx.Lock()
+	defer q.mtx.Unlock()
+	if len(q.changes) == 0 {
+		return change, false
+	}
+	change = q.changes[0]
+	q.changes = q.changes[1:]
+	if len(q.changes) != 0 {
+		// wake again for the next change
+		select {
+		case q.wakeCh <- struct{}{}:
+		default:
+		}
+	}
+	return change, true
+}
-- 
2.43.0


From 0083c49d7c9019011fccf32195e3c4f49d04f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 31/53] fix: bus: TransformHandler adds a func as the value
 without a transformation

It also read and wrote the id mapping without a lock, and left the values added
while the instance is disposed.
---
 bus/transform.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/bus/transform.go b/bus/transform.go
index d27a7aa..c72a72b 100644
--- a/bus/transform.go
+++ b/bus/transform.go
@@ -1,6 +1,8 @@
 package bus
 
 import (
+	"sync"
+
 	"github.com/aperturerobotics/controllerbus/directive"
 )
 
@@ -12,8 +14,13 @@ import (
 type TransformHandler struct {
 	handler   directive.ResolverHandler
 	xfrm      func(val directive.AttachedValue) (directive.Value, bool)
-	idMapping map[uint32]uint32
 	disposeCb func()
+
+	// mtx guards below fields
+	// not held while calling handler, xfrm, or disposeCb
+	mtx       sync.Mutex
+	idMapping map[uint32]uint32
+	disposed  bool
 }
 
 // NewTransformHandler builds a new pass-through handler.
@@ -47,13 +54,23 @@ func (h *TransformHandler) HandleValueAdded(
 			return
 		}
 	} else {
-		val = v.GetValue
+		val = v.GetValue()
 	}
 
 	id, accepted := h.handler.AddValue(val)
-	if accepted {
+	if !accepted {
+		return
+	}
+	h.mtx.Lock()
+	disposed := h.disposed
+	if !disposed {
 		h.idMapping[v.GetValueID()] = id
 	}
+	h.mtx.Unlock()
+	if disposed {
+		// disposed while adding the value
+		_, _ = h.handler.RemoveValue(id)
+	}
 }
 
 // HandleValueRemoved is called when a value is removed from the directive.
@@ -62,7 +79,10 @@ func (h *TransformHandler) HandleValueRemoved(
 	v directive.AttachedValue,
 ) {
 	if h.handler != nil {
+		h.mtx.Lock()
 		mapping, ok := h.idMapping[v.GetValueID()]
+		delete(h.idMapping, v.GetValueID())
+		h.mtx.Unlock()
 		if ok {
 			_, _ = h.handler.RemoveValue(mapping)
 		}
@@ -72,8 +92,12 @@ func (h *TransformHandler) HandleValueRemoved(
 // HandleInstanceDisposed is called when a directive instance is disposed.
 // This will occur if Close() is called on the directive instance.
 func (h *TransformHandler) HandleInstanceDisposed(di directive.Instance) {
+	h.mtx.Lock()
+	idMapping := h.idMapping
+	h.idMapping, h.disposed = nil, true
+	h.mtx.Unlock()
 	if h.handler != nil {
-		for _, valID := range h.idMapping {
+		for _, valID := range idMapping {
 			_, _ = h.handler.RemoveValue(valID)
 		}
 	}
-- 
2.43.0


From 2b2105532fbe2080b39d44795925dc851979f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 32/53] fix: directive: retry resolver retries without a pause
 when the backoff stops

---
 directive/resolver-retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive/resolver-retry.go b/directive/resolver-retry.go
index 8ce6c6d..90e06ad 100644
--- a/directive/resolver-retry.go
+++ b/directive/resolver-retry.go
@@ -39,6 +39,9 @@ func (r *RetryResolver) Resolve(ctx context.Context, handler ResolverHandler) er
 		}
 
 		nextBackOff := r.bo.NextBackOff()
+		if nextBackOff == backoff.Stop {
+			return err
+		}
 		r.le.
 			WithError(err).
 			Warnf("resolver returned error: backing off %s", nextBackOff.String())
-- 
2.43.0


From b1cd0523d896f2526aee4fbeb0a3e24c84eeaa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 33/53] fix: directive: access resolver releases its value
 twice

---
 directive/access-resolver.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/directive/access-resolver.go b/directive/access-resolver.go
index 453e2b1..6035ee1 100644
--- a/directive/access-resolver.go
+++ b/directive/access-resolver.go
@@ -58,20 +58,24 @@ func (r *AccessResolver[T]) Resolve(ctx context.Context, handler ResolverHandler
 			return nil
 		}
 
-		relCb := handler.AddValueRemovedCallback(valID, rel)
+		// call rel once: when the value is removed or when it was released
+		var relOnce sync.Once
+		relVal := func() {
+			relOnce.Do(func() {
+				if rel != nil {
+					rel()
+				}
+			})
+		}
+
+		relCb := handler.AddValueRemovedCallback(valID, relVal)
 		select {
 		case <-ctx.Done():
-			relCb()
-			if rel != nil {
-				rel()
-			}
-			return context.Canceled
 		case <-releasedCh:
-			relCb()
-			if rel != nil {
-				rel()
-			}
 		}
+		relCb()
+		_, _ = handler.RemoveValue(valID)
+		relVal()
 	}
 }
 
-- 
2.43.0


From 790e4593c99fd73f3cb6b571ea41365b555b7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 34/53] fix: directive: keyed getter resolver ignores a value
 released early

A value released before it was added stayed offered.
---
 directive/keyed-getter-resolver.go | 55 +++++++++++++++++-------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/directive/keyed-getter-resolver.go b/directive/keyed-getter-resolver.go
index 38a749e..ed19c69 100644
--- a/directive/keyed-getter-resolver.go
+++ b/directive/keyed-getter-resolver.go
@@ -2,9 +2,7 @@ package directive
 
 import (
 	"context"
-	"sync/atomic"
-
-	"github.com/aperturerobotics/util/broadcast"
+	"sync"
 )
 
 // KeyedGetterFunc is a keyed getter function to resolve a keyed resolver.
@@ -27,23 +25,29 @@ func NewKeyedGetterResolver[K, V comparable](getter KeyedGetterFunc[K, V], key K
 
 // Resolve resolves the values, emitting them to the handler.
 func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler ResolverHandler) error {
-	var bcast broadcast.Broadcast
 	for {
 		_ = handler.ClearValues()
+		if ctx.Err() != nil {
+			return context.Canceled
+		}
 
-		var waitCh <-chan struct{}
-		bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-			waitCh = getWaitCh()
-		})
+		// mtx guards released and valID
+		// released is set and releasedCh is closed when the value is released
+		var mtx sync.Mutex
+		var released bool
+		var valID uint32
+		releasedCh := make(chan struct{})
 
-		var valID atomic.Uint32
 		val, relVal, err := r.getter(ctx, r.key, func() {
-			old := valID.Swap(0)
+			mtx.Lock()
+			wasReleased, old := released, valID
+			released, valID = true, 0
+			mtx.Unlock()
 			if old != 0 {
 				_, _ = handler.RemoveValue(old)
-				bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-					broadcast()
-				})
+			}
+			if !wasReleased {
+				close(releasedCh)
 			}
 		})
 		if err != nil {
@@ -55,6 +59,9 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		var empty V
 		if val == empty {
 			// no values
+			if relVal != nil {
+				relVal()
+			}
 			return nil
 		}
 
@@ -62,32 +69,34 @@ func (r *KeyedGetterResolver[K, V]) Resolve(ctx context.Context, handler Resolve
 		addedValID, accepted := handler.AddValue(result)
 		if !accepted {
 			// value not needed
-			valID.Store(0)
 			if relVal != nil {
 				relVal()
 			}
 			return nil
 		}
-		if !valID.CompareAndSwap(0, addedValID) {
-			// already released
-			valID.Store(0)
+		mtx.Lock()
+		wasReleased := released
+		if !wasReleased {
+			valID = addedValID
+		}
+		mtx.Unlock()
+		if wasReleased {
+			// released before the value was added
+			_, _ = handler.RemoveValue(addedValID)
 			if relVal != nil {
 				relVal()
 			}
-			_, _ = handler.RemoveValue(addedValID)
-
-			// try again
 			continue
 		}
 
-		// wait for the broadcast or context to be canceled
+		// wait for the value to be released or context to be canceled
 		handler.MarkIdle(true)
 		select {
 		case <-ctx.Done():
-		case <-waitCh:
+		case <-releasedCh:
 		}
 
-		valID.Store(0)
+		_, _ = handler.RemoveValue(addedValID)
 		if relVal != nil {
 			relVal()
 		}
-- 
2.43.0


From 4348238c91634e639284a7b24a36140f5fbbfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 35/53] fix: directive: transform resolvers keep values of
 removed source values

The emitted values were looked up by their own id instead of the id of the
source value, and were not released when the resolver exits.
---
 directive/transform-resolver.go       | 32 ++---------
 directive/transformed-values.go       | 79 +++++++++++++++++++++++++++
 directive/typed-transform-resolver.go | 32 ++---------
 3 files changed, 89 insertions(+), 54 deletions(-)
 create mode 100644 directive/transformed-values.go

diff --git a/directive/transform-resolver.go b/directive/transform-resolver.go
index d5cffbf..8862fd9 100644
--- a/directive/transform-resolver.go
+++ b/directive/transform-resolver.go
@@ -33,11 +33,8 @@ func NewTransformResolver[T Value](adder DirectiveAdder, dir Directive, xfrm Tra
 
 // Resolve resolves the values, emitting them to the handler.
 func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHandler) error {
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	vals := newTransformedValues(handler)
+	defer vals.close()
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -75,32 +72,13 @@ func (r *TransformResolver[T]) Resolve(ctx context.Context, handler ResolverHand
 				}
 			}
 
-			id, accepted := handler.AddValue(val)
-			if accepted {
-				addedVals[id] = addedVal{id: av.GetValueID(), rel: valRel}
-			} else {
-				if valRel != nil {
-					valRel()
-				}
-			}
+			vals.add(av.GetValueID(), val, valRel)
 		}, func(av AttachedValue) {
-			valueID := av.GetValueID()
-			if addedValue, ok := addedVals[valueID]; ok {
-				delete(addedVals, valueID)
-				_, _ = handler.RemoveValue(addedValue.id)
-				if addedValue.rel != nil {
-					addedValue.rel()
-				}
-			}
+			vals.remove(av.GetValueID())
 		},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				vals.close()
 			},
 		),
 	)
diff --git a/directive/transformed-values.go b/directive/transformed-values.go
new file mode 100644
index 0000000..15d4f11
--- /dev/null
+++ b/directive/transformed-values.go
@@ -0,0 +1,79 @@
+package directive
+
+import "sync"
+
+// transformedValues tracks the values emitted for the values of a directive.
+type transformedValues struct {
+	handler ResolverHandler
+
+	// mtx guards below fields
+	// not held while calling handler or the release functions
+	mtx sync.Mutex
+	// vals is the emitted value by id of the source value
+	vals map[uint32]transformedValue
+	// closed indicates that no more values can be added
+	closed bool
+}
+
+// transformedValue is a value emitted to the handler.
+type transformedValue struct {
+	id  uint32
+	rel func()
+}
+
+// newTransformedValues constructs a new transformedValues.
+func newTransformedValues(handler ResolverHandler) *transformedValues {
+	return &transformedValues{handler: handler, vals: make(map[uint32]transformedValue)}
+}
+
+// add emits the value for the source value id.
+// rel is called when the value is removed or was not accepted.
+func (t *transformedValues) add(srcID uint32, val Value, rel func()) {
+	id, accepted := t.handler.AddValue(val)
+	if !accepted {
+		if rel != nil {
+			rel()
+		}
+		return
+	}
+	added := transformedValue{id: id, rel: rel}
+	t.mtx.Lock()
+	closed := t.closed
+	if !closed {
+		t.vals[srcID] = added
+	}
+	t.mtx.Unlock()
+	if closed {
+		t.release(added)
+	}
+}
+
+// remove removes the value emitted for the source value id.
+func (t *transformedValues) remove(srcID uint32) {
+	t.mtx.Lock()
+	added, ok := t.vals[srcID]
+	delete(t.vals, srcID)
+	t.mtx.Unlock()
+	if ok {
+		t.release(added)
+	}
+}
+
+// close removes all values and any which are added after.
+func (t *transformedValues) close() {
+	t.mtx.Lock()
+	vals := t.vals
+	t.vals, t.closed = nil, true
+	t.mtx.Unlock()
+	for _, added := range vals {
+		t.release(added)
+	}
+}
+
+// release removes the value from the handler and calls the release func.
+func (t *transformedValues) release(added transformedValue) {
+	_, _ = t.handler.RemoveValue(added.id)
+	if added.rel != nil {
+		added.rel()
+	}
+}
diff --git a/directive/typed-transform-resolver.go b/directive/typed-transform-resolver.go
index 9a683ae..25a2d83 100644
--- a/directive/typed-transform-resolver.go
+++ b/directive/typed-transform-resolver.go
@@ -46,11 +46,8 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 		return errors.New("xfrm cannot be nil for TypedTransformResolver")
 	}
 
-	type addedVal struct {
-		id  uint32
-		rel func()
-	}
-	addedVals := make(map[uint32]addedVal)
+	vals := newTransformedValues(handler)
+	defer vals.close()
 	errCh := make(chan error, 1)
 	pushErr := func(err error) {
 		select {
@@ -79,33 +76,14 @@ func (r *TypedTransformResolver[V, T]) Resolve(ctx context.Context, handler Reso
 				}
 				val = result
 
-				id, accepted := handler.AddValue(val)
-				if accepted {
-					addedVals[id] = addedVal{id: tav.GetValueID(), rel: rel}
-				} else {
-					if rel != nil {
-						rel()
-					}
-				}
+				vals.add(tav.GetValueID(), val, rel)
 			},
 			func(tav TypedAttachedValue[V]) {
-				valueID := tav.GetValueID()
-				if addedValue, ok := addedVals[valueID]; ok {
-					delete(addedVals, valueID)
-					_, _ = handler.RemoveValue(addedValue.id)
-					if addedValue.rel != nil {
-						addedValue.rel()
-					}
-				}
+				vals.remove(tav.GetValueID())
 			},
 			func() {
 				pushErr(ErrDirectiveDisposed)
-				for id, val := range addedVals {
-					if val.rel != nil {
-						val.rel()
-					}
-					delete(addedVals, id)
-				}
+				vals.close()
 			},
 			r.unknownTypeHandler,
 		),
-- 
2.43.0


From 0a32969180efe12ee1da6e8c981446697e979baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 36/53] fix: controller/loader: a rejected controller outlives
 its stopped resolver

---
 controller/loader/loader-resolve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index ac2f1a8..8efc2e1 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -191,6 +191,9 @@ func (c *resolver) Resolve(ctx context.Context, vh directive.ResolverHandler) er
 				closeCi()
 			})
 		} else {
+			// the value was rejected: an idle resolver is not stopped when the
+			// value cap is reached again, so the callback is not skipped.
+			vh.MarkIdle(true)
 			vh.AddResolverRemovedCallback(func() {
 				bus.RemoveController(ci)
 				closeCi()
-- 
2.43.0


From 04e3055003db16f270e90381d5d0b38dfd32fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:56 +0000
Subject: [PATCH 37/53] fix: bus/bridge: a directive added again is not
 forwarded, or loops forever

---
 bus/bridge/bridge.go | 52 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/bus/bridge/bridge.go b/bus/bridge/bridge.go
index 8bd8b30..3b7e9be 100644
--- a/bus/bridge/bridge.go
+++ b/bus/bridge/bridge.go
@@ -3,6 +3,7 @@ package bus_bridge
 import (
 	"context"
 	"sync"
+	"time"
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	"github.com/aperturerobotics/controllerbus/controller"
@@ -13,6 +14,9 @@ import (
 // ControllerID is the controller identifier.
 const ControllerID = "controllerbus/bus/bridge"
 
+// releaseDelay is the time for which a directive counts as recently released.
+const releaseDelay = 50 * time.Millisecond
+
 // Version is the API version.
 var Version = semver.MustParse("0.0.1")
 
@@ -25,8 +29,9 @@ type BusBridge struct {
 
 	// mtx guards below fields
 	mtx sync.Mutex
-	// seenDi is the list of seen ongoing directive instances
-	seenDi map[directive.Directive]struct{}
+	// seenDi contains the directives being forwarded, and those released recently
+	// the value is the context of the latest resolver forwarding the directive
+	seenDi map[directive.Directive]context.Context
 }
 
 // FilterFn filters directive instances for the bus bridge.
@@ -37,7 +42,7 @@ func NewBusBridge(target bus.Bus, filterFn FilterFn) *BusBridge {
 	return &BusBridge{
 		target:   target,
 		filterFn: filterFn,
-		seenDi:   make(map[directive.Directive]struct{}),
+		seenDi:   make(map[directive.Directive]context.Context),
 	}
 }
 
@@ -78,10 +83,8 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 
 	dir := di.GetDirective()
 	b.mtx.Lock()
-	_, seen := b.seenDi[dir]
-	if !seen {
-		b.seenDi[dir] = struct{}{}
-	}
+	seenCtx := b.seenDi[dir]
+	seen := seenCtx != nil && seenCtx.Err() == nil
 	b.mtx.Unlock()
 
 	// avoid infinite loop
@@ -89,15 +92,40 @@ func (b *BusBridge) HandleDirective(ctx context.Context, di directive.Instance)
 		return nil, nil
 	}
 
-	// add callback to remove when necessary
-	// use separate goroutine to avoid mutex contention
-	go di.AddDisposeCallback(func() {
+	return directive.R(directive.NewFuncResolver(func(ctx context.Context, handler directive.ResolverHandler) error {
+		return b.forwardDirective(ctx, handler, dir)
+	}), nil)
+}
+
+// forwardDirective forwards the directive to the target and marks it as seen.
+func (b *BusBridge) forwardDirective(ctx context.Context, handler directive.ResolverHandler, dir directive.Directive) error {
+	b.mtx.Lock()
+	prevCtx := b.seenDi[dir]
+	b.seenDi[dir] = ctx
+	b.mtx.Unlock()
+
+	defer time.AfterFunc(releaseDelay, func() {
 		b.mtx.Lock()
-		delete(b.seenDi, dir)
+		if b.seenDi[dir] == ctx {
+			delete(b.seenDi, dir)
+		}
 		b.mtx.Unlock()
 	})
 
-	return directive.Resolvers(NewBusBridgeResolver(b.target, dir)), nil
+	// the directive was being forwarded until moments ago: if the bridges form
+	// a loop, this instance is about to be released as well. Do not forward it
+	// around the loop faster than it is released.
+	if prevCtx != nil && prevCtx.Err() != nil {
+		timer := time.NewTimer(releaseDelay)
+		defer timer.Stop()
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-timer.C:
+		}
+	}
+
+	return NewBusBridgeResolver(b.target, dir).Resolve(ctx, handler)
 }
 
 // Close releases any resources used by the controller.
-- 
2.43.0


From c9450da07742a839f6c04a45114cb04247d75bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 38/53] fix: plugin: factories and contexts outlive an unloaded
 plugin

The context given to NewPluginResolver was not canceled when the plugin was
unloaded, and a controller constructed after the unload was never removed.
---
 plugin/loader/shared-library/shared-library.go | 6 ++++--
 plugin/static-plugin-factory.go                | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/plugin/loader/shared-library/shared-library.go b/plugin/loader/shared-library/shared-library.go
index 8b01eb6..189b41e 100644
--- a/plugin/loader/shared-library/shared-library.go
+++ b/plugin/loader/shared-library/shared-library.go
@@ -70,11 +70,13 @@ func LoadPluginSharedLibrary(
 	if loadedPlugin == nil {
 		return nil, errors.New("could not load hot plugin, nil plugin global")
 	}
-	pluginResolver, err := loadedPlugin.NewPluginResolver(ctx, bus)
+	// subCtx is canceled when the plugin is about to be unloaded.
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	pluginResolver, err := loadedPlugin.NewPluginResolver(subCtx, bus)
 	if err != nil {
+		subCtxCancel()
 		return nil, err
 	}
-	subCtx, subCtxCancel := context.WithCancel(ctx)
 	go func() {
 		resolverController := resolver.NewController(le, bus, pluginResolver)
 		err := bus.ExecuteController(
diff --git a/plugin/static-plugin-factory.go b/plugin/static-plugin-factory.go
index 81ca129..877881c 100644
--- a/plugin/static-plugin-factory.go
+++ b/plugin/static-plugin-factory.go
@@ -58,6 +58,14 @@ func (s *StaticPluginFactory) Construct(
 
 	// Ensure that the controller is removed just before we unload.
 	s.mtx.Lock()
+	if err := s.ctx.Err(); err != nil {
+		// the factory was unloaded while the controller was constructed.
+		s.mtx.Unlock()
+		if subController != nil {
+			_ = subController.Close()
+		}
+		return nil, err
+	}
 	s.preUnload = append(s.preUnload, func() {
 		s.bus.RemoveController(subController)
 	})
-- 
2.43.0


From ea49a6246e6d5fc764a32b49d05129fd8182524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 39/53] fix: plugin/loader: changes of the plugin directory are
 missed

The directory was synced before it was watched, events queued while syncing
were flushed, and a directory which was replaced was not watched any more.
---
 .../shared-library/filesystem/watcher.go      | 60 +++++++++++++++----
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/plugin/loader/shared-library/filesystem/watcher.go b/plugin/loader/shared-library/filesystem/watcher.go
index 1210f23..90f628f 100644
--- a/plugin/loader/shared-library/filesystem/watcher.go
+++ b/plugin/loader/shared-library/filesystem/watcher.go
@@ -13,8 +13,8 @@ import (
 
 	"github.com/aperturerobotics/controllerbus/bus"
 	shared "github.com/aperturerobotics/controllerbus/plugin/loader/shared-library"
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
+	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -182,11 +182,11 @@ func (w *Watcher) UnloadAll() {
 // Execute executes the watcher and loads / runs plugins.
 func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error {
 	defer w.UnloadAll()
-	if err := w.SyncPlugins(ctx, syncDir); err != nil {
-		return err
-	}
-
 	if !watch {
+		if err := w.SyncPlugins(ctx, syncDir); err != nil {
+			return err
+		}
+
 		<-ctx.Done()
 		return nil
 	}
@@ -197,19 +197,53 @@ func (w *Watcher) Execute(ctx context.Context, syncDir string, watch bool) error
 	}
 	defer watcher.Close()
 
-	if err := watcher.Add(syncDir); err != nil {
-		return err
-	}
-
 	for {
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(ctx, watcher, debounceTime, nil)
-		if err != nil {
+		// Watch before syncing: no change after the sync may be missed.
+		// Add the watch every time: the directory may have been replaced.
+		if err := watcher.Add(syncDir); err != nil {
 			return err
 		}
-
-		w.le.Debugf("re-syncing plugins after %d filesystem events", len(happened))
 		if err := w.SyncPlugins(ctx, syncDir); err != nil {
 			return err
 		}
+
+		happened, err := waitEvents(ctx, watcher, debounceTime)
+		if err != nil {
+			return err
+		}
+		w.le.Debugf("re-syncing plugins after %d filesystem events", happened)
+	}
+}
+
+// waitEvents waits for events followed by a quiet period.
+//
+// Events which were queued before the call count as well: they may be changes
+// which happened while the plugins were synced.
+// Returns the number of events.
+func waitEvents(ctx context.Context, watcher *fsnotify.Watcher, quiet time.Duration) (int, error) {
+	var happened int
+	var quietC <-chan time.Time
+	for {
+		select {
+		case <-ctx.Done():
+			return happened, ctx.Err()
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			if !event.Has(fsnotify.Create) && !event.Has(fsnotify.Write) &&
+				!event.Has(fsnotify.Remove) && !event.Has(fsnotify.Rename) {
+				continue
+			}
+			happened++
+			quietC = time.After(quiet)
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			return happened, errors.Wrap(err, "watcher error")
+		case <-quietC:
+			return happened, nil
+		}
 	}
 }
-- 
2.43.0


From 013b292a38614a3871dde25a9350d6b84953aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 40/53] fix: controller/loader: controllers of an unloaded
 factory keep running

An ExecController shared with another factory survived the unload of its own
factory: its controller was not on the bus, but was executed (and retried).
The other factory was never executed.
---
 controller/loader/dir-exec-controller.go    | 11 ++++
 controller/loader/loader-resolve.go         |  5 ++
 controller/resolver/res-load-with-config.go | 63 ++++++++++++++++-----
 3 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/controller/loader/dir-exec-controller.go b/controller/loader/dir-exec-controller.go
index fc3e66c..58a2e46 100644
--- a/controller/loader/dir-exec-controller.go
+++ b/controller/loader/dir-exec-controller.go
@@ -94,10 +94,21 @@ func (d *execController) IsEquivalent(other directive.Directive) bool {
 		return false
 	}
 
+	// A controller of an unloaded factory is about to be removed.
+	if factoryUnloaded(f) != factoryUnloaded(otherf) {
+		return false
+	}
+
 	// If the two configurations are identical, de-duplicate the directive.
 	return d.GetExecControllerConfig().EqualsConfig(otherExec.GetExecControllerConfig())
 }
 
+// factoryUnloaded checks if the factory was unloaded.
+func factoryUnloaded(f controller.Factory) bool {
+	fc, ok := f.(controller.FactoryWithContext)
+	return ok && fc.GetFactoryContext().Err() != nil
+}
+
 // Superceeds checks if the directive overrides another.
 // The other directive will be canceled if superceded.
 func (d *execController) Superceeds(other directive.Directive) bool {
diff --git a/controller/loader/loader-resolve.go b/controller/loader/loader-resolve.go
index 8efc2e1..b3e2d22 100644
--- a/controller/loader/loader-resolve.go
+++ b/controller/loader/loader-resolve.go
@@ -48,6 +48,11 @@ func (c *Controller) resolveExecController(
 ) ([]directive.Resolver, error) {
 	// Check if the ExecController is meant for / compatible with us.
 	// In this case, we handle all ExecController requests.
+	if factory, ok := dir.GetExecControllerFactory().(controller.FactoryWithContext); ok {
+		// The controller cannot run after the factory is unloaded.
+		stop := context.AfterFunc(factory.GetFactoryContext(), di.Close)
+		di.AddDisposeCallback(func() { stop() })
+	}
 	return directive.R(newResolver(ctx, di, dir, c), nil)
 }
 
diff --git a/controller/resolver/res-load-with-config.go b/controller/resolver/res-load-with-config.go
index 8a0ff40..bb10157 100644
--- a/controller/resolver/res-load-with-config.go
+++ b/controller/resolver/res-load-with-config.go
@@ -70,8 +70,6 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		factoryCtx = factoryWithCtx.GetFactoryContext()
 	}
 
-	// note: the directive context is not canceled when the handler is removed
-	valCtx, valCtxCancel := context.WithCancel(ctx)
 	execDir := loader.NewExecControllerWithOpts(
 		factory,
 		conf,
@@ -79,10 +77,30 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 		directive.ValueOptions{},
 	)
 
-	// pass through all values.
-	passThru := bus.NewPassThruHandler(vh, valCtxCancel)
-	execInst, execRef, err := r.bus.AddDirective(execDir, passThru)
-	if err != nil {
+	// exec executes the directive and passes through all values.
+	var valCtx context.Context
+	var execInst directive.Instance
+	var release func()
+	exec := func() error {
+		// note: the directive context is not canceled when the handler is removed
+		nextCtx, nextCtxCancel := context.WithCancel(ctx)
+		passThru := bus.NewPassThruHandler(vh, nextCtxCancel)
+		nextInst, nextRef, err := r.bus.AddDirective(execDir, passThru)
+		if err != nil {
+			nextCtxCancel()
+			return err
+		}
+		valCtx, execInst = nextCtx, nextInst
+		release = func() {
+			nextCtxCancel()
+			nextRef.Release()
+			// note: a released reference is not told that the values are removed
+			passThru.HandleInstanceDisposed(nextInst)
+		}
+		return nil
+	}
+
+	if err := exec(); err != nil {
 		_, _ = vh.AddValue(loader.NewExecControllerValue(
 			time.Now(),
 			time.Time{},
@@ -101,15 +119,22 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	// cancel the reference when ctx is canceled
 	// note: it's correct to spawn a new goroutine here; indicate the resolver has exited.
 	go func() {
-		select {
-		case <-factoryCtx.Done():
-		case <-valCtx.Done():
-		case <-r.c.subCtx.Done():
+		for {
+			select {
+			case <-factoryCtx.Done():
+			case <-valCtx.Done():
+			case <-r.c.subCtx.Done():
+			}
+			release()
+			if ctx.Err() != nil || factoryCtx.Err() != nil || r.c.subCtx.Err() != nil {
+				break
+			}
+			// The controller was executed with another, equivalent factory.
+			// If that was unloaded: execute it with this factory instead.
+			if !execFactoryUnloaded(execInst) || exec() != nil {
+				break
+			}
 		}
-		valCtxCancel()
-		execRef.Release()
-		// note: a released reference is not told that the values are removed
-		passThru.HandleInstanceDisposed(execInst)
 		if factoryRef != nil {
 			factoryRef.Release()
 		}
@@ -118,5 +143,15 @@ func (r *loadWithConfigResolver) Resolve(ctx context.Context, vh directive.Resol
 	return nil
 }
 
+// execFactoryUnloaded checks if the factory of an ExecController was unloaded.
+func execFactoryUnloaded(di directive.Instance) bool {
+	execDir, ok := di.GetDirective().(loader.ExecController)
+	if !ok {
+		return false
+	}
+	factory, ok := execDir.GetExecControllerFactory().(controller.FactoryWithContext)
+	return ok && factory.GetFactoryContext().Err() != nil
+}
+
 // _ is a type assertion
 var _ directive.Resolver = ((*loadWithConfigResolver)(nil))
-- 
2.43.0


From 0326e5642fdf7e7384fcfda14ea3036b4c61b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 41/53] fix: directive/controller: a resolver refused at the
 value cap is forgotten

AddValue counts the values, then calls the callbacks of the reference
handlers (unlocking the mutex), then marks the instance as full. A resolver
whose value was refused while those callbacks were running was not stopped,
returned, and was never restarted when the other value was removed: the
directive kept no value although a resolver would provide one.
---
 directive/controller/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directive/controller/instance.go b/directive/controller/instance.go
index 379abe1..d6429ef 100644
--- a/directive/controller/instance.go
+++ b/directive/controller/instance.go
@@ -374,6 +374,9 @@ func (i *directiveInstance) removeIdleCallbackLocked(cb *callback[directive.Idle
 func (i *directiveInstance) addValueLocked(res *resolver, val directive.Value) (uint32, bool) {
 	maxVals := i.valueOpts.MaxValueCount
 	if maxVals != 0 && i.countValuesLocked() >= maxVals && i.valueOpts.MaxValueHardCap {
+		// note: the callbacks of the value which reached the cap may be still
+		// running, in that case the instance was not yet marked as full.
+		i.handleFullLocked()
 		return 0, false
 	}
 
-- 
2.43.0


From f1d85a585c92d6de47e2172bf08544f6f2d2f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:59 +0000
Subject: [PATCH 42/53] fix: bus/api/controller: close the listener and
 connections when stopped

The listener and the connections were left open when the controller was
stopped, so the address stayed in use, the controller could not be started
again, and clients continued to be served. One client kept the others from
being served.
---
 bus/api/controller/controller.go | 39 ++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/bus/api/controller/controller.go b/bus/api/controller/controller.go
index acdf9e7..b63cd15 100644
--- a/bus/api/controller/controller.go
+++ b/bus/api/controller/controller.go
@@ -70,19 +70,38 @@ func (c *Controller) Execute(ctx context.Context) error {
 		return err
 	}
 
-	errCh := make(chan error, 1)
+	// close the listener and the connections when returning
+	subCtx, subCtxCancel := context.WithCancel(ctx)
+	defer subCtxCancel()
+	context.AfterFunc(subCtx, func() { _ = lis.Close() })
+
 	srv := srpc.NewServer(mux)
-	go func() {
-		errCh <- srpc.AcceptMuxedListener(ctx, lis, srv, nil)
-		_ = lis.Close()
-	}()
+	for {
+		conn, err := lis.Accept()
+		if ctx.Err() != nil {
+			if err == nil {
+				_ = conn.Close()
+			}
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		go serveConn(subCtx, srv, conn)
+	}
+}
 
-	select {
-	case <-ctx.Done():
-		return nil
-	case err := <-errCh:
-		return err
+// serveConn serves a client until ctx is canceled or the client disconnects.
+func serveConn(ctx context.Context, srv *srpc.Server, conn net.Conn) {
+	mc, err := srpc.NewMuxedConn(conn, false, nil)
+	if err != nil {
+		_ = conn.Close()
+		return
 	}
+	stop := context.AfterFunc(ctx, func() { _ = mc.Close() })
+	_ = srv.AcceptMuxedConn(ctx, mc)
+	stop()
+	_ = mc.Close()
 }
 
 // HandleDirective asks if the handler can resolve the directive.
-- 
2.43.0


From a187fbf7ac4e08214cb548419bf7b1f57da05ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 43/53] fix: configset: config omitted in a JSON or YAML config
 set

A config set entry without config stands for an empty config, like one of a
protobuf config set. It failed to be parsed.
---
 controller/configset/json/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/controller/configset/json/config.go b/controller/configset/json/config.go
index 48855e4..9e2884d 100644
--- a/controller/configset/json/config.go
+++ b/controller/configset/json/config.go
@@ -48,8 +48,11 @@ func (c *Config) Resolve(ctx context.Context, configID string, b bus.Bus) error
 	if c.underlying == nil {
 		return errors.New("load config constructor returned nil object")
 	}
-	if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
-		return err
+	// note: if the config was omitted, there is no data to parse.
+	if c.pendingParseData != "" {
+		if err := c.underlying.UnmarshalJSON([]byte(c.pendingParseData)); err != nil {
+			return err
+		}
 	}
 	c.pendingParseData = ""
 	return nil
-- 
2.43.0


From a01daf19ec2964603a587664496c2dd83962d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:28 +0000
Subject: [PATCH 44/53] fix: replace the daemon config file atomically when
 writing it

A crash, full disk or power loss while os.WriteFile was rewriting the file
left it truncated or torn, and the daemon could not be started again.
---
 cmd/controllerbus/cmd_daemon.go | 43 +++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/cmd/controllerbus/cmd_daemon.go b/cmd/controllerbus/cmd_daemon.go
index c01d1d8..e436f2a 100644
--- a/cmd/controllerbus/cmd_daemon.go
+++ b/cmd/controllerbus/cmd_daemon.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"os"
+	"path/filepath"
 
 	"github.com/aperturerobotics/cli"
 	bus_api "github.com/aperturerobotics/controllerbus/bus/api"
@@ -43,6 +44,45 @@ func init() {
 	)
 }
 
+// writeConfigFile replaces the config file.
+//
+// The file has either the old or the new contents if writing is interrupted.
+func writeConfigFile(path string, data []byte) (err error) {
+	// replace the destination of a symbolic link
+	if dst, err := filepath.EvalSymlinks(path); err == nil {
+		path = dst
+	}
+	mode := os.FileMode(0o644)
+	if st, err := os.Stat(path); err == nil {
+		mode = st.Mode().Perm()
+	}
+
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = os.Remove(f.Name())
+		}
+	}()
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), path)
+}
+
 // runDaemon runs the daemon.
 func runDaemon(c *cli.Context) error {
 	ctx := context.Background()
@@ -113,8 +153,7 @@ func runDaemon(c *cli.Context) error {
 		if err != nil {
 			return errors.Wrap(err, "marshal config")
 		}
-		err = os.WriteFile(daemonFlags.ConfigPath, confDat, 0o644)
-		if err != nil {
+		if err := writeConfigFile(daemonFlags.ConfigPath, confDat); err != nil {
 			return errors.Wrap(err, "write config file")
 		}
 	}
-- 
2.43.0


From 4765b2a7c72dcd8bdf282416e10015e5c0303813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:28 +0000
Subject: [PATCH 45/53] fix: do not retain controller values after
 WaitExecControllerRunning returned

The list of pending values grew with each retry of the controller for as long
as the directive was referenced.
---
 controller/loader/ex-load-controller.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/controller/loader/ex-load-controller.go b/controller/loader/ex-load-controller.go
index 3540c2b..eae58e3 100644
--- a/controller/loader/ex-load-controller.go
+++ b/controller/loader/ex-load-controller.go
@@ -43,7 +43,9 @@ func WaitExecControllerRunning(
 			retVal, _ := av.GetValue().(ExecControllerValue)
 			if retVal != nil {
 				mtx.Lock()
-				pending = append(pending, av)
+				if returnedID == 0 {
+					pending = append(pending, av)
+				}
 				mtx.Unlock()
 				select {
 				case wakeCh <- struct{}{}:
@@ -89,6 +91,7 @@ func WaitExecControllerRunning(
 				}
 				if ctrl := val.GetController(); ctrl != nil {
 					returnedID = pending[i].GetValueID()
+					pending = nil
 					mtx.Unlock()
 					return ctrl, di, diRef, nil
 				}
-- 
2.43.0


From 2d22ef6a3771889d72aff9cba699f600c9e8416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 46/53] fix: plugin/compiler: delete old versions of the output
 only

The pattern for old versions was not anchored: files which contained the name
of the output (backups, outputs of other plugins) were deleted as well.
---
 plugin/compiler/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9173ced..9971087 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -257,11 +257,11 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 	}
 	filenameRe, err := regexp.Compile(strings.Join([]string{
 		// match part 0
-		"(", regexp.QuoteMeta(pts[0]), ")",
+		"^(", regexp.QuoteMeta(pts[0]), ")",
 		// match build id
 		"([a-zA-Z0-9]*)",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")",
+		"(", regexp.QuoteMeta(pts[1]), ")$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From fecf57f1a92beaf728a80b7c0e289ecadaad79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:34 +0000
Subject: [PATCH 47/53] fix: plugin/compiler: imports between plugin packages
 in the second pass

The first pass rewrote the imports in the syntax trees of the analysis, which
the second pass uses as well: the packages imported each other with the import
prefix of the first pass, and the second pass failed to compile.
---
 plugin/compiler/module-compiler.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 11a3277..2380ec9 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -284,7 +284,10 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	}
 
-	rewritePackagesImports := func(pkgCodeFile *ast.File) {
+	// rewritePackagesImports returns a func to restore the imports: the syntax
+	// trees are used again to generate modules with another build prefix.
+	rewritePackagesImports := func(pkgCodeFile *ast.File) (restore func()) {
+		rewritten := make(map[*ast.BasicLit]string)
 		for _, pkgCodeImport := range pkgCodeFile.Imports {
 			pkgCodeImportPath := pkgCodeImport.Path.Value
 			if len(pkgCodeImportPath) < 2 {
@@ -297,8 +300,14 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 				continue
 			}
 			replacedTargetPath := path.Join(buildPrefix, targetPkg.Types.Path())
+			rewritten[pkgCodeImport.Path] = pkgCodeImport.Path.Value
 			pkgCodeImport.Path.Value = fmt.Sprintf("%q", replacedTargetPath)
 		}
+		return func() {
+			for lit, value := range rewritten {
+				lit.Value = value
+			}
+		}
 	}
 
 	formatCodeFile := func(pkgCodeFile *ast.File) ([]byte, error) {
@@ -340,7 +349,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 			// rewrite any imports if necessary.
 			// any generated packages will have the new prefix before them.
-			rewritePackagesImports(pkgCodeFile)
+			restoreImports := rewritePackagesImports(pkgCodeFile)
 
 			// build relative path to the code file from the module root.
 			codeFileRelativeToModule, err := filepath.Rel(factoryPkg.Module.Dir, pkgCodeFilePath)
@@ -358,6 +367,7 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 					Debug("formatting code file")
 			*/
 			outData, err := formatCodeFile(pkgCodeFile)
+			restoreImports()
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 3adf009113ca17a817b0f751dde5add1153b9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:35 +0000
Subject: [PATCH 48/53] fix: plugin/compiler: list the factories in a stable
 order

With more than one package, the generated code and the build hash differed from
build to build although the sources were the same.
---
 plugin/compiler/codegen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/codegen.go b/plugin/compiler/codegen.go
index c7e7408..d5f7c31 100644
--- a/plugin/compiler/codegen.go
+++ b/plugin/compiler/codegen.go
@@ -116,8 +116,14 @@ func CodegenPluginWrapperFromAnalysis(
 	})
 
 	// Construct the elements of the slice to return from BinaryFactories.
-	var buildControllersElts []gast.Expr
+	// The order decides about the build hash: sort the names.
+	factoryPkgs := make([]string, 0, len(a.controllerFactories))
 	for fpkg := range a.controllerFactories {
+		factoryPkgs = append(factoryPkgs, fpkg)
+	}
+	sort.Strings(factoryPkgs)
+	var buildControllersElts []gast.Expr
+	for _, fpkg := range factoryPkgs {
 		buildControllersElts = append(buildControllersElts, &gast.CallExpr{
 			Args: []gast.Expr{
 				gast.NewIdent("b"),
-- 
2.43.0


From 3dcbd1e36ab667d15db8cca95493e9404be95af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:37 +0000
Subject: [PATCH 49/53] fix: plugin/compiler: packages of a module within
 another module

Depending on the order of the map of modules, the generated go.mod of a nested
module was deleted with the directory of the module which contains it.
---
 plugin/compiler/module-compiler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/module-compiler.go b/plugin/compiler/module-compiler.go
index 2380ec9..ee17ed4 100644
--- a/plugin/compiler/module-compiler.go
+++ b/plugin/compiler/module-compiler.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 
 	"github.com/aperturerobotics/util/exec"
 	"github.com/mr-tron/base58/base58"
@@ -119,7 +120,15 @@ func (m *ModuleCompiler) GenerateModules(analysis *Analysis, pluginBinaryVersion
 
 	moduleCodegenPaths := make(map[string]string)
 	loadedModules := analysis.GetImportedModules()
-	for _, mod := range loadedModules {
+	// Process the modules in order of the path: the directory of a module is
+	// created before those of the modules nested within it.
+	loadedModulePaths := make([]string, 0, len(loadedModules))
+	for modPath := range loadedModules {
+		loadedModulePaths = append(loadedModulePaths, modPath)
+	}
+	sort.Strings(loadedModulePaths)
+	for _, loadedModulePath := range loadedModulePaths {
+		mod := loadedModules[loadedModulePath]
 		srcMod := mod
 		for mod.Replace != nil {
 			m.le.
-- 
2.43.0


From dcf9fba371cd6ae67867be02001d4275991b64cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:38 +0000
Subject: [PATCH 50/53] fix: plugin/compiler: replace the output atomically

After a crash or an error while the output was copied, the incomplete file had
the name with the build hash and was taken for the finished output.
---
 plugin/compiler/util.go    | 25 +++++++++++++++++++------
 plugin/compiler/watcher.go |  4 +++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/plugin/compiler/util.go b/plugin/compiler/util.go
index 86c941b..6abd035 100644
--- a/plugin/compiler/util.go
+++ b/plugin/compiler/util.go
@@ -6,7 +6,13 @@ import (
 	"path/filepath"
 )
 
-// copyFileFromTo copies a file from a path to another path
+// copyTmpSuffix is the suffix of the file which copyFileFromTo writes to.
+const copyTmpSuffix = ".tmp"
+
+// copyFileFromTo copies a file from a path to another path.
+//
+// The destination is replaced once all of the content was written: it is never
+// incomplete, also if the process or the system crashes.
 func copyFileFromTo(src, dest string) error {
 	ofile, oerr := os.Open(src)
 	if oerr != nil {
@@ -14,17 +20,24 @@ func copyFileFromTo(src, dest string) error {
 	}
 	defer ofile.Close()
 
-	outFileFd, err := os.OpenFile(dest, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
+	tmpDest := dest + copyTmpSuffix
+	outFileFd, err := os.OpenFile(tmpDest, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
 	if err != nil {
 		return err
 	}
-	defer outFileFd.Close()
-
 	_, err = io.Copy(outFileFd, ofile)
+	if err == nil {
+		err = outFileFd.Sync()
+	}
+	if cerr := outFileFd.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmpDest, dest)
+	}
 	if err != nil {
-		return err
+		_ = os.Remove(tmpDest)
 	}
-	err = outFileFd.Sync()
 	return err
 }
 
diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 9971087..3e25ed2 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -261,7 +261,9 @@ func CleanupOldVersions(le *logrus.Entry, pluginOutputPath string) error {
 		// match build id
 		"([a-zA-Z0-9]*)",
 		// match part 1
-		"(", regexp.QuoteMeta(pts[1]), ")$",
+		"(", regexp.QuoteMeta(pts[1]), ")",
+		// match incomplete files left behind by a crash
+		"(", regexp.QuoteMeta(copyTmpSuffix), ")?$",
 	}, ""))
 	if err != nil {
 		return err
-- 
2.43.0


From 3a99328509ade111f40c342d74800f8334343aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:39 +0000
Subject: [PATCH 51/53] fix: plugin/compiler: return the error if the output
 cannot be checked

Any error other than that the output does not exist was taken for an identical
output: nothing was built and no error was returned.
---
 plugin/compiler/watcher.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 3e25ed2..62c4403 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -125,9 +125,11 @@ func (w *Watcher) WatchCompilePlugin(
 		targetOutputPath := pluginOutputPath
 		if strings.Contains(targetOutputPath, buildHashConstTag) {
 			targetOutputPath = strings.ReplaceAll(targetOutputPath, buildHashConstTag, buildHashShort)
-			if _, err := os.Stat(targetOutputPath); !os.IsNotExist(err) {
+			if _, err := os.Stat(targetOutputPath); err == nil {
 				le.Info("detected that output would be identical, skipping")
 				return an, nil
+			} else if !os.IsNotExist(err) {
+				return an, err
 			}
 			if err := CleanupOldVersions(le, pluginOutputPath); err != nil {
 				return an, err
-- 
2.43.0


From d149421d9db1f1a931715d083e276f4e9ba00277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 52/53] fix: plugin/compiler: do not miss changes of the
 watched packages

The files were watched once the plugin was compiled, and queued events were
flushed: changes during the compilation were missed. So were new files, and all
changes of packages which were specified with a relative path.
---
 plugin/compiler/analysis.go |   4 ++
 plugin/compiler/watcher.go  | 132 +++++++++++++++++++++++++-----------
 2 files changed, 96 insertions(+), 40 deletions(-)

diff --git a/plugin/compiler/analysis.go b/plugin/compiler/analysis.go
index 323dc69..82fd87b 100644
--- a/plugin/compiler/analysis.go
+++ b/plugin/compiler/analysis.go
@@ -182,6 +182,10 @@ func (a *Analysis) GetProgramCodeFiles(
 				}
 			}
 			fsetFile := a.fset.File(pak.Syntax[i].Pos())
+			if fsetFile == nil {
+				// there is no package clause in the file
+				continue
+			}
 			watchFile(pakImportPath, fsetFile.Name())
 		}
 	}
diff --git a/plugin/compiler/watcher.go b/plugin/compiler/watcher.go
index 62c4403..69d68ed 100644
--- a/plugin/compiler/watcher.go
+++ b/plugin/compiler/watcher.go
@@ -10,10 +10,10 @@ import (
 	"path"
 	"path/filepath"
 	"regexp"
+	"slices"
 	"strings"
 	"time"
 
-	debounce_fswatcher "github.com/aperturerobotics/util/debounce-fswatcher"
 	"github.com/fsnotify/fsnotify"
 	"github.com/pkg/errors"
 	"github.com/sirupsen/logrus"
@@ -91,18 +91,17 @@ func (w *Watcher) WatchCompilePlugin(
 		return err
 	}
 
-	compilePlugin := func() (*Analysis, error) {
-		rctx := ctx
-		ctx, compileCtxCancel := context.WithCancel(rctx)
-		defer compileCtxCancel()
-
+	analyzePackages := func() (*Analysis, error) {
 		le.
 			WithField("plugin-output-filename", path.Base(pluginOutputPath)).
 			Debugf("analyzing packages: %v", w.packagePaths)
-		an, err := AnalyzePackages(ctx, w.le, w.packageLookupPath, w.packagePaths)
-		if err != nil {
-			return nil, err
-		}
+		return AnalyzePackages(ctx, w.le, w.packageLookupPath, w.packagePaths)
+	}
+
+	compilePlugin := func(an *Analysis) (*Analysis, error) {
+		rctx := ctx
+		ctx, compileCtxCancel := context.WithCancel(rctx)
+		defer compileCtxCancel()
 
 		// pass 1: codegen + build with static build prefix.
 		passBinDir := filepath.Join(pluginCodegenPath, "bin")
@@ -152,8 +151,25 @@ func (w *Watcher) WatchCompilePlugin(
 		return an, err
 	}
 
+	// It's best to watch the entire directory tree and filter the events.
+	//
+	// This is both more efficient on the kernel side and avoids nasty quriks
+	// with git and other editors deleting and re-creating files.
+	//
+	// See fsnotify comments:
+	//   Watching individual files (rather than directories) is generally not
+	//   recommended as many programs (especially editors) update files atomically: it
+	//   will write to a temporary file which is then moved to to destination,
+	//   overwriting the original (or some variant thereof). The watcher on the
+	//   original file is now lost, as that no longer exists.
+	watcher, err := fsnotify.NewWatcher()
+	if err != nil {
+		return err
+	}
+	defer watcher.Close()
+
 	for {
-		an, err := compilePlugin()
+		an, err := analyzePackages()
 		if err != nil {
 			return err
 		}
@@ -163,7 +179,8 @@ func (w *Watcher) WatchCompilePlugin(
 
 		// build file watchlist
 		watchedFiles := make(map[string]struct{})
-		codefileMap := an.GetProgramCodeFiles(w.packagePaths, "")
+		// do not filter by package path: the paths may be relative (./my-package).
+		codefileMap := an.GetProgramCodeFiles(nil, "")
 		for _, filePaths := range codefileMap {
 		FilePathLoop:
 			for _, filePath := range filePaths {
@@ -176,10 +193,8 @@ func (w *Watcher) WatchCompilePlugin(
 			}
 		}
 
-		watchedSourcePaths := make(map[string]struct{}, len(watchedFiles))
 		watchedSourceDirs := make(map[string]struct{}, len(watchedFiles))
 		for filePath := range watchedFiles {
-			watchedSourcePaths[filePath] = struct{}{}
 			sourceDir := filepath.Dir(filePath)
 			if _, ok := watchedSourceDirs[sourceDir]; !ok {
 				watchedSourceDirs[sourceDir] = struct{}{}
@@ -192,52 +207,89 @@ func (w *Watcher) WatchCompilePlugin(
 			len(watchedFiles),
 		)
 
-		// It's best to watch the entire directory tree and filter the events.
-		//
-		// This is both more efficient on the kernel side and avoids nasty quriks
-		// with git and other editors deleting and re-creating files.
-		//
-		// See fsnotify comments:
-		//   Watching individual files (rather than directories) is generally not
-		//   recommended as many programs (especially editors) update files atomically: it
-		//   will write to a temporary file which is then moved to to destination,
-		//   overwriting the original (or some variant thereof). The watcher on the
-		//   original file is now lost, as that no longer exists.
-		//
-		// It's necessary to create one watcher per directory:
+		// It's necessary to watch each directory:
 		//   https://github.com/fsnotify/fsnotify/issues/18
-		watcher, err := fsnotify.NewWatcher()
-		if err != nil {
-			return err
-		}
-
+		var addedWatch bool
 		for watchedDirPath := range watchedSourceDirs {
+			if slices.Contains(watcher.WatchList(), watchedDirPath) {
+				continue
+			}
 			le.Infof("watching dir path: %s", watchedDirPath)
 			err = watcher.Add(watchedDirPath)
 			if err != nil {
-				_ = watcher.Close()
 				return err
 			}
+			addedWatch = true
+		}
+		if addedWatch {
+			// analyze again: the files may have changed before they were watched.
+			continue
+		}
+
+		if _, err := compilePlugin(an); err != nil {
+			return err
 		}
 
 		// wait for a file change
-		happened, err := debounce_fswatcher.DebounceFSWatcherEvents(
+		happened, err := waitCodeFileEvents(
 			ctx,
 			watcher,
 			time.Millisecond*500,
-			func(event fsnotify.Event) (match bool, err error) {
-				if _, ok := watchedSourcePaths[event.Name]; !ok {
-					return false, nil
+			func(filePath string) bool {
+				if _, ok := watchedSourceDirs[filePath]; ok {
+					// the directory was removed or replaced
+					return true
 				}
-				return true, nil
+				_, ok := watchedSourceDirs[filepath.Dir(filePath)]
+				return ok && filepath.Ext(filePath) == ".go" && !strings.HasSuffix(filePath, "_test.go")
 			},
 		)
-		_ = watcher.Close()
 		if err != nil {
 			return err
 		}
 
-		le.Infof("re-analyzing packages after %d filesystem events", len(happened))
+		le.Infof("re-analyzing packages after %d filesystem events", happened)
+	}
+}
+
+// waitCodeFileEvents waits for events matching the filter and a quiet period.
+//
+// Events which were queued before the call count as well: they may be changes
+// which happened while the packages were analyzed and compiled.
+// Returns the number of events.
+func waitCodeFileEvents(
+	ctx context.Context,
+	watcher *fsnotify.Watcher,
+	quiet time.Duration,
+	filter func(filePath string) bool,
+) (int, error) {
+	var happened int
+	var quietC <-chan time.Time
+	for {
+		select {
+		case <-ctx.Done():
+			return happened, ctx.Err()
+		case event, ok := <-watcher.Events:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			if !event.Has(fsnotify.Create) && !event.Has(fsnotify.Write) &&
+				!event.Has(fsnotify.Remove) && !event.Has(fsnotify.Rename) {
+				continue
+			}
+			if !filter(event.Name) {
+				continue
+			}
+			happened++
+			quietC = time.After(quiet)
+		case err, ok := <-watcher.Errors:
+			if !ok {
+				return happened, fsnotify.ErrClosed
+			}
+			return happened, errors.Wrap(err, "watcher error")
+		case <-quietC:
+			return happened, nil
+		}
 	}
 }
 
-- 
2.43.0


From cdc6846969b5fd7d235861cc8c9c207bcce94ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:35 +0000
Subject: [PATCH 53/53] fix: plugin/cli: use the generated build prefix and
 binary id

Without --build-prefix, the compile and codegen commands failed although they
determined a default, and the default of the binary id was not used.
---
 plugin/cli/compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/cli/compile.go b/plugin/cli/compile.go
index e15a48b..56df22c 100644
--- a/plugin/cli/compile.go
+++ b/plugin/cli/compile.go
@@ -84,7 +84,7 @@ func (a *CompilerArgs) setupCompiler(
 		WithField("plugin-binary-id", pluginBinaryID).
 		WithField("build-prefix", buildPrefix).
 		Infof("creating compiler for plugin with packages: %v", args)
-	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, a.BuildPrefix, codegenDirPath, a.PluginBinaryID)
+	hc, err := plugin_compiler.NewModuleCompiler(ctx, le, buildPrefix, codegenDirPath, pluginBinaryID)
 	if err != nil {
 		return nil, nil, rel, err
 	}
-- 
2.43.0

