From bf47bdd3e43af3f0a51ba53209e98717ce0f10f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 01/20] fix: do not cache a placeholder for a listener missing
 from the LDS response

---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 3df185551c6e6a2cdac92d40ffd7e3f1f336066d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 02/20] fix: pick weighted clusters in proportion to their
 weights

A target in [0, total) belongs to the first cluster whose cumulative weight
exceeds it; with >= a cluster of weight 0 could be picked and the first
cluster was over-represented. Drawing an int32 panicked for totals above
MaxInt32.
---
 xdssuite/router.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..7cc4d0d 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -224,10 +224,10 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	targetWeight := fastrand.Uint32n(totalWeight)
 	for _, wc := range wcs {
 		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 47f7d7361e27b616542289bd45237e287fb5a38c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 03/20] fix: decode the base interval of the retry back-off

---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From f0ead208f4f20001499dad8604a92f83e702cfdd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 04/20] fix: find the local rate limit filter anywhere in the
 HTTP filter chain

---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From b5e576dfdaea59c564eba97557aa6d77629fb3dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 05/20] fix: keep the destination port of Thrift-proxy filter
 chains

---
 core/xdsresource/lds.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
-- 
2.43.0


From 177655d382c3546f30e34aabcb437f2dd2638991 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 06/20] fix: report an error when all localities of a cluster
 are empty

---
 xdssuite/resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..5e49abc 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -96,6 +96,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 6d760d090f1e1bc5efe932718721194b10f5f187 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 07/20] fix: apply every condition on a header, not only the
 last one

---
 core/xdsresource/matcher.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..27a009f 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -45,6 +45,18 @@ func (rm *RegexMatcher) Match(other string) bool {
 	return rm.re.MatchString(other)
 }
 
+// andMatcher holds when all of its matchers hold.
+type andMatcher []Matcher
+
+func (am andMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matcher interface {
 	Match(string) bool
 }
@@ -63,17 +75,24 @@ func (ms Matchers) Match(other map[string]string) bool {
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 	ms := map[string]Matcher{}
+	// a header may be subject to several conditions, all of them must hold
+	add := func(name string, m Matcher) {
+		if prev, ok := ms[name]; ok {
+			m = andMatcher{prev, m}
+		}
+		ms[name] = m
+	}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +102,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From 117b8ef1ae550d442db317713139942c911241b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 08/20] fix: keep header conditions with an empty pattern

Such a condition still requires the header to be present (and, for an exact
match, empty); dropping it made the route match calls without the header.
---
 core/xdsresource/matcher.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 27a009f..6e03b63 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -85,18 +85,15 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
+			// an empty pattern is still a condition: the header must be present
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					add(header.Name, ExactMatcher(p.Exact))
-				}
+				add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					add(header.Name, PrefixMatcher(p.Prefix))
-				}
+				add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
-				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
+				if p.SafeRegex != nil {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
-- 
2.43.0


From 316e111c0cad57260b570850ab3ddd292597fa68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 09/20] fix: decode an empty load assignment as a resource
 without endpoints

A nil *EndpointsResource was stored in the cache and returned by lookups.
---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..7e3d063 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// the load assignment has no endpoints, do not store a nil resource
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From 77f292935ef0e158282a51c1027cae4ab4fcf258 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 10/20] fix: decode every resource slot of a name-table
 response

Only the first slot was looked at: a bad resource in another slot was
acknowledged and its hosts were lost.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From 278cc1e9dd0faf95317ffb48b84e50a4592c08ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 11/20] fix: add the pod IP to INSTANCE_IPS unless it is an
 element of the list

10.0.0.1 is a substring of 10.0.0.10 but not an element of that list.
---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..a6bb8b7 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP checks if the ip is an element of the comma-separated list.
+func containsIP(ips, ip string) bool {
+	for _, s := range strings.Split(ips, ",") {
+		if s == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From 80d6327deaf79d8a51be5978e6a8ac25a4ab5370 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 12/20] fix: check the destination before reading its tags

---
 xdssuite/router.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index 7cc4d0d..2661851 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -44,15 +44,14 @@ func NewXDSRouterMiddleware(opts ...Option) endpoint.Middleware {
 	return func(next endpoint.Endpoint) endpoint.Endpoint {
 		return func(ctx context.Context, request, response interface{}) error {
 			ri := rpcinfo.GetRPCInfo(ctx)
-			_, exist := ri.To().Tag(RouterClusterKey)
-			if exist {
-				return next(ctx, request, response)
-			}
-
 			dest := ri.To()
 			if dest == nil {
 				return kerrors.ErrNoDestService
 			}
+			_, exist := dest.Tag(RouterClusterKey)
+			if exist {
+				return next(ctx, request, response)
+			}
 			res, err := router.Route(ctx, ri)
 			if err != nil {
 				return kerrors.ErrRoute.WithCause(err)
-- 
2.43.0


From ce1f7bc15beba4743efdbbba2f39e49546cb677f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 13/20] fix: keep the rate limit of a connection manager
 without RDS or inline routes

---
 core/xdsresource/lds.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 70175cf..d5cba0f 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -241,7 +241,10 @@ func unmarshallHTTPConnectionManager(rawResources *anypb.Any) (string, *RouteCon
 		inlineRouteConfig.TokensPerFill = tokensPerfill
 		return httpConnMng.GetRouteConfig().GetName(), inlineRouteConfig, nil
 	}
-	return "", nil, nil
+	return "", &RouteConfigResource{
+		MaxTokens:     maxTokens,
+		TokensPerFill: tokensPerfill,
+	}, nil
 }
 
 func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionManager) (uint32, uint32, error) {
-- 
2.43.0


From 7bd1b03bd515fa969d99fa8c16664370a415abd4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 14/20] fix: lookups neither lose wake-ups nor return a missing
 resource as success

A lookup registered its notifier after an unlocked cache miss, so an update in
between was not noticed until the timeout. A lookup that timed out removed the
notifier it shared with other lookups, which then missed the update, and it
reported a timeout even if the resource had just been accepted. A lookup that
was woken up ignored whether the resource was still cached and could return
neither a value nor an error.
---
 core/manager/manager.go | 47 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..b6edb07 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -57,6 +57,10 @@ type xdsResourceManager struct {
 type notifier struct {
 	ch  chan struct{}
 	err error
+	// res is the resource that was delivered, it is set before ch is closed
+	res xdsresource.Resource
+	// waiters is the number of lookups that share the notifier, guarded by the lock of the manager
+	waiters int
 }
 
 func (n *notifier) notify(err error) {
@@ -109,6 +113,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.getFromCacheLocked(rType, rName)
+}
+
+// getFromCacheLocked is getFromCache for callers that hold the lock
+func (m *xdsResourceManager) getFromCacheLocked(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -151,6 +160,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// The resource may have been updated since the cache was checked
+	if res, ok = m.getFromCacheLocked(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +176,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -174,18 +189,39 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
 				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
 		}
-		res, _ = m.getFromCache(rType, rName)
+		if res, ok = m.getFromCache(rType, rName); !ok {
+			// removed by a later update
+			res = nf.res
+		}
 		return res, nil
 	case <-ctx.Done():
-		// remove the notifier if timeout.
-		m.mu.Lock()
-		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
+		if res, ok = m.stopWaiting(rType, rName, nf); ok {
+			// accepted before the timeout
+			return res, nil
+		}
 		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
 			xdsresource.ResourceTypeToName[rType], rName)
 	}
 }
 
+// stopWaiting is called by a lookup that timed out. It returns the resource if it was delivered in the meantime.
+// Otherwise, it removes the notifier unless other lookups still wait for it.
+func (m *xdsResourceManager) stopWaiting(rType xdsresource.ResourceType, rName string, nf *notifier) (interface{}, bool) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if res, ok := m.getFromCacheLocked(rType, rName); ok {
+		return res, true
+	}
+	if nf.res != nil {
+		return nf.res, true
+	}
+	nf.waiters--
+	if nf.waiters == 0 && m.notifierMap[rType][rName] == nf {
+		delete(m.notifierMap[rType], rName)
+	}
+	return nil, false
+}
+
 // cleaner cleans the expired cache periodically
 // TODO: optimize the cache
 func (m *xdsResourceManager) cleaner() {
@@ -292,6 +328,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
+			nf.res = res
 			nf.notify(nil)
 			delete(m.notifierMap[rt], name)
 		}
-- 
2.43.0


From 734904007b1765c8c74c49270d098a1231166fe9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 15/20] fix: pass all resources in force to the update handlers
 of a partial update

Route-table responses may be partial. The handler of the retry policies only
saw the tables of the latest response and removed the policies of the others.
---
 core/manager/manager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index b6edb07..25e8dad 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -314,8 +314,19 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
+		inForce := up
+		if !rt.RequireFullADSResponse() {
+			// the update may be partial, but the handlers need all the resources in force
+			inForce = make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+			for name, res := range m.cache[rt] {
+				inForce[name] = res
+			}
+			for name, res := range up {
+				inForce[name] = res
+			}
+		}
 		for _, handler := range handlers {
-			handler(up)
+			handler(inForce)
 		}
 	}
 
-- 
2.43.0


From dcdd22fd9056e9b2c3b5b90cf9f113ff788ccd19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 16/20] fix: evict resources that are never looked up after
 they were cached

---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 25e8dad..270ea5c 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -295,11 +295,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt = &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// a resource that is never looked up expires too
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From 8c189c087a952bdd08f09373583f033b9f69ff56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 17/20] fix: do not block on a client that has stopped

Once the sender is gone (authentication rejected, initial connection failed,
closed) nothing drains the request channel: when it was full, lookups blocked
forever while holding the locks of the manager and the client. The warm-up
waited forever for responses that cannot arrive any more.
---
 core/manager/client.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..404fecd 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -301,14 +301,22 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
@@ -330,6 +338,8 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		// there is neither a sender nor a receiver
+		c.close()
 		return
 	}
 
@@ -403,8 +413,11 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 }
 
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	// put the req to the channel, nobody receives from it once the client is closed
+	select {
+	case c.reqCh <- req:
+	case <-c.closeCh:
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From fc7f8175b9785180a3d28388a875223e5b0efff0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 18/20] fix: do not hold the client lock while sending on the
 network

Lookups that miss take the client lock while holding the lock of the manager:
a Send that blocks stalled all lookups, cached resources included.
---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 404fecd..578d461 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -401,9 +401,13 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res))
+	}
+	c.mu.Unlock()
+	// send without the lock, lookups need it
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From c197c21a4af5b35f4ab2aba12e5afe985ed23612 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 19/20] fix: ignore the case of the hosts in the name table

---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 578d461..bcea252 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -95,7 +95,11 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// the comparison of hosts ignores case
+	r.lookupTable = make(map[string][]string, len(up))
+	for host, ips := range up {
+		r.lookupTable[strings.ToLower(host)] = ips
+	}
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -437,7 +441,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From e1e8916845e01916fae92f8a72d47cac4b4213a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 20/20] fix: push every limit change to the running server's
 limiter

A listener update between the first UpdateLimit call and the registration of
the updater was lost, and the limits were read and written without a lock.
---
 xdssuite/limiter.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..5a4459a 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -62,15 +63,26 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 }
 
 type limiter struct {
+	mu      sync.Mutex // guards the limits in opt and orders the calls of the updater
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
 }
 
+// setUpdater is invoked by the server when it has created its limiter
+func (l *limiter) setUpdater(u limit.Updater) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.updater.Store(u)
+	u.UpdateLimit(l.opt)
+}
+
 func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -115,10 +127,7 @@ func NewLimiter(opts ...Option) server.Option {
 		port: serverOpt.servicePort,
 	}
 
-	l.opt.UpdateControl = func(u limit.Updater) {
-		u.UpdateLimit(l.opt)
-		l.updater.Store(u)
-	}
+	l.opt.UpdateControl = l.setUpdater
 
 	m.RegisterXDSUpdateHandler(xdsresource.ListenerType, l.listenerUpdater)
 	return server.WithLimit(l.opt)
-- 
2.43.0

