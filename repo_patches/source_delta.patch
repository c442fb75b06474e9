From 17283aac852cd50869f8435df210a9b16b042ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:28 +0000
Subject: [PATCH 01/35] fix: add the leading slash to route paths before
 compiling them

A route path configured without a leading slash was compiled as is, so it
never matched any request even though validateRoutes prefixed it afterwards.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..56a3ff9 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 75dd3c325eb9015841004d9a68b00e88cfa352a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:37 +0000
Subject: [PATCH 02/35] fix: keep the leading slash of a path transformed to
 the root

With transform "/" a request for /mse6/get on route /mse6/ resolved to
http://host:portget, which is not a valid URL: the handler panicked on the
nil upstream request and dropped the downstream connection.
---
 proxy.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..7d4bc70 100644
--- a/proxy.go
+++ b/proxy.go
@@ -133,7 +133,12 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 		if t == "/" {
 			t = ""
 		}
-		uri = proxy.Up.Atmpt.URL.String() + strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		transformed := strings.Replace(proxy.Dwn.URI, proxy.Route.Path, t, 1)
+		//the remainder after the route path needs its own separator from the upstream host and port.
+		if len(transformed) > 0 && transformed[0] != '/' && transformed[0] != '?' {
+			transformed = "/" + transformed
+		}
+		uri = proxy.Up.Atmpt.URL.String() + transformed
 	}
 	return uri
 }
-- 
2.43.0


From 29e83fd0acd1e9b6fe7f3dde969e88b324e1cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:37 +0000
Subject: [PATCH 03/35] fix: declare the content encoding of JSON error
 responses

Clients sending Accept-Encoding: gzip received a gzipped error body without
a Content-Encoding header, which they cannot decode.
---
 server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 56a3ff9..5cba3bd 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,11 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From ba64b1d262414b4500c64da881e60e10ac21b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 04/35] fix: negotiate and label content codings by their
 headers

The body was treated as gzip by its first two bytes alone, a gzip qvalue of 0
was read as acceptance, and bodies in other codings were gzipped and relabelled.
---
 proxy.go        | 51 +++++++++++++++++++++++++++++++++++++++++--------
 proxyhandler.go |  3 ++-
 responses.go    | 20 +++++--------------
 3 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/proxy.go b/proxy.go
index 7d4bc70..9365355 100644
--- a/proxy.go
+++ b/proxy.go
@@ -221,7 +221,7 @@ func (proxy *Proxy) parseIncoming(request *http.Request) *Proxy {
 	proxy.Dwn.Req = request
 
 	proxy.Dwn.AbortedFlag = false
-	proxy.Dwn.Resp.SendGzip = strings.Contains(request.Header.Get("Accept-Encoding"), "gzip")
+	proxy.Dwn.Resp.SendGzip = acceptsGzip(request)
 
 	log.Trace().
 		Str("path", proxy.Dwn.Path).
@@ -302,6 +302,31 @@ func parseHTTPVer(request *http.Request) string {
 	return fmt.Sprintf("%d.%d", request.ProtoMajor, request.ProtoMinor)
 }
 
+//RFC7231, section 5.3.4: gzip is acceptable if the request lists it, unless its qvalue is 0
+func acceptsGzip(request *http.Request) bool {
+	for _, coding := range strings.Split(strings.Join(request.Header[acceptEncoding], ","), ",") {
+		params := strings.Split(coding, ";")
+		if !isGzipCoding(params[0]) {
+			continue
+		}
+		for _, param := range params[1:] {
+			kv := strings.SplitN(param, "=", 2)
+			if len(kv) == 2 && strings.EqualFold(strings.TrimSpace(kv[0]), "q") {
+				if q, err := strconv.ParseFloat(strings.TrimSpace(kv[1]), 64); err == nil && q == 0 {
+					return false
+				}
+			}
+		}
+		return true
+	}
+	return false
+}
+
+func isGzipCoding(coding string) bool {
+	coding = strings.TrimSpace(coding)
+	return strings.EqualFold(coding, "gzip") || strings.EqualFold(coding, "x-gzip")
+}
+
 func parseXRequestDebug(request *http.Request) bool {
 	h := request.Header.Get("X-REQUEST-DEBUG")
 	return len(h) > 0 && strings.ToLower(h) == "true"
@@ -438,18 +463,28 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if upCe := proxy.upstreamContentEncoding(); len(upCe) > 0 && !proxy.Up.Atmpt.isGzip {
+		//not ours to decode or encode again, the body is passed on as is.
+		ce = upCe
+	} else if proxy.Dwn.Resp.SendGzip {
 		ce = "gzip"
-	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
-		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
-		if len(ceA) > 0 {
-			ce = strings.Join(ceA, " ")
-		}
 	}
 
 	return ce
 }
 
+//the content codings upstream applied to its response other than identity, empty if there are none.
+func (proxy *Proxy) upstreamContentEncoding() string {
+	if !proxy.hasMadeUpstreamAttempt() {
+		return ""
+	}
+	ce := strings.Join(proxy.Up.Atmpt.resp.Header[contentEncoding], ", ")
+	if strings.EqualFold(ce, "identity") {
+		return ""
+	}
+	return ce
+}
+
 func (proxy *Proxy) setRoute(route *Route) {
 	proxy.Route = route
 }
@@ -512,7 +547,7 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && len(proxy.upstreamContentEncoding()) == 0
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..e14e3c1 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -15,6 +15,7 @@ import (
 //XRequestID is a per HTTP request unique identifier
 const XRequestID = "X-Request-Id"
 const contentEncoding = "Content-Encoding"
+const acceptEncoding = "Accept-Encoding"
 const transferEncoding = "Transfer-Encoding"
 const contentLength = "Content-Length"
 const date = "Date"
@@ -203,7 +204,7 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	go func() {
 		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
+		if isGzipCoding(proxy.upstreamContentEncoding()) && bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
 			proxy.Up.Atmpt.isGzip = true
 		}
 
diff --git a/responses.go b/responses.go
index b983b15..7439e17 100644
--- a/responses.go
+++ b/responses.go
@@ -159,26 +159,16 @@ func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy.writeStandardResponseHeaders()
 	proxy.respondWith(200, "ok")
 
-	ae := r.Header["Accept-Encoding"]
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
-	if len(ae) > 0 {
-		s := strings.Join(ae, " ")
-		if strings.Contains(s, "gzip") {
-			w.Header().Set("Content-Encoding", "gzip")
-			res = *Gzip(res)
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		} else {
-			w.Header().Set("Content-Encoding", "identity")
-			w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-			w.Write(res)
-		}
+	if acceptsGzip(r) {
+		w.Header().Set("Content-Encoding", "gzip")
+		res = *Gzip(res)
 	} else {
 		w.Header().Set("Content-Encoding", "identity")
-		w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
-		w.Write(res)
 	}
+	w.Header().Set("Content-Length", fmt.Sprintf("%d", len(res)))
+	w.Write(res)
 
 	logHandledDownstreamRoundtrip(proxy)
 }
-- 
2.43.0


From 67be184987faf8e654710411212e989ec2d423b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 05/35] fix: reject requests whose body could not be read

A body cut off by the client, by the read timeout or by bad chunking was
dropped and the request still forwarded upstream without it.
---
 proxy.go        | 3 +++
 proxyhandler.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 9365355..35d7b72 100644
--- a/proxy.go
+++ b/proxy.go
@@ -97,6 +97,7 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	ReqUnread   bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -272,6 +273,8 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		//never pass on a partial body
+		proxy.Dwn.ReqUnread = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index e14e3c1..a9c9d3d 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -78,7 +78,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqUnread
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 49180f31ea939af608f9cc836adb047644e85706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 06/35] fix: enforce maxBodyBytes on chunked bodies and accept
 a body of exactly that size

---
 proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 35d7b72..318ecbe 100644
--- a/proxy.go
+++ b/proxy.go
@@ -244,7 +244,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
@@ -255,9 +255,10 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 	//create buffered reader so we can fetch chunks of request as they come.
 	//No need to close request.Body of type io.ReadCloser, see: https://golang.org/pkg/net/http/#Request
+	//reads one byte past the limit to tell a body that is too large from one that just fits.
 	bodyReader := bufio.NewReader(http.MaxBytesReader(proxy.Dwn.Resp.Writer,
 		request.Body,
-		Runner.Connection.Downstream.MaxBodyBytes))
+		Runner.Connection.Downstream.MaxBodyBytes+1))
 
 	var err error
 	var buf []byte
-- 
2.43.0


From dd54b6bfc94600fd3008a69830ce3c7a1375c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:09 +0000
Subject: [PATCH 07/35] fix: reject malformed jwt tokens instead of panicking

---
 proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy.go b/proxy.go
index 318ecbe..85b4cb5 100644
--- a/proxy.go
+++ b/proxy.go
@@ -623,6 +623,9 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
+	if err != nil {
+		return nil, err
+	}
 	if len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
-- 
2.43.0


From 6bc5907688bc95f00c9d815680dc0badba1f9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 08/35] fix: replace the key when a jwks key is reissued under
 the same kid

---
 jwt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..51a2204 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
-		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+	for i := range *ks {
+		if (*ks)[i].Kid == kp.Kid {
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From e37b62932f2d76a6ac8b25cefef0cda788d8b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 09/35] fix: do not panic on jwks keys that are not of the type
 their alg says

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 51a2204..d79b06f 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From 87f9e6e9e2fe8ddb122bb107c70ca2ed799650d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:12 +0000
Subject: [PATCH 10/35] fix: read acceptableSkewSeconds when it is given as a
 number

It was ignored and the default of 120 seconds applied.
---
 config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 4ac0c52..369a9a7 100644
--- a/config.go
+++ b/config.go
@@ -1,7 +1,6 @@
 package j8a
 
 import (
-	"encoding/json"
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
@@ -90,8 +89,8 @@ func (config Config) readYmlFile(file string) *Config {
 }
 
 func (config Config) parse(yml []byte) *Config {
-	jsn, _ := yaml.YAMLToJSON(yml)
-	json.Unmarshal(jsn, &config)
+	//converts scalars to the type of their field, i.e. acceptableSkewSeconds need not be quoted.
+	yaml.Unmarshal(yml, &config)
 	return &config
 }
 
-- 
2.43.0


From 4ac15fd32d1a25d6f599941d2f78548a64e51876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:13 +0000
Subject: [PATCH 11/35] fix: do not sort the shared policy while other requests
 read it

---
 policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy.go b/policy.go
index a2603e7..e70beda 100644
--- a/policy.go
+++ b/policy.go
@@ -28,7 +28,9 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
-	sort.Sort(Policy(policy))
+	//the policy is shared between requests, sort a copy
+	policy = append(Policy{}, policy...)
+	sort.Sort(policy)
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
 	for i := 1; i <= len(policy); i++ {
-- 
2.43.0


From c9749e5883f2360a9e39496e692a5f72df591f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 12/35] fix: do not reseed the random source policies use with
 every JSON response

---
 responses.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/responses.go b/responses.go
index 7439e17..e7843e8 100644
--- a/responses.go
+++ b/responses.go
@@ -146,8 +146,12 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 	return strings.ToLower(string(statusCodeResponse.AsJSON()))
 }
 
+func init() {
+	//once only, the source is shared with policies. reseeding it repeats their dice.
+	rand.Seed(time.Now().UnixNano())
+}
+
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
 	return huttese[rand.Int()%len(huttese)]
 }
 
-- 
2.43.0


From 3ed9ab51ff1029419d817cbfa7d8df38bb22c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:15 +0000
Subject: [PATCH 13/35] fix: answer 503 for a route whose resource has no
 mappings instead of panicking

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 7bcdbf1..5e3be29 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From c4b8379cb80a59d51aeced65cc830dc611270406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:16 +0000
Subject: [PATCH 14/35] fix: format certificate serials with an odd number of
 hex digits

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From 8efeb12aa86c348d96a164aed0c77485b26df8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:17 +0000
Subject: [PATCH 15/35] fix: send one X-Request-Id and one HSTS header when
 upstream sends its own

---
 proxyhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index a9c9d3d..6efa183 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -254,8 +254,9 @@ func processUpstreamResponse(proxy *Proxy, upstreamResponse *http.Response, upst
 				proxy.copyUpstreamStatusCodeHeader()
 				sendStatusCodeAsJSON(proxy)
 			} else {
-				proxy.writeStandardResponseHeaders()
+				//ours last, they replace the ones by the same name upstream sent.
 				proxy.copyUpstreamResponseHeaders()
+				proxy.writeStandardResponseHeaders()
 				proxy.copyUpstreamStatusCodeHeader()
 				proxy.encodeUpstreamResponseBody()
 				proxy.setContentLengthHeader()
-- 
2.43.0


From 362cfd6da9e14eff4ad5e11072d7faf764c6b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:41 +0000
Subject: [PATCH 16/35] fix: keep a late upstream attempt from writing into the
 one that follows it

A timed out attempt returning after the next one had started replaced its
response, status code and gzip flag.
---
 proxyhandler.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 6efa183..cad1b71 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -146,8 +146,8 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. when it returns late, it's not current anymore.
+	atmpt := proxy.Up.Atmpt
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
@@ -155,21 +155,21 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
+		atmpt.resp = upstreamResponse
 
 		defer func() {
 			if err := recover(); err != nil {
 				log.Trace().
 					Str("error", fmt.Sprintf("error: %v", err)).
 					Str(XRequestID, proxy.XRequestID).
-					Int64("upAtmptElapsedMicros", time.Since(proxy.Up.Atmpt.startDate).Microseconds()).
-					Str("upAtmpt", proxy.Up.Atmpt.print()).
+					Int64("upAtmptElapsedMicros", time.Since(atmpt.startDate).Microseconds()).
+					Str("upAtmpt", atmpt.print()).
 					Msgf("safe to ignore. recovered internally from closed header success channel after request already handled.")
 			}
 		}()
 
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
+		if atmpt.CompleteHeader != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteHeader)
 		}
 	}()
 
@@ -199,14 +199,14 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 	var upstreamResponseBody []byte
 	var bodyError error
 
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	//get a reference to this before any race conditions may occur. when it returns late, it's not current anymore.
+	atmpt := proxy.Up.Atmpt
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+		atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if isGzipCoding(proxy.upstreamContentEncoding()) && bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
-			proxy.Up.Atmpt.isGzip = true
+		if isGzipCoding(strings.Join(upstreamResponse.Header[contentEncoding], ", ")) && bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes) {
+			atmpt.isGzip = true
 		}
 
 		defer func() {
@@ -217,8 +217,8 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		}()
 
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
+		if atmpt.CompleteBody != nil && !atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
+			close(atmpt.CompleteBody)
 		}
 	}()
 
-- 
2.43.0


From ae86ba829872ad525f6506850cf55fbaec022d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:03 +0000
Subject: [PATCH 17/35] fix: synchronise jwks key rotation with the requests
 verifying against the keys

---
 jwt.go   | 21 +++++++++++++++++++--
 proxy.go |  4 ++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/jwt.go b/jwt.go
index d79b06f..4b9dc98 100644
--- a/jwt.go
+++ b/jwt.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -78,6 +79,9 @@ const skewInvalid = "jwt [%s] acceptable skew seconds, must be 0 or greater, was
 
 const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize %d, check your configuration"
 
+//guards key sets, rotation updates them while requests are verified
+var keysLock sync.RWMutex
+
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
 
@@ -166,6 +170,19 @@ func (jwt *Jwt) Validate() error {
 	return err
 }
 
+func (jwt *Jwt) upsert(ks *KeySet, kp KidPair) {
+	keysLock.Lock()
+	defer keysLock.Unlock()
+	ks.Upsert(kp)
+}
+
+//a snapshot of the key set that is safe to use during rotation
+func (jwt *Jwt) snapshot(ks *KeySet) KeySet {
+	keysLock.RLock()
+	defer keysLock.RUnlock()
+	return append(KeySet{}, *ks...)
+}
+
 //TODO this method needs a refactor and has high cognitive complexity
 func (jwt *Jwt) LoadJwks() error {
 	var err error
@@ -211,7 +228,7 @@ func (jwt *Jwt) LoadJwks() error {
 						}
 						err = key.Raw(k.Key)
 						if err == nil {
-							jwt.RSAPublic.Upsert(k)
+							jwt.upsert(&jwt.RSAPublic, k)
 						}
 					//Note, removed support for HS256, secret keys make no sense for JWKS even over TLS.
 					case jwa.ES256, jwa.ES384, jwa.ES512:
@@ -228,7 +245,7 @@ func (jwt *Jwt) LoadJwks() error {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
 						if err == nil {
-							jwt.ECDSAPublic.Upsert(k)
+							jwt.upsert(&jwt.ECDSAPublic, k)
 						}
 					default:
 						err = errors.New(fmt.Sprintf("unknown key type in Jwks %v", alg.String()))
diff --git a/proxy.go b/proxy.go
index 85b4cb5..07c1e76 100644
--- a/proxy.go
+++ b/proxy.go
@@ -581,9 +581,9 @@ func (proxy *Proxy) validateJwt() bool {
 
 		switch alg {
 		case jwa.RS256, jwa.RS384, jwa.RS512, jwa.PS256, jwa.PS384, jwa.PS512:
-			parsed, err = proxy.verifySignature(token, routeSec.RSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.RSAPublic), alg, ev)
 		case jwa.ES256, jwa.ES384, jwa.ES512:
-			parsed, err = proxy.verifySignature(token, routeSec.ECDSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.ECDSAPublic), alg, ev)
 		case jwa.HS256, jwa.HS384, jwa.HS512:
 			parsed, err = proxy.verifySignature(token, routeSec.Secret, alg, ev)
 		case jwa.NoSignature:
-- 
2.43.0


From fb76dd21bf45460e85883f2932b82074c1fd60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:44 +0000
Subject: [PATCH 18/35] fix: apply acceptableSkewSeconds to iat and nbf however
 large it is

---
 proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 07c1e76..ae9bf5d 100644
--- a/proxy.go
+++ b/proxy.go
@@ -712,10 +712,10 @@ func verifyDateClaims(token string, skew int) error {
 	//so i need to parse it again.
 	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
 
-	if skewed.IssuedAt().Unix() > int64(skew*1000) {
+	if skewed.IssuedAt().Unix() > 1 {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
 	}
-	if skewed.NotBefore().Unix() > int64(skew*1000) {
+	if skewed.NotBefore().Unix() > 1 {
 		skewed.Set("nbf", skewed.NotBefore().Add(-time.Second*time.Duration(skew)))
 	}
 	if skewed.Expiration().Unix() > 1 {
-- 
2.43.0


From 1b2df5ced3ec74e976b6c96ac6a8fc919940acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:30 +0000
Subject: [PATCH 19/35] fix: time out jwks requests so that a hanging endpoint
 does not stop rotation

---
 jwt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 4b9dc98..651908c 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"strconv"
 	"sync"
 	"time"
@@ -84,6 +85,7 @@ var keysLock sync.RWMutex
 
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
+const jwksFetchTimeout = time.Second * 10
 
 func NewJwt(name string, alg string, key string, jwksUrl string, acceptableSkewSeconds string) *Jwt {
 	jwt := Jwt{
@@ -190,7 +192,8 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		//without timeout, a hanging endpoint would hold the lock and stop rotation for good
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksFetchTimeout}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From 4ae0e9f8abb0f49af8241206b200d0f5addbb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:18 +0000
Subject: [PATCH 20/35] fix: do not race compiling the address patterns of the
 access log

---
 iprex.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/iprex.go b/iprex.go
index 9ae2904..46d189a 100644
--- a/iprex.go
+++ b/iprex.go
@@ -1,9 +1,15 @@
 package j8a
 
-import "regexp"
+import (
+	"regexp"
+	"sync"
+)
 
 //TODO: rather not use multiple regexes in a chain and replace this with a tested thirdparty framework.
 type iprex struct {
+	//patterns are compiled on first use, which may be by several requests at once
+	lock sync.Mutex
+
 	//v6 hex with embedded v4 dec address
 	ipv64e *regexp.Regexp
 
@@ -19,6 +25,7 @@ type iprex struct {
 
 func (ipr *iprex) extractAddr(msg string) string {
 	addr := "not found"
+	ipr.lock.Lock()
 	if ipr.ipv6s == nil {
 		r2, _ := regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
 		ipr.ipv6s = r2
@@ -35,6 +42,7 @@ func (ipr *iprex) extractAddr(msg string) string {
 		r, _ := regexp.Compile("((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
 		ipr.ipv4 = r
 	}
+	ipr.lock.Unlock()
 	match := ipr.ipv64e.FindStringSubmatch(msg)
 	if len(match) > 0 {
 		addr = match[0]
-- 
2.43.0


From 655e8a38db2fe36da1865fe215e408c68c81c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:40 +0000
Subject: [PATCH 21/35] fix: log ipv6 client addresses in full

---
 iprex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iprex.go b/iprex.go
index 46d189a..0ec0794 100644
--- a/iprex.go
+++ b/iprex.go
@@ -32,6 +32,8 @@ func (ipr *iprex) extractAddr(msg string) string {
 	}
 	if ipr.ipv6 == nil {
 		r1, _ := regexp.Compile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
+		//addresses are made up of shorter ones, don't stop at these
+		r1.Longest()
 		ipr.ipv6 = r1
 	}
 	if ipr.ipv64e == nil {
@@ -47,11 +49,11 @@ func (ipr *iprex) extractAddr(msg string) string {
 	if len(match) > 0 {
 		addr = match[0]
 	} else {
-		match2 := ipr.ipv6s.FindStringSubmatch(msg)
+		match2 := ipr.ipv6.FindStringSubmatch(msg)
 		if len(match2) > 0 {
 			addr = match2[0]
 		} else {
-			match3 := ipr.ipv6.FindStringSubmatch(msg)
+			match3 := ipr.ipv6s.FindStringSubmatch(msg)
 			if len(match3) > 0 {
 				addr = match3[0]
 			} else {
-- 
2.43.0


From 7d1d5d503c8f383157d0c2130813e861eee67cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:54 +0000
Subject: [PATCH 22/35] fix: warn about a cert chain that is no longer valid
 instead of logging nothing

---
 tls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index eaaafb8..de8b2b3 100644
--- a/tls.go
+++ b/tls.go
@@ -62,7 +62,11 @@ func tlsHealthCheck(conf *tls.Config, daemon bool) {
 	Daemon:
 		for {
 			//Andeka is checking our certificate chains forever.
-			andeka, _ := checkCertChain(conf.Certificates[0])
+			andeka, err := checkCertChain(conf.Certificates[0])
+			if err != nil {
+				//there's nothing to explain about a chain that doesn't verify, i.e. because it has expired.
+				log.Warn().Msgf("Your cert chain is not valid, update now, cause: %v", err)
+			}
 			logCertStats(andeka)
 			if daemon {
 				time.Sleep(time.Hour * 24)
-- 
2.43.0


From c7129a6663146928b572b4ceaf0a92b4a44a46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:17 +0000
Subject: [PATCH 23/35] fix: log the content encoding of about responses

---
 responses.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/responses.go b/responses.go
index e7843e8..be91156 100644
--- a/responses.go
+++ b/responses.go
@@ -157,8 +157,8 @@ func randomHuttese() string {
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy := new(Proxy).
-		parseIncoming(r).
-		setOutgoing(w)
+		setOutgoing(w).
+		parseIncoming(r)
 
 	proxy.writeStandardResponseHeaders()
 	proxy.respondWith(200, "ok")
-- 
2.43.0


From b06572654a6a25430d097fb41fc6a6982d5be1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 24/35] fix: do not start an upstream attempt once the round
 trip timeout has passed while reading the request

---
 proxyhandler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index cad1b71..033b5f9 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -58,7 +58,10 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 				return
 			}
 			url, label, mapped := route.mapURL(proxy)
-			if mapped {
+			if mapped && proxy.hasDownstreamAborted() {
+				//reading the request already took the entire round trip time, do not bother upstream.
+				sendStatusCodeAsJSON(proxy.respondWith(504, "gateway timeout triggered by downstream event"))
+			} else if mapped {
 				//mapped requests are sent to httpclient
 				handle(proxy.firstAttempt(url, label))
 			} else {
-- 
2.43.0


From a2e9e23dd49b37253a563f0acd25635a6a36fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 25/35] fix: limit reading a request to the round trip timeout
 when that is less than the read timeout

---
 server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 5cba3bd..2732cf4 100644
--- a/server.go
+++ b/server.go
@@ -86,6 +86,12 @@ func (runtime Runtime) startListening() {
 	roundTripTimeoutDurationWithGrace := roundTripTimeoutDuration + (time.Second * 1)
 	idleTimeoutDuration := time.Second * time.Duration(runtime.Connection.Downstream.IdleTimeoutSeconds)
 
+	//round trip time includes reading the request
+	readRequestTimeoutDuration := readTimeoutDuration
+	if roundTripTimeoutDuration < readTimeoutDuration {
+		readRequestTimeoutDuration = roundTripTimeoutDuration
+	}
+
 	log.Debug().
 		Int64("dwnMaxBodyBytes", runtime.Connection.Downstream.MaxBodyBytes).
 		Float64("dwnReadTimeoutSeconds", readTimeoutDuration.Seconds()).
@@ -96,7 +102,7 @@ func (runtime Runtime) startListening() {
 	server := &http.Server{
 		Addr:              ":" + strconv.Itoa(runtime.Connection.Downstream.Port),
 		ReadHeaderTimeout: readTimeoutDuration,
-		ReadTimeout:       readTimeoutDuration,
+		ReadTimeout:       readRequestTimeoutDuration,
 		WriteTimeout:      roundTripTimeoutDurationWithGrace,
 		IdleTimeout:       idleTimeoutDuration,
 		Handler:           runtime.mapPathsToHandler(),
-- 
2.43.0


From 8574c5aa75fa5212603a1fe003386b685cb4b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 26/35] fix: match requests in absolute form by their path

---
 route.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/route.go b/route.go
index 5e3be29..2da660b 100644
--- a/route.go
+++ b/route.go
@@ -34,10 +34,15 @@ type Route struct {
 
 func (route Route) matchURI(request *http.Request) bool {
 	matched := false
+	uri := request.RequestURI
+	if request.URL.IsAbs() {
+		//RFC7230, section 5.3.2: absolute form, routes match what follows scheme and host
+		uri = request.URL.RequestURI()
+	}
 	if route.PathRegex != nil {
-		matched = route.PathRegex.MatchString(request.RequestURI)
+		matched = route.PathRegex.MatchString(uri)
 	} else {
-		matched, _ = regexp.MatchString("^"+route.Path, request.RequestURI)
+		matched, _ = regexp.MatchString("^"+route.Path, uri)
 	}
 
 	return matched
-- 
2.43.0


From cf22aa77a0d02c2d53d597b088061352ab4583ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 27/35] fix: route requests to the about resource like any
 other, by longest path, method and jwt

---
 proxyhandler.go |  5 +++++
 responses.go    |  9 ++++++---
 route.go        |  4 ++++
 server.go       | 10 +---------
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 033b5f9..96d697a 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -57,6 +57,11 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 				sendStatusCodeAsJSON(proxy.respondWith(401, "jwt bearer token missing, invalid, expired or unauthorized"))
 				return
 			}
+			if route.isAbout() {
+				//this is about us, upstream is not involved
+				sendAboutAsJSON(proxy)
+				return
+			}
 			url, label, mapped := route.mapURL(proxy)
 			if mapped && proxy.hasDownstreamAborted() {
 				//reading the request already took the entire round trip time, do not bother upstream.
diff --git a/responses.go b/responses.go
index be91156..006ebb1 100644
--- a/responses.go
+++ b/responses.go
@@ -156,16 +156,19 @@ func randomHuttese() string {
 }
 
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
-	proxy := new(Proxy).
+	sendAboutAsJSON(new(Proxy).
 		setOutgoing(w).
-		parseIncoming(r)
+		parseIncoming(r))
+}
 
+func sendAboutAsJSON(proxy *Proxy) {
+	w := proxy.Dwn.Resp.Writer
 	proxy.writeStandardResponseHeaders()
 	proxy.respondWith(200, "ok")
 
 	res := AboutResponse{}.AsJSON()
 	w.Header().Set("Content-Type", "application/json")
-	if acceptsGzip(r) {
+	if proxy.Dwn.Resp.SendGzip {
 		w.Header().Set("Content-Encoding", "gzip")
 		res = *Gzip(res)
 	} else {
diff --git a/route.go b/route.go
index 2da660b..c7ea9dd 100644
--- a/route.go
+++ b/route.go
@@ -96,6 +96,10 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	return nil, "", false
 }
 
+func (route Route) isAbout() bool {
+	return route.Resource == about
+}
+
 func (route Route) hasJwt() bool {
 	return len(route.Jwt) > 0
 }
diff --git a/server.go b/server.go
index 2732cf4..9ec835f 100644
--- a/server.go
+++ b/server.go
@@ -136,16 +136,8 @@ func (runtime Runtime) startListening() {
 }
 
 func (runtime Runtime) mapPathsToHandler() http.Handler {
-	//TODO: do we need this handler with two handlerfuncs or can we map all requests to one handlerfunc to speed up?
-	//if one handlerfunc in the system, it would need to distinguish between /about and other routes.
-
+	//one handlerfunc in the system, it distinguishes between the about resource and upstream resources once routed.
 	handler := http.NewServeMux()
-	for _, route := range runtime.Routes {
-		if route.Resource == about {
-			handler.Handle(route.Path, http.HandlerFunc(aboutHandler))
-			log.Debug().Msgf("assigned about handler to path %s", route.Path)
-		}
-	}
 	handler.Handle("/", http.HandlerFunc(proxyHandler))
 	log.Debug().Msgf("assigned proxy handler to path %s", "/")
 
-- 
2.43.0


From 39692b59afad9f15cf3e560e21629f2ae0a7cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:38 +0000
Subject: [PATCH 28/35] fix: refuse a configuration with values of the wrong
 type instead of ignoring them

---
 config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 369a9a7..8148c92 100644
--- a/config.go
+++ b/config.go
@@ -90,7 +90,9 @@ func (config Config) readYmlFile(file string) *Config {
 
 func (config Config) parse(yml []byte) *Config {
 	//converts scalars to the type of their field, i.e. acceptableSkewSeconds need not be quoted.
-	yaml.Unmarshal(yml, &config)
+	if err := yaml.Unmarshal(yml, &config); err != nil {
+		config.panic(fmt.Sprintf("unable to parse config, cause: %v", err))
+	}
 	return &config
 }
 
-- 
2.43.0


From 5aeb1e78a51aa1bf1a480af26573431e79eced41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:38 +0000
Subject: [PATCH 29/35] fix: keep every jwks key that has no kid

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 651908c..28fa5c3 100644
--- a/jwt.go
+++ b/jwt.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
 	"net/http"
+	"reflect"
 	"strconv"
 	"sync"
 	"time"
@@ -23,7 +24,8 @@ type KeySet []KidPair
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
 	for i := range *ks {
-		if (*ks)[i].Kid == kp.Kid {
+		//keys without kid are told apart by their contents, kid is optional, see RFC7517, section 4.5
+		if (*ks)[i].Kid == kp.Kid && (len(kp.Kid) > 0 || reflect.DeepEqual((*ks)[i].Key, kp.Key)) {
 			(*ks)[i].Key = kp.Key
 			updated = true
 		}
-- 
2.43.0


From e7db879ec5a8f7d5ce8ab15de5a6a8d1665e9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:38 +0000
Subject: [PATCH 30/35] fix: do not replace a policy configured by the name
 default

---
 config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 8148c92..7134820 100644
--- a/config.go
+++ b/config.go
@@ -177,7 +177,10 @@ func (config Config) addDefaultPolicy() *Config {
 	if config.Policies == nil {
 		config.Policies = make(map[string]Policy)
 	}
-	config.Policies["default"] = *defaultPolicy
+	//does not replace the one configured
+	if _, ok := config.Policies["default"]; !ok {
+		config.Policies["default"] = *defaultPolicy
+	}
 	return &config
 }
 
-- 
2.43.0


From 426918ce306112c4348f1a01c207525338142cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 31/35] fix: refuse a route transform no upstream request can
 be made with

---
 config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 7134820..6510407 100644
--- a/config.go
+++ b/config.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"regexp"
 	"sort"
@@ -136,8 +137,11 @@ func (config Config) compileRoutePaths() *Config {
 
 func (config Config) compileRouteTransforms() *Config {
 	for i, route := range config.Routes {
-		if len(config.Routes[i].Transform) > 0 && config.Routes[i].Transform[:1] != "/" {
-			config.panic(fmt.Sprintf("config error, illegal route transform %s", route.Transform))
+		if len(config.Routes[i].Transform) > 0 {
+			//needs to be a path upstream requests can be made with
+			if _, err := url.ParseRequestURI(route.Transform); err != nil || config.Routes[i].Transform[:1] != "/" {
+				config.panic(fmt.Sprintf("config error, illegal route transform %s", route.Transform))
+			}
 		}
 	}
 	return &config
-- 
2.43.0


From f256e53f09d9aba987b2ad9993800043daa1f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 32/35] fix: answer 502 when a resource has a host that is not
 valid in a URI, instead of a panic in the handler

---
 proxyhandler.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 96d697a..5ad7be7 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -112,7 +112,7 @@ func handle(proxy *Proxy) {
 	}
 }
 
-func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
+func scaffoldUpstreamRequest(proxy *Proxy) (*http.Request, error) {
 	//this context is used to time out the upstream request
 	ctx, cancel := context.WithCancel(context.TODO())
 
@@ -126,7 +126,7 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 	upReqURI := proxy.resolveUpstreamURI()
 
-	upstreamRequest, _ := http.NewRequestWithContext(ctx,
+	upstreamRequest, err := http.NewRequestWithContext(ctx,
 		proxy.Dwn.Method,
 		upReqURI,
 		proxy.bodyReader())
@@ -138,6 +138,12 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 		Str("upReqURI", upReqURI).
 		Msg("upstream URI resolved")
 
+	if err != nil {
+		//i.e. the configured host is not valid as part of a URI
+		cancel()
+		return nil, err
+	}
+
 	proxy.Up.Atmpt.Aborted = upstreamRequest.Context().Done()
 
 	//set upstream headers
@@ -150,13 +156,16 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 	}
 	upstreamRequest.Header.Set(XRequestID, proxy.XRequestID)
 
-	return upstreamRequest
+	return upstreamRequest, nil
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 	//get a reference to this before any race conditions may occur. when it returns late, it's not current anymore.
 	atmpt := proxy.Up.Atmpt
-	req := scaffoldUpstreamRequest(proxy)
+	req, err := scaffoldUpstreamRequest(proxy)
+	if err != nil {
+		return nil, err
+	}
 	var upstreamResponse *http.Response
 	var upstreamError error
 
-- 
2.43.0


From cfbe16b07c6db8769bbeaf4cfa5d926e3c95d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:50 +0000
Subject: [PATCH 33/35] fix: refuse a downstream mode that is neither HTTP nor
 TLS instead of serving without TLS

---
 config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config.go b/config.go
index 6510407..acfc843 100644
--- a/config.go
+++ b/config.go
@@ -211,6 +211,10 @@ func (config Config) setDefaultDownstreamParams() *Config {
 		config.Connection.Downstream.Mode = HTTP
 	} else {
 		config.Connection.Downstream.Mode = strings.ToUpper(config.Connection.Downstream.Mode)
+		//don't fall back to HTTP for a mode we don't know, this may have meant to be TLS.
+		if config.Connection.Downstream.Mode != HTTP && !config.isTLSMode() {
+			config.panic(fmt.Sprintf("config error, illegal downstream mode %s, must be one of [%s %s]", config.Connection.Downstream.Mode, HTTP, TLS))
+		}
 	}
 
 	if config.Connection.Downstream.Port == 0 {
-- 
2.43.0


From 6bcede510038dbfef34931f4b3fea8054aaf2785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 34/35] fix: answer 502 when an upstream responds with a status
 below 200 instead of panicking or switching protocols

---
 proxyhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 5ad7be7..8f65073 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -298,6 +298,7 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		proxy.Up.Atmpt.resp.StatusCode > 199 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From 9cea79a708d395df2dbc21a4247b5df916111365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 35/35] fix: upstream bytes are not written to the log by the
 http client

---
 server.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/server.go b/server.go
index 9ec835f..e576e29 100644
--- a/server.go
+++ b/server.go
@@ -55,9 +55,23 @@ func (zla *zerologAdapter) Write(p []byte) (n int, err error) {
 	return len(p), nil
 }
 
+//upstreamLogAdapter takes what the http client reports to go's standard logger, i.e. unsolicited upstream responses
+type upstreamLogAdapter struct{}
+
+func (ula *upstreamLogAdapter) Write(p []byte) (n int, err error) {
+	//the report quotes the bytes received, these aren't ours to log.
+	msg := strings.SplitN(string(p), " starting with ", 2)[0]
+	log.Trace().
+		Str("netEvt", strings.TrimSpace(msg)).
+		Msg("undetermined upstream network event")
+	return len(p), nil
+}
+
 //BootStrap starts up the server from a ServerConfig
 func BootStrap() {
 	initLogger()
+	golog.SetFlags(0)
+	golog.SetOutput(&upstreamLogAdapter{})
 
 	config := new(Config).
 		load().
-- 
2.43.0

