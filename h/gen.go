package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }
func chance(t *rapid.T, label string, pct int) bool {
	// pct% true, shrinks towards false; of single bits because rapid's ranges prefer small numbers
	v := 0
	for i := 0; i < 7; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, label) {
			v |= 1
		}
	}
	return v*100 >= (100-pct)*128
}
func intR(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

// many says how many requests a case has: one process in a hundred serves hundreds of them.
func many(t *rapid.T, lo, hi int) (int, int) {
	if chance(t, "many", 1) {
		return 150, 500
	}
	return lo, hi
}

var sizeBounds = []int{0, 1, 2, 3, 10, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537}
var sizeBig = []int{100000, 131072, 262144, 262145, 524288, 1 << 20, 1<<20 + 1, 1500000}

func genSize(t *rapid.T, bigPct int) int {
	switch k := rapid.IntRange(0, 99).Draw(t, "sizeClass"); {
	case k < 40:
		return rapid.IntRange(0, 80).Draw(t, "sizeSmall")
	case k < 100-bigPct:
		if rapid.Bool().Draw(t, "bound") {
			return rapid.SampledFrom(sizeBounds).Draw(t, "sizeBound")
		}
		return rapid.IntRange(0, 20000).Draw(t, "sizeMid")
	default:
		return rapid.SampledFrom(sizeBig).Draw(t, "sizeBig")
	}
}

func genBody(t *rapid.T, bigPct int, kinds ...string) BodySpec {
	if len(kinds) == 0 {
		kinds = []string{"text", "json", "rand", "zero"}
	}
	return BodySpec{Kind: rapid.SampledFrom(kinds).Draw(t, "bodyKind"), Size: genSize(t, bigPct), Seed: uint32(rapid.IntRange(0, 1<<20).Draw(t, "bodySeed"))}
}

// token characters allowed in header names
const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~"

var genHdrName = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "hk") > 0 {
		return rapid.SampledFrom([]string{"X-Alpha", "X-Beta", "x-gamma", "X-DELTA-Long-Header-Name", "Accept", "Accept-Language", "Cache-Control", "Content-Type", "Authorization", "Cookie", "If-None-Match", "If-Modified-Since", "Referer", "Origin", "User-Agent", "X-Forwarded-For", "X-Forwarded-Proto", "Via", "Range", "Pragma", "Warning", "X-Api-Key", "Forwarded", "Dnt", "Link", "Content-Language", "Content-Disposition", "X-Server", "X-Date", "Date-X", "Last-Modified-X", "Server-Timing", "X-Content-Length", "Content-MD5", "X-Transfer-Encoding", "Updated", "Content-Length-Hint", "Observe-Date"}).Draw(t, "hn")
	}
	n := rapid.IntRange(1, 12).Draw(t, "hl")
	var b strings.Builder
	b.WriteString("Z")
	for i := 0; i < n; i++ {
		b.WriteByte(tokenChars[rapid.IntRange(0, len(tokenChars)-1).Draw(t, "hc")])
	}
	return b.String()
})

// header values: visible ASCII, inner spaces/tabs, obs-text; no leading/trailing whitespace
var genHdrVal = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "vk") {
	case 0:
		return ""
	case 1:
		return strings.Repeat("v", rapid.IntRange(1, 3000).Draw(t, "vlen"))
	case 2:
		return rapid.SampledFrom([]string{"a, b, c", "a;q=0.5, b", `W/"etag"`, "text/html; charset=utf-8", "bytes=0-99", "no-cache, no-store", "a=b; c=d", "\"quoted, string\"", "x\ty", "caf\xc3\xa9", "\xff\xfe", "1,2", "Basic dXNlcjpwYXNz", "é ü", "http://@UP@/x", "http://@UP@", "@UP@", "http://j8a.test/from?x=1", "https://j8a.test", "http://@ADDR@/y", "j8a.test", "<http://@UP@/next>; rel=\"next\""}).Draw(t, "vs")
	default:
		n := rapid.IntRange(1, 24).Draw(t, "vn")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(rapid.IntRange(33, 126).Draw(t, "vc"))
		}
		return string(b)
	}
})

// genHdrs draws header lines; names in forbid (lower case) are never produced. Repeats happen.
func genHdrs(t *rapid.T, max int, forbid ...string) []HV {
	n := rapid.IntRange(0, max).Draw(t, "nh")
	var out []HV
	for i := 0; i < n; i++ {
		var name string
		if len(out) > 0 && rapid.IntRange(0, 3).Draw(t, "rep") == 0 {
			name = out[rapid.IntRange(0, len(out)-1).Draw(t, "repi")][0]
			if rapid.Bool().Draw(t, "repcase") {
				name = strings.ToLower(name)
			}
		} else {
			name = genHdrName.Draw(t, "name")
		}
		bad := false
		for _, f := range forbid {
			if strings.EqualFold(f, name) {
				bad = true
			}
		}
		if bad {
			name = "X-Alt-" + name
		}
		out = append(out, HV{name, genHdrVal.Draw(t, "val")})
	}
	return out
}

var segs = []string{"a", "b", "ab", "abc", "todos", "mse6", "v1", "v2", "api", "users", "A", "x-y", "x_y", "~me", "a.b", "%20", "a%2Fb", "%41", "%C3%A9", "1", "0", "get", "index.html", "a+b", "a:b", "a@b", "a,b", "a;b", "a=b", "a!b", "$x", "(y)", "*", "'q'", "about", "%25", "%3F", "%23x"}

// genPath: clean absolute path (no empty, "." or ".." segments)
func genPath(t *rapid.T, maxSeg int) string {
	n := rapid.IntRange(0, maxSeg).Draw(t, "nseg")
	if n == 0 {
		return "/"
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("/")
		b.WriteString(rapid.SampledFrom(segs).Draw(t, "seg"))
	}
	if rapid.IntRange(0, 3).Draw(t, "slash") == 0 {
		b.WriteString("/")
	}
	return b.String()
}

func genQuery(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "qk") {
	case 0, 1:
		return ""
	case 2:
		return "?"
	case 3:
		return "?" + rapid.SampledFrom([]string{"a=1", "a=1&a=2&b=", "q=%20x+y", "path=/a/b", "u=http://x/y?z", "k", "&&", "a=%2F&b=%zz", "a;b", "x=?y?", "a=b=c", "jwt=a.b.c", "é=1", "[]=1", "q=%00", "s='\"<>", "to=/mse6/x", "=&=", "a=1?b=2"}).Draw(t, "qs")
	default:
		n := rapid.IntRange(1, 5).Draw(t, "qn")
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, fmt.Sprintf("%s=%s", rapid.SampledFrom([]string{"a", "b", "id", "q", "page", "z%5B0%5D"}).Draw(t, "k"), rapid.StringMatching(`[a-zA-Z0-9%2F._~+/?:@!$'()*,;-]{0,8}`).Draw(t, "v")))
		}
		return "?" + strings.Join(p, "&")
	}
}

// genAbs is mostly empty, otherwise what turns a request target into absolute form (RFC 7230, 5.3.2).
func genAbs(t *rapid.T) string {
	if !chance(t, "abs", 5) {
		return ""
	}
	return rapid.SampledFrom([]string{"http://j8a.test", "http://127.0.0.1:8080", "HTTP://J8A.test", "http://other.example:81", "https://j8a.test"}).Draw(t, "absv")
}

// genHost is mostly empty, otherwise another host header than the usual one.
func genHost(t *rapid.T) string {
	if !chance(t, "host", 12) {
		return ""
	}
	return rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1:443", "10.1.2.3", "[::1]", "[::1]:8443", "localhost", "localhost:80", "J8A.TEST", "j8a.test:8443", "j8a.test.", "a.b.c.example.com", "xn--bcher-kva.example", "1", "under_score.test", "0.0.0.0", "[2001:db8::1]"}).Draw(t, "hostv")
}

var genReqID = rapid.Custom(func(t *rapid.T) string {
	id := rapid.StringMatching(`[A-Za-z0-9][A-Za-z0-9 ._/+=:-]{0,38}[A-Za-z0-9]`).Draw(t, "reqid")
	switch rapid.IntRange(0, 5).Draw(t, "reqidLong") {
	case 4: // anything a header value may hold
		id += rapid.SampledFrom([]string{`"q"`, `\n\`, "<b>", "{x}", "a,b", "x;y", "~|^", "%41", "%s%d", "é", "日本", "'", "#@!", "a\tb", "$(x)", "&&", "[0]", "*?"}).Draw(t, "reqidOdd")
	case 5:
		id += strings.Repeat("l", rapid.SampledFrom([]int{24, 60, 62, 63, 90, 126, 127, 128, 200, 255, 256, 300, 1000}).Draw(t, "reqidPad"))
	}
	return id
})
