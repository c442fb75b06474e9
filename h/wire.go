package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const idHeader = "X-Verif-Id"

// ---------- body specs ----------

// BodySpec deterministically describes a byte string.
type BodySpec struct {
	Kind string `json:"k"` // text rand json gz magic zero
	Size int    `json:"n"`
	Seed uint32 `json:"s"`
}

func xorshift(x *uint32) uint32 {
	v := *x
	if v == 0 {
		v = 0x1234567
	}
	v ^= v << 13
	v ^= v >> 17
	v ^= v << 5
	*x = v
	return v
}

func (b BodySpec) bytes() []byte {
	if b.Size == 0 && b.Kind != "gz" {
		return nil
	}
	s := b.Seed*2654435761 + 12345
	out := make([]byte, b.Size)
	switch b.Kind {
	case "rand":
		for i := range out {
			out[i] = byte(xorshift(&s) >> 11)
		}
	case "zero":
	case "smugreq", "smugresp": // looks like messages of its own
		m := fmt.Sprintf("GET /r/smuggled HTTP/1.1\r\nHost: j8a.test\r\n%s: smuggled%d\r\n\r\n", idHeader, b.Seed)
		if b.Kind == "smugresp" {
			m = fmt.Sprintf("HTTP/1.1 200 OK\r\nX-Request-Id: smuggled%d\r\nContent-Length: 8\r\n\r\nsmuggled", b.Seed)
		}
		for n := 0; n < len(out); n += copy(out[n:], m) {
		}
	case "magic":
		for i := range out {
			out[i] = byte(xorshift(&s) >> 11)
		}
		copy(out, []byte{0x1f, 0x8b})
	case "gz":
		return gz(BodySpec{"text", b.Size, b.Seed}.bytes())
	case "json":
		var buf bytes.Buffer
		buf.WriteString(`{"items":[`)
		for i := 0; buf.Len() < b.Size-4; i++ {
			if i > 0 {
				buf.WriteString(",")
			}
			fmt.Fprintf(&buf, `{"id":%d}`, xorshift(&s))
		}
		buf.WriteString("]}")
		return buf.Bytes()
	default:
		const al = "abcdefghijklmnopqrstuvwxyz ABC\n0123456789"
		tag := fmt.Sprintf("<%d:%d>", b.Seed, b.Size)
		for i := range out {
			out[i] = al[int(xorshift(&s)>>9)%len(al)]
		}
		if len(tag) <= len(out) {
			copy(out, tag)
		}
	}
	return out
}

func gz(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// gzForm packs b the way form says: level, members, header fields, flushes. Form 0 is the plain one.
func gzForm(b []byte, form int) []byte {
	if form == 0 {
		return gz(b)
	}
	var buf bytes.Buffer
	levels := []int{gzip.DefaultCompression, gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression, gzip.HuffmanOnly}
	members := 1 + form/5%3
	for m := 0; m < members; m++ {
		w, _ := gzip.NewWriterLevel(&buf, levels[form%5])
		if form&1 == 1 {
			w.Name, w.Comment, w.Extra = "a.json", "c", []byte{1, 2, 3}
		}
		part := b[len(b)*m/members : len(b)*(m+1)/members]
		if form%7 == 3 {
			w.Write(part[:len(part)/2])
			w.Flush()
			part = part[len(part)/2:]
		}
		w.Write(part)
		w.Close()
	}
	return buf.Bytes()
}

func gunzipStrict(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// ---------- downstream request ----------

type HV [2]string

type Exch struct {
	Method  string   `json:"m"`
	Target  string   `json:"t"`
	Abs     string   `json:"a,omitempty"`  // scheme and host in front of the target: absolute form
	Host    string   `json:"ho,omitempty"` // Host header, if not the usual one
	Proto   string   `json:"p,omitempty"`  // "" = HTTP/1.1
	Hdrs    []HV     `json:"h,omitempty"`
	Body    BodySpec `json:"b"`
	Framing string   `json:"f,omitempty"` // "" none, cl, chunked
	Chunk   int      `json:"c,omitempty"`
	Ups     []UpResp `json:"u,omitempty"` // response per upstream attempt; the last one repeats
}

type UpResp struct {
	Status  int      `json:"st"`
	Proto   string   `json:"p,omitempty"`
	Hdrs    []HV     `json:"h,omitempty"`
	Body    BodySpec `json:"b"`
	Enc     string   `json:"e,omitempty"` // gzip: body is gzipped on the wire and Content-Encoding set
	GzForm  int      `json:"g,omitempty"` // see gzForm
	Framing string   `json:"f,omitempty"` // cl (default), chunked, eof, nocl
	Fault   string   `json:"x,omitempty"` // close, garbage, trunc, badchunk, half-header
	Delay   int      `json:"d,omitempty"` // ms before answering
	Close   bool     `json:"cl,omitempty"`
	Raw     []byte   `json:"raw,omitempty"` // sent as it is instead of all the above
	Keep    bool     `json:"k,omitempty"`   // the connection stays open after Raw
}

// wireBody is the upstream's representation body as sent.
func (u UpResp) wireBody() []byte {
	b := u.Body.bytes()
	if u.Enc == "gzip" && len(b) > 0 {
		return gzForm(b, u.GzForm)
	}
	return b
}

func (e Exch) hdr(name string) (vals []string) {
	for _, h := range e.Hdrs {
		if strings.EqualFold(h[0], name) {
			vals = append(vals, h[1])
		}
	}
	return
}

func (e Exch) raw(id, host string) []byte {
	var b bytes.Buffer
	proto := e.Proto
	if proto == "" {
		proto = "HTTP/1.1"
	}
	fmt.Fprintf(&b, "%s %s%s %s\r\n", e.Method, e.Abs, e.Target, proto)
	if e.Host != "" {
		host = e.Host
	}
	fmt.Fprintf(&b, "Host: %s\r\n", host)
	if id != "" {
		fmt.Fprintf(&b, "%s: %s\r\n", idHeader, id)
	}
	for _, h := range e.Hdrs {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	body := e.Body.bytes()
	switch e.Framing {
	case "cl":
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	case "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		writeChunks(&b, body, e.Chunk)
	case "chunkedx": // with everything the chunked coding allows
		b.WriteString("Transfer-Encoding: Chunked\r\nTrailer: X-Sum, X-After\r\n\r\n")
		size := max(e.Chunk, len(body)/100+1)
		for i := 0; len(body) > 0; i++ {
			n := min(size, len(body))
			fmt.Fprintf(&b, "%s\r\n", []string{fmt.Sprintf("%X", n), fmt.Sprintf("00%x", n), fmt.Sprintf("%x;name=value", n), fmt.Sprintf("%x;q=\"a b\"", n)}[i%4])
			b.Write(body[:n])
			b.WriteString("\r\n")
			body = body[n:]
		}
		b.WriteString("000;last\r\nX-Sum: 1\r\nX-After: b\r\n\r\n")
	default:
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func writeChunks(b *bytes.Buffer, body []byte, size int) {
	if size <= 0 {
		size = 1000
	}
	if len(body)/size > 2000 {
		size = len(body)/2000 + 1
	}
	for len(body) > 0 {
		n := size
		if n > len(body) {
			n = len(body)
		}
		fmt.Fprintf(b, "%x\r\n", n)
		b.Write(body[:n])
		b.WriteString("\r\n")
		body = body[n:]
	}
	b.WriteString("0\r\n\r\n")
}

// DownResp is what the client saw.
type DownResp struct {
	Status int
	Proto  string
	Hdr    http.Header
	Body   []byte
	CL     int64
	TE     []string
	Close  bool
	Err    error
	Hang   bool
}

func (d DownResp) brief() string {
	if d.Err != nil {
		return fmt.Sprintf("no valid response (%v)", d.Err)
	}
	return fmt.Sprintf("status %d hdr %v body(%d)=%q", d.Status, d.Hdr, len(d.Body), trunc(string(d.Body), 200))
}

const clientDeadline = 60 * time.Second

type Conn struct {
	c  net.Conn
	br *bufio.Reader
}

func dial(addr string) (*Conn, error) {
	var c net.Conn
	var err error
	for i := 0; i < 20; i++ {
		c, err = net.DialTimeout("tcp", addr, 10*time.Second)
		if err == nil {
			return &Conn{c, bufio.NewReaderSize(c, 64<<10)}, nil
		}
		if strings.Contains(err.Error(), "refused") {
			return nil, err
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil, err
}

func newConn(c net.Conn) *Conn { return &Conn{c, bufio.NewReaderSize(c, 64<<10)} }

func dialTLS(addr string, conf *tls.Config) (*Conn, error) {
	c, err := dial(addr)
	if err != nil {
		return nil, err
	}
	tc := tls.Client(c.c, conf)
	tc.SetDeadline(time.Now().Add(clientDeadline))
	if err := tc.Handshake(); err != nil {
		c.c.Close()
		return nil, err
	}
	return &Conn{tc, bufio.NewReaderSize(tc, 64<<10)}, nil
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// roundTrip writes raw bytes and reads one response. Writing happens concurrently so an early
// error response to a large request is still read.
func (c *Conn) roundTrip(raw []byte, method string) DownResp {
	c.c.SetDeadline(time.Now().Add(clientDeadline))
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.c.Write(raw)
	}()
	d := c.read(method)
	if d.Err != nil || d.Close {
		c.c.Close()
	}
	<-done
	return d
}

func (c *Conn) read(method string) (d DownResp) {
	for {
		resp, err := http.ReadResponse(c.br, &http.Request{Method: method})
		if err != nil {
			return DownResp{Err: err, Hang: isTimeout(err)}
		}
		if resp.StatusCode == 100 {
			continue
		}
		d = DownResp{Status: resp.StatusCode, Proto: resp.Proto, Hdr: resp.Header, CL: resp.ContentLength, TE: resp.TransferEncoding, Close: resp.Close}
		d.Body, err = io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			d.Err = fmt.Errorf("reading body after status %d (%d bytes got, Content-Length %v): %w", d.Status, len(d.Body), resp.Header["Content-Length"], err)
			d.Hang = isTimeout(err)
		}
		return d
	}
}

// ---------- upstream ----------

type UpReq struct {
	Server  string
	Method  string
	URI     string
	Proto   string
	Host    string
	Hdr     http.Header
	Body    []byte
	BodyErr string
	CL      int64
	TE      []string
	At      time.Time
}

type script struct {
	ups  []UpResp
	recs []UpReq
}

// Hub owns the scripted upstream servers of a shard.
type Hub struct {
	mu      sync.Mutex
	lns     []net.Listener
	ports   []int
	scripts map[string]*script
	orphans []UpReq
	seq     int64
	accepts int64
	conns   map[net.Conn]bool
	def     UpResp
	hook    func(srv string, r UpReq) // optional observer
	gone    map[string][]time.Time    // when peers of stalled responses hung up, by id
}

func newHub(n int) (*Hub, error) {
	h := &Hub{scripts: map[string]*script{}, conns: map[net.Conn]bool{}, def: UpResp{Status: 200, Hdrs: []HV{{"X-Orphan", "1"}}}}
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		h.lns = append(h.lns, ln)
		h.ports = append(h.ports, ln.Addr().(*net.TCPAddr).Port)
		go h.accept(ln, fmt.Sprintf("up%d", i))
	}
	return h, nil
}

func (h *Hub) close() {
	for _, l := range h.lns {
		l.Close()
	}
	h.dropConns()
}

func (h *Hub) dropConns() {
	h.mu.Lock()
	for c := range h.conns {
		c.Close()
	}
	h.mu.Unlock()
}

func (h *Hub) newID() string {
	return fmt.Sprintf("v%d", atomic.AddInt64(&h.seq, 1))
}

func (h *Hub) register(id string, ups []UpResp) {
	h.mu.Lock()
	h.scripts[id] = &script{ups: ups}
	h.mu.Unlock()
}

func (h *Hub) take(id string) []UpReq {
	h.mu.Lock()
	defer h.mu.Unlock()
	s := h.scripts[id]
	delete(h.scripts, id)
	if s == nil {
		return nil
	}
	return s.recs
}

func (h *Hub) takeOrphans() []UpReq {
	h.mu.Lock()
	defer h.mu.Unlock()
	o := h.orphans
	h.orphans = nil
	return o
}

func (h *Hub) accept(ln net.Listener, name string) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		atomic.AddInt64(&h.accepts, 1)
		h.mu.Lock()
		h.conns[c] = true
		h.mu.Unlock()
		go func() {
			defer func() {
				c.Close()
				h.mu.Lock()
				delete(h.conns, c)
				h.mu.Unlock()
			}()
			h.serve(c, name)
		}()
	}
}

func (h *Hub) serve(c net.Conn, name string) {
	br := bufio.NewReaderSize(c, 64<<10)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		rec := UpReq{Server: name, Method: req.Method, URI: req.RequestURI, Proto: req.Proto, Host: req.Host, Hdr: req.Header, CL: req.ContentLength, TE: req.TransferEncoding, At: time.Now()}
		id := req.Header.Get(idHeader)
		h.mu.Lock()
		noread := false
		if s := h.scripts[id]; s != nil && len(s.ups) > 0 {
			noread = s.ups[min(len(s.recs), len(s.ups)-1)].Fault == "stall-noread"
		}
		h.mu.Unlock()
		var b []byte
		if !noread {
			b, err = io.ReadAll(io.LimitReader(req.Body, 64<<20))
		}
		rec.Body = b
		if err != nil {
			rec.BodyErr = err.Error()
		}
		h.mu.Lock()
		s := h.scripts[id]
		var up UpResp
		if s == nil {
			h.orphans = append(h.orphans, rec)
			up = h.def
		} else {
			i := len(s.recs)
			s.recs = append(s.recs, rec)
			if len(s.ups) == 0 {
				up = UpResp{Status: 200}
			} else if i < len(s.ups) {
				up = s.ups[i]
			} else {
				up = s.ups[len(s.ups)-1]
			}
		}
		hook := h.hook
		h.mu.Unlock()
		if hook != nil {
			hook(name, rec)
		}
		if err != nil {
			return
		}
		if up.Delay > 0 {
			time.Sleep(time.Duration(up.Delay) * time.Millisecond)
		}
		if strings.HasPrefix(up.Fault, "stall") {
			// send a part, then wait for the peer to give up
			body := up.wireBody()
			switch up.Fault {
			case "stall-status":
				c.Write([]byte("HTTP/1.1 20"))
			case "stall-head":
				c.Write([]byte("HTTP/1.1 200 OK\r\nX-Part: 1\r\n"))
			case "stall-body":
				fmt.Fprintf(c, "HTTP/1.1 %d S\r\nContent-Length: %d\r\n\r\n%s", up.Status, len(body)+10, body)
			case "stall-chunk":
				fmt.Fprintf(c, "HTTP/1.1 %d S\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", up.Status, len(body)+1, append(body, 'x'))
			case "stall-driphead", "stall-dripbody":
				if up.Fault == "stall-driphead" {
					c.Write([]byte("HTTP/1.1 200 OK\r\nX-Part: "))
				} else {
					fmt.Fprintf(c, "HTTP/1.1 %d S\r\nContent-Length: 100000\r\n\r\n%s", up.Status, body)
				}
				go func() {
					for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
						if _, err := c.Write([]byte("d")); err != nil {
							return
						}
					}
				}()
			}
			c.SetReadDeadline(time.Now().Add(60 * time.Second))
			var err error
			if noread {
				// the kernel alone can tell that the peer is gone while its data is not read
				for end := time.Now().Add(60 * time.Second); time.Now().Before(end) && err == nil; time.Sleep(50 * time.Millisecond) {
					_, err = c.Write([]byte("H"))
				}
				if err == nil {
					err = os.ErrDeadlineExceeded
				}
			} else {
				_, err = br.ReadByte()
			}
			h.mu.Lock()
			if h.gone == nil {
				h.gone = map[string][]time.Time{}
			}
			if !isTimeout(err) {
				h.gone[id] = append(h.gone[id], time.Now())
			}
			h.mu.Unlock()
			return
		}
		if !writeUp(c, up, req.Method) {
			return
		}
	}
}

// writeUp writes one scripted response; false = connection is finished.
func writeUp(c net.Conn, u UpResp, method string) bool {
	if u.Raw != nil {
		_, err := c.Write(u.Raw)
		return err == nil && u.Keep
	}
	if u.Fault == "close" {
		return false
	}
	if u.Fault == "garbage" {
		c.Write([]byte("\x00\x01NOT HTTP AT ALL\r\n\r\n"))
		return false
	}
	var b bytes.Buffer
	proto := u.Proto
	if proto == "" {
		proto = "HTTP/1.1"
	}
	txt := http.StatusText(u.Status)
	if txt == "" {
		txt = "Custom"
	}
	fmt.Fprintf(&b, "%s %d %s\r\n", proto, u.Status, txt)
	for _, h := range u.Hdrs {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	body := u.wireBody()
	if u.Enc == "gzip" && len(body) > 0 {
		b.WriteString("Content-Encoding: gzip\r\n")
	}
	fin := u.Close || proto == "HTTP/1.0"
	if u.Close && proto != "HTTP/1.0" {
		b.WriteString("Connection: close\r\n")
	}
	nobody := method == "HEAD" || u.Status == 204 || u.Status == 304 || (u.Status >= 100 && u.Status < 200)
	switch u.Framing {
	case "chunked":
		if proto != "HTTP/1.0" && !(u.Status == 204 || u.Status == 304) {
			b.WriteString("Transfer-Encoding: chunked\r\n")
		}
	case "eof":
		fin = true
		if proto != "HTTP/1.0" && !u.Close {
			b.WriteString("Connection: close\r\n")
		}
	case "nocl":
	default:
		if !(u.Status == 204 || (u.Status >= 100 && u.Status < 200)) {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		}
	}
	if u.Fault == "half-header" {
		c.Write(b.Bytes()[:b.Len()/2+1])
		return false
	}
	b.WriteString("\r\n")
	if nobody {
		c.Write(b.Bytes())
		return !fin
	}
	if u.Fault == "trunc" {
		b.Write(body[:len(body)/2])
		if u.Framing == "chunked" {
			b.Reset()
			return false
		}
		c.Write(b.Bytes())
		return false
	}
	if u.Framing == "chunked" && proto != "HTTP/1.0" {
		if u.Fault == "badchunk" {
			fmt.Fprintf(&b, "%x\r\n", len(body)+10)
			b.Write(body)
			c.Write(b.Bytes())
			return false
		}
		writeChunks(&b, body, 4000)
	} else {
		b.Write(body)
	}
	_, err := c.Write(b.Bytes())
	return err == nil && !fin
}

func itoa(i int) string { return strconv.Itoa(i) }
