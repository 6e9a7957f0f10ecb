package simrt

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"runtime"
	"syscall"
	"time"
)

// Plan is what the simulated network does with one request.
type Plan struct {
	Delay   time.Duration // before anything comes back
	Hang    bool          // the server accepts and never answers
	Err     error         // the exchange fails instead of answering
	Status  int
	Header  http.Header
	Body    []byte
	Length  int64 // declared length; -1 unknown, -2 from Body
	CutAt   int   // body ends with CutErr after this many bytes; -1 never
	CutErr  error
	StallAt int           // the server stops sending here; -1 never
	Chunk   int           // most bytes per read; 0 any
	Gap     time.Duration // between chunks
	Endless int64         // this many filler bytes follow the body (-1: for ever)
	Note    string        // the fault, for reports
}

// Ok is a plain successful answer.
func Ok(body []byte) Plan {
	return Plan{Status: 200, Body: body, Length: -2, CutAt: -1, StallAt: -1}
}

// Req is one observed exchange.
type Req struct {
	Seq      int
	Method   string
	URL      string
	Start    time.Duration
	Plan     Plan
	Answered bool // headers delivered
	Ended    bool // failed, cancelled, or body closed
	Closed   bool // body closed
	EOF      bool // the body was read to its true end
	Read     int64
	Aborted  bool // ended by its context
	HasBody  bool
}

const maxReqs = 4096

// Network is the simulated network of a run.
type Network struct {
	r        *Run
	Handle   func(*http.Request, *Req) Plan
	reqs     [maxReqs]Req
	n        int
	inflight int
	MaxIn    int
	// InFlight, when set, decides which requests count towards MaxIn.
	InFlight func(*Req) bool
	Buffered int64
}

var theNet Network

// Net starts a fresh simulated network for the run.
func (r *Run) Net(handle func(*http.Request, *Req) Plan) *Network {
	n := &theNet
	*n = Network{}
	n.r = r
	n.Handle = handle
	http.SimRoundTrip = n.roundTrip
	net.SimDial = func(ctx context.Context, network, address string) (net.Conn, error) {
		Count("probe:dial outside the simulated network", 1)
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ENETUNREACH}
	}
	return n
}

// Reqs lists the exchanges so far.
//
//go:norace
func (n *Network) Reqs() []*Req {
	out := make([]*Req, 0, n.n)
	for i := 0; i < n.n; i++ {
		out = append(out, &n.reqs[i])
	}
	return out
}

// Len is the number of exchanges so far.
//
//go:norace
func (n *Network) Len() int { return n.n }

// Open is the number of exchanges that hold a connection.
//
//go:norace
func (n *Network) Open() int {
	c := 0
	for i := 0; i < n.n; i++ {
		if !n.reqs[i].Ended {
			c++
		}
	}
	return c
}

//go:norace
func (n *Network) begin(req *http.Request) *Req {
	if n.n >= maxReqs {
		panic("simrt: too many requests")
	}
	q := &n.reqs[n.n]
	*q = Req{Seq: n.n, Method: req.Method, URL: req.URL.String(), Start: n.r.T()}
	n.n++
	if n.InFlight == nil || n.InFlight(q) {
		n.inflight++
		if n.inflight > n.MaxIn {
			n.MaxIn = n.inflight
		}
	}
	return q
}

//go:norace
func (n *Network) end(q *Req) {
	if !q.Ended {
		q.Ended = true
		if n.InFlight == nil || n.InFlight(q) {
			n.inflight--
		}
	}
}

// ErrReset and friends are the transport errors the network produces.
var (
	ErrReset   error = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
	ErrRefused error = &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	ErrDNS     error = &net.DNSError{Err: "no such host", Name: "sim", IsNotFound: true}
	ErrTimeout error = &net.OpError{Op: "dial", Net: "tcp", Err: timeoutError{}}
	ErrTLS     error = errors.New("tls: handshake failure")
)

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// wait sleeps d of simulated time unless ctx or cancel ends first.
func wait(ctx context.Context, cancel <-chan struct{}, d time.Duration) error {
	if err := ctx.Err(); err != nil {
		return context.Cause(ctx)
	}
	if d < 0 { // for ever
		select {
		case <-ctx.Done():
			return context.Cause(ctx)
		case <-cancel:
			return errors.New("net/http: request canceled")
		}
	}
	if d == 0 {
		runtime.SimYieldNow()
		if err := ctx.Err(); err != nil {
			return context.Cause(ctx)
		}
		return nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return context.Cause(ctx)
	case <-cancel:
		return errors.New("net/http: request canceled")
	}
}

//go:norace
func (n *Network) roundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		req.Body.Close()
	}
	ctx := req.Context()
	q := n.begin(req)
	p := n.Handle(req, q)
	q.Plan = p
	n.r.Logf("%v net %d %s %s", n.r.T(), q.Seq, q.Method, q.URL)
	d := p.Delay
	if p.Hang {
		d = -1
	}
	if err := wait(ctx, req.Cancel, d); err != nil {
		q.Aborted = true
		n.end(q)
		n.r.Logf("%v net %d abandoned: %v", n.r.T(), q.Seq, err)
		return nil, err
	}
	if p.Err != nil {
		n.end(q)
		n.r.Logf("%v net %d fails: %v", n.r.T(), q.Seq, p.Err)
		return nil, p.Err
	}
	q.Answered = true
	h := p.Header
	if h == nil {
		h = http.Header{"Content-Type": {"application/octet-stream"}}
	}
	length := p.Length
	if length == -2 {
		length = int64(len(p.Body))
		if p.Endless > 0 {
			length += p.Endless
		} else if p.Endless < 0 {
			length = -1
		}
	}
	b := &simBody{n: n, q: q, ctx: ctx, cancel: req.Cancel}
	q.HasBody = true
	n.r.Logf("%v net %d status %d", n.r.T(), q.Seq, p.Status)
	return &http.Response{
		Status: http.StatusText(p.Status), StatusCode: p.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: b, ContentLength: length, Request: req,
	}, nil
}

type simBody struct {
	n      *Network
	q      *Req
	ctx    context.Context
	cancel <-chan struct{}
	off    int64
	err    error
}

//go:norace
func (b *simBody) Read(p []byte) (int, error) {
	q := b.q
	if b.err != nil {
		return 0, b.err
	}
	if q.Closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(p) == 0 {
		return 0, nil
	}
	pl := &q.Plan
	d := time.Duration(0)
	if b.off > 0 {
		d = pl.Gap
	}
	if pl.StallAt >= 0 && b.off >= int64(pl.StallAt) {
		d = -1
	}
	if err := wait(b.ctx, b.cancel, d); err != nil {
		q.Aborted = true
		b.err = err
		b.n.r.Logf("%v net %d body abandoned at %d: %v", b.n.r.T(), q.Seq, b.off, err)
		return 0, err
	}
	total := int64(len(pl.Body))
	endless := pl.Endless
	limit := total + endless
	if endless < 0 {
		limit = 1 << 62
	}
	if pl.CutAt >= 0 && limit > int64(pl.CutAt) {
		limit = int64(pl.CutAt)
	}
	if pl.StallAt >= 0 && limit > int64(pl.StallAt) {
		limit = int64(pl.StallAt)
	}
	if b.off >= limit {
		if pl.CutAt >= 0 && b.off >= int64(pl.CutAt) {
			e := pl.CutErr
			if e == nil {
				e = io.ErrUnexpectedEOF
			}
			b.err = e
			b.n.r.Logf("%v net %d body cut at %d", b.n.r.T(), q.Seq, b.off)
			return 0, e
		}
		b.err = io.EOF
		q.EOF = true
		return 0, io.EOF
	}
	m := int64(len(p))
	if pl.Chunk > 0 && m > int64(pl.Chunk) {
		m = int64(pl.Chunk)
	}
	if m > limit-b.off {
		m = limit - b.off
	}
	for i := int64(0); i < m; i++ {
		if b.off+i < total {
			p[i] = pl.Body[b.off+i]
		} else {
			p[i] = byte('A' + (b.off+i)%23)
		}
	}
	b.off += m
	q.Read += m
	if b.off > 64<<20 {
		// What matters has been seen: the reader keeps everything it is sent.
		b.n.r.Fail("unbounded-read", "%s: more than 64 MiB of one response were read", q.URL)
		b.err = ErrReset
		return int(m), b.err
	}
	return int(m), nil
}

//go:norace
func (b *simBody) Close() error {
	if !b.q.Closed {
		b.q.Closed = true
		b.n.end(b.q)
		b.n.r.Logf("%v net %d closed after %d", b.n.r.T(), b.q.Seq, b.off)
	}
	return nil
}
