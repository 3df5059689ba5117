package store

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/core"
	"verif.local/sim/ledger"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
)

const (
	mimeJSON = "application/json"
	mimeRaw  = "application/vnd.iota.serializer-v2"
)

// Kinds of faults of an exchange between a client and a node.
const (
	fNone         = ""
	fSlow         = "slow"              // the body arrives byte by byte
	fRefuse       = "refused"           // the connection is refused
	fLost         = "response-lost"     // the node did it, the answer is lost
	fReset        = "reset"             // the connection breaks within the body
	fEOF          = "short-body"        // the body ends early without an error
	fFlip         = "garbled"           // altered bytes
	fDup          = "duplicated"        // the body arrives twice
	fStatus       = "status"            // an error status with the node's error answer
	fBadStatus    = "status-garbage"    // an error status with something else
	fNoContent    = "no-content"        // 204 although there should be an answer
	fCancelBefore = "cancel-before"     // the caller gave up before the request
	fCancelConn   = "cancel-connecting" // ... before the answer
	fCancelBody   = "cancel-body"       // ... within the answer
	fLie          = "lie"               // the call's own lie
)

var errSim = errors.New("simulated network error")

// want is what a request has to be.
type want struct {
	method string
	path   string // without the prefix of the base URL
	query  url.Values
	accept string // "": no matter
	ctype  string
	body   []byte
	json   any // body as JSON value
	head   map[string]string
	check  func(name string, q *seen)
}

type seen struct {
	method, url, path, host string
	query                   url.Values
	head                    http.Header
	body                    []byte
	ctx                     bool
}

// answer of a node.
type answer struct {
	status int
	head   map[string]string
	body   []byte
}

// call is one use of the client.
type call struct {
	name  string
	n     int
	op    core.Op
	wants func(i int) *want // nil: no such request
	serve func(i int, q *seen) *answer
	do    func(ctx context.Context, cl *nodeclient.Client) (any, error)
	// judge looks at a call that met no fault.
	judge func(res any, err error)
	// lied looks at the outcome of a call to a lying node.
	lied  func(res any, err error)
	noRes bool        // nothing of the body is needed
	total int         // requests of a complete call; -1: not checked
	soft  bool        // status 503 is an answer
	own   bool        // the call judges all its outcomes itself
	first bool        // nevertheless the first answer is needed
	noCtx bool        // the call has no context of the caller's
	safe  int         // the bodies of so many answers arrive unaltered or not at all
	then  *call       // comes after a failure
	more  []*call     // come after a success
	hasty bool        // the caller gives up at some instant
	loose func() bool // the bodies of requests are judged by the call

	fault   string
	faultAt int
	cut     int
	status  int
	msg     string
	dead    bool // a deadline, not a cancellation
	rng     *core.RNG

	ctx    *simCtx
	reqs   []*seen
	bodies []*simBody
	met    bool // the fault took place
	sent   []byte
	late   string // a request after the end
	res    any
	err    error
	pan    any
	stack  string
}

// simCtx is a context whose end the simulation decides.
type simCtx struct {
	done chan struct{}
	err  error
	once sync.Once
}

func (x *simCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (x *simCtx) Done() <-chan struct{}       { return x.done }
func (x *simCtx) Err() error {
	select {
	case <-x.done:
		return x.err
	default:
		return nil
	}
}
func (x *simCtx) Value(k any) any {
	if k == (ctxKey{}) {
		return x
	}
	return nil
}
func (x *simCtx) end() {
	x.once.Do(func() { close(x.done) })
}

type ctxKey struct{}

type simBody struct {
	c      *call
	b      []byte
	pos    int
	end    error
	slow   bool
	cancel int // gives up at this place, -1: never
	closed int
}

func (b *simBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if b.closed > 0 {
		return 0, errors.New("read of a closed body")
	}
	if b.cancel >= 0 && b.pos >= b.cancel {
		b.c.ctx.end()
		b.c.met = true
		return 0, b.c.ctx.err
	}
	if b.pos >= len(b.b) {
		if b.end != io.EOF {
			b.c.met = true
		}
		return 0, b.end
	}
	n := min(len(p), len(b.b)-b.pos)
	if b.slow {
		n = min(n, 1+b.pos%7)
	}
	if b.cancel >= 0 {
		n = min(n, b.cancel-b.pos)
	}
	copy(p, b.b[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *simBody) Close() error {
	b.closed++
	return nil
}

// wire is the network between the clients and the node.
type wire struct {
	calls [16]*call // the running call of each task
}

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	simrt.Yield()
	c := w.calls[simrt.Self()]
	q := &seen{method: req.Method, url: req.URL.String(), path: req.URL.Path, host: req.URL.Scheme + "://" + req.URL.Host, query: req.URL.Query(), head: req.Header.Clone()}
	if x, ok := req.Context().Value(ctxKey{}).(*simCtx); ok && x == c.ctx {
		q.ctx = true
	}
	if req.Body != nil {
		q.body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	i := len(c.reqs)
	c.reqs = append(c.reqs, q)
	f := fNone
	if i == c.faultAt {
		f = c.fault
	}
	switch f {
	case fRefuse:
		c.met = true
		return nil, errSim
	case fCancelBefore, fCancelConn:
		c.ctx.end()
		c.met = true
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if f == fCancelBefore || f == fCancelConn {
		// nobody told the network; the answer comes
		f = fNone
	}
	simrt.Yield()
	a := c.serve(i, q)
	simrt.Yield()
	if f == fLost {
		c.met = true
		return nil, io.ErrUnexpectedEOF
	}
	body := &simBody{c: c, b: a.body, end: io.EOF, cancel: -1}
	status := a.status
	head := http.Header{}
	for k, v := range a.head {
		head.Set(k, v)
	}
	switch f {
	case fSlow:
		c.met = true
		body.slow = true
	case fReset:
		body.b, body.end = body.b[:min(c.cut, len(body.b))], io.ErrUnexpectedEOF
	case fCancelBody:
		body.cancel = min(c.cut, len(body.b))
	case fEOF:
		if c.cut < len(body.b) {
			c.met = true
			body.b = body.b[:c.cut]
		}
	case fFlip:
		c.met = true
		if c.cut%3 == 0 && json.Valid(body.b) {
			body.b = damageJSON(c.rng, body.b)
		} else {
			body.b = append([]byte(nil), body.b...)
			for n := c.rng.Range(1, 3); n > 0; n-- {
				body.b = ledger.Damage(c.rng, body.b)
			}
		}
		if bytes.Equal(body.b, a.body) {
			c.met = false
		}
	case fDup:
		c.met = len(body.b) > 0
		body.b = append(append([]byte(nil), body.b...), body.b...)
	case fStatus:
		c.met = true
		status = c.status
		head = http.Header{}
		body.b, _ = json.Marshal(map[string]any{"error": map[string]any{"code": fmt.Sprint(c.status), "message": c.msg}})
		if c.msg == "" {
			body.b = nil
		}
	case fBadStatus:
		c.met = true
		status = c.status
		head = http.Header{}
		body.b = []byte(core.Pick(c.rng, []string{"<html>Bad Gateway</html>", "{", "\"x\"", "{\"error\":5}", "[]", "\x00\xff", "nul"}))
	case fNoContent:
		c.met = true
		status = http.StatusNoContent
		body.b = nil
	}
	c.sent = body.b
	c.bodies = append(c.bodies, body)
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: head, Body: body, ContentLength: -1, Request: req}, nil
}

// Error answers and what the client documents for them.
var sentinels = map[int]error{
	400: nodeclient.ErrHTTPBadRequest, 401: nodeclient.ErrHTTPUnauthorized, 404: nodeclient.ErrHTTPNotFound,
	500: nodeclient.ErrHTTPInternalServerError, 501: nodeclient.ErrHTTPNotImplemented, 503: nodeclient.ErrHTTPServiceUnavailable,
}

var statuses = []int{400, 400, 401, 404, 404, 500, 500, 501, 503, 503, 403, 405, 409, 415, 429, 502, 504, 202, 206, 304, 418, 299, 599}

// httpRun is a world of clients and a node.
type httpRun struct {
	c      *core.Ctx
	m      *maker
	w      *wire
	base   string // of the client
	hook   bool
	user   *url.Userinfo
	client *nodeclient.Client
	vers   []version
	slot   uint32 // committed when the client was made
	hrp    string
	rpanic bool
}

type version struct {
	v     byte
	start uint32
	p     *model.Params
	n     *node
}

func (h *httpRun) options() (o []nodeclient.ClientOption) {
	o = append(o, nodeclient.WithHTTPClient(&http.Client{Transport: h.w}))
	if h.user != nil {
		o = append(o, nodeclient.WithUserInfo(h.user))
	}
	if h.hook {
		o = append(o, nodeclient.WithRequestURLHook(func(u string) string { return strings.Replace(u, h.base, "http://proxy.sim/via", 1) }))
	}
	return o
}

// run executes one call in the current task.
func (h *httpRun) run(c *call) {
	h.w.calls[simrt.Self()] = c
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(core.Stop); ok {
				panic(x)
			}
			if strings.HasPrefix(fmt.Sprintf("%T", x), "simrt.") {
				panic(x)
			}
			c.pan, c.stack = x, string(debug.Stack())
		}
	}()
	c.ctx = &simCtx{done: make(chan struct{}), err: context.Canceled}
	if c.dead {
		c.ctx.err = context.DeadlineExceeded
	}
	if c.fault == fCancelBefore && c.faultAt == 0 {
		c.ctx.end()
		c.met = true
	}
	c.res, c.err = c.do(c.ctx, h.client)
	if c.then != nil && c.err != nil {
		h.run(c.then)
	}
	if c.err == nil {
		for _, x := range c.more {
			h.run(x)
		}
	}
}

// prepare decides about the faults of a call.
func (h *httpRun) faulty(r *core.RNG, c *call, pct int) {
	c.faultAt = -1
	c.rng = r.Fork()
	if !r.Pct(pct) {
		return
	}
	all := []string{fSlow, fRefuse, fLost, fReset, fReset, fEOF, fFlip, fFlip, fDup, fStatus, fStatus, fStatus, fBadStatus, fNoContent, fCancelBefore, fCancelConn, fCancelBody}
	c.fault = core.Pick(r, all)
	if !h.c.On(c.fault) {
		c.fault = fNone
		return
	}
	if c.noCtx && strings.HasPrefix(c.fault, "cancel") {
		c.fault = fNone
		return
	}
	c.faultAt = 0
	if c.total > 1 {
		c.faultAt = r.Intn(c.total)
	} else if c.total < 0 {
		c.faultAt = r.Intn(5)
	}
	if c.faultAt < c.safe && (c.fault == fFlip || c.fault == fDup || c.fault == fEOF) {
		c.fault = fReset
	}
	c.cut = core.Pick(r, []int{0, 1, r.Intn(40), r.Intn(400), r.Intn(4000)})
	c.status = core.Pick(r, statuses)
	c.msg = core.Pick(r, []string{"", "not found", "the node said: %s %d no", "é日本\n\"quoted\"", "x"})
	c.dead = r.Bool()
}

func errOf(status int) error {
	if e := sentinels[status]; e != nil {
		return e
	}
	return nodeclient.ErrHTTPUnknownError
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		return rv.IsNil()
	}
	return rv.IsZero()
}

// judge decides about a call that is over.
func (h *httpRun) judge(c *call) {
	x := h.c
	x.Evals++
	f := c.fault
	if !c.met {
		f = fNone
	}
	out := "ok"
	if c.err != nil {
		out = "error"
	}
	errText := ""
	if c.err != nil {
		errText = c.err.Error()
		if len(errText) > 200 {
			errText = errText[:200]
		}
	}
	x.Logf("%s #%d fault %q at %d: %d requests, %s %s", c.name, c.n, f, c.faultAt, len(c.reqs), out, strings.ToValidUTF8(errText, "?"))
	if c.met && f != fNone {
		x.Fault(f)
	}
	x.Count("call." + c.name)
	if c.pan != nil {
		site := innermost(c.stack)
		if strings.Contains(site, "serix.(*API).mapDecode") {
			if x.Prop == "C06" {
				x.Count("known-json-panic") // C01 is about it
				return
			}
			x.Finding("json-type-panic", "panic", "%s: panic in %s: %v\n%s", c.name, site, c.pan, c.sent)
			return
		}
		if !strings.Contains(c.stack, "github.com/iotaledger/") {
			panic(fmt.Sprintf("harness panic in %s: %v\n%s", c.name, c.pan, c.stack))
		}
		x.Fail("panic", "%s: panic in %s: %v; the last answer was\n%.3000q", c.name, site, c.pan, c.sent)
	}
	x.State(c.name, f, out)
	// requests
	for i, q := range c.reqs {
		if c.wants == nil {
			break
		}
		w := c.wants(i)
		x.Check(w != nil, "extra-request", "%s: request %d is %s %s, there should be none (fault %q at %d)", c.name, i, q.method, q.url, f, c.faultAt)
		h.request(c, i, q, w)
		if c.met && f != fLie && i > c.faultAt && f != fSlow && f != fFlip && f != fDup && f != fEOF {
			x.Fail("request-after-fault", "%s: request %d after request %d failed (%s)", c.name, i, c.faultAt, f)
		}
	}
	for i, b := range c.bodies {
		x.Check(b.closed > 0, "body-leak", "%s: the body of answer %d was never closed (fault %q)", c.name, i, f)
	}
	if c.fault == fLie {
		c.lied(c.res, c.err)
		return
	}
	if c.err != nil && !c.own {
		x.Check(isNil(c.res), "fabricated", "%s returns an error and a result: %v", c.name, c.err)
	}
	if f == fNone || f == fSlow || c.noRes && !(c.first && c.faultAt == 0) && (f == fReset || f == fEOF || f == fFlip || f == fDup || f == fCancelBody || f == fNoContent) {
		if c.total >= 0 {
			x.Check(len(c.reqs) == c.total, "requests", "%s made %d requests instead of %d (%v)", c.name, len(c.reqs), c.total, c.err)
		}
		c.judge(c.res, c.err)
		return
	}
	switch f {
	case fEOF, fFlip, fDup:
		// Who can tell? The result, if there is one, must not be another than what arrived.
		if c.err == nil && c.lied != nil {
			c.lied(c.res, c.err)
		}
		return
	}
	if f == fStatus && c.soft && c.status == 503 || f == fBadStatus && c.soft && c.status == 503 && c.err == nil {
		x.Check(c.err == nil && c.res == false, "health", "%s was answered with status 503: %v, %v", c.name, c.res, c.err)
		return
	}
	x.Check(c.err != nil, "no-error", "%s reports success although the exchange failed (%s, status %d at request %d of %d)", c.name, f, c.status, c.faultAt, len(c.reqs))
	switch f {
	case fCancelBefore, fCancelConn, fCancelBody:
		x.Check(errors.Is(c.err, c.ctx.err), "wrong-error", "%s was given up (%v), the error is: %v", c.name, c.ctx.err, c.err)
	case fRefuse:
		x.Check(errors.Is(c.err, errSim), "wrong-error", "%s could not connect, the error is: %v", c.name, c.err)
	case fStatus:
		x.Check(errors.Is(c.err, errOf(c.status)), "wrong-error", "%s was answered with status %d, the error is: %v", c.name, c.status, c.err)
		for s, e := range sentinels {
			if s != c.status {
				x.Check(!errors.Is(c.err, e), "wrong-error", "%s was answered with status %d, the error says %v: %v", c.name, c.status, e, c.err)
			}
		}
		x.Check(strings.Contains(c.err.Error(), c.msg), "wrong-error", "%s: the node's message %q is not in the error %v", c.name, c.msg, c.err)
	}
}

// request compares a request with what it has to be.
func (h *httpRun) request(c *call, i int, q *seen, w *want) {
	x := h.c
	base := h.base
	if h.hook {
		base = "http://proxy.sim/via"
	}
	u, err := url.Parse(base + w.path)
	if err != nil {
		panic(err)
	}
	if !c.own || q.ctx {
		x.Check(q.ctx || c.noCtx, "context", "%s: request %d does not carry the caller's context, it can not be given up", c.name, i)
	}
	x.Check(q.method == w.method, "method", "%s: request %d is %s %s, the method should be %s", c.name, i, q.method, q.url, w.method)
	x.Check(q.host == u.Scheme+"://"+u.Host && q.path == u.Path, "route", "%s: request %d goes to %s%s instead of %s", c.name, i, q.host, q.path, u)
	wq := w.query
	if wq == nil {
		wq = url.Values{}
	}
	x.Check(wq.Encode() == q.query.Encode(), "query", "%s: request %d has the query %q instead of %q", c.name, i, q.query.Encode(), wq.Encode())
	if w.ctype != "" {
		x.Check(q.head.Get("Content-Type") == w.ctype, "content-type", "%s: request %d has content type %q", c.name, i, q.head.Get("Content-Type"))
	}
	switch {
	case w.json != nil:
		var v any
		err := json.Unmarshal(q.body, &v)
		x.Check(err == nil && reflect.DeepEqual(v, w.json), "payload", "%s: request %d sends %s instead of %v", c.name, i, q.body, w.json)
	case c.loose != nil && c.loose():
	default:
		x.Check(bytes.Equal(q.body, w.body), "payload", "%s: request %d sends\n%x instead of\n%x", c.name, i, q.body, w.body)
	}
	if w.check != nil {
		w.check(c.name, q)
	}
	for _, k := range core.SortedKeys(w.head) {
		x.Check(q.head.Get(k) == w.head[k], "header", "%s: request %d has %s %q instead of %q", c.name, i, k, q.head.Get(k), w.head[k])
	}
	auth := ""
	if h.user != nil {
		pw, _ := h.user.Password()
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(h.user.Username()+":"+pw))
	}
	x.Check(q.head.Get("Authorization") == auth, "auth", "%s: request %d has authorization %q instead of %q", c.name, i, q.head.Get("Authorization"), auth)
}

// plugins the node serves.
func (h *httpRun) routes(list []string) *answer {
	b, _ := json.Marshal(map[string]any{"routes": list})
	return &answer{status: 200, body: b}
}

func accepts(q *seen, mime string) bool {
	a := q.head.Get("Accept")
	return a == mime || mime == mimeJSON && (a == "" || a == "*/*")
}
