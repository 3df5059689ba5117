package store

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	mqtt "github.com/eclipse/paho.mqtt.golang"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/api"
	"github.com/iotaledger/iota.go/v4/nodeclient"

	"verif.local/sim/conc"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simrt"
	"verif.local/sim/simrt/simmqtt"
)

// Events is a world of an event client, its broker, its consumers and the network between them.
type Events struct{}

var eventOps = []string{"sub", "sub", "pub", "pub", "pub", "pub", "pub", "burst", "bad", "foreign", "calm-bad", "calm-loss", "closeSub", "leave", "wait", "loss", "back", "inactive"}

func (Events) Plan(r *core.RNG, prop, tier string) []core.Op {
	ops := []core.Op{{K: "schedule", S: r.U64()}, {K: "connect", S: r.U64()}, {K: "sub", S: r.U64()}}
	n := r.Range(4, 22)
	lossy := prop == "C05" || r.Pct(30)
	for i := 0; i < n; i++ {
		k := core.Pick(r, eventOps)
		if !lossy && (k == "loss" || k == "calm-loss" || k == "back" || k == "leave") {
			k = "pub"
		}
		ops = append(ops, core.Op{K: k, S: r.U64()})
	}
	if r.Pct(50) {
		at := 3 + r.Intn(len(ops)-2)
		end := core.Op{K: core.Pick(r, []string{"cancel", "cancel", "cancel", "close"}), S: r.U64()}
		ops = append(ops[:at:at], append([]core.Op{end}, ops[at:]...)...)
	}
	return ops
}

// message of the broker.
type message struct {
	topic   string
	payload []byte
	bad     bool
	n       int
}

func (m *message) Duplicate() bool   { return false }
func (m *message) Qos() byte         { return 2 }
func (m *message) Retained() bool    { return false }
func (m *message) Topic() string     { return m.topic }
func (m *message) MessageID() uint16 { return uint16(m.n) }
func (m *message) Payload() []byte   { return append([]byte(nil), m.payload...) }
func (m *message) Ack()              {}

// delivery is one call of a handler.
type delivery struct {
	m          *message
	route      *route
	task       int
	begin, end int64
}

// route is what the broker and the library keep of a subscription.
type route struct {
	topic string
	qos   byte
	cb    mqtt.MessageHandler
	gone  bool
	posts []*message // published while the subscription was there
	ds    []*delivery
}

type token struct {
	err  error
	wait int
}

func (t *token) Wait() bool {
	for i := 0; i < t.wait; i++ {
		simrt.Y("token")
	}
	return true
}
func (t *token) WaitTimeout(time.Duration) bool { return t.Wait() }
func (t *token) Done() <-chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}
func (t *token) Error() error { return t.err }

var (
	errRefused = errors.New("broker: refused")
	errLost    = errors.New("connection lost")
)

// broker stands for the MQTT library, the connection and the node's broker.
type broker struct {
	mqtt.Client // what is not simulated is nil
	opts        *mqtt.ClientOptions
	r           *core.RNG

	mu        simrt.Mutex
	connected bool
	routes    []*route
	all       []*route
	calls     []string // what was asked of the broker
	refuse    int      // so many requests are refused
	slow      int
	queue     []*delivery
	working   bool
	n         int
	losses    int
	tasks     []int
}

func (b *broker) token(err error) mqtt.Token {
	t := &token{err: err}
	if b.slow > 0 {
		t.wait = b.r.Intn(b.slow)
	}
	return t
}

func (b *broker) refused() error {
	if b.refuse > 0 {
		b.refuse--
		return errRefused
	}
	return nil
}

func (b *broker) IsConnected() bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.connected
}
func (b *broker) IsConnectionOpen() bool { return b.IsConnected() }

func (b *broker) Connect() mqtt.Token {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, "connect")
	err := b.refused()
	b.connected = err == nil
	return b.token(err)
}

func (b *broker) Disconnect(uint) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, "disconnect")
	b.connected = false
	b.forget()
}

func (b *broker) forget() {
	for _, x := range b.routes {
		x.gone = true
	}
	b.routes = nil
}

func (b *broker) Subscribe(topic string, qos byte, cb mqtt.MessageHandler) mqtt.Token {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, "subscribe "+topic)
	if !b.connected {
		return b.token(mqtt.ErrNotConnected)
	}
	err := b.refused()
	if err == nil {
		x := &route{topic: topic, qos: qos, cb: cb}
		for i, o := range b.routes {
			if o.topic == topic {
				o.gone = true
				b.routes = append(b.routes[:i:i], b.routes[i+1:]...)
				break
			}
		}
		b.routes = append(b.routes, x)
		b.all = append(b.all, x)
	}
	return b.token(err)
}

func (b *broker) Unsubscribe(topics ...string) mqtt.Token {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, "unsubscribe "+strings.Join(topics, ","))
	if !b.connected {
		return b.token(mqtt.ErrNotConnected)
	}
	err := b.refused()
	if err == nil {
		for _, t := range topics {
			for i, o := range b.routes {
				if o.topic == t {
					o.gone = true
					b.routes = append(b.routes[:i:i], b.routes[i+1:]...)
					break
				}
			}
		}
	}
	return b.token(err)
}

func topicMatches(filter, topic string) bool {
	f, t := strings.Split(filter, "/"), strings.Split(topic, "/")
	for i := range f {
		if f[i] == "#" {
			return true
		}
		if i >= len(t) || f[i] != "+" && f[i] != t[i] {
			return false
		}
	}
	return len(f) == len(t)
}

// publish hands a message to all who subscribed to its topic.
func (b *broker) publish(topic string, payload []byte, bad bool) *message {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	m := &message{topic, payload, bad, b.n}
	if !b.connected {
		return m
	}
	for _, x := range b.routes {
		if !topicMatches(x.topic, topic) {
			continue
		}
		x.posts = append(x.posts, m)
		n := 1
		// less than "exactly once" is what the network makes of it
		switch {
		case x.qos == 0 && b.r.Pct(40):
			n = 0
		case x.qos == 1 && b.r.Pct(40):
			n = 2
		}
		for ; n > 0; n-- {
			d := &delivery{m: m, route: x, task: -1}
			x.ds = append(x.ds, d)
			if !b.opts.Order {
				d.task = simrt.GoNamed("handler", func() { b.hand(d) })
				continue
			}
			b.queue = append(b.queue, d)
			if !b.working {
				b.working = true
				b.tasks = append(b.tasks, simrt.GoNamed("router", b.work))
			}
		}
	}
	return m
}

func (b *broker) work() {
	for {
		b.mu.Lock()
		if len(b.queue) == 0 {
			b.working = false
			b.mu.Unlock()
			return
		}
		d := b.queue[0]
		b.queue = b.queue[1:]
		b.mu.Unlock()
		b.hand(d)
	}
}

func (b *broker) hand(d *delivery) {
	d.begin = simrt.Stamp()
	d.route.cb(b, d.m)
	b.mu.Lock()
	d.end = simrt.Stamp()
	b.mu.Unlock()
}

// lose ends the connection; the library tells the client in a task of its own.
func (b *broker) lose() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	if !b.connected {
		return -1
	}
	b.connected = false
	b.losses++
	if b.opts.CleanSession {
		b.forget()
	}
	id := -1
	if f := b.opts.OnConnectionLost; f != nil {
		id = simrt.GoNamed("connection-lost", func() { f(b, errLost) })
		b.tasks = append(b.tasks, id)
	}
	return id
}

func (b *broker) back() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.connected = b.opts.AutoReconnect || b.connected
}

func (b *broker) count(what string) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, x := range b.calls {
		if x == what {
			n++
		}
	}
	return
}

// subscriber is a consumer of a subscription.
type subscriber struct {
	kind  *eventKind
	topic string
	label string
	open  func(e *nodeclient.EventAPIClient) (source, *nodeclient.EventAPIClientSubscription)

	src    source
	sub    *nodeclient.EventAPIClientSubscription
	refuse bool
	route  *route
	pan    any

	task int
	stop chan struct{}
	left bool
	lag  int
	r    *core.RNG
	got  []any
}

// source is a channel of any type.
type source interface {
	next(stop chan struct{}) (v any, ok, stopped bool)
	rest() (any, bool)
	none() bool
}

type chanSource[T any] struct{ c <-chan T }

func (s chanSource[T]) none() bool { return s.c == nil }
func (s chanSource[T]) next(stop chan struct{}) (any, bool, bool) {
	v, q := simrt.Rc(s.c), simrt.Rc(stop)
	if simrt.Select(false, v, q) == 1 {
		return nil, false, true
	}
	return v.Val, v.Ok, false
}

// rest takes what waits in a channel.
func (s chanSource[T]) rest() (any, bool) {
	v := simrt.Rc(s.c)
	if simrt.Select(true, v) != 0 {
		return nil, false
	}
	return v.Val, v.Ok
}

func src[T any](c <-chan T, s *nodeclient.EventAPIClientSubscription) (source, *nodeclient.EventAPIClientSubscription) {
	return chanSource[T]{c}, s
}

type eventKind struct {
	name    string
	payload func(h *httpRun, r *core.RNG) []byte
	same    func(h *httpRun, v any, payload []byte) bool
}

func encodedKind[T any](name string) *eventKind {
	return &eventKind{name, func(h *httpRun, r *core.RNG) []byte {
		for i := 0; i < 20; i++ {
			b, err := h.m.n.api.Encode(filled[T](h, r))
			if err == nil {
				return b
			}
		}
		return nil
	}, func(h *httpRun, v any, payload []byte) bool {
		x, ok := v.(*T)
		if !ok || x == nil {
			return false
		}
		b, err := h.m.n.api.Encode(x)
		return err == nil && bytes.Equal(b, payload)
	}}
}

var (
	evBlock = &eventKind{"block", func(h *httpRun, r *core.RNG) []byte {
		b, _ := h.block(r)
		return model.EncBlock(b)
	}, func(h *httpRun, v any, payload []byte) bool {
		x, ok := v.(*iotago.Block)
		if !ok || x == nil || x.API == nil {
			return false
		}
		b, err := h.vers[0].n.api.Encode(x)
		return err == nil && bytes.Equal(b, payload) && byte(x.API.Version()) == payload[0]
	}}
	evCommitment = &eventKind{"commitment", func(h *httpRun, r *core.RNG) []byte { return model.EncCommitment(h.m.commitment(r)) }, func(h *httpRun, v any, payload []byte) bool {
		x, ok := v.(*iotago.Commitment)
		if !ok || x == nil {
			return false
		}
		c := &model.Commitment{Version: byte(x.ProtocolVersion), Slot: uint32(x.Slot), Prev: model.ID36(x.PreviousCommitmentID), Roots: model.Hash(x.RootsID), Weight: x.CumulativeWeight, RMC: uint64(x.ReferenceManaCost)}
		return bytes.Equal(model.EncCommitment(c), payload)
	}}
	evTx     = encodedKind[api.TransactionMetadataResponse]("transaction-metadata")
	evBMeta  = encodedKind[api.BlockMetadataResponse]("block-metadata")
	evOutput = encodedKind[api.OutputWithMetadataResponse]("output")
)

type client = nodeclient.EventAPIClient

// topics: how a subscription is made, and the topic that it has to have.
func (h *httpRun) subscriber(r *core.RNG) *subscriber {
	s := &subscriber{task: -1, r: r.Fork()}
	blocks := func(topic string, f func(*client) (<-chan *iotago.Block, *nodeclient.EventAPIClientSubscription)) {
		s.kind, s.topic = evBlock, topic
		s.open = func(e *client) (source, *nodeclient.EventAPIClientSubscription) { return src(f(e)) }
	}
	outs := func(topic string, f func(*client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription)) {
		s.kind, s.topic = evOutput, topic
		s.open = func(e *client) (source, *nodeclient.EventAPIClientSubscription) { return src(f(e)) }
	}
	metas := func(topic string, f func(*client) (<-chan *api.BlockMetadataResponse, *nodeclient.EventAPIClientSubscription)) {
		s.kind, s.topic = evBMeta, topic
		s.open = func(e *client) (source, *nodeclient.EventAPIClientSubscription) { return src(f(e)) }
	}
	commits := func(topic string, f func(*client) (<-chan *iotago.Commitment, *nodeclient.EventAPIClientSubscription)) {
		s.kind, s.topic = evCommitment, topic
		s.open = func(e *client) (source, *nodeclient.EventAPIClientSubscription) { return src(f(e)) }
	}
	id32, id36, id38 := r.Hash(), [36]byte(r.Bytes(36)), [38]byte(r.Bytes(38))
	tag := r.Bytes(1 + r.Intn(64))
	bech := func(kind byte) string { return model.BechEncode(h.hrp, append([]byte{kind}, id32[:]...)) }
	n := r.Intn(21)
	switch n {
	case 0:
		commits("commitments/latest", (*client).CommitmentsLatest)
	case 1:
		commits("commitments/finalized", (*client).CommitmentsFinalized)
	case 2:
		blocks("blocks", (*client).Blocks)
	case 3:
		blocks("blocks/validation", (*client).BlocksValidation)
	case 4:
		blocks("blocks/basic", (*client).BlocksBasic)
	case 5:
		blocks("blocks/basic/tagged-data", (*client).BlocksBasicWithTaggedData)
	case 6:
		blocks("blocks/basic/tagged-data/0x"+hx(tag), func(e *client) (<-chan *iotago.Block, *nodeclient.EventAPIClientSubscription) {
			return e.BlocksBasicWithTaggedDataByTag(tag)
		})
	case 7:
		blocks("blocks/basic/transaction", (*client).BlocksBasicWithTransactions)
	case 8:
		blocks("blocks/basic/transaction/tagged-data", (*client).BlocksBasicWithTransactionsWithTaggedData)
	case 9:
		blocks("blocks/basic/transaction/tagged-data/0x"+hx(tag), func(e *client) (<-chan *iotago.Block, *nodeclient.EventAPIClientSubscription) {
			return e.BlocksBasicWithTransactionsWithTaggedDataByTag(tag)
		})
	case 10:
		metas("transactions/0x"+hx(id36[:])+"/included-block-metadata", func(e *client) (<-chan *api.BlockMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.BlockMetadataTransactionIncludedBlocksByTransactionID(iotago.TransactionID(id36))
		})
	case 11:
		s.kind, s.topic = evTx, "transaction-metadata/0x"+hx(id36[:])
		s.open = func(e *client) (source, *nodeclient.EventAPIClientSubscription) {
			return src(e.TransactionMetadataByTransactionID(iotago.TransactionID(id36)))
		}
	case 12:
		metas("block-metadata/0x"+hx(id36[:]), func(e *client) (<-chan *api.BlockMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.BlockMetadataByBlockID(iotago.BlockID(id36))
		})
	case 13:
		metas("block-metadata/accepted", (*client).BlockMetadataAcceptedBlocks)
	case 14:
		metas("block-metadata/confirmed", (*client).BlockMetadataConfirmedBlocks)
	case 15:
		outs("outputs/0x"+hx(id38[:]), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputWithMetadataByOutputID(iotago.OutputID(id38))
		})
	case 16:
		outs("outputs/account/"+bech(model.AddrAccount), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputsWithMetadataByAccountID(iotago.AccountID(id32))
		})
	case 17:
		outs("outputs/anchor/"+bech(model.AddrAnchor), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputsWithMetadataByAnchorID(iotago.AnchorID(id32))
		})
	case 18:
		if r.Bool() {
			outs("outputs/foundry/0x"+hx(id38[:]), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
				return e.OutputsWithMetadataByFoundryID(iotago.FoundryID(id38))
			})
			break
		}
		outs("outputs/delegation/0x"+hx(id32[:]), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputsWithMetadataByDelegationID(iotago.DelegationID(id32))
		})
	case 19:
		outs("outputs/nft/"+bech(model.AddrNFT), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputsWithMetadataByNFTID(iotago.NFTID(id32))
		})
	case 20:
		cond := core.Pick(r, []string{"+", "address", "storage-return", "expiration", "state-controller", "governor", "immutable-account"})
		a := h.m.pool.Addr(r)
		for len(model.EncAddr(a)) > 40 { // the text of these is another matter
			a = h.m.pool.Addr(r)
		}
		addr := realAddress(h, a)
		outs("outputs/unlock/"+cond+"/"+model.BechEncode(h.hrp, model.EncAddr(a)), func(e *client) (<-chan *api.OutputWithMetadataResponse, *nodeclient.EventAPIClientSubscription) {
			return e.OutputsWithMetadataByUnlockConditionAndAddress(api.EventAPIUnlockCondition(cond), addr)
		})
	}
	s.topic += "/raw"
	s.label = fmt.Sprintf("subscription %d (%.40s)", n, s.topic)
	return s
}

func realAddress(h *httpRun, a *model.Addr) iotago.Address {
	v := h.m.real(&object{k: kAddr, b: model.EncAddr(a)})
	return v.(iotago.Address)
}

// consume reads a subscription until it is told to stop.
func (s *subscriber) consume() {
	for {
		v, ok, stopped := s.src.next(s.stop)
		if stopped || !ok {
			return
		}
		s.got = append(s.got, v)
		for i := s.r.Intn(s.lag + 1); i > 0; i-- {
			simrt.Y("consume")
		}
	}
}

type eventRun struct {
	*httpRun
	b      *broker
	e      *nodeclient.EventAPIClient
	ctx    *simCtx
	subs   []*subscriber
	cancel int64 // when the context ended
	closed bool
	lossy  bool

	mu   simrt.Mutex
	errs []error
	used map[string]bool
	sent map[string]bool
}

func (x *eventRun) nerrs() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.errs)
}

// end is a context's end in a simulation.
func (x *eventRun) end() {
	x.mu.Lock()
	if x.cancel == 0 {
		x.cancel = simrt.Stamp()
	}
	x.mu.Unlock()
	x.ctx.once.Do(func() { simrt.Close(x.ctx.done) })
}

// ended gives the time of the context's end, 0 if it has not ended.
func (x *eventRun) ended() int64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.cancel
}

func (x *eventRun) inactive() bool {
	return x.ctx.Err() != nil || !x.b.IsConnected()
}

// open makes a subscription in the current task.
func (x *eventRun) open(s *subscriber) {
	before := x.inactive()
	n := x.b.count("subscribe " + s.topic)
	defer func() {
		if p := recover(); p != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", p), "simrt.") {
				panic(p)
			}
			s.pan = p
			err, ok := p.(error)
			if !ok || !errors.Is(err, nodeclient.ErrEventAPIClientInactive) {
				panic(p)
			}
			x.c.Check(x.inactive(), "spurious-panic", "%s panics although the client is active: %v", s.label, p)
			x.c.Check(x.b.count("subscribe "+s.topic) == n, "subscribed", "%s panics and subscribes nevertheless", s.label)
		}
	}()
	s.src, s.sub = s.open(x.e)
	if before {
		x.c.Fail("no-panic", "%s does not panic although the client is not active", s.label)
	}
}

func (Events) Run(c *core.Ctx) {
	h := newHTTP(c)
	if h == nil {
		return
	}
	x := &eventRun{httpRun: h, used: map[string]bool{}, sent: map[string]bool{}}
	x.ctx = &simCtx{done: make(chan struct{}), err: context.Canceled}
	var opts *mqtt.ClientOptions
	x.b = &broker{r: c.Rng.Fork()}
	simmqtt.Hook = func(o *mqtt.ClientOptions) mqtt.Client {
		opts, x.b.opts = o, o
		return x.b
	}
	defer func() { simmqtt.Hook = nil }()
	seed := c.Plan.Seed
	for _, op := range c.Plan.Ops {
		if op.K == "schedule" {
			seed = op.S
		}
	}
	conc.Exec(c, seed, 0, 3_000_000, func(s *simrt.Sim) {
		n := h.newCall()
		n.do = func(context.Context, *nodeclient.Client) (any, error) {
			cl, err := nodeclient.New(h.base, h.options()...)
			h.client = cl
			return cl, err
		}
		h.run(n)
		if h.client == nil {
			return
		}
		p := h.withPlugin("events", &call{name: "events", wants: list(), faultAt: -1, do: func(ctx context.Context, cl *nodeclient.Client) (any, error) { return ret(cl.EventAPI(ctx)) }})
		h.run(p)
		if p.err != nil || p.res == nil || opts == nil {
			c.FailFor([]string{"C04", "C05"}, "no-client", "no event client: %v", p.err)
			return
		}
		x.e = p.res.(*nodeclient.EventAPIClient)
		if u, err := url.Parse(h.base); err == nil {
			want := strings.Replace(u.Scheme, "http", "ws", 1) + "://" + u.Host + u.Path + "/api/mqtt/v2"
			c.Check(len(opts.Servers) == 1 && opts.Servers[0].String() == want, "broker", "the broker is %v, it should be %s", opts.Servers, want)
			c.Check(opts.ClientID != "", "broker", "the client has no ID")
		}
		x.script()
	})
	c.Add("messages", int64(x.b.n))
}

// script executes the plan in the main task.
func (x *eventRun) script() {
	c := x.c
	stop := make(chan struct{})
	var listeners []int
	connected := false
	var free []int // tasks that end by themselves
	live := func(r *core.RNG) *subscriber {
		var l []*subscriber
		for _, s := range x.subs {
			if s.task >= 0 {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return core.Pick(r, l)
	}
	for _, op := range c.Plan.Ops {
		r := core.NewRNG(op.S)
		c.Evals++
		for i := r.Intn(8); i > 0; i-- {
			simrt.Y("script")
		}
		switch op.K {
		case "connect":
			if connected {
				continue
			}
			x.b.slow = core.Pick(r, []int{0, 5, 40})
			if r.Pct(20) && c.On("refused-connection") {
				c.Fault("refused-connection")
				x.b.refuse = 1
				err := x.e.Connect(x.ctx)
				c.Check(errors.Is(err, errRefused), "connect", "the broker refused, Connect gives %v", err)
			}
			err := x.e.Connect(x.ctx)
			c.Check(err == nil, "connect", "Connect gives %v", err)
			connected = true
			for i := 0; i < r.Range(0, 2); i++ {
				id := simrt.GoNamed("errors", func() {
					for {
						e, q := simrt.Rc(x.e.Errors), simrt.Rc(stop)
						if simrt.Select(false, e, q) == 1 {
							return
						}
						x.mu.Lock()
						x.errs = append(x.errs, e.Val)
						x.mu.Unlock()
					}
				})
				listeners = append(listeners, id)
			}
		case "sub":
			if !connected {
				continue
			}
			s := x.subscriber(r)
			if x.used[s.topic] {
				continue
			}
			x.used[s.topic] = true
			s.stop = make(chan struct{})
			s.lag = core.Pick(r, []int{0, 0, 3, 30, 200, 1000})
			if s.lag > 100 {
				c.Fault("consumer-stalls")
			}
			if r.Pct(10) && c.On("refused-subscription") && !x.inactive() {
				c.Fault("refused-subscription")
				s.refuse = true
				x.b.refuse = 1
			}
			n := len(x.b.all)
			x.open(s)
			x.subs = append(x.subs, s)
			if s.pan != nil {
				x.b.refuse = 0
				c.Count("sub-inactive")
				continue
			}
			c.Count("sub." + s.kind.name)
			if s.refuse || s.sub.Error() != nil {
				c.Check(s.refuse || x.ended() != 0 || x.closed || x.lossy, "sub-error", "%s gives the error %v", s.label, s.sub.Error())
				c.Check(errors.Is(s.sub.Error(), errRefused) || errors.Is(s.sub.Error(), mqtt.ErrNotConnected), "sub-error", "the broker refused %s, the error is %v", s.label, s.sub.Error())
				k := len(x.b.calls)
				err := s.sub.Close()
				c.Check(errors.Is(err, s.sub.Error()) && len(x.b.calls) == k, "close-error", "closing %s that could not be made gives %v", s.label, err)
				continue
			}
			c.Check(len(x.b.all) == n+1 && x.b.all[n].topic == s.topic, "topic", "%s subscribed %v instead of %s", s.label, topics(x.b.all[min(n, len(x.b.all)):]), s.topic)
			c.Check(!s.src.none(), "no-channel", "%s has no channel", s.label)
			s.route = x.b.all[n]
			s.task = simrt.GoNamed("consumer", s.consume)
		case "pub", "burst", "bad", "calm-bad", "foreign":
			s := live(r)
			if s == nil {
				continue
			}
			n := 1
			if op.K == "burst" {
				n = r.Range(2, 6)
			}
			topic := strings.Replace(s.topic, "+", "address", 1)
			if op.K == "foreign" {
				topic = core.Pick(r, []string{topic + "/x", "x/" + topic, strings.TrimSuffix(topic, "/raw"), strings.Replace(topic, "/", "//", 1)})
			}
			for ; n > 0; n-- {
				b := s.kind.payload(x.httpRun, r)
				if len(b) == 0 || x.sent[string(b)] {
					continue
				}
				x.sent[string(b)] = true
				bad := op.K == "bad" || op.K == "calm-bad"
				if bad {
					if !c.On("malformed-message") {
						break
					}
					c.Fault("malformed-message")
					b = b[:core.Pick(r, []int{0, 0, r.Intn(len(b)), len(b) - 1, len(b) / 2})]
					if s.kind == evBlock && r.Bool() && len(b) > 0 {
						b = append([]byte(nil), b...)
						b[0] = byte(int(b[0]) + 1 + r.Intn(250))
					}
				}
				x.publish(s, topic, b, bad, op.K == "calm-bad", len(listeners))
			}
		case "calm-loss", "loss":
			if !connected || !c.On("connection-loss") || !x.b.IsConnected() {
				continue
			}
			c.Fault("connection-loss")
			x.lossy = true
			calm := op.K == "calm-loss" && len(listeners) > 0
			if calm {
				simrt.Quiesce()
			}
			was := x.nerrs()
			id := x.b.lose()
			c.Check(id >= 0, "no-listener", "nobody is told that the connection was lost")
			if calm {
				simrt.Quiesce()
				c.Check(x.nerrs() > was, "error-lost", "the connection was lost while somebody waits for errors: there is none")
			}
			if r.Pct(60) {
				x.b.back()
			}
		case "back":
			if connected && x.ended() == 0 && !x.closed {
				x.b.back()
			}
		case "closeSub":
			s := live(r)
			if s == nil || s.route.gone && r.Pct(80) {
				continue
			}
			shut := func() {
				n := x.b.count("unsubscribe " + s.topic)
				k := 0
				x.b.mu.Lock()
				k = len(x.b.calls)
				x.b.mu.Unlock()
				err := s.sub.Close()
				x.b.mu.Lock()
				ks := append([]string(nil), x.b.calls[k:]...)
				x.b.mu.Unlock()
				c.Check(x.b.count("unsubscribe "+s.topic) == n+1, "unsubscribe", "closing %s does %v", s.label, ks)
				c.Check(err == nil || errors.Is(err, mqtt.ErrNotConnected), "close-error", "closing %s gives %v", s.label, err)
			}
			if r.Pct(20) && c.On("refused-unsubscribe") && x.b.IsConnected() {
				c.Fault("refused-unsubscribe")
				x.b.refuse = 1
				err := s.sub.Close()
				c.Check(errors.Is(err, errRefused), "close-error", "the broker refused to unsubscribe, closing %s gives %v", s.label, err)
				continue
			}
			shut()
		case "leave":
			if s := live(r); s != nil && !s.left && c.On("consumer-leaves") {
				c.Fault("consumer-leaves")
				s.left = true
				simrt.Close(s.stop)
			}
		case "inactive":
			if !connected || !x.inactive() {
				continue
			}
			s := x.subscriber(r)
			if !x.used[s.topic] {
				x.open(s)
				c.Check(s.pan != nil, "no-panic", "%s does not panic although the client is not active", s.label)
			}
		case "wait":
			for i := r.Intn(300); i > 0; i-- {
				simrt.Y("wait")
			}
		case "cancel":
			if !connected {
				continue
			}
			c.Fault("cancellation")
			if r.Bool() {
				free = append(free, simrt.GoNamed("canceller", func() {
					for i := r.Intn(200); i > 0; i-- {
						simrt.Y("wait")
					}
					x.end()
				}))
			} else {
				x.end()
			}
		case "close":
			if !connected || x.closed {
				continue
			}
			x.closed = true
			n := x.b.count("disconnect")
			x.e.Close()
			c.Check(x.b.count("disconnect") == n+1 && !x.b.IsConnected(), "close", "Close does not disconnect")
		}
		if c.V != nil {
			break
		}
	}
	simrt.Fair()
	for _, id := range free {
		if id >= 0 {
			simrt.Join(id)
		}
	}
	simrt.Quiesce()
	// everything that can be handed over was; those who did not end wait for consumers that are gone, or the client blocks
	if c.V == nil && x.ended() == 0 {
		for _, s := range x.subs {
			for _, d := range x.deliveries(s) {
				if d.end == 0 && !s.left {
					c.FailFor([]string{"C04", "C05"}, "stalled", "%s: a message is not handed over although its consumer waits (%d are under way)", s.label, len(x.deliveries(s)))
				}
				if d.end == 0 && d.m.bad {
					c.FailFor([]string{"C04", "C05"}, "blocked", "%s: a malformed message blocks the handler", s.label)
				}
			}
		}
		for _, id := range x.b.tasks {
			if !simrt.Done(id) && !x.b.opts.Order {
				c.FailFor([]string{"C04", "C05"}, "blocked", "the handler of a lost connection blocks")
			}
		}
	}
	at := simrt.Stamp()
	x.end()
	simrt.Quiesce()
	steps := simrt.Stamp() - at
	if c.V == nil {
		for _, s := range x.subs {
			for _, d := range x.deliveries(s) {
				if d.end == 0 {
					c.FailFor([]string{"C04", "C05"}, "blocked", "%s: the handler of a message stays blocked after the context has ended", s.label)
				}
			}
		}
		if steps > int64(2000+400*x.b.n) {
			c.FailFor([]string{"C04", "C05"}, "slow-end", "%d steps after the end of the context", steps)
		}
	}
	for _, s := range x.subs {
		if s.task >= 0 {
			if !s.left {
				simrt.Close(s.stop)
			}
			simrt.Join(s.task)
			for v, ok := s.src.rest(); ok; v, ok = s.src.rest() {
				s.got = append(s.got, v)
			}
		}
	}
	simrt.Close(stop)
	for _, id := range listeners {
		simrt.Join(id)
	}
	left := simrt.Quiesce()
	if c.V != nil {
		return
	}
	c.Check(left == 0, "leak", "%d tasks are left", left)
	x.judge()
}

func topics(l []*route) (r []string) {
	for _, x := range l {
		r = append(r, x.topic)
	}
	return
}

func (x *eventRun) deliveries(s *subscriber) (r []*delivery) {
	if s.route == nil {
		return nil
	}
	x.b.mu.Lock()
	defer x.b.mu.Unlock()
	return append(r, s.route.ds...)
}

// publish sends a message; a calm one is the only thing that happens.
func (x *eventRun) publish(s *subscriber, topic string, b []byte, bad, calm bool, listeners int) {
	c := x.c
	calm = calm && listeners > 0
	if calm {
		simrt.Quiesce()
	}
	was := x.nerrs()
	hit := !s.route.gone && x.b.IsConnected()
	x.b.publish(topic, b, bad)
	if !calm || !hit {
		return
	}
	simrt.Quiesce()
	n := x.nerrs() - was
	c.Check(n >= 1, "error-lost", "%s: a malformed message arrived while somebody waits for errors: there is none\n%x", s.label, b)
}

// judge looks at what came out of the subscriptions.
func (x *eventRun) judge() {
	c := x.c
	bad := 0
	for _, s := range x.subs {
		if s.route == nil {
			continue
		}
		var good []*message
		for _, m := range s.route.posts {
			if m.bad {
				bad++
			} else {
				good = append(good, m)
			}
		}
		at := map[*message]int{}
		for i, v := range s.got {
			var m *message
			for _, g := range good {
				if _, ok := at[g]; !ok && s.kind.same(x.httpRun, v, g.payload) {
					m = g
					break
				}
			}
			if m == nil {
				for _, g := range good {
					c.Check(!s.kind.same(x.httpRun, v, g.payload), "twice", "%s: a message is handed over more than once", s.label)
				}
				c.Fail("foreign", "%s hands over something the broker did not send: %T", s.label, v)
			}
			at[m] = i
		}
		seen := map[*message]bool{}
		for _, d := range s.route.ds {
			if d.m.bad {
				continue
			}
			seen[d.m] = true
			if _, ok := at[d.m]; !ok && (d.end < x.ended()) {
				c.Fail("lost", "%s: a message's handler has returned before the context ended, its message was not handed over", s.label)
			}
			for _, e := range s.route.ds {
				if e.m.bad || e.m == d.m || d.end >= e.begin {
					continue
				}
				i, ok := at[d.m]
				j, ok2 := at[e.m]
				c.Check(!ok || !ok2 || i < j, "order", "%s: messages are handed over in another order than they were delivered", s.label)
			}
		}
		for _, g := range good {
			c.Check(seen[g], "lost", "%s: a message that was published while the subscription was there is lost (quality of service %d)", s.label, s.route.qos)
		}
		c.State("events", s.kind.name, fmt.Sprint(len(good), len(s.got), len(s.route.posts), s.left, x.closed, x.lossy))
		c.Logf("%s: %d of %d messages", s.label, len(s.got), len(s.route.posts))
		c.Add("handed-over", int64(len(s.got)))
	}
	lost := 0
	for _, e := range x.errs {
		if errors.Is(e, errLost) {
			lost++
		}
		c.Check(e != nil, "nil-error", "a nil error is reported")
	}
	c.Check(lost <= x.b.losses, "errors", "%d lost connections are reported, there were %d", lost, x.b.losses)
	c.Check(len(x.errs)-lost <= 2*bad, "errors", "%d errors are reported for %d malformed messages: %v", len(x.errs)-lost, bad, x.errs)
	c.Sample(fmt.Sprintf("%d subscriptions, %d messages, %d errors, schedule", len(x.subs), x.b.n, len(x.errs)))
}
