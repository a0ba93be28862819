package response

import (
	"context"
	"net/http"
	"time"

	"github.com/ixtendio/gofre/router/path"
)

// C36: an event stream sends the events in order, flushed, and stops on disconnect.

// specCtx is the context of a request whose client leaves when done is closed.
type specCtx struct{ done chan struct{} }

func (c *specCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *specCtx) Done() <-chan struct{}       { return c.done }
func (c *specCtx) Value(any) any               { return nil }
func (c *specCtx) Err() error {
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}

//gov:bounded generated event sequences, disconnect points, write failures and protocol versions
func prop_C36_stream(proto int, status int, evts []ServerSentEvent, lastID string, leaveAfter int, failAt int, withFlush bool, headers map[string]string) {
	ctx := &specCtx{done: make(chan struct{})}
	left := false
	leave := func() {
		if !left {
			left = true
			close(ctx.done)
		}
	}
	ch := make(chan ServerSentEvent, len(evts))
	for _, e := range evts {
		ch <- e
	}
	close(ch)
	gens := 0
	var gotCtx context.Context
	gotID := ""
	resp := SSEHttpResponseWithHeaders(func(c context.Context, id string) <-chan ServerSentEvent {
		gens++
		gotCtx, gotID = c, id
		if leaveAfter == 0 {
			leave()
		}
		return ch
	}, nil)
	for k, v := range headers {
		resp.Headers().Set(k, v)
	}
	resp.HttpStatusCode = status
	w := &specWriter{hdr: http.Header{}, failAt: failAt}
	order := true     // each event is taken after the one before was written and flushed
	afterEnd := false // something was written after the client left or a write failed
	ended := false
	w.onWrite = func() {
		afterEnd = afterEnd || left || ended
		taken := len(evts) - len(ch)
		order = order && taken == w.writes && (w.writes == 1 || !withFlush || w.flushes == w.writes-1)
		if w.writes == w.failAt {
			ended = true
		}
	}
	w.onFlush = func() {
		if w.flushes == leaveAfter {
			leave()
		}
	}
	var hw http.ResponseWriter = w
	if !withFlush {
		hw = specPlainWriter{w}
	}
	req := (&http.Request{ProtoMajor: proto, Header: http.Header{"Last-Event-Id": {lastID}}}).WithContext(ctx)
	err := resp.Write(hw, path.MatchingContext{R: req})
	if proto != 2 {
		vAssert(err != nil && gens == 0, "not-http2-refused")
		vAssert(w.statuses == 1 && w.status == 500 && w.writes == 0, "status-500")
		return
	}
	if st := specStatusOf(status); st < 100 || st > 999 {
		vAssert(err != nil && gens == 0 && w.writes == 0, "no-stream-without-headers")
		return
	}
	vAssert(gens == 1, "generator-once")
	vAssert(gotCtx == context.Context(ctx) && gotID == lastID, "generator-arguments")
	vAssert(w.statuses == 1 && !w.early, "status-first")
	vAssert(w.sent.Get("Content-Type") == specOr(specGet(headers, "Content-Type"), "text/event-stream"), "event-stream-type")
	want := ""
	for i, e := range evts {
		if leaveAfter >= 0 && withFlush && i >= leaveAfter || leaveAfter == 0 || failAt > 0 && i+1 >= failAt {
			break
		}
		want += e.String()
	}
	vAssert(w.body == want, "the-events-in-order")
	vAssert(order, "one-at-a-time")
	vAssert(!afterEnd, "nothing-after-the-end")
	if withFlush {
		last := -1
		for i, l := range w.log {
			if l == "body" {
				last = i
			}
		}
		vAssert(last < 0 || last+1 < len(w.log) && w.log[last+1] == "flush", "each-event-flushed")
	}
}

func specGet(h map[string]string, k string) string { return h[k] }
func specOr(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func gen_prop_C36_stream(r *vRand) (proto int, status int, evts []ServerSentEvent, lastID string, leaveAfter int, failAt int, withFlush bool, headers map[string]string) {
	for n := r.Intn(6); n > 0; n-- {
		evts = append(evts, genSpecEvent(r))
	}
	proto = 2
	if r.Intn(6) == 0 {
		proto = r.Intn(4)
	}
	status = 200
	if r.Intn(10) == 0 {
		status = genSpecStatus(r)
	}
	leaveAfter = r.Intn(9) - 3
	failAt = r.Intn(9) - 3
	headers = genSpecHeaders(r)
	delete(headers, "Cache-Control")
	return proto, status, evts, r.str(), leaveAfter, failAt, r.Intn(3) > 0, headers
}
