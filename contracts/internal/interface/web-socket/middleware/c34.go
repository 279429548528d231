package middleware

import (
	"errors"
	"net/http"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// response records what is done to a response, in order.
type response struct {
	header http.Header
	status []int
	body   [][]byte
}

func (r *response) Header() http.Header { return r.header }

func (r *response) WriteHeader(s int) { r.status = append(r.status, s) }

func (r *response) Write(b []byte) (int, error) {
	if len(r.status) == 0 {
		r.status = append(r.status, http.StatusOK)
	}
	r.body = append(r.body, append([]byte{}, b...))
	return len(b), nil
}

// httpError is the contract of http.Error, but for the headers.
//
//verif:semantics net/http.Error
func httpError(w http.ResponseWriter, text string, code int) {
	w.WriteHeader(code)
	w.Write([]byte(text + "\n"))
}

var trace []string

// visit marks the response of a request on the way in and on the way out.
func visit(name string) Middleware {
	return func(next http.HandlerFunc) http.HandlerFunc {
		return func(w http.ResponseWriter, r *http.Request) {
			trace = append(trace, "in "+name)
			next(w, r)
			trace = append(trace, "out "+name)
		}
	}
}

var names = []string{"a", "b", "c", "d"}

// VC_C34_order: middlewares around a handler.
func VC_C34_order() {
	spec.Bounded("at most four middlewares")
	n := spec.Choose("middlewares", 5)
	var ms []Middleware
	for _, name := range names[:n] {
		ms = append(ms, visit(name))
	}
	trace = nil
	given, request := &response{}, &http.Request{}
	ok := true
	h := NewMiddlewareService().WrapHandlerWithMiddlewares(func(w http.ResponseWriter, r *http.Request) {
		trace = append(trace, "handler")
		ok = w == http.ResponseWriter(given) && r == request
	}, ms...)
	spec.Ensures("nothing runs before a request comes", len(trace) == 0)
	for again := 0; again < 2; again++ {
		trace = nil
		h(given, request)
		spec.Ensures("each runs once", len(trace) == 2*n+1)
		for i := 0; i < n; i++ {
			spec.Ensures("the first is outermost", trace[i] == "in "+names[i] && trace[2*n-i] == "out "+names[i])
		}
		spec.Ensures("the handler is innermost", trace[n] == "handler")
		spec.Ensures("it gets the request and the response as they are", ok)
	}
}

type detail struct{ why string }

// wrapped wraps a handler in the middlewares of the server, or one of them.
func wrapped(h http.HandlerFunc) http.HandlerFunc {
	s := NewMiddlewareService()
	if spec.Choose("wrapping", 2) == 0 {
		return s.PanicRecovery(h)
	}
	return s.WrapHandlerWithMiddlewares(h, s.LoggingMiddleware, s.PanicRecovery)
}

// VC_C34_panic: a handler panics, before or after it has answered.
func VC_C34_panic() {
	how, answered := spec.Choose("panic", 6), spec.Choose("answered before", 2) > 0
	calls := 0
	h := wrapped(func(w http.ResponseWriter, r *http.Request) {
		calls++
		if answered {
			w.WriteHeader(http.StatusAccepted)
		}
		switch how {
		case 0:
			panic("handler")
		case 1:
			panic(errors.New("handler"))
		case 2:
			panic(detail{"handler"})
		case 3:
			var d *detail
			d.why = "nil"
		case 4:
			var none []byte
			none[len(names)]++
		case 5:
			panic(http.ErrAbortHandler)
		}
	})
	for again := 1; again <= 2; again++ {
		w := &response{header: http.Header{}}
		escaped := spec.Panics(func() { h(w, &http.Request{}) })
		spec.Ensures("the panic is contained", !escaped)
		spec.Ensures("the handler ran", calls == again)
		spec.Ensures("the client gets an internal server error", answered || len(w.status) == 1 && w.status[0] == http.StatusInternalServerError)
	}
}

// VC_C34_quiet: a handler that does not panic.
func VC_C34_quiet() {
	status := spec.Any[int]("status")
	spec.Requires(status >= 200 && status < 1000)
	content := spec.AnyBytes("content", spec.AnyLen("length", 1<<16))
	explicit, writes := spec.Choose("status given", 2) > 0, spec.Choose("content given", 2) > 0
	w, request := &response{header: http.Header{}}, &http.Request{}
	same := false
	h := wrapped(func(rw http.ResponseWriter, r *http.Request) {
		same = r == request
		if explicit {
			rw.WriteHeader(status)
		}
		if writes {
			rw.Write(content)
		}
	})
	h(w, request)
	spec.Ensures("the handler gets the request", same)
	spec.Ensures("no header is added", len(w.header) == 0)
	switch {
	case explicit:
		spec.Ensures("the status is the handler's", len(w.status) == 1 && w.status[0] == status)
	case writes:
		spec.Ensures("the status is the default one", len(w.status) == 1 && w.status[0] == http.StatusOK)
	default:
		spec.Ensures("no status is sent", len(w.status) == 0)
	}
	if writes {
		spec.Ensures("the content is the handler's", len(w.body) == 1 && spec.SameBytes(w.body[0], content))
	} else {
		spec.Ensures("no content is added", len(w.body) == 0)
	}
}
