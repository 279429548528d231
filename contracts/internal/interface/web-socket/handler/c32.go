package handler

import (
	"encoding/json"
	"net/http"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

type response struct {
	header http.Header
	status []int
	body   [][]byte
}

func (r *response) Header() http.Header { return r.header }

func (r *response) WriteHeader(s int) { r.status = append(r.status, s) }

func (r *response) Write(b []byte) (int, error) {
	if len(r.status) == 0 {
		r.status = append(r.status, http.StatusOK)
	}
	r.body = append(r.body, append([]byte{}, b...))
	return len(b), nil
}

// httpError is the contract of http.Error, but for the headers.
//
//verif:semantics net/http.Error
func httpError(w http.ResponseWriter, text string, code int) {
	w.WriteHeader(code)
	w.Write([]byte(text + "\n"))
}

func httpRequest(action neutrinodtypes.ActionType) neutrinodtypes.SubscriptionRequestHttp {
	q := neutrinodtypes.SubscriptionRequestHttp{
		ActionType: action, StartBlockHeight: spec.Any[int]("start"),
		DescriptorWallet: "wpkh(xpub)", EndpointUrl: "http://client",
	}
	for n := spec.Choose("events", 3); n > 0; n-- {
		q.EventTypes = append(q.EventTypes, scanner.EventType(spec.Any[int]("event")))
	}
	return q
}

// VC_C32_http: a request to register, to un-register, of another kind, or none at all.
func VC_C32_http() {
	s := reset()
	d := newHandler(s)
	d.Start()
	spec.Settle()
	action := []neutrinodtypes.ActionType{neutrinodtypes.Register, neutrinodtypes.Unregister, "", "Register"}[spec.Choose("action", 4)]
	q := httpRequest(action)
	s.refuse = spec.Choose("accepted", 2) == 0
	malformed := spec.Choose("well formed", 2) == 0
	content, _ := json.Marshal(q)
	if malformed {
		content = []byte("{")
	}
	w := &response{header: http.Header{}}
	d.HandleSubscriptionRequestHttp(w, &http.Request{Body: reader(content)})
	spec.Settle()
	if malformed {
		spec.Ensures("a bad request is answered as one", len(w.status) == 1 && w.status[0] == http.StatusBadRequest)
		spec.Ensures("it registers nobody", len(d.subscribers) == 0 && len(s.subscribed) == 0)
		return
	}
	spec.Ensures("a request gets one response", len(w.body) == 1 && len(w.status) == 1)
	v := meaning(w.body[0])
	accepted := false
	switch action {
	case neutrinodtypes.Register:
		spec.Ensures("the service decides", len(s.subscribed) == 1)
		accepted = !s.refuse
		sub := s.subscribed[0]
		same := len(sub.Events) == len(q.EventTypes)
		for i := range q.EventTypes {
			same = same && sub.Events[i] == q.EventTypes[i]
		}
		spec.Ensures("about the subscription that was requested", same && sub.WalletDescriptor == q.DescriptorWallet && sub.BlockHeight == q.StartBlockHeight)
		if accepted {
			at, ok := d.subscribers[SubscriberID(sub.ID)].(*HttpSubscriber)
			spec.Ensures("its notifications go to the client", len(d.subscribers) == 1 && ok && at.EndpointUrl == q.EndpointUrl && at.ID == SubscriberID(sub.ID))
		} else {
			spec.Ensures("a refused one is not kept", len(d.subscribers) == 0)
		}
	case neutrinodtypes.Unregister:
		accepted = len(s.unsubscribed) > 0 && !s.refuse
		spec.Ensures("nobody is registered", len(d.subscribers) == 0 && len(s.subscribed) == 0)
	default:
		spec.Ensures("nobody is registered", len(d.subscribers) == 0 && len(s.subscribed) == 0)
	}
	spec.Ensures("success and error are told apart", accepted && v.kind == aSuccess || !accepted && v.kind == anError)
}

// VC_C32_ws: the requests of one websocket.
func VC_C32_ws() {
	spec.Bounded("two requests")
	s := reset()
	d := newHandler(s)
	d.Start()
	spec.Settle()
	type asked struct {
		malformed, irregular bool
		q                    neutrinodtypes.SubscriptionRequestWs
	}
	var all []asked
	for n := 0; n < 2; n++ {
		a := asked{malformed: spec.Choose("well formed", 2) == 0}
		if a.malformed {
			net.incoming = append(net.incoming, []byte("{"))
			all = append(all, a)
			continue
		}
		actions := []neutrinodtypes.ActionType{neutrinodtypes.Register, neutrinodtypes.Unregister, "other"}
		a.q.ActionType = actions[0]
		if n == 0 {
			a.q.ActionType = actions[spec.Choose("action", 3)]
		}
		a.q.DescriptorWallet, a.q.StartBlockHeight = "wpkh(xpub)", spec.Any[int]("start")
		if n == 1 {
			content, _ := json.Marshal(a.q)
			net.incoming = append(net.incoming, content)
			all = append(all, a)
			break
		}
		switch spec.Choose("events", 4) {
		case 1:
			a.q.EventTypes = []neutrinodtypes.EventType{neutrinodtypes.UnspentUtxo}
		case 2:
			a.q.EventTypes = []neutrinodtypes.EventType{neutrinodtypes.SpentUtxo, neutrinodtypes.UnspentUtxo}
		case 3:
			a.q.EventTypes = []neutrinodtypes.EventType{neutrinodtypes.SpentUtxo, "other"}
			a.irregular = true
		}
		content, _ := json.Marshal(a.q)
		if a.irregular || spec.Choose("blanks", 2) > 0 {
			content = append(append([]byte("\n "), content...), '\n')
		}
		net.incoming = append(net.incoming, content)
		all = append(all, a)
	}
	s.refuse = spec.Choose("accepted", 2) == 0
	conn := &websocket.Conn{}
	d.handleRequest(conn)
	spec.Settle()
	got := taken()
	spec.Ensures("every request gets one response", len(got) == len(all))
	subs, unsubs := 0, 0
	for i, a := range all {
		v := meaning(got[i].content)
		spec.Ensures("on the connection it came from", got[i].conn == conn)
		accepted := false
		switch {
		case a.malformed, a.irregular:
		case a.q.ActionType == neutrinodtypes.Register:
			accepted = !s.refuse
			spec.Ensures("the service decides", len(s.subscribed) > subs)
			sub := s.subscribed[subs]
			subs++
			spec.Ensures("about the subscription that was requested", sub.WalletDescriptor == a.q.DescriptorWallet && sub.BlockHeight == a.q.StartBlockHeight && sameEvents(sub.Events, a.q.EventTypes))
			spec.Ensures("under the identity of the connection", sub.ID == application.SubscriberID(identity(1)))
		case a.q.ActionType == neutrinodtypes.Unregister:
			accepted = !s.refuse
			spec.Ensures("the service decides", len(s.unsubscribed) > unsubs && s.unsubscribed[unsubs] == application.SubscriberID(identity(1)))
			unsubs++
		}
		spec.Ensures("success and error are told apart", accepted && v.kind == aSuccess || !accepted && v.kind == anError)
	}
	spec.Ensures("nothing else is asked of the service", len(s.subscribed) == subs)
	spec.Ensures("a connection that has ended is forgotten", len(d.subscribers) == 0 && len(s.unsubscribed) == unsubs+1)
	spec.Ensures("and closed", len(net.closed) == 1 && net.closed[0] == conn)
}

func sameEvents(got []scanner.EventType, want []neutrinodtypes.EventType) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		k := scanner.UnspentUtxo
		if w == neutrinodtypes.SpentUtxo {
			k = scanner.SpentUtxo
		}
		if got[i] != k {
			return false
		}
	}
	return true
}
