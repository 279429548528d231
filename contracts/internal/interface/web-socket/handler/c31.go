package handler

import (
	"errors"

	"github.com/gorilla/websocket"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func event(id byte, kind scanner.EventType, lock uint32) application.SubscriberEventReport {
	return application.SubscriberEventReport{
		SubscriberID: application.SubscriberID(identity(id)), EventType: kind,
		BlockHeight: spec.Any[int]("height"), Transaction: &transaction.Transaction{Locktime: lock},
	}
}

// VC_C31_notify: events and errors for subscribers that are there and ones that are not.
func VC_C31_notify() {
	spec.Bounded("at most two reports before the last one, three subscribers")
	s := reset()
	d := newHandler(s)
	one, two := &websocket.Conn{}, &websocket.Conn{}
	d.addSubscriberSafe(&WsSubscriber{ID: SubscriberID(identity(1)), WsConnection: one})
	d.addSubscriberSafe(&HttpSubscriber{ID: SubscriberID(identity(2)), EndpointUrl: "http://two"})
	d.addSubscriberSafe(&WsSubscriber{ID: SubscriberID(identity(3)), WsConnection: two})
	switch spec.Choose("unreachable", 3) {
	case 1:
		net.broken = one
	case 2:
		net.refuse = "http://two"
	}
	go d.handleOnChainNotifications()
	spec.Settle()
	for i, n := uint32(0), spec.Choose("reports", 3); int(i) < n; i++ {
		id, kind := byte(1+spec.Choose("for", 3)), spec.Choose("kind", 4)
		if id == 3 {
			id = 9 // has gone
		}
		var e application.SubscriberEventReport
		if kind == 3 {
			s.errs <- application.SubscriberErrorReport{SubscriberID: application.SubscriberID(identity(id)), ErrorMsg: errRefused}
		} else {
			e = event(id, scanner.EventType(kind), 5+i)
			s.events <- e
		}
		spec.Settle()
		got := taken()
		reachable := id == 1 && net.broken == nil || id == 2 && net.refuse == ""
		if !reachable || kind == 2 {
			spec.Ensures("what cannot be delivered is dropped", len(got) == 0)
			continue
		}
		spec.Ensures("each notification is delivered once", len(got) == 1)
		checkOne(got[0], id == 1, one, kind, e)
	}
	e := event(3, scanner.SpentUtxo, 77)
	s.events <- e
	spec.Settle()
	got := taken()
	spec.Ensures("others still get theirs", len(got) == 1)
	checkOne(got[0], true, two, 1, e)
	spec.Ensures("the lock is released", spec.LockFree(d.subscribersLock))
}

func checkOne(m sent, ws bool, conn *websocket.Conn, kind int, e application.SubscriberEventReport) {
	if ws {
		spec.Ensures("it goes to its subscriber", m.conn == conn)
	} else {
		spec.Ensures("it goes to the endpoint of its subscriber", m.conn == nil && m.url == "http://two")
	}
	v := meaning(m.content)
	if kind == 3 {
		spec.Ensures("it tells the error", v.kind == anError && v.text == errRefused.Error())
		return
	}
	want := neutrinodtypes.UnspentUtxo
	if kind == int(scanner.SpentUtxo) {
		want = neutrinodtypes.SpentUtxo
	}
	spec.Ensures("it tells the event", v.kind == anEvent && v.event == want)
	spec.Ensures("it names the transaction", v.tx == e.Transaction.TxHash().String())
}

// VC_C31_leave: a subscriber registers, is notified and leaves.
func VC_C31_leave() {
	s := reset()
	d := newHandler(s)
	d.Start()
	spec.Settle()
	conn, other := &websocket.Conn{}, &websocket.Conn{}
	var sub Subscriber = &WsSubscriber{ID: SubscriberID(identity(1)), WsConnection: conn}
	http := spec.Choose("http", 2) > 0
	if http {
		sub = &HttpSubscriber{ID: SubscriberID(identity(1)), EndpointUrl: "http://two"}
	}
	d.registerSubs <- sub
	spec.Settle()
	d.registerSubs <- &WsSubscriber{ID: SubscriberID(identity(2)), WsConnection: other}
	spec.Settle()
	e := event(1, scanner.UnspentUtxo, 5)
	s.events <- e
	spec.Settle()
	got := taken()
	spec.Ensures("a registered subscriber is notified", len(got) == 1)
	checkOne(got[0], !http, conn, 0, e)
	// the service may not know the subscriber any more
	s.refuse = spec.Choose("known", 2) == 0
	d.unregisterSubs <- sub
	spec.Settle()
	spec.Ensures("the service is told that it has gone", len(s.unsubscribed) == 1 && s.unsubscribed[0] == application.SubscriberID(identity(1)))
	s.events <- e
	spec.Settle()
	s.errs <- application.SubscriberErrorReport{SubscriberID: e.SubscriberID, ErrorMsg: errors.New("late")}
	spec.Settle()
	spec.Ensures("nothing is sent to it any more", len(taken()) == 0)
	e = event(2, scanner.UnspentUtxo, 6)
	s.events <- e
	spec.Settle()
	got = taken()
	spec.Ensures("others are notified", len(got) == 1)
	checkOne(got[0], true, other, 0, e)
}
