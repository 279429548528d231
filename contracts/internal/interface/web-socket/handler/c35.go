package handler

import (
	"github.com/gorilla/websocket"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C35_subscribers: subscribers come and go, are looked up and notified.
func VC_C35_subscribers() {
	spec.Bounded("two operations in a row")
	s := reset()
	d := newHandler(s)
	spec.Guard("the table of subscribers", &d.subscribers, d.subscribersLock)
	d.Start()
	spec.Settle()
	one := &WsSubscriber{ID: SubscriberID(identity(1)), WsConnection: &websocket.Conn{}}
	for i := 0; i < 2; i++ {
		switch spec.Choose("operation", 4) {
		case 0:
			d.registerSubs <- one
		case 1:
			d.unregisterSubs <- one
		case 2:
			d.getSubscriberSafe(SubscriberID(identity(1)))
		case 3:
			net.incoming = [][]byte{[]byte("{")}
			d.handleRequest(&websocket.Conn{})
		}
		spec.Settle()
		spec.Ensures("the lock is released", spec.LockFree(d.subscribersLock))
	}
}
