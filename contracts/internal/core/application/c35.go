package application

import (
	"github.com/google/uuid"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

type idle struct{ scanner.Service }

func (idle) Start() (<-chan scanner.Report, error) { return make(chan scanner.Report), nil }

func (idle) WatchDescriptorWallet(uuid.UUID, string, []scanner.EventType, int) error { return nil }

// VC_C35_service: subscribers come and go.
func VC_C35_service() {
	n := NewNotificationService(idle{}).(*notificationService)
	if spec.Choose("subscribed", 2) > 0 {
		n.subscribers[SubscriberID{1}] = Subscriber{ID: SubscriberID{1}}
	}
	spec.GuardMap("the table of subscribers", n.subscribers, &n.subscribersLock)
	spec.Guard("the table of subscribers", &n.subscribers, &n.subscribersLock)
	n.Start()
	spec.Settle()
	s := Subscriber{ID: SubscriberID{byte(1 + spec.Choose("who", 2))}}
	if spec.Choose("operation", 2) == 0 {
		go func() { n.registerSubs <- s }()
	} else {
		n.UnSubscribe(s)
	}
	spec.Settle()
	spec.Ensures("the lock is released", spec.LockFree(&n.subscribersLock))
}
