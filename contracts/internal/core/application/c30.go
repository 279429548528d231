package application

import (
	"errors"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	validation "github.com/go-ozzo/ozzo-validation/v4"
	"github.com/google/uuid"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var (
	errWatch   = errors.New("verif: not watched")
	errStart   = errors.New("verif: not started")
	errInvalid = errors.New("verif: invalid")
)

type declared struct {
	field *validation.FieldRules
	ptr   interface{}
	rules []validation.Rule
}

var declarations []declared

// validationField and validateStruct are the contract of ozzo's ValidateStruct:
// each rule is applied to the value of its field. The rules are ozzo's own.
//
//verif:semantics github.com/go-ozzo/ozzo-validation/v4.Field
func validationField(ptr interface{}, rules ...validation.Rule) *validation.FieldRules {
	f := &validation.FieldRules{}
	declarations = append(declarations, declared{f, ptr, rules})
	return f
}

//verif:semantics github.com/go-ozzo/ozzo-validation/v4.ValidateStruct
func validateStruct(_ interface{}, fields ...*validation.FieldRules) (res error) {
	for _, f := range fields {
		for _, d := range declarations {
			if d.field != f {
				continue
			}
			for _, r := range d.rules {
				if r.Validate(valueAt(d.ptr)) != nil {
					res = errInvalid
				}
			}
		}
	}
	return res
}

// indirect is the contract of ozzo's Indirect for the types of the fields.
//
//verif:semantics github.com/go-ozzo/ozzo-validation/v4.Indirect
func indirect(value interface{}) (interface{}, bool) {
	if s, ok := value.([]scanner.EventType); ok && s == nil {
		return nil, true
	}
	return value, false
}

func valueAt(ptr interface{}) interface{} {
	switch p := ptr.(type) {
	case *SubscriberID:
		return *p
	case *int:
		return *p
	case *[]scanner.EventType:
		return *p
	case *string:
		return *p
	}
	panic("verif: a field of another type")
}

type watch struct {
	id         uuid.UUID
	descriptor string
	events     []scanner.EventType
	start      int
}

// fakeScanner records what it is asked to watch and refuses some of it.
type fakeScanner struct {
	scanner.Service
	reports chan scanner.Report
	watched []watch
	refuse  []bool
}

func (f *fakeScanner) Start() (<-chan scanner.Report, error) { return f.reports, nil }

func (f *fakeScanner) WatchDescriptorWallet(id uuid.UUID, descriptor string, events []scanner.EventType, start int) error {
	f.watched = append(f.watched, watch{id, descriptor, events, start})
	if f.refuse[len(f.watched)-1] {
		return errWatch
	}
	return nil
}

func newService(f *fakeScanner) *notificationService {
	f.reports = make(chan scanner.Report, 100)
	n := NewNotificationService(f).(*notificationService)
	if spec.Native() {
		// a channel is a log to the verifier
		n.subsEventReport, n.subsErrorReport = make(chan SubscriberEventReport, 100), make(chan SubscriberErrorReport, 100)
	}
	return n
}

func eventsOf(n *notificationService) (out []SubscriberEventReport) {
	for {
		select {
		case r := <-n.EventReport():
			out = append(out, r)
		default:
			return out
		}
	}
}

func errorsOf(n *notificationService) (out []SubscriberErrorReport) {
	for {
		select {
		case r := <-n.ErrorReport():
			out = append(out, r)
		default:
			return out
		}
	}
}

type item struct {
	scanner.WatchItem
	kind scanner.EventType
}

func (i item) EventType() scanner.EventType { return i.kind }

func anyID(name string) [16]byte { return spec.Any[[16]byte](name) }

// VC_C30_reports: the scanner reports what it found.
func VC_C30_reports() {
	spec.Bounded("at most three reports")
	f := &fakeScanner{}
	n := newService(f)
	spec.Ensures("the service starts", n.Start() == nil)
	spec.Settle()
	count := spec.Choose("reports", 4)
	var sent []scanner.Report
	for i := 0; i < count; i++ {
		r := scanner.Report{
			Transaction: &transaction.Transaction{}, BlockHash: &chainhash.Hash{}, BlockHeight: spec.Any[uint32]("height"),
			Request: &scanner.ScanRequest{
				ClientID: uuid.UUID(anyID("subscriber")), StartHeight: spec.Any[uint32]("start"),
				Item: item{kind: scanner.EventType(spec.Any[int]("event"))},
			},
		}
		sent = append(sent, r)
		f.reports <- r
		if spec.Choose("handled at once", 2) > 0 {
			spec.Settle()
		}
	}
	spec.Settle()
	got := eventsOf(n)
	spec.Ensures("each report is passed on once", len(got) == len(sent))
	for i, r := range sent {
		g := got[i]
		spec.Ensures("it goes to the subscriber of its request", g.SubscriberID == SubscriberID(r.Request.ClientID))
		spec.Ensures("with the event type of the watched item", g.EventType == r.Request.Item.EventType())
		spec.Ensures("with its block", g.BlockHeight == int(r.BlockHeight) && g.BlockHash == r.BlockHash)
		spec.Ensures("with its transaction", g.Transaction == r.Transaction)
	}
	spec.Ensures("no error is reported", len(errorsOf(n)) == 0)
}

func subscription(i byte) Subscriber {
	s := Subscriber{ID: anyID("subscriber"), BlockHeight: spec.Any[int]("start"), WalletDescriptor: spec.Any[string]("descriptor")}
	events := 1
	if i == 1 {
		events += spec.Choose("events", 2)
	}
	for ; events > 0; events-- {
		s.Events = append(s.Events, scanner.EventType(spec.Any[int]("event")))
	}
	// distinct, and not without identity
	spec.Requires(s.ID[0] == i)
	spec.Requires(s.BlockHeight >= 0 && s.WalletDescriptor != "")
	return s
}

// VC_C30_subscribe: subscriptions one after the other, each of which may not be watchable.
func VC_C30_subscribe() {
	spec.Bounded("three subscriptions")
	f := &fakeScanner{}
	n := newService(f)
	spec.Ensures("the service starts", n.Start() == nil)
	spec.Settle()
	refused := 0
	for i := 0; i < 3; i++ {
		s := subscription(byte(i + 1))
		refuse := spec.Choose("watchable", 2) == 0
		f.refuse = append(f.refuse, refuse)
		spec.Ensures("a complete subscription is accepted", n.Subscribe(s) == nil)
		spec.Settle()
		spec.Ensures("it is watched", len(f.watched) == i+1)
		w := f.watched[i]
		spec.Ensures("for the subscriber", SubscriberID(w.id) == s.ID)
		same := len(w.events) == len(s.Events)
		for k := range s.Events {
			same = same && w.events[k] == s.Events[k]
		}
		spec.Ensures("the descriptor for the events from the height it names", w.descriptor == s.WalletDescriptor && w.start == s.BlockHeight && same)
		es := errorsOf(n)
		if refuse {
			refused++
			spec.Ensures("what cannot be watched is reported once", len(es) == 1)
			spec.Ensures("to its subscriber", es[0].SubscriberID == s.ID && errors.Is(es[0].ErrorMsg, errWatch))
		} else {
			spec.Ensures("what is watched is no error", len(es) == 0)
		}
	}
	spec.Ensures("no event is reported", len(eventsOf(n)) == 0)
	// later on both loops still serve
	f.reports <- scanner.Report{Request: &scanner.ScanRequest{Item: item{}}}
	spec.Settle()
	spec.Ensures("reports still pass", len(eventsOf(n)) == 1)
}

// VC_C30_refused: subscriptions that lack something.
func VC_C30_refused() {
	s := Subscriber{
		ID: anyID("subscriber"), BlockHeight: spec.Any[int]("start"), WalletDescriptor: spec.Any[string]("descriptor"),
		Events: make([]scanner.EventType, spec.AnyLen("events", 1<<20)),
	}
	f := &fakeScanner{}
	n := newService(f)
	spec.Ensures("the service starts", n.Start() == nil)
	err := n.Subscribe(s)
	f.refuse = []bool{false}
	spec.Settle()
	complete := s.ID != SubscriberID{} && len(s.Events) > 0 && s.WalletDescriptor != "" && s.BlockHeight >= 0
	spec.Ensures("it is refused when it lacks something, and only then", (err == nil) == complete)
	if !complete {
		spec.Ensures("nothing is watched for it", len(f.watched) == 0)
		spec.Ensures("it is not registered", n.UnSubscribe(s) != nil)
		spec.Ensures("nothing is reported for it", len(errorsOf(n)) == 0 && len(eventsOf(n)) == 0)
	}
}
