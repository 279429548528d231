package handler

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/google/uuid"
	"github.com/gorilla/websocket"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/internal/core/application"
	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var (
	errGone    = errors.New("verif: the subscriber has gone")
	errRefused = errors.New("verif: refused")
	errJSON    = errors.New("verif: malformed")
)

// service is the notification service: it records what it is asked and refuses some of it.
type service struct {
	application.NotificationService
	events       chan application.SubscriberEventReport
	errs         chan application.SubscriberErrorReport
	subscribed   []application.Subscriber
	unsubscribed []application.SubscriberID
	refuse       bool
}

func (s *service) EventReport() chan application.SubscriberEventReport { return s.events }
func (s *service) ErrorReport() chan application.SubscriberErrorReport { return s.errs }

func (s *service) Subscribe(sub application.Subscriber) error {
	s.subscribed = append(s.subscribed, sub)
	if s.refuse {
		return errRefused
	}
	return nil
}

func (s *service) UnSubscribe(sub application.Subscriber) error {
	s.unsubscribed = append(s.unsubscribed, sub.ID)
	if s.refuse {
		return errRefused
	}
	return nil
}

// sent is a message that was sent to a subscriber or a client.
type sent struct {
	conn    *websocket.Conn // or
	url     string
	content []byte
}

// net is the outside.
var net struct {
	sent   []sent
	broken *websocket.Conn // writes to it fail
	refuse string          // posts to it fail
	closed []*websocket.Conn
	// what the client of a websocket sends; then the connection ends
	incoming [][]byte
	ids      byte
	values   []interface{} // what was encoded
	decoders []decoder
}

type decoder struct {
	d *json.Decoder
	r io.Reader
}

func reset() *service {
	net.sent, net.broken, net.refuse, net.closed, net.incoming, net.ids, net.values, net.decoders = nil, nil, "", nil, nil, 0, nil, nil
	return &service{events: make(chan application.SubscriberEventReport, 100), errs: make(chan application.SubscriberErrorReport, 100)}
}

func newHandler(s *service) *descriptorWalletNotifierHandler {
	d := NewDescriptorWalletNotifierHandler(s).(*descriptorWalletNotifierHandler)
	spec.Rendezvous()
	spec.GuardMap("the table of subscribers", d.subscribers, d.subscribersLock)
	return d
}

// A message that is written arrives, unless the connection is broken.
//
//verif:model (*github.com/gorilla/websocket.Conn).WriteMessage
func writeMessage(c *websocket.Conn, kind int, b []byte) error {
	spec.Ensures("text is sent", kind == websocket.TextMessage)
	if c == net.broken {
		return errGone
	}
	net.sent = append(net.sent, sent{conn: c, content: b})
	return nil
}

// The client sends its messages and goes away, with or without saying so.
//
//verif:model (*github.com/gorilla/websocket.Conn).ReadMessage
func readMessage(c *websocket.Conn) (int, []byte, error) {
	if len(net.incoming) == 0 {
		if spec.Choose("goodbye", 2) > 0 {
			return 0, nil, &websocket.CloseError{Code: websocket.CloseNormalClosure}
		}
		return 0, nil, errGone
	}
	b := net.incoming[0]
	net.incoming = net.incoming[1:]
	return websocket.TextMessage, b, nil
}

//verif:model (*github.com/gorilla/websocket.Conn).Close
func closeConn(c *websocket.Conn) error {
	net.closed = append(net.closed, c)
	return nil
}

//verif:model (*github.com/gorilla/websocket.Conn).SetReadLimit
func setReadLimit(*websocket.Conn, int64) {}

//verif:model (*github.com/gorilla/websocket.Upgrader).Upgrade
func upgrade(*websocket.Upgrader, http.ResponseWriter, *http.Request, http.Header) (*websocket.Conn, error) {
	if spec.Choose("upgrade", 2) == 0 {
		return nil, errGone
	}
	return &websocket.Conn{}, nil
}

// Identities are never given twice.
//
//verif:model github.com/google/uuid.New
func newUUID() uuid.UUID {
	net.ids++
	return uuid.UUID{100 + net.ids}
}

// identity is the id of the n-th subscriber.
func identity(n byte) [16]byte { return uuid.UUID{100 + n} }

//verif:model net/http.Post
func post(url, kind string, body io.Reader) (*http.Response, error) {
	if url == net.refuse {
		return nil, errGone
	}
	b, _ := io.ReadAll(body)
	net.sent = append(net.sent, sent{url: url, content: b})
	return &http.Response{StatusCode: http.StatusOK, Body: http.NoBody}, nil
}

// marshal gives every value a content of its own.
//
//verif:semantics encoding/json.Marshal
func marshal(v interface{}) ([]byte, error) {
	net.values = append(net.values, v)
	return []byte{'A' + byte(len(net.values)-1)}, nil
}

//verif:semantics encoding/json.Unmarshal
func unmarshal(b []byte, into interface{}) error {
	if len(b) != 1 || int(b[0]) < 'A' || int(b[0])-'A' >= len(net.values) {
		return errJSON
	}
	switch v := net.values[b[0]-'A'].(type) {
	case neutrinodtypes.SubscriptionRequestHttp:
		*into.(*neutrinodtypes.SubscriptionRequestHttp) = v
	case neutrinodtypes.SubscriptionRequestWs:
		*into.(*neutrinodtypes.SubscriptionRequestWs) = v
	case neutrinodtypes.MessageErrorResponse:
		*into.(*neutrinodtypes.MessageErrorResponse) = v
	case neutrinodtypes.GeneralMessageResponse:
		*into.(*neutrinodtypes.GeneralMessageResponse) = v
	case neutrinodtypes.OnChainEventResponse:
		*into.(*neutrinodtypes.OnChainEventResponse) = v
	}
	return nil
}

//verif:semantics encoding/json.NewDecoder
func newDecoder(r io.Reader) *json.Decoder {
	d := &json.Decoder{}
	net.decoders = append(net.decoders, decoder{d, r})
	return d
}

//verif:semantics (*encoding/json.Decoder).Decode
func decode(d *json.Decoder, into interface{}) error {
	for _, k := range net.decoders {
		if k.d == d {
			b, err := io.ReadAll(k.r)
			if err != nil {
				return err
			}
			return unmarshal(b, into)
		}
	}
	return errJSON
}

// what a message says
const (
	nothing = iota
	anError
	aSuccess
	anEvent
)

type said struct {
	kind  int
	text  string
	event neutrinodtypes.EventType
	tx    string
}

// meaning reads a message that was sent.
func meaning(b []byte) said {
	var v interface{}
	if spec.Native() {
		var m map[string]string
		if json.Unmarshal(b, &m) != nil {
			return said{}
		}
		if e, ok := m["errorMessage"]; ok && len(m) == 1 {
			return said{kind: anError, text: e}
		}
		if t, ok := m["message"]; ok && len(m) == 1 {
			return said{kind: aSuccess, text: t}
		}
		if t, ok := m["txId"]; ok && len(m) == 2 {
			return said{kind: anEvent, event: neutrinodtypes.EventType(m["eventType"]), tx: t}
		}
		return said{}
	}
	if len(b) == 1 && int(b[0]) >= 'A' && int(b[0])-'A' < len(net.values) {
		v = net.values[b[0]-'A']
	}
	switch v := v.(type) {
	case neutrinodtypes.MessageErrorResponse:
		return said{kind: anError, text: v.ErrorMessage}
	case neutrinodtypes.GeneralMessageResponse:
		return said{kind: aSuccess, text: v.Message}
	case neutrinodtypes.OnChainEventResponse:
		return said{kind: anEvent, event: v.EventType, tx: v.TxID}
	}
	return said{}
}

// taken takes the messages that were sent.
func taken() []sent {
	s := net.sent
	net.sent = nil
	return s
}

func reader(b []byte) io.ReadCloser { return io.NopCloser(bytes.NewReader(b)) }

// txHash stands for the serialisation of a transaction and its digest.
//
//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(tx *transaction.Transaction) chainhash.Hash {
	return chainhash.Hash{byte(tx.Locktime), byte(tx.Locktime >> 8)}
}

// the assembly routines below bytes.Replace
//
//verif:semantics internal/bytealg.Count
func count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

//verif:semantics internal/bytealg.IndexByte
func indexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}
