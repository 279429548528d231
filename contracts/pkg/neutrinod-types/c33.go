package neutrinodtypes

import (
	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func VC_C33_scanner_to_name() {
	e := spec.Any[scanner.EventType]("event")
	f := spec.Any[scanner.EventType]("other")
	n, err := FromScannerEventTypeToNeutrinodType(e)
	known := e == scanner.UnspentUtxo || e == scanner.SpentUtxo
	spec.Ensures("known events have a name, all others are refused", known == (err == nil))
	if err == nil {
		back, err := FromNeutrinodTypeToScannerEventType(n)
		spec.Ensures("name converts back", err == nil)
		spec.Ensures("round trip gives the same event type", back == e)
		m, err := FromScannerEventTypeToNeutrinodType(f)
		spec.Ensures("distinct events have distinct names", spec.Implies(err == nil && m == n, e == f))
	}
}

func VC_C33_name_to_scanner() {
	n := spec.Any[EventType]("name")
	e, err := FromNeutrinodTypeToScannerEventType(n)
	spec.Ensures("exactly the public names are accepted", (err == nil) == (n == "unspentUtxo" || n == "spentUtxo"))
	if err == nil {
		spec.Ensures("unspentUtxo names the unspent event", (n == "unspentUtxo") == (e == scanner.UnspentUtxo))
		m, err := FromScannerEventTypeToNeutrinodType(e)
		spec.Ensures("event converts back", err == nil)
		spec.Ensures("round trip gives the same name", m == n)
	}
}
