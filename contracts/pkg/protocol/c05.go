package protocol

import (
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// trip encodes v, appends arbitrary bytes, and decodes it into out through a stream.
func trip(v interface{}, out interface{}) {
	b, err := binary.Marshal(v)
	spec.Ensures("encodes", err == nil)
	n := len(b)
	tail := spec.AnyBytes("following bytes", spec.AnyLen("following length", 1000))
	s := spec.NewStream(append(append([]byte{}, b...), tail...))
	err = binary.NewDecoder(s).Decode(out)
	spec.Ensures("decodes", err == nil)
	spec.Ensures("consumes exactly the payload", s.Pos == n)
}

func VC_C05_version() {
	v := MsgVersion{
		Version: spec.Any[int32]("version"), Services: spec.Any[uint64]("services"), Timestamp: spec.Any[int64]("timestamp"),
		AddrRecv: spec.Any[VersionNetAddr]("recv"), AddrFrom: spec.Any[VersionNetAddr]("from"), Nonce: spec.Any[uint64]("nonce"),
		UserAgent: NewUserAgent(spec.Any[string]("agent")), StartHeight: spec.Any[int32]("height"), Relay: spec.Any[bool]("relay"),
	}
	spec.Requires(len(v.UserAgent.String) <= 1<<16)
	var w MsgVersion
	trip(v, &w)
	spec.Ensures("version", v.Version == w.Version)
	spec.Ensures("services", v.Services == w.Services)
	spec.Ensures("timestamp", v.Timestamp == w.Timestamp)
	spec.Ensures("receiver address", v.AddrRecv == w.AddrRecv)
	spec.Ensures("sender address", v.AddrFrom == w.AddrFrom)
	spec.Ensures("nonce", v.Nonce == w.Nonce)
	spec.Ensures("user agent", v.UserAgent.String == w.UserAgent.String)
	spec.Ensures("start height", v.StartHeight == w.StartHeight)
	spec.Ensures("relay", v.Relay == w.Relay)
}

func VC_C05_version_built() {
	ip := spec.Any[IPv4]("ip")
	port := spec.Any[uint16]("port")
	sf := spec.Any[ServiceFlag]("services")
	agent := spec.Any[string]("agent")
	spec.Requires(len(agent) <= 1<<16)
	m, err := NewVersionMsg(MagicRegtest, agent, ip, port, sf)
	spec.Ensures("built", err == nil)
	var w MsgVersion
	s := spec.NewStream(m.Payload)
	err = binary.NewDecoder(s).Decode(&w)
	spec.Ensures("decodes", err == nil && s.Left() == 0)
	spec.Ensures("carries the arguments", w.AddrRecv.IP == ip && w.AddrRecv.Port == port && w.Services == uint64(sf) && w.UserAgent.String == agent)
	spec.Ensures("protocol version", w.Version == 70016)
}

func VC_C05_getcfilters() {
	v := spec.Any[MsgGetCFilters]("v")
	var w MsgGetCFilters
	trip(v, &w)
	spec.Ensures("same fields", v == w)
}

func VC_C05_ping_pong() {
	v := spec.Any[MsgPing]("ping")
	var w MsgPing
	trip(v, &w)
	spec.Ensures("same ping nonce", v == w)
	p := spec.Any[MsgPong]("pong")
	var q MsgPong
	trip(p, &q)
	spec.Ensures("same pong nonce", p == q)
}

func VC_C05_sendcmpct_inv_vector() {
	v := spec.Any[MsgSendCmpct]("v")
	var w MsgSendCmpct
	trip(v, &w)
	spec.Ensures("same fields", v == w)
	i := spec.Any[InvVector]("inv")
	var j InvVector
	trip(i, &j)
	spec.Ensures("same inventory vector", i == j)
}

// lists of several lengths, among them one that needs the longer count form
func listLen() (n int, blank bool) {
	n = []int{0, 1, 2, 3, 253}[spec.Choose("list length", 5)]
	return n, n > 3
}

func VC_C05_getheaders() {
	spec.Bounded("block locators of 0 to 3 arbitrary hashes, and of 253 zero hashes")
	n, blank := listLen()
	v := MsgGetHeaders{Version: spec.Any[uint32]("version"), HashStop: spec.Any[[32]byte]("stop")}
	for i := 0; i < n; i++ {
		var h [32]byte
		if !blank {
			h = spec.Any[[32]byte]("hash")
		}
		v.BlockLocatorHashes = append(v.BlockLocatorHashes, h)
	}
	var w MsgGetHeaders
	trip(v, &w)
	spec.Ensures("version and stop hash", v.Version == w.Version && v.HashStop == w.HashStop)
	spec.Ensures("every hash", len(w.BlockLocatorHashes) == n)
	for i := 0; i < n; i++ {
		spec.Ensures("hashes in order", v.BlockLocatorHashes[i] == w.BlockLocatorHashes[i])
	}
}

func VC_C05_inventory() {
	spec.Bounded("inventories of 0 to 3 arbitrary vectors, and of 253 blank vectors")
	n, blank := listLen()
	var v MsgGetData
	v.Count, _ = NewVarint(n)
	for i := 0; i < n; i++ {
		var e InvVector
		if !blank {
			e = spec.Any[InvVector]("inv")
		}
		v.Inventory = append(v.Inventory, e)
	}
	var w MsgInv
	trip(v, &w)
	spec.Ensures("every vector", len(w.Inventory) == n)
	for i := 0; i < n; i++ {
		spec.Ensures("vectors in order", v.Inventory[i] == w.Inventory[i])
	}
}
