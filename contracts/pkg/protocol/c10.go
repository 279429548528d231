package protocol

import (
	"net"
	"strconv"
	"strings"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// hints are places where a colon is likely: trying them first splits the paths
// without assuming anything.
var hints []int

// The search primitives below strings are assembly; these are their contracts.

//verif:semantics internal/bytealg.IndexByteString
func indexByteString(s string, c byte) int {
	if spec.Choose("occurs", 2) == 0 {
		spec.Assume(spec.Forall(0, len(s), func(i int) bool { return s[i] != c }))
		for _, h := range hints {
			spec.Assume(h >= len(s) || s[h] != c)
		}
		spec.Prune()
		return -1
	}
	k := spec.AnyLen("first", 1<<30)
	spec.Assume(k < len(s) && s[k] == c)
	spec.Assume(spec.Forall(0, k, func(i int) bool { return s[i] != c }))
	for _, h := range hints {
		spec.Assume(h >= k || s[h] != c)
	}
	for _, h := range hints {
		if k == h {
			return h
		}
	}
	spec.Prune()
	return k
}

//verif:semantics internal/bytealg.LastIndexByteString
func lastIndexByteString(s string, c byte) int {
	if spec.Choose("occurs", 2) == 0 {
		spec.Assume(spec.Forall(0, len(s), func(i int) bool { return s[i] != c }))
		for _, h := range hints {
			spec.Assume(h >= len(s) || s[h] != c)
		}
		spec.Prune()
		return -1
	}
	k := spec.AnyLen("last", 1<<30)
	spec.Assume(k < len(s) && s[k] == c)
	spec.Assume(spec.Forall(k+1, len(s), func(i int) bool { return s[i] != c }))
	for _, h := range hints {
		spec.Assume(h <= k || h >= len(s) || s[h] != c)
	}
	for _, h := range hints {
		if k == h {
			return h
		}
	}
	spec.Prune()
	return k
}

// split is strings.Split for separators of one byte; what follows the third
// separator is left open.
//
//verif:semantics strings.Split
func split(s, sep string) []string {
	if len(sep) != 1 {
		return strings.Split(s, sep)
	}
	var out []string
	for len(out) < 3 {
		i := indexByteString(s, sep[0])
		if i < 0 {
			return append(out, s)
		}
		out = append(out, s[:i])
		s = s[i+1:]
	}
	n := spec.AnyLen("more parts", 1<<30)
	spec.Assume(n <= len(s))
	return append(out, make([]string, n+1)...)
}

//verif:semantics internal/bytealg.CountString
func countString(s string, c byte) int {
	n := 0
	for n < 3 {
		i := indexByteString(s, c)
		if i < 0 {
			return n
		}
		s = s[i+1:]
		n++
	}
	k := spec.AnyLen("more", 1<<30)
	spec.Assume(k <= len(s))
	return n + k
}

type parsed struct {
	host string
	ip   net.IP
}

var parses []parsed

// parseIP is a function of its argument that gives nil or sixteen bytes.
//
//verif:semantics net.ParseIP
func parseIP(s string) net.IP {
	for _, p := range parses {
		if p.host == s {
			return p.ip
		}
	}
	var ip net.IP
	switch spec.Choose("kind of host", 3) {
	case 1:
		b := spec.Any[[4]byte]("ipv4")
		ip = net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, b[0], b[1], b[2], b[3]}
	case 2:
		ip = net.IP{0x20, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}
	}
	parses = append(parses, parsed{s, ip})
	return ip
}

// anyText is any text without a colon.
func anyText(name string, n int) string {
	if spec.Native() {
		text := spec.Any[string](name)
		if spec.Choose("native host", 2) > 0 {
			b := spec.Any[[4]byte](name + " ip")
			text = ""
			for i, x := range b {
				if i > 0 {
					text += "."
				}
				text += strconv.Itoa(int(x))
			}
		}
		for strings.Contains(text, ":") {
			text = strings.ReplaceAll(text, ":", "")
		}
		return text
	}
	t := string(spec.AnyBytes(name, spec.AnyLen(name+" length", n)))
	spec.Requires(spec.Forall(0, len(t), func(i int) bool { return t[i] != ':' }))
	return t
}

func VC_C10_without_colon() {
	a, err := ParseNodeAddr(anyText("address", 1<<20))
	spec.Ensures("an address without a colon is refused", err != nil && a == nil)
}

func VC_C10_two_colons() {
	host, middle := anyText("host", 1<<20), anyText("middle", 1<<20)
	hints = []int{len(host), len(middle), len(host) + 1 + len(middle)}
	s := host + ":" + middle + ":"
	if spec.Native() {
		s += spec.Any[string]("rest")
	} else {
		s += string(spec.AnyBytes("rest", spec.AnyLen("rest length", 1<<20)))
	}
	a, err := ParseNodeAddr(s)
	spec.Ensures("an address with several colons is refused", err != nil && a == nil)
}

func VC_C10_host_and_port() {
	spec.Bounded("ports of at most six characters")
	host := anyText("host", 1<<20)
	n := 1 + spec.Choose("digits", 6)
	port := make([]byte, n)
	value := 0
	for i := range port {
		port[i] = spec.Any[byte]("digit")
		if spec.Native() {
			port[i] = '0' + port[i]%10
		}
		spec.Requires(port[i] >= '0')
		spec.Requires(port[i] <= '9')
		value = value*10 + int(port[i]-'0')
	}
	hints = []int{len(host)}
	a, err := ParseNodeAddr(host + ":" + string(port))
	if err != nil {
		spec.Ensures("well formed addresses are accepted", a == nil && (value > 65535 || len(host) == 0))
		return
	}
	spec.Ensures("ports above 65535 and empty hosts are refused", value <= 65535 && len(host) > 0)
	spec.Ensures("the port is that number", int(a.Port) == value)
	var want [4]byte
	if ip := net.ParseIP(host); ip != nil {
		if four := ip.To4(); four != nil {
			copy(want[:], four)
		}
	}
	spec.Ensures("the address is the host's IPv4 address or zero", a.IP == want)
}

func VC_C10_not_a_number() {
	spec.Bounded("ports whose first character that is not a digit is among the first seven")
	host := anyText("host", 1<<20)
	port := make([]byte, spec.Choose("digits before", 7))
	for i := range port {
		port[i] = spec.Any[byte]("digit")
		if spec.Native() {
			port[i] = '0' + port[i]%10
		}
		spec.Requires(port[i] >= '0')
		spec.Requires(port[i] <= '9')
	}
	rest := ""
	if len(port) > 0 || spec.Choose("empty", 2) == 0 {
		c := spec.Any[byte]("not a digit")
		spec.Requires(c < '0' || c > ':')
		rest = string([]byte{c}) + anyText("rest", 1<<20)
	}
	hints = []int{len(host)}
	a, err := ParseNodeAddr(host + ":" + string(port) + rest)
	spec.Ensures("a port that is not a decimal number is refused", err != nil && a == nil)
}
