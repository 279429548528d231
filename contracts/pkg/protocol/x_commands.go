package protocol

// specCommands are the command names the protocol supports.
var specCommands = []string{
	"block", "getdata", "inv", "ping", "pong", "tx", "verack", "version", "addr", "notfound", "getblocks",
	"getheaders", "headers", "getaddr", "mempool", "checkorder", "submitorder", "reply", "reject", "filterload",
	"filteradd", "filterclear", "merkleblock", "alert", "sendheaders", "feefilter", "sendcmpct", "cmpctblock",
	"getblocktxn", "blocktxn", "getcfilters", "cfilter", "wtxidrelay", "sendaddrv2",
}

// specSupported tells whether a command name is supported.
func specSupported(cmd string) bool {
	for _, c := range specCommands {
		if c == cmd {
			return true
		}
	}
	return false
}

// specPad is the command name padded with zero bytes to twelve.
func specPad(cmd string) [12]byte {
	var p [12]byte
	copy(p[:], cmd)
	return p
}

// specPutU32 is the little-endian form.
func specU32(u uint32) []byte {
	return []byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}
}
