#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is easier to review and edit here).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","Fixed-width fields encode to the wire form and decode back exactly",
 "Every fixed-width value (booleans, 8 to 64 bit integers, 4/12/32-byte arrays, and structures of them) encodes to its wire form: little-endian, except 16-bit ports which are big-endian, in declaration order with no padding. Decoding that form returns the same value and consumes exactly its bytes, however the underlying stream splits its reads. A stream that ends before the value is complete yields an error, never a partially filled value reported as success.",
 ["inputs","schedules"],"all values of each type, all stream contents and all ways the reader splits its reads",
 "The table tests use a handful of values and in-memory readers that deliver everything in one read; they never split a read or end one early.",
 ["pkg/binary/marshaler.go","pkg/binary/unmarshaler.go"],
 [("type switch encoding","pkg/binary/marshaler.go Marshal"),("type switch decoding over length-limited readers","pkg/binary/unmarshaler.go Decode, decodeArray, decodeUint*")])

p("C02","Variable-length integers are canonical and invertible",
 "A count or length converted to a variable-length integer is encoded with the shortest prefix form for its value (1, 3, 5 or 9 bytes, little-endian after the prefix byte). Decoding any complete encoding yields the number it denotes and consumes exactly its bytes, and a truncated encoding yields an error. Converting a decoded value to a machine integer is exact, or saturates at the maximum for values above it.",
 ["inputs"],"all 64-bit values, all byte streams",
 "Tests try a few boundary constants; the prefix boundaries, the 16-bit byte order and truncation need every value.",
 ["pkg/protocol/varint.go","pkg/binary/marshaler.go","pkg/binary/unmarshaler.go"],
 [("size classes","pkg/protocol/varint.go newFromInt"),("prefix and little-endian payload","pkg/protocol/varint.go MarshalBinary/UnmarshalBinary")])

p("C03","Every outgoing message carries a correct envelope",
 "Every message built for the network is a 24-byte header followed by the payload: the network's four magic bytes, the command name padded with zero bytes to twelve, the payload length as a 32-bit little-endian number and the first four bytes of the double SHA-256 of the payload. A command name that is not a supported command is refused. This holds for every payload, command and network.",
 ["inputs"],"all payload contents and lengths, all command names, all networks",
 "The existing tests compare two recorded messages on one network.",
 ["pkg/protocol/msg.go","pkg/protocol/cmd.go"],
 [("message construction","pkg/protocol/msg.go NewMessage, checksum"),("command table","pkg/protocol/cmd.go commands, newCommand")])

p("C04","A message header is accepted exactly when it is well formed",
 "A received message header is accepted if and only if its magic is one of the supported networks and its twelve command bytes are a supported command name followed only by zero bytes. The command name reported for an accepted header is that name.",
 ["inputs"],"all 24-byte headers",
 "The tests check a few valid names and one bad magic; 2^128 magic/command byte patterns are not sampled, in particular zero bytes before or inside the name.",
 ["pkg/protocol/msg.go","pkg/protocol/cmd.go","pkg/protocol/network.go"],
 [("magic and command checks","pkg/protocol/msg.go Validate, HasValidMagic, HasValidCommand, CommandString")])

p("C05","Message payloads survive an encode/decode round trip",
 "The payloads the node both sends and receives (version with its network addresses and user agent, header requests, compact-filter requests, inventory lists, pings and pongs) decode to the same field values that were encoded, with every list complete and in order. Decoding consumes exactly the encoded payload. List counts use the protocol's variable-length form, so lists of any legal length survive.",
 ["inputs"],"all field values and all list lengths up to the protocol maximum",
 "No test decodes what it encoded; lists in tests have zero or one entry, below every size-class boundary.",
 ["pkg/protocol/msg_version.go","pkg/protocol/msg_getheaders.go","pkg/protocol/blocklocator.go","pkg/protocol/msg_getcfilters.go","pkg/protocol/msg_inv.go","pkg/protocol/msg_getdata.go","pkg/protocol/msg_pingpong.go","pkg/protocol/netaddr.go","pkg/protocol/msg.go"],
 [("struct field order codec","pkg/binary/marshaler.go marshalStruct; pkg/binary/unmarshaler.go decodeStruct"),("custom codecs","pkg/protocol/blocklocator.go, msg_inv.go, msg_getdata.go, netaddr.go, msg.go VarStr")])

p("C06","Compact-filter messages carry type, block hash and filter intact",
 "A compact-filter message encodes the filter type, the 32-byte block hash, the filter length as a variable-length integer and the filter bytes, for filters of any size. Decoding such a payload yields the same block hash and a filter built from exactly those bytes. A payload with another filter type, or one that ends early, is rejected with an error.",
 ["inputs"],"all block hashes and filter byte strings of any length, all truncations",
 "No test builds or parses a compact-filter message; filters of 253 bytes or more need the multi-byte length form.",
 ["pkg/protocol/msg_cfilter.go","pkg/protocol/varint.go"],
 [("filter codec","pkg/protocol/msg_cfilter.go MarshalBinary/UnmarshalBinary/NewMsgCFilter")])

p("C07","No payload from a peer can crash or exhaust the node",
 "Decoding a payload of any supported message type, with any contents, ends with a value or an error: it never panics. A count or length field inside a payload never makes the node reserve memory beyond a constant plus a constant factor of the bytes actually received.",
 ["inputs"],"all byte strings as payloads of every message type",
 "Tests decode well-formed payloads only; a hostile count is a single value among 2^64.",
 ["pkg/protocol/msg_headers.go","pkg/protocol/blocklocator.go","pkg/protocol/msg_cfilter.go","pkg/protocol/msg_inv.go","pkg/protocol/msg.go","pkg/protocol/netaddr.go","pkg/binary/unmarshaler.go"],
 [("count-driven decoding loops","pkg/protocol/msg_headers.go, blocklocator.go, msg_inv.go"),("length-driven reads","pkg/binary/unmarshaler.go DecodeBytes; pkg/protocol/msg_cfilter.go")])

p("C08","Incoming messages are framed exactly, however the bytes arrive",
 "The node takes messages off a connection one after another: each takes exactly its 24-byte header and the announced payload, however the network splits or joins the bytes, and whether its handling succeeds, fails, is skipped or panics. Messages with an unacceptable header, an oversized length or a wrong payload checksum are never handed to a message handler. The payload a handler sees is exactly the announced bytes.",
 ["schedules","inputs","histories"],"all byte streams, all chunkings of the stream, all handler outcomes",
 "The end-to-end test reads whatever a local peer sends; fragmentation, rejected headers followed by payloads and partial handler reads need particular timings and inputs.",
 ["pkg/node/node.go","pkg/node/cmd_skip.go","pkg/binary/unmarshaler.go"],
 [("receive loop","pkg/node/node.go handlePeerMessages"),("payload skipping","pkg/node/cmd_skip.go")],
 obs=["which handler ran with which payload","position of the connection stream"])

p("C09","Compact-filter requests and their bounds follow BIP157",
 "A compact-filter request built for a range names the start height and the stop block's hash, and is refused when the stop is below the start or the range exceeds one thousand blocks. When serving a request the node answers one filter message for every block from the start height to the stop block inclusive that it has a filter for, each carrying that block's own hash and filter, and nothing outside the range. Requests with an unknown stop block, an unsupported filter type or an illegal range get no filters and an error.",
 ["inputs","histories"],"all start/stop heights and hashes, all contents of the header and filter stores",
 "No test serves a filter request; off-by-one at either end of the range needs a chosen range and store.",
 ["pkg/protocol/msg_getcfilters.go","pkg/node/cmd_getcfilters.go"],
 [("request construction","pkg/protocol/msg_getcfilters.go NewGetCFilters"),("range walk","pkg/node/cmd_getcfilters.go handleGetCFilters")])

p("C10","Peer addresses parse exactly",
 "A peer address is accepted exactly when it is a non-empty host and a decimal port from 0 to 65535 separated by a single colon. The parsed port is that number, and the parsed IP is the host's IPv4 address when the host is one, otherwise all zero.",
 ["inputs"],"all address strings",
 "Table tests list about ten strings.",
 ["pkg/protocol/addr.go"],
 [("parsing","pkg/protocol/addr.go ParseNodeAddr")])

p("C11","Every ping is answered with a pong carrying its nonce",
 "For every well-formed ping the node sends on that connection exactly one pong message, on the node's network, whose nonce is the ping's nonce. A ping payload that is too short is answered with nothing and reported as an error. A received pong delivers exactly its nonce to the peer monitor.",
 ["inputs"],"all nonces, networks and payloads",
 "No test exercises ping handling.",
 ["pkg/node/cmd_ping.go","pkg/node/cmd_pong.go","pkg/protocol/msg_pingpong.go"],
 [("ping handler","pkg/node/cmd_ping.go"),("pong handler","pkg/node/cmd_pong.go")])

p("C12","Only headers that extend the local chain in sequence are stored",
 "From a batch of headers the node forwards for storage exactly the headers above its tip, in order, each once, and only when the batch is consecutive by height and starts no more than one above the tip. A batch that leaves a gap after the tip stores nothing and asks the peer again; a batch that is not consecutive, empty, or entirely at or below the tip stores nothing. After forwarding new headers the node asks the peer for more.",
 ["inputs","histories"],"all batches of headers and all local tips, including an empty store",
 "The unit test covers the sequence predicate on three lists; the interaction with the tip, and heights near the 32-bit limits, is not tested.",
 ["pkg/node/cmd_headers.go"],
 [("sequence check","pkg/node/cmd_headers.go checkHeadersInSequence"),("tip filtering","pkg/node/cmd_headers.go handleHeaders")],
 obs=["headers sent to the storage channel","getheaders messages sent"])

p("C13","A new block extends the chain only at the tip",
 "When a peer delivers a block, its header is forwarded for storage, and its transactions are checked against the memory pool, exactly when its height is one above the local tip. Otherwise nothing is stored, and if the block is higher than what the peer had announced the peer's announced height is raised to it and a header sync with that peer is started.",
 ["inputs","histories"],"all block heights, local tips and announced heights",
 "No test delivers a block message.",
 ["pkg/node/cmd_block.go"],
 [("block handler","pkg/node/cmd_block.go handleBlock")])

p("C14","Only peers that serve compact filters are admitted, once",
 "A peer whose version message does not advertise compact-filter service is never admitted and gets no acknowledgement. An eligible peer gets exactly a version acknowledgement and then a header-announcement request, is registered once under its identity with its announced height (a negative height counting as zero), and the first registered peer starts the header sync. A peer already registered is refused and the existing registration is kept.",
 ["inputs","histories"],"all version messages, all sets of registered peers",
 "The handshake is only covered by a test against a live node with one kind of peer.",
 ["pkg/node/cmd_version.go","pkg/node/handle_ping.go"],
 [("version handler","pkg/node/cmd_version.go handleVersion"),("peer registration","pkg/node/handle_ping.go addPeer")])

p("C15","Header sync asks from the best known block",
 "A header sync request sent to a peer carries the protocol version, the local block locator in order, and a zero stop hash. When no header is stored the locator is exactly the genesis block of the configured network. Any other storage error sends nothing.",
 ["inputs","histories","configurations"],"all locators, networks and storage outcomes",
 "Only reached by the live end-to-end test on one network with an empty store.",
 ["pkg/node/chainsync.go","pkg/protocol/msg_getheaders.go","pkg/protocol/checkpoints.go"],
 [("sync request","pkg/node/chainsync.go syncWithPeer"),("locator message","pkg/protocol/msg_getheaders.go NewMsgGetHeaders")])

p("C16","The node reports synced only when it really is",
 "The node considers itself synced with a peer exactly when it has a chain tip, the tip's height is at least the height the peer announced, and every ancestor of the tip is stored. Start-up is released at most once, and only after that condition was observed.",
 ["histories","inputs"],"all stores, tips and announced heights",
 "Synced state is only observed by a test against a live node.",
 ["pkg/node/chainsync.go"],
 [("sync predicate","pkg/node/chainsync.go synced, checkSyncedInitial, notifySynced")])

p("C17","Each stored header is followed by a request for its filter",
 "Every header the node forwards is written to the header store, and once written, while a peer is connected, exactly one compact-filter request for that block (its height and its hash) is sent on the node's network. A header that could not be written triggers no request. Every received filter is stored once under its own filter type and block hash with its own bytes.",
 ["histories","inputs","fault_sequences"],"all sequences of headers and filters, all storage failures",
 "No test drives the storage loops.",
 ["pkg/node/node.go"],
 [("header loop","pkg/node/node.go monitorBlockHeaders"),("filter loop","pkg/node/node.go monitorCFilters")])

p("C18","The memory pool holds exactly the unconfirmed transactions",
 "A transaction received from a peer is in the pool, under its identifier, from its arrival until a block containing it is processed; adding one already present changes nothing, and confirming a block removes exactly the pool transactions that block contains. Every subscriber is notified of each arrival as unconfirmed and of each removal as confirmed, with the transaction's identifier.",
 ["inputs","histories"],"all pool contents, transactions, blocks and subscriber lists",
 "Tests add and confirm a few transactions with one or two subscribers.",
 ["pkg/node/mempool.go","pkg/node/cmd_tx.go"],
 [("pool map","pkg/node/mempool.go addTx, removeTxFromMemPool, checkTxConfirmed"),("event fan-out","pkg/node/mempool.go notifySubscribers")])

p("C19","A submitted transaction is broadcast unchanged to every peer",
 "Submitting a decodable transaction sends one transaction message with its exact serialisation, on the node's network, to every connected peer, or returns the error of the first failed write. A transaction that does not decode is sent to nobody and returns an error.",
 ["inputs","histories"],"all transactions and peer sets",
 "Only exercised against a live node.",
 ["pkg/node/node.go","pkg/protocol/msg_tx.go"],
 [("broadcast","pkg/node/node.go SendTransaction")])

p("C20","Stopping a started node stops its background work",
 "Every background task launched when the node starts watches the very stop signal that stopping the node raises. A background task that observes the stop signal returns without further effect.",
 ["schedules","histories"],"all start/stop histories",
 "Tests never check that goroutines end.",
 ["pkg/node/node.go","pkg/node/handle_ping.go"],
 [("quit channel","pkg/node/node.go Start, Stop, monitorBlockHeaders, monitorCFilters; pkg/node/handle_ping.go")])

p("C21","The in-memory header store answers from exactly what was written",
 "After any sequence of writes, looking a header up by hash returns the header written under that hash, looking up a hash by height returns the hash of a stored header of that height, and the chain tip is a stored header of maximal height. Absent hashes and heights yield not-found errors and an empty store yields a no-headers error. Ancestor completeness of a header is reported true exactly when following previous-block links from it reaches a stored header of height at most one; an unknown hash is an error, not a crash.",
 ["histories","inputs"],"all write sequences and batch sizes, all queries",
 "The store has no unit tests; other tests write headers one at a time.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go"],
 [("hash-keyed map","internal/infrastructure/storage/db/inmemory/header_inmemory.go")],
 state=[("headers","stored headers by hash","internal/infrastructure/storage/db/inmemory/header_inmemory.go headerInmemory")])

p("C22","Block locators start at the tip and step back to genesis",
 "The locator built from a store is never longer than the protocol maximum, starts with the tip's hash, and lists hashes of stored headers with strictly decreasing heights after the first entry. Building it always terminates, whatever the tip height, and a missing header yields an error rather than a crash.",
 ["inputs","histories"],"all tip heights up to the 32-bit maximum and all stores",
 "No test builds a locator from a chain taller than a few blocks.",
 ["internal/infrastructure/storage/db/inmemory/header_inmemory.go"],
 [("exponential back-off","internal/infrastructure/storage/db/inmemory/header_inmemory.go blockLocatorFromHash")])

p("C23","A stored filter is returned for its key and for no other",
 "After storing a filter, looking up its block hash and type returns exactly its bytes under that key until the same key is stored again, and storing one key never changes what any other key returns. A key never stored yields a not-found error. Looking a key up does not alter the caller's data.",
 ["histories","inputs"],"all sequences of puts and gets over all keys",
 "The mock-based tests use one key.",
 ["pkg/repository/filter_repository.go","internal/infrastructure/storage/db/inmemory/filter_inmemory.go"],
 [("key digest","pkg/repository/filter_repository.go FilterKey.String"),("filter map","internal/infrastructure/storage/db/inmemory/filter_inmemory.go")])

p("C24","Database failures surface as errors and lose nothing silently",
 "When the database reports any error while storing or reading headers or filters, the call returns an error instead of crashing or reporting success. A successful write of a batch of headers means every header of the batch is stored, including when some were stored before. Storing an already stored filter succeeds only if the stored bytes are identical.",
 ["fault_sequences","inputs"],"all database error values at every statement, all batches",
 "The database tests need a running server and never inject a failure.",
 ["internal/infrastructure/storage/db/pg/header_repository_impl.go","internal/infrastructure/storage/db/pg/filter_repository_impl.go"],
 [("error classification","internal/infrastructure/storage/db/pg/*_repository_impl.go")])

p("C25","The scan queue never loses, invents or reorders requests",
 "Taking the requests due at a height returns exactly the queued requests with that start height, in arrival order, and leaves exactly the others, in order. Adding a request appends it and wakes a waiting consumer; looking at the next request does not remove it.",
 ["histories","inputs"],"all queue contents and heights",
 "Tests enqueue one or two requests.",
 ["pkg/scanner/requestqueue.go"],
 [("queue partition","pkg/scanner/requestqueue.go dequeueAtHeight, enqueue, peek, isEmpty")])

p("C26","Watch items match exactly the transactions they describe",
 "An unspent-output watch matches a transaction exactly when one of its outputs pays to the watched script, and a spent-output watch exactly when one of its inputs spends the watched outpoint (both transaction hash and index). The bytes looked up in block filters are the watched script, and each watch reports its own event type. Inputs with malformed hashes never match and never crash.",
 ["inputs"],"all transactions with any number of inputs and outputs, all watched items",
 "Tests use two recorded transactions.",
 ["pkg/scanner/watchitem.go"],
 [("matching","pkg/scanner/watchitem.go Match")])

p("C27","A scanned block reports every match and keeps every unmatched request",
 "For a block that may contain watched items, there is exactly one report for every request and transaction of the block that match, naming that request, transaction, block hash and block height, in request order; the requests with no match, and only those, remain pending in order. If the block cannot be found no request is resolved and none is lost. Filters are consulted under the block's own hash, and a missing filter counts as no match.",
 ["inputs"],"all blocks, request lists and block-service outcomes",
 "Tests scan a few blocks with one request.",
 ["pkg/scanner/scanner.go"],
 [("match extraction","pkg/scanner/scanner.go extractBlockMatches"),("filter test","pkg/scanner/scanner.go blockFilterMatches")])

p("C28","A scan never drops a watch request",
 "Every request taken from the queue by a scan ends up reported, back in the queue, or both for a persistent watch, on every path, including failures of the header store, filter store or block service. A matched persistent watch is queued again exactly once, for the height after its match; every height from the start to the tip is examined once, in order, with all pending requests due by then.",
 ["histories","fault_sequences","inputs"],"all queues, chains, match patterns and failures at every step",
 "Tests use mocks that never fail and requests that match once.",
 ["pkg/scanner/scanner.go","pkg/scanner/requestqueue.go"],
 [("scan loop","pkg/scanner/scanner.go requestWorker, requestsManager")])

p("C29","Registering a wallet descriptor watches every one of its scripts",
 "Registering a descriptor for unspent outputs queues exactly one persistent watch per script it derives (all scripts of the derivation range for a ranged descriptor), each with the subscriber's identity and start height. A descriptor that does not parse or derive returns an error and queues nothing.",
 ["inputs"],"all descriptors, identities, heights and event lists",
 "Tests use one ranged and one plain descriptor.",
 ["pkg/scanner/scanner.go","pkg/scanner/request.go"],
 [("descriptor import","pkg/scanner/scanner.go WatchDescriptorWallet"),("request options","pkg/scanner/request.go")])

p("C30","Every scan report reaches the subscriber it belongs to",
 "Each report of the scanner is passed on once, in order, to the subscriber identified by its request, with the event type of the watched item and the report's block height, block hash and transaction. A subscription that cannot be watched yields an error report to that subscriber only and does not stop the service from handling later subscriptions. A subscription without identity, events, descriptor or a start height of at least one (when given) is refused.",
 ["histories","inputs"],"all sequences of reports, subscriptions and failures",
 "The service has no tests with a failing subscription or more than one subscriber.",
 ["internal/core/application/notification_service.go","internal/core/application/types.go"],
 [("event loop","internal/core/application/notification_service.go handleOnChainEvents"),("subscription loop","internal/core/application/notification_service.go handleSubscribers")])

p("C31","Notifications keep flowing when a subscriber has gone",
 "A notification or error for a subscriber that has disconnected is dropped, and delivery to every other subscriber continues. Each notification goes only to its own subscriber, with the event type and transaction identifier of the event.",
 ["histories","schedules"],"all sequences of events and disconnections",
 "No test lets a subscriber leave while events are pending.",
 ["internal/interface/web-socket/handler/notification_handler.go"],
 [("notification loop","internal/interface/web-socket/handler/notification_handler.go handleOnChainNotifications")])

p("C32","Each subscription request gets exactly one truthful response",
 "Every well-formed subscription request gets exactly one response: success when the registration or un-registration was accepted, an error otherwise, never both. A request body that cannot be decoded gets a bad-request error and registers nobody.",
 ["inputs"],"all request contents and service outcomes",
 "Tests only send valid registrations.",
 ["internal/interface/web-socket/handler/http_handler.go"],
 [("HTTP handler","internal/interface/web-socket/handler/http_handler.go HandleSubscriptionRequestHttp")])

p("C33","Event names map one-to-one between the API and the scanner",
 "Converting an event type to its public name and back gives the same event type, distinct event types have distinct names, and any other value is refused in both directions.",
 ["inputs"],"all event values and names",
 "No test covers the conversions.",
 ["pkg/neutrinod-types/types_ws.go"],
 [("conversions","pkg/neutrinod-types/types_ws.go")])

p("C34","A panicking request handler answers 500 and middlewares run in order",
 "Wrapping a handler runs the given middlewares outermost first, each once, around the handler. A panic in the wrapped handler is contained: the client gets an internal-server-error status and the server keeps serving; without a panic the response is untouched.",
 ["inputs","configurations"],"all middleware lists and handler behaviours",
 "No test covers the middlewares.",
 ["internal/interface/web-socket/middleware/middleware_service.go","internal/interface/web-socket/middleware/panic.go"],
 [("composition","internal/interface/web-socket/middleware/middleware_service.go"),("recovery","internal/interface/web-socket/middleware/panic.go")])

p("C35","Shared tables are only touched under their locks",
 "The memory pool's transaction and subscriber tables, the in-memory header and filter stores, the scan queue, the peer's announced height and the subscriber table are read only while holding at least the read lock that guards them and changed only while holding the write lock. Every lock taken by an operation on them is released when the operation ends, on every path.",
 ["schedules","histories"],"all operations, paths and interleavings",
 "A data race needs a particular interleaving; the tests are not run concurrently or under a race detector.",
 ["pkg/node/mempool.go","internal/infrastructure/storage/db/inmemory/header_inmemory.go","internal/infrastructure/storage/db/inmemory/filter_inmemory.go","pkg/scanner/requestqueue.go","pkg/peer/peer.go","internal/interface/web-socket/handler/notification_handler.go"],
 [("mutexes","each file listed")])

p("C36","The block service never mistakes a failure for a block",
 "A block fetch asks the explorer for exactly the requested block hash and returns a block only when the explorer answered success with a decodable block. A not-found answer yields the not-found error, and every other status, transport failure or undecodable body yields some other error.",
 ["inputs","fault_sequences"],"all hashes, response statuses and bodies",
 "Tests talk to a live explorer with one known block.",
 ["pkg/blockservice/service.go"],
 [("HTTP fetch","pkg/blockservice/service.go GetBlock")])

p("C37","Setting a configuration key preserves all other keys",
 "Setting a key of the command-line configuration stores that value and leaves every other stored key as it was; reading the configuration returns what was stored.",
 ["histories","inputs"],"all stored configurations, keys and values",
 "The command-line tool has no tests.",
 ["cmd/neutrino/main.go","cmd/neutrino/config.go"],
 [("merge and store","cmd/neutrino/main.go setState, getState, merge")])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
