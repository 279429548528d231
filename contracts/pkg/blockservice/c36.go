package blockservice

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var errExplorer = errors.New("verif: the explorer failed")

// web is the explorer and everything between it and the caller.
var web struct {
	requests, decodes int
	method, url       string
	status            int
	content, decoded  []byte
	// what goes wrong
	unanswered, broken, undecodable bool
	block                           *block.Block
}

// The request is kept as it is; every URL is taken for a valid one.
//
//verif:model net/http.NewRequestWithContext
func newRequest(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	return &http.Request{Method: method, Host: url, Header: http.Header{}}, nil
}

// Do answers a request with any status and any content, or fails.
//
//verif:model (*net/http.Client).Do
func do(_ *http.Client, r *http.Request) (*http.Response, error) {
	web.requests++
	web.method, web.url = r.Method, r.Host
	if web.unanswered = spec.Choose("transport", 2) > 0; web.unanswered {
		return nil, errExplorer
	}
	web.status = spec.Any[int]("status")
	web.content = spec.AnyBytes("content", spec.AnyLen("length", 1<<20))
	web.broken = spec.Choose("body", 2) > 0
	res := &http.Response{StatusCode: web.status, Header: http.Header{}, ContentLength: -1}
	if web.broken {
		res.Body = &interrupted{}
	} else {
		res.Body = &body{spec.NewStream(web.content)}
	}
	return res, nil
}

type body struct{ s *spec.Stream }

func (b *body) Read(p []byte) (int, error) { return b.s.Read(p) }
func (b *body) Close() error               { return nil }
func (b *body) VerifStream() *spec.Stream  { return b.s }

// interrupted delivers the first bytes of the content and then fails.
type interrupted struct{ started bool }

func (b *interrupted) Read(p []byte) (int, error) {
	if b.started || len(p) == 0 || len(web.content) == 0 {
		return 0, errExplorer
	}
	b.started = true
	p[0] = web.content[0]
	return 1, nil
}

func (b *interrupted) Close() error { return nil }

// The decoder makes one block of the content, refuses it, or panics.
//
//verif:model github.com/vulpemventures/go-elements/block.NewFromBuffer
func newFromBuffer(b *bytes.Buffer) (*block.Block, error) {
	web.decodes++
	web.decoded = b.Bytes()
	switch spec.Choose("decoding", 3) {
	case 0:
		web.undecodable = true
		return nil, errExplorer
	case 1:
		web.undecodable = true
		panic("makeslice: len out of range")
	}
	web.block = &block.Block{}
	return web.block, nil
}

// VC_C36_fetch: any answer to the fetch of any block.
func VC_C36_fetch() {
	web.requests, web.decodes, web.status, web.content, web.decoded, web.block = 0, 0, 0, nil, nil, nil
	web.unanswered, web.broken, web.undecodable = false, false, false
	base, hash := spec.Any[string]("explorer"), chainhash.Hash(spec.Any[[32]byte]("block"))
	asked := hash
	b, err := NewEsploraBlockService(base).GetBlock(&asked)
	spec.Ensures("the explorer is asked once", web.requests == 1 && web.method == "GET")
	spec.Ensures("it is asked for the block that was requested", web.url == base+"/block/"+hash.String()+"/raw")
	spec.Ensures("the requested hash stays as it was", asked == hash)
	success := !web.unanswered && web.status == 200 && !web.broken && !web.undecodable
	if success {
		spec.Ensures("what is decoded is the content of the answer", web.decodes == 1 && spec.SameBytes(web.decoded, web.content))
		spec.Ensures("the block decoded from the answer is returned", err == nil && b != nil && b == web.block)
		return
	}
	spec.Ensures("no block comes from a failure", b == nil && err != nil)
	notFound := !web.unanswered && web.status == 404
	spec.Ensures("not found means that the explorer does not know the block", errors.Is(err, ErrorBlockNotFound) == notFound)
}
