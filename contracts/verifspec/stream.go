package verifspec

import (
	"bytes"
	"errors"
	"io"
)

// ErrBroken is what a broken stream or connection returns.
var ErrBroken = errors.New("verif: broken")

// Stream delivers Data in arbitrary pieces, then io.EOF.
type Stream struct {
	Data []byte
	Pos  int
}

// NewStream is a stream over data.
func NewStream(data []byte) *Stream { return &Stream{Data: data} }

// Left is the number of bytes not yet taken.
func (s *Stream) Left() int { return len(s.Data) - s.Pos }

// Read delivers between one byte and everything that is asked for.
func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	max := len(s.Data) - s.Pos
	if max == 0 {
		return 0, io.EOF
	}
	if len(p) < max {
		max = len(p)
	}
	n := Piece(max)
	copy(p, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.Pos == len(s.Data) && Flip() {
		return n, io.EOF
	}
	return n, nil
}

// take is what repeated reads obtain when they go on until want bytes, or the end.
func (s *Stream) take(p []byte, limit int) int {
	n := len(s.Data) - s.Pos
	if limit < n {
		n = limit
	}
	if len(p) < n {
		n = len(p)
	}
	copy(p, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	return n
}

const noLimit = 1 << 62

// underStream finds the stream below limit readers.
func underStream(r io.Reader) (*Stream, []*io.LimitedReader) {
	var ls []*io.LimitedReader
	for {
		switch v := r.(type) {
		case *Stream:
			return v, ls
		case *io.LimitedReader:
			ls = append(ls, v)
			r = v.R
			continue
		case streamer:
			return v.VerifStream(), ls
		}
		return nil, nil
	}
}

// limit is the smallest number of bytes the limit readers allow.
func limit(ls []*io.LimitedReader) int {
	lim := noLimit
	for _, l := range ls {
		if l.N <= 0 {
			lim = 0
		} else if l.N < int64(lim) {
			lim = int(l.N)
		}
	}
	return lim
}

// consume takes n bytes off the limit readers.
func consume(ls []*io.LimitedReader, n int) {
	for _, l := range ls {
		l.N -= int64(n)
	}
}

type streamer interface{ VerifStream() *Stream }

// readAtLeast is the contract of io.ReadAtLeast over a stream, whatever the pieces.
//
//verif:semantics io.ReadAtLeast
func readAtLeast(r io.Reader, buf []byte, min int) (int, error) {
	s, l := underStream(r)
	if s == nil {
		return io.ReadAtLeast(r, buf, min)
	}
	if len(buf) < min {
		return 0, io.ErrShortBuffer
	}
	if len(buf) > min {
		// anything between min and len(buf) may be delivered
		buf = buf[:min+Upto(len(buf)-min)]
	}
	n := s.take(buf, limit(l))
	consume(l, n)
	if n >= min {
		return n, nil
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, io.ErrUnexpectedEOF
}

// readAll is the contract of io.ReadAll over a stream.
//
//verif:semantics io.ReadAll
func readAll(r io.Reader) ([]byte, error) {
	s, l := underStream(r)
	if s == nil {
		if m, l := underReader(r); m != nil {
			return takeRest(m, l), nil
		}
		return io.ReadAll(r)
	}
	return takeAll(s, l), nil
}

// underReader finds the bytes.Reader below limit readers.
func underReader(r io.Reader) (*bytes.Reader, []*io.LimitedReader) {
	var ls []*io.LimitedReader
	for {
		switch v := r.(type) {
		case *bytes.Reader:
			return v, ls
		case *io.LimitedReader:
			ls = append(ls, v)
			r = v.R
			continue
		}
		return nil, nil
	}
}

// takeRest takes what a bytes.Reader still holds, as far as the limit readers allow.
func takeRest(m *bytes.Reader, ls []*io.LimitedReader) []byte {
	n := m.Len()
	if l := limit(ls); l < n {
		n = l
	}
	consume(ls, n)
	b := make([]byte, n)
	m.Read(b)
	return b
}

func takeAll(s *Stream, ls []*io.LimitedReader) []byte {
	n := s.Left()
	if l := limit(ls); l < n {
		n = l
	}
	consume(ls, n)
	b := make([]byte, n)
	copy(b, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	return b
}

// bufReadFrom is the contract of (*bytes.Buffer).ReadFrom over a stream.
//
//verif:semantics (*bytes.Buffer).ReadFrom
func bufReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	s, l := underStream(r)
	if s == nil {
		if m, l := underReader(r); m != nil {
			p := takeRest(m, l)
			b.Write(p)
			return int64(len(p)), nil
		}
		return b.ReadFrom(r)
	}
	p := takeAll(s, l)
	b.Write(p)
	return int64(len(p)), nil
}
