package dbpg

import (
	"bytes"
	"context"
	"database/sql"
	"errors"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"
	"github.com/vulpemventures/go-elements/block"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// What follows is all that is assumed of the database: the two tables of the
// migration with their keys, statements that fail as a whole, transactions that
// become visible when they are committed and are aborted by a statement the server
// refuses, not by one the driver refused to send.
// Any statement may fail for reasons of its own where a contract says so.

var errDatabase = errors.New("verif: database failure")
var errAborted = errors.New("verif: current transaction is aborted")

type database struct {
	headers, newHeaders []BlockHeader
	filters, newFilters []Filter
	open, aborted       bool
	flaky               bool
	failed              bool
}

var d *database

// fails lets an operation fail where failures are looked at.
func fails() error {
	if !d.flaky {
		return nil
	}
	switch spec.Choose("database outcome", 3) {
	case 1:
		d.failed = true
		return errDatabase
	case 2:
		d.failed = true
		return &pq.Error{Code: "53100"}
	}
	return nil
}

func has(s, part string) bool {
	for i := 0; i+len(part) <= len(s); i++ {
		j := 0
		for j < len(part) && lower(s[i+j]) == part[j] {
			j++
		}
		if j == len(part) {
			return true
		}
	}
	return false
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

//verif:model (*github.com/jmoiron/sqlx.DB).Beginx
func beginx(*sqlx.DB) (*sqlx.Tx, error) {
	if err := fails(); err != nil {
		return nil, err
	}
	d.open, d.aborted, d.newHeaders, d.newFilters = true, false, nil, nil
	return &sqlx.Tx{}, nil
}

//verif:model (*github.com/jmoiron/sqlx.DB).BeginTxx
func beginTxx(db *sqlx.DB, _ context.Context, _ *sql.TxOptions) (*sqlx.Tx, error) { return beginx(db) }

//verif:model (*database/sql.Tx).Commit
func commit(*sql.Tx) error {
	if !d.open {
		return sql.ErrTxDone
	}
	d.open = false
	if err := fails(); err != nil {
		return err
	}
	if d.aborted {
		return errAborted
	}
	d.headers = append(d.headers, d.newHeaders...)
	d.filters = append(d.filters, d.newFilters...)
	return nil
}

//verif:model (*database/sql.Tx).Rollback
func rollback(*sql.Tx) error {
	if !d.open {
		return sql.ErrTxDone
	}
	d.open = false
	return nil
}

// insert is an insertion within the transaction.
func insert(query string, arg interface{}) error {
	if d.aborted {
		return errAborted
	}
	if err := fails(); err != nil {
		// what the server refuses aborts the transaction; what the driver
		// refuses by itself never reached it
		d.aborted = err != errDatabase
		return err
	}
	key, unique := false, false
	switch v := arg.(type) {
	case BlockHeader:
		key, unique = headerClash(v)
		if !has(query, "insert into block_header") {
			panic("verif: statement outside the assumed ones")
		}
		if !key && !unique {
			d.newHeaders = append(d.newHeaders, v)
		}
	case *BlockHeader:
		return insert(query, *v)
	case Filter:
		if !has(query, "insert into filter") {
			panic("verif: statement outside the assumed ones")
		}
		for _, f := range append(append([]Filter{}, d.filters...), d.newFilters...) {
			key = key || f.Key == v.Key
		}
		if !key {
			d.newFilters = append(d.newFilters, v)
		}
	case *Filter:
		return insert(query, *v)
	default:
		panic("verif: statement outside the assumed ones")
	}
	if !key && !unique {
		return nil
	}
	if has(query, "do update") {
		panic("verif: statement outside the assumed ones")
	}
	switch {
	case has(query, "on conflict do nothing"):
		return nil
	case has(query, "on conflict (hash) do nothing"), has(query, "on conflict (filter_key) do nothing"):
		if key {
			return nil
		}
	case has(query, "on conflict (height) do nothing"):
		if !key {
			return nil
		}
	}
	d.aborted = true
	return &pq.Error{Code: "23505"}
}

// headerClash tells which unique columns a new row clashes with.
func headerClash(v BlockHeader) (key, unique bool) {
	for _, h := range append(append([]BlockHeader{}, d.headers...), d.newHeaders...) {
		key = key || h.Hash == v.Hash
		unique = unique || h.Height == v.Height
	}
	return key, unique
}

//verif:model (*github.com/jmoiron/sqlx.Tx).NamedExec
func namedExec(_ *sqlx.Tx, query string, arg interface{}) (sql.Result, error) {
	return nil, insert(query, arg)
}

//verif:model (*github.com/jmoiron/sqlx.Tx).NamedExecContext
func namedExecContext(_ *sqlx.Tx, _ context.Context, query string, arg interface{}) (sql.Result, error) {
	return nil, insert(query, arg)
}

//verif:model (*github.com/jmoiron/sqlx.DB).Get
func get(_ *sqlx.DB, dest interface{}, query string, args ...interface{}) error {
	if err := fails(); err != nil {
		return err
	}
	switch v := dest.(type) {
	case *BlockHeader:
		var found *BlockHeader
		for i := range d.headers {
			h := &d.headers[i]
			switch {
			case has(query, "where hash=$1"):
				if h.Hash == args[0].(string) {
					found = h
				}
			case has(query, "where height=$1"):
				if h.Height == args[0].(uint32) {
					found = h
				}
			case has(query, "max(height)"):
				if found == nil || h.Height > found.Height {
					found = h
				}
			default:
				panic("verif: statement outside the assumed ones")
			}
		}
		if found == nil {
			return sql.ErrNoRows
		}
		*v = *found
		return nil
	case *Filter:
		if !has(query, "where filter_key=$1") {
			panic("verif: statement outside the assumed ones")
		}
		for _, f := range d.filters {
			if f.Key == args[0].(string) {
				*v = f
				return nil
			}
		}
		return sql.ErrNoRows
	}
	panic("verif: statement outside the assumed ones")
}

//verif:model (*github.com/jmoiron/sqlx.DB).GetContext
func getContext(db *sqlx.DB, _ context.Context, dest interface{}, query string, args ...interface{}) error {
	return get(db, dest, query, args...)
}

//verif:model (*github.com/jmoiron/sqlx.DB).Select
func selectAll(_ *sqlx.DB, dest interface{}, query string, args ...interface{}) error {
	if err := fails(); err != nil {
		return err
	}
	v, ok := dest.(*[]*BlockHeader)
	if !ok || !has(query, "from block_header;") {
		panic("verif: statement outside the assumed ones")
	}
	for _, h := range d.headers {
		row := h
		*v = append(*v, &row)
	}
	return nil
}

//verif:model (*github.com/jmoiron/sqlx.DB).SelectContext
func selectContext(db *sqlx.DB, _ context.Context, dest interface{}, query string, args ...interface{}) error {
	return selectAll(db, dest, query, args...)
}

// Headers made by contracts are told apart by their time, which stands for the
// bytes that determine hash and serialisation.
//
//verif:model (*github.com/vulpemventures/go-elements/block.Header).Hash
func headerHash(h *block.Header) (chainhash.Hash, error) { return hashAt(byte(h.Timestamp)), nil }

//verif:model (*github.com/vulpemventures/go-elements/block.Header).Serialize
func headerSerialize(h *block.Header) ([]byte, error) {
	return []byte{byte(h.Timestamp), byte(h.Height), h.PrevBlockHash[0]}, nil
}

//verif:model github.com/vulpemventures/go-elements/block.DeserializeHeader
func deserializeHeader(buf *bytes.Buffer) (*block.Header, error) {
	b := buf.Next(3)
	if len(b) < 3 {
		return nil, errDatabase
	}
	h := headerAt(b[0], b[2], uint32(b[1]))
	return &h, nil
}

func hashAt(number byte) chainhash.Hash { return chainhash.Hash{number, 0xaa} }

func headerAt(number, prev byte, height uint32) block.Header {
	p := hashAt(prev)
	return block.Header{Timestamp: uint32(number), PrevBlockHash: p[:], Height: height}
}

func row(h block.Header) BlockHeader {
	b, _ := headerSerialize(&h)
	return BlockHeader{Hash: hashAt(byte(h.Timestamp)).String(), Height: h.Height, HeaderBytes: b}
}

func service() *DbService { return &DbService{Db: &sqlx.DB{}} }
