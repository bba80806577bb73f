// Package iterator is a model of goleveldb's iterator interface.
package iterator

import "github.com/syndtr/goleveldb/leveldb/util"

// CommonIterator is the common part.
type CommonIterator interface {
	Release()
	SetReleaser(releaser util.Releaser)
	Valid() bool
	Error() error
}

// Iterator iterates over a DB's key/value pairs in key order.
type Iterator interface {
	CommonIterator
	First() bool
	Last() bool
	Seek(key []byte) bool
	Next() bool
	Prev() bool
	Key() []byte
	Value() []byte
}

type empty struct{ err error }

// NewEmptyIterator creates an iterator that has nothing but an error.
func NewEmptyIterator(err error) Iterator { return &empty{err} }

func (e *empty) Release()                  {}
func (e *empty) SetReleaser(util.Releaser) {}
func (e *empty) Valid() bool               { return false }
func (e *empty) Error() error              { return e.err }
func (e *empty) First() bool               { return false }
func (e *empty) Last() bool                { return false }
func (e *empty) Seek([]byte) bool          { return false }
func (e *empty) Next() bool                { return false }
func (e *empty) Prev() bool                { return false }
func (e *empty) Key() []byte               { return nil }
func (e *empty) Value() []byte             { return nil }
