// Package errors is a model of goleveldb's errors.
package errors

import "errors"

// Errors of the DB.
var (
	ErrNotFound    = errors.New("leveldb: not found")
	ErrReleased    = errors.New("leveldb: released")
	ErrHasReleaser = errors.New("leveldb: releaser already defined")
)

// New is errors.New.
func New(text string) error { return errors.New(text) }
