// Package opt is a model of goleveldb's options.
package opt

// ReadOptions holds the optional parameters for read operations.
type ReadOptions struct {
	DontFillCache bool
	Strict        uint
}

// WriteOptions holds the optional parameters for write operations.
type WriteOptions struct {
	NoWriteMerge bool
	Sync         bool
}

// Options holds the optional parameters of the DB.
type Options struct {
	ErrorIfExist   bool
	ErrorIfMissing bool
	NoSync         bool
	ReadOnly       bool
	Strict         uint
	BlockSize      int
	WriteBuffer    int
}
