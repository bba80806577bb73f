// Package util is a model of goleveldb's util package.
package util

// Range is a key range: Start inclusive, Limit exclusive.
type Range struct {
	Start []byte
	Limit []byte
}

// BytesPrefix returns the key range that satisfies the given prefix.
func BytesPrefix(prefix []byte) *Range {
	var limit []byte
	for i := len(prefix) - 1; i >= 0; i-- {
		c := prefix[i]
		if c < 0xff {
			limit = make([]byte, i+1)
			copy(limit, prefix)
			limit[i] = c + 1
			break
		}
	}
	return &Range{prefix, limit}
}

// Releaser is something that can be released.
type Releaser interface{ Release() }
