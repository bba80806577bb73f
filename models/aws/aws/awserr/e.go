// Package awserr has the errors of the SDK.
package awserr

// Error is a service error.
type Error interface {
	error
	Code() string
	Message() string
	OrigErr() error
}

type e struct {
	code, msg string
	orig      error
}

func (x *e) Error() string   { return x.code + ": " + x.msg }
func (x *e) Code() string    { return x.code }
func (x *e) Message() string { return x.msg }
func (x *e) OrigErr() error  { return x.orig }

// New makes an error.
func New(code, msg string, orig error) Error { return &e{code, msg, orig} }
