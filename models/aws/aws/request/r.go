// Package request has the options of a request.
package request

// Option is an option.
type Option func()
