// Package session has the sessions of a client.
package session

import "github.com/aws/aws-sdk-go/aws"

// Session is a session.
type Session struct{ Config *aws.Config }

func NewSession(c ...*aws.Config) (*Session, error) {
	s := &Session{Config: &aws.Config{}}
	if len(c) > 0 {
		s.Config = c[0]
	}
	return s, nil
}

func Must(s *Session, err error) *Session {
	if err != nil {
		panic(err)
	}
	return s
}
