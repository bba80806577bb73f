// Package aws is a model of the AWS SDK as far as a DynamoDB client needs it.
package aws

import (
	"context"

	"github.com/aws/aws-sdk-go/aws/credentials"
)

// Context is a context.
type Context = context.Context

// Config is a client configuration.
type Config struct {
	Credentials *credentials.Credentials
	Region      *string
	Endpoint    *string
	MaxRetries  *int
}

func String(v string) *string { return &v }
func Bool(v bool) *bool       { return &v }
func Int(v int) *int          { return &v }
func Int64(v int64) *int64    { return &v }

func StringValue(v *string) string {
	if v != nil {
		return *v
	}
	return ""
}

func BoolValue(v *bool) bool { return v != nil && *v }
