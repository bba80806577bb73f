// Package credentials has the credentials of a client.
package credentials

// Value is a pair of keys.
type Value struct{ AccessKeyID, SecretAccessKey, SessionToken, ProviderName string }

// Credentials are credentials.
type Credentials struct{ v Value }

func NewStaticCredentialsFromCreds(v Value) *Credentials { return &Credentials{v} }

func NewStaticCredentials(id, secret, token string) *Credentials {
	return &Credentials{Value{AccessKeyID: id, SecretAccessKey: secret, SessionToken: token}}
}
