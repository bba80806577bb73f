//go:build realdb

package stores

import "os"

func resetDB() {}
func dbPath() string {
	d, err := os.MkdirTemp("", "verifdb")
	if err != nil {
		panic(err)
	}
	return d
}
