//go:build !realdb

package stores

import "github.com/syndtr/goleveldb/leveldb"

func resetDB()       { leveldb.Reset() }
func dbPath() string { return "/model/db" }
