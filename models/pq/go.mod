module github.com/lib/pq

go 1.16
