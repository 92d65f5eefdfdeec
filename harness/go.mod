module github.com/apache/datasketches-go/verifharness

go 1.24.11

require github.com/apache/datasketches-go v0.0.0

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/twmb/murmur3 v1.1.8 // indirect
)

replace github.com/apache/datasketches-go => /repo
