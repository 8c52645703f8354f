//go:build clibs
// +build clibs

package main

import "github.com/DataDog/zstd"

const haveZstd = true

func zstdCompress(b []byte) []byte {
	c, err := zstd.Compress(nil, b)
	if err != nil {
		panic(err)
	}
	return c
}
func zstdInflate(b []byte) ([]byte, error) { return zstd.Decompress(nil, b) }
