//go:build !clibs
// +build !clibs

package main

import "errors"

const haveZstd = false

func zstdCompress(b []byte) []byte            { return b }
func zstdInflate(b []byte) ([]byte, error) { return nil, errors.New("no zstd") }
