package main

import (
	"reflect"
	"unsafe"
)

func stringData(s string) uintptr {
	return (*reflect.StringHeader)(unsafe.Pointer(&s)).Data
}
