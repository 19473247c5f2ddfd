//go:build libfuzzer

// Command fuzzmain is the entry point of libFuzzer.
package main

// #include <stdint.h>
// #include <stddef.h>
import "C"

import (
	"os"
	"unsafe"

	checks "jverif/fuzzlib"
)

var name = os.Getenv("VERIF_TARGET")

//export LLVMFuzzerInitialize
func LLVMFuzzerInitialize(argc, argv unsafe.Pointer) C.int {
	if d := os.Getenv("VERIF_SEEDS"); d != "" {
		checks.SeedFuzz(name, d)
		os.Exit(0)
	}
	return 0
}

//export LLVMFuzzerTestOneInput
func LLVMFuzzerTestOneInput(p *C.char, n C.size_t) C.int {
	checks.RunFuzz(name, unsafe.Slice((*byte)(unsafe.Pointer(p)), n))
	return 0
}

func main() {}
