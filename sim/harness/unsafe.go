package harness

import "unsafe"

func ptrTS[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
