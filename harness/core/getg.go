package core

// getg returns an identity of the calling goroutine, unique among live goroutines.
func getg() uintptr
