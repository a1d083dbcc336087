package main

// goid tells goroutines apart: the address of the current one.
func goid() int64
