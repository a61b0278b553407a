package main

// extraMode holds development helpers; no check uses them.
func extraMode(mode string, args []string) bool { return false }
