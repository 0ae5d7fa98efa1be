package main

import (
	"bytes"
	"fmt"
)

func sprint(v any) string { return fmt.Sprintf("%q", v) }

// trimWS cuts JSON white space off both ends.
func trimWS(b []byte) []byte {
	return bytes.Trim(b, " \t\n\r")
}
