package pbt

import (
	"fmt"
	"strings"
)

// Show renders a slice compactly.
func Show[A any](xs []A) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%d)[", len(xs))
	for i, x := range xs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%v", x)
	}
	sb.WriteByte(']')
	return sb.String()
}

// SameSlice compares two slices with eq.
func SameSlice[A, B any](a []A, b []B, eq func(A, B) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}
