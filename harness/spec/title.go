package spec

import "strings"

// titleCase upper-cases the first letter of a key. For keys of several words, the
// library's use of strings.Title also changes the others; generators avoid keys for
// which this matters.
func titleCase(s string) string {
	return strings.Title(s) //nolint
}
