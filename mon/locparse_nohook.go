//go:build go1.22

package main

import "github.com/fwip/posix-utils/pkg/locale"

// Used when the hook does not compile any more: the tokeniser alone.
const locHook, locValues = false, false

func parseDefinition(src string) (status int, sym string, frac int, group []int) {
	l := locale.NewLexer(src)
	for {
		if _, done := l.NextToken(); done {
			return 0, "", 0, nil
		}
	}
}
