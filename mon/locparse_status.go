//go:build go1.22

package main

import "github.com/fwip/posix-utils/pkg/locale"

// Used when the hook does not compile any more: the verdict without the values.
const locHook, locValues = true, false

func parseDefinition(src string) (status int, sym string, frac int, group []int) {
	return locale.VerifStatus(src), "", 0, nil
}
