//go:build go1.22

package main

import "github.com/fwip/posix-utils/pkg/locale"

const locHook, locValues = true, true

func parseDefinition(src string) (status int, sym string, frac int, group []int) {
	r := locale.VerifParse(src)
	return r.Status, r.IntCurrSymbol, r.IntFracDigits, r.MonGrouping
}
