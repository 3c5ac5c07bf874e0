//go:build orgxwidth

package main

import (
	"unicode"

	"golang.org/x/text/width"
)

func newBase(amb bool) func(rune) int {
	return func(r rune) int {
		if !unicode.IsPrint(r) {
			return 0
		}
		switch width.LookupRune(r).Kind() {
		case width.EastAsianWide, width.EastAsianFullwidth:
			return 2
		case width.EastAsianAmbiguous:
			if amb {
				return 2
			}
			return 1
		case width.Neutral, width.EastAsianNarrow, width.EastAsianHalfwidth:
			return 1
		}
		return 0
	}
}

var baseWidthAmb, baseWidthNar = newBase(true), newBase(false)
