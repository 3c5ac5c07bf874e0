//go:build !orgxwidth

package main

import "github.com/mattn/go-runewidth"

func newBase(amb bool) func(rune) int {
	c := runewidth.NewCondition()
	c.EastAsianWidth = amb
	return c.RuneWidth
}

var baseWidthAmb, baseWidthNar = newBase(true), newBase(false)
