// Package model has types named like those of another package.
package model

// Item shares its name with a type of another package.
type Item struct {
	P2 string `json:"p2"`
	N  []Sub  `json:"n"`
}

// Sub is referenced by Item.
type Sub struct {
	S2 int `json:"s2"`
}
