// Package model has types named like those of another package.
package model

// Item shares its name with a type of another package.
type Item struct {
	P1 string `json:"p1"`
	N  *Sub   `json:"n"`
}

// Sub is referenced by Item.
type Sub struct {
	S1 int `json:"s1"`
}

// ItemType2 is named like the component of the second Item.
type ItemType2 struct {
	T2 bool `json:"t2"`
}
