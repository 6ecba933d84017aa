// Package dup declares types whose names occur in other packages of that name.
package dup

import "strconv"

// T is a struct.
type T struct{ A int }

var _ = strconv.Itoa

// N is a number.
type N int

func (n N) MarshalJSON() ([]byte, error) { return []byte(`"json"`), nil }

// K is a key.
type K string

// S has the other types as members, with tags of its own.
type S struct {
	T T `json:"c"`
	N N
	P *T `json:",omitempty"`
	M map[K]N
}

// L is a list, with elements of its own.
type L []K
