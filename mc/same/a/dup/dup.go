// Package dup declares types whose names occur in other packages of that name.
package dup

import "strconv"

// T is a struct.
type T struct{ A int }

func (t T) MarshalJSON() ([]byte, error) { return []byte(`{"json":` + strconv.Itoa(t.A) + `}`), nil }

// N is a number.
type N int

func (n *N) MarshalText() ([]byte, error) { return []byte("<ptr text"), nil }

// K is a key.
type K string

func (k K) MarshalText() ([]byte, error) { return []byte("a<" + string(k)), nil }

// S has the other types as members, with tags of its own.
type S struct {
	T T `json:"a"`
	N N
	P *T `json:",omitempty"`
	M map[K]N
}

// L is a list, with elements of its own.
type L []T
