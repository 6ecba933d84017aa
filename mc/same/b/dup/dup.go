// Package dup declares types whose names occur in other packages of that name.
package dup

import "strconv"

// T is a struct.
type T struct{ A int }

func (t T) MarshalText() ([]byte, error) { return []byte("text<" + strconv.Itoa(t.A)), nil }

// N is a number.
type N int

func (n N) AppendJSON(b []byte) ([]byte, error) { return append(b, `"appended"`...), nil }

// K is a key.
type K string

func (k *K) MarshalText() ([]byte, error) { return []byte("b<" + string(*k)), nil }

// S has the other types as members, with tags of its own.
type S struct {
	T T `json:"b"`
	N N
	P *T `json:",omitempty"`
	M map[K]N
}

// L is a list, with elements of its own.
type L []N
