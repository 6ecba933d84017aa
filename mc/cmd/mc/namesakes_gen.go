// Code generated. DO NOT EDIT.

package main

import (
	"encoding/json"
	"reflect"
	"time"

	"verifmc/kit"
	dupa "verifmc/same/a/dup"
	dupb "verifmc/same/b/dup"
	dupc "verifmc/same/c/dup"
)

// namesakes are types that print alike: main.T for local types of different
// functions, dup.T for types of different packages.
var namesakes = []struct {
	name string
	ts   []reflect.Type
}{
	{"local", []reflect.Type{
		func() reflect.Type {
			type T struct {
				A int `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A int `json:"b"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A int `json:"a,omitempty"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A int `json:"-"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A int `json:",string"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A int8 `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A *int `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type { type T struct{ B int }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T struct{ A, B int }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T struct{ B, A int }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type {
			type T struct {
				A string `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A json.Number `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A time.Duration `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A [2]int8 `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A [8]byte `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type { type T struct{}; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T struct{ *dupa.T }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T struct{ dupb.T }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T struct{ dupc.T }; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type {
			type T struct {
				A kit.Int_NVNN `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				A kit.Int_NNVN `json:"a"`
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type {
			type T struct {
				a int
				A int
			}
			return reflect.TypeOf(new(T)).Elem()
		}(),
		func() reflect.Type { type T int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T bool; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T float32; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T float64; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T uint8; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T uint64; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []uint; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []uint8; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []dupa.T; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []dupb.T; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T [2]int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T [1]int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T [1]string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[string]int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[string]string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[int]string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[dupa.K]int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[dupb.K]int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[string]dupa.N; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T map[string]dupb.N; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T *int; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T *string; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T *dupa.T; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T *dupc.T; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T interface{}; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type { type T []interface{}; return reflect.TypeOf(new(T)).Elem() }(),
		func() reflect.Type {
			type T interface{ MarshalText() ([]byte, error) }
			return reflect.TypeOf(new(T)).Elem()
		}(),
	}},
	{"dup.T", []reflect.Type{reflect.TypeOf(new(dupa.T)).Elem(), reflect.TypeOf(new(dupb.T)).Elem(), reflect.TypeOf(new(dupc.T)).Elem()}},
	{"dup.N", []reflect.Type{reflect.TypeOf(new(dupa.N)).Elem(), reflect.TypeOf(new(dupb.N)).Elem(), reflect.TypeOf(new(dupc.N)).Elem()}},
	{"dup.K", []reflect.Type{reflect.TypeOf(new(dupa.K)).Elem(), reflect.TypeOf(new(dupb.K)).Elem(), reflect.TypeOf(new(dupc.K)).Elem()}},
	{"dup.S", []reflect.Type{reflect.TypeOf(new(dupa.S)).Elem(), reflect.TypeOf(new(dupb.S)).Elem(), reflect.TypeOf(new(dupc.S)).Elem()}},
	{"dup.L", []reflect.Type{reflect.TypeOf(new(dupa.L)).Elem(), reflect.TypeOf(new(dupb.L)).Elem(), reflect.TypeOf(new(dupc.L)).Elem()}},
}

var _ = kit.Fill

var _ json.Number

var _ time.Duration
