package main

import (
	"fmt"
	"time"
)

type embStr struct{ N int }

func (e *embStr) String() string { return fmt.Sprint("embStr", e.N) }

type (
	ebase  struct{ A, B int }
	Ebase2 struct {
		A string
		C bool
		d int
	}
	eptr struct {
		P *int
		Q string `json:"q,omitempty"`
	}
	eint  int
	Eint  int8
	eStr  string
	Estr  string
	eMap  map[string]int
	Emap  map[string]int
	Esl   []string
	Eany  interface{}
	Eif   fmt.Stringer
	eif   fmt.Stringer
	Efn   func()
	Eptr  *ebase
	Earr  [2]int
	ebool bool

	e01 struct{ ebase }
	e02 struct{ *ebase }
	e03 struct{ Ebase2 }
	e04 struct{ *Ebase2 }
	e05 struct {
		ebase
		Ebase2
	}
	e06 struct {
		*ebase
		*Ebase2
		A float64
	}
	e07 struct {
		ebase `json:"base"`
		X     int
	}
	e08 struct {
		*ebase `json:"base,omitempty"`
		X      int
	}
	e09 struct {
		Ebase2 `json:"-"`
		X      int
	}
	e10 struct {
		eint
		Eint
	}
	e11 struct {
		*eint
		*Eint
		X int
	}
	e12 struct {
		eStr
		Estr `json:"s,omitempty"`
		eMap
		Emap
	}
	e13 struct {
		Esl
		Eany
		Earr
	}
	e14 struct {
		Eif
		eif
		X int
	}
	e15 struct {
		fmt.Stringer
		error
		X int
	}
	e16 struct {
		*e16
		X int
	}
	e17 struct {
		X int
		*e17b
	}
	e17b struct {
		Y int
		*e17
	}
	e18 struct {
		e01
		*e02
		Y int
	}
	e19 struct {
		e18
		A string
	}
	e20 struct {
		*e19
		B bool `json:"A"`
	}
	e21 struct {
		l1
		r1
	}
	l1 struct{ L2 }
	r1 struct{ *R2 }
	L2 struct{ Shared }
	R2 struct{ Shared }
	// Shared is reached twice at the same depth.
	Shared struct{ S, T int }
	e22    struct {
		e21
		S string
	}
	e23 struct {
		time.Time
		X int
	}
	e23b struct {
		Time time.Time
		X    int
	}
	e24 struct {
		time.Duration `json:"d"`
		X             int `json:"Duration"`
	}
	e25 struct {
		ebase
		Other struct {
			ebase
			*Ebase2
		}
	}
	e26 struct {
		a int
		B int
		_ int
		C int
	}
	e27 struct {
		_ struct{}
		A struct{}
		B [0]int
		C int8
		D struct{}
	}
	e28 struct {
		A int8
		B int64
		C int8
		D int32
		E int8
		F float64
		G bool
		H string
		I bool
		J []int8
		K bool
		L interface{}
		M bool
		N map[string]bool
		O bool
		P *bool
	}
	e29 struct {
		G[int]
		G2[string]
	}
	G[T any]  struct{ V T }
	G2[T any] struct{ W T }
	e30       struct {
		G[int]
		*G2[G[string]]
		V bool
	}
	e31 struct {
		eptr
		*e32
	}
	e32 struct {
		eptr
		Z []*e31
	}
	e33 struct {
		A int `json:"x"`
		B int `json:"x"`
		C int
	}
	e34 struct {
		A int `json:"x"`
		e33
		X int
	}
	e35 struct {
		A int `json:"B"`
		B int `json:"A"`
	}
	e36 struct {
		ebool `json:"eb"`
		Ebase2
		*eptr
		D1 d1
	}
	d1 struct{ d2 }
	d2 struct {
		*d3
		X int
	}
	d3 struct {
		d4
		Y int
	}
	d4 struct {
		*d5
		Z int
	}
	d5 struct {
		d6
		d7
	}
	d6  struct{ U, V int8 }
	d7  struct{ W, V string }
	e37 struct {
		d1
		d7
	}
	e38 struct {
		ebase
		M   map[string]e01
		S   []e02
		Any interface{} `json:",omitempty"`
	}
)

var embTypes = []func() interface{}{
	func() interface{} { return new(e01) }, func() interface{} { return new(e02) }, func() interface{} { return new(e03) }, func() interface{} { return new(e04) },
	func() interface{} { return new(e05) }, func() interface{} { return new(e06) }, func() interface{} { return new(e07) }, func() interface{} { return new(e08) },
	func() interface{} { return new(e09) }, func() interface{} { return new(e10) }, func() interface{} { return new(e11) }, func() interface{} { return new(e12) },
	func() interface{} { return new(e13) }, func() interface{} { return new(e14) }, func() interface{} { return new(e15) }, func() interface{} { return new(e16) },
	func() interface{} { return new(e17) }, func() interface{} { return new(e17b) }, func() interface{} { return new(e18) }, func() interface{} { return new(e19) },
	func() interface{} { return new(e20) }, func() interface{} { return new(e21) }, func() interface{} { return new(e22) }, func() interface{} { return new(e23b) },
	func() interface{} { return new(e24) }, func() interface{} { return new(e25) }, func() interface{} { return new(e26) }, func() interface{} { return new(e27) },
	func() interface{} { return new(e28) }, func() interface{} { return new(e29) }, func() interface{} { return new(e30) }, func() interface{} { return new(e31) },
	func() interface{} { return new(e32) }, func() interface{} { return new(e33) }, func() interface{} { return new(e34) }, func() interface{} { return new(e35) },
	func() interface{} { return new(e36) }, func() interface{} { return new(d1) }, func() interface{} { return new(d3) }, func() interface{} { return new(e37) },
	func() interface{} { return new(e38) }, func() interface{} { return new(d5) }, func() interface{} { return new(e23) },
}
