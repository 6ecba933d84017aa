package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"

	"verifmc/ref"
	"verifmc/shim/sched"
	"verifmc/shim/sync"
)

func init() { ref.SyncT = reflect.TypeOf(sync.Map{}) }

func yield() { sched.Point("method", 0) }

type (
	node struct {
		V    int
		Next *node
	}
	tree struct {
		L, R *tree `json:",omitempty"`
		V    int   `json:"v,string"`
	}
	sl    []sl
	mp    map[string]mp
	pp    *pp
	arr   [2]*arr
	stSl  struct{ K []stSl }
	stMap struct {
		K map[string]stMap `json:"k,omitempty"`
	}
	mutA struct {
		B *mutB
		C mutC `json:",omitempty"`
		V int
	}
	mutB struct {
		A []mutA
		C *mutC `json:"c,omitempty"`
	}
	mutC map[string]*mutA
	nam1 []nam2
	nam2 map[string]nam3
	nam3 [2]nam4
	nam4 *nam1
	embA struct {
		V int
		*embB
	}
	embB struct {
		W int `json:"w"`
		X *embA
	}
	selfEmb struct {
		V int
		*selfEmb
	}
	flat struct {
		A int
		B string  `json:"b,omitempty"`
		C float64 `json:",string"`
		D bool    `json:"-"`
		E []byte
		F *string `json:",omitnil"`
	}
	inner struct {
		P flat
		Q *flat `json:",omitempty"`
		R [2]flat
	}
	twoFlat struct {
		A flat
		B []flat
		C map[string]flat
	}
	iface struct {
		V interface{}
		W []interface{}
	}
	times struct {
		T time.Time
		D time.Duration `json:",string"`
		N json.Number   `json:"n,string"`
		R json.RawMessage
	}
	maps struct {
		A map[string]int
		B map[int]map[string]bool
		C map[txt]string
	}
	smaps struct {
		M *sync.Map
		N int
	}
	meths struct {
		A yApp
		B *yApp
		C yJSON
		D yTxt
		E []yApp
		F map[yTxt]yJSON
		G interface{}
	}
	omits struct {
		A map[string]int `json:",omitempty"`
		B [0]int         `json:",omitempty"`
		C *omits         `json:",omitempty"`
		D yJSON          `json:",omitnil"`
		E interface{}    `json:",omitempty"`
		F []flat         `json:",omitempty"`
		G [2]int         `json:",omitempty"`
	}

	txt   string
	yApp  int
	yJSON int
	yTxt  int
	yErr  int
	yPan  int
	outer struct {
		M map[string]yApp
		N map[int]yPan
	}
	deep  map[string][]map[int]*flat
	arr1  [1]*flat
	emptS struct{}
)

func (t txt) MarshalText() ([]byte, error) { return []byte("t" + string(t)), nil }

func (y yApp) AppendJSON(b []byte) ([]byte, error) {
	yield()
	b = append(b, fmt.Sprintf(`{"y":%d}`, int(y))...)
	yield()
	return b, nil
}

func (y yJSON) MarshalJSON() ([]byte, error) {
	yield()
	return []byte(fmt.Sprintf(` [%d , "<" ] `, int(y))), nil
}

func (y yTxt) MarshalText() ([]byte, error) {
	yield()
	return []byte(fmt.Sprint("y<", int(y))), nil
}

var errY = errors.New("y")

func (y yErr) AppendJSON(b []byte) ([]byte, error) { yield(); return append(b, "junk"...), errY }

type kErr int

func (y kErr) MarshalText() ([]byte, error) { yield(); return nil, errY }

type kPan int

func (y kPan) MarshalText() ([]byte, error) { yield(); panic(errY) }

func (y yPan) AppendJSON(b []byte) ([]byte, error) { yield(); panic(errY) }

// A subject is a value that is encoded by several goroutines.
type subject struct {
	name string
	v    interface{}
	bad  bool // gives an error
	pan  bool // panics
}

func smap(kv ...interface{}) *sync.Map {
	m := new(sync.Map)
	for i := 0; i < len(kv); i += 2 {
		m.Store(kv[i], kv[i+1])
	}
	return m
}

var subjects, recursive, pooled, failing []subject

func init() {
	s := "s<"
	f := flat{1, "b", 2.5, true, []byte("x"), &s}
	var p pp
	p = &p
	_ = p
	ma := mutA{&mutB{[]mutA{{V: 2}}, &mutC{"k": {V: 3}}}, mutC{"q": nil}, 1}
	n4 := nam4(&nam1{{"z": {nil, nil}}})
	recursive = []subject{
		{"node", node{1, &node{2, nil}}, false, false},
		{"*node", &node{1, &node{2, nil}}, false, false},
		{"tree", tree{&tree{V: 1}, &tree{nil, &tree{V: 5}, 2}, 3}, false, false},
		{"sl", sl{{}, {{}, nil}}, false, false},
		{"mp", mp{"a": {"b": nil}, "c": {"d": nil}}, false, false},
		{"arr", arr{{nil, {}}, nil}, false, false},
		{"stSl", stSl{[]stSl{{}, {[]stSl{}}}}, false, false},
		{"stMap", stMap{map[string]stMap{"b": {map[string]stMap{"c": {}}}}}, false, false},
		{"mutA", ma, false, false},
		{"*mutA", &ma, false, false},
		{"mutB", *ma.B, false, false},
		{"mutC", mutC{"k": &ma}, false, false},
		{"nam1", nam1{{"k": {n4, nil}}}, false, false},
		{"nam2", nam2{"k": {n4, nil}}, false, false},
		{"nam3", nam3{n4, nil}, false, false},
		{"nam4", n4, false, false},
		{"embA", embA{1, &embB{2, &embA{V: 3}}}, false, false},
		{"embB", embB{2, &embA{1, &embB{W: 4}}}, false, false},
		{"selfEmb", selfEmb{1, &selfEmb{V: 2}}, false, false},
	}
	subjects = append(subjects, recursive...)
	subjects = append(subjects, []subject{
		{"flat", f, false, false},
		{"*flat", &f, false, false},
		{"inner", inner{f, &f, [2]flat{{}, f}}, false, false},
		{"*inner", &inner{f, nil, [2]flat{}}, false, false},
		{"twoFlat", twoFlat{f, []flat{f}, map[string]flat{"k": f}}, false, false},
		{"iface", iface{f, []interface{}{&f, 1, node{V: 1}, map[string]flat{"a": f}}}, false, false},
		{"times", times{time.Unix(1, 5).UTC(), 7, "5", json.RawMessage(` { "a" : 1 } `)}, false, false},
		{"arr1", arr1{&f}, false, false},
		{"emptS", []interface{}{emptS{}, &emptS{}}, false, false},
		{"int", 5, false, false},
		{"chan", struct{ C chan int }{}, true, false},
	}...)
	pooled = []subject{
		{"maps", maps{map[string]int{"b": 1, "a": 2, "<": 3}, map[int]map[string]bool{2: {"x": true, "w": false}, -1: {"v": true, "u": true}}, map[txt]string{"q": "1", "p": "2"}}, false, false},
		{"map", map[string]interface{}{"b": map[string]int{"f": 3, "e": 4}, "a": map[string]int{"d": 1, "c": 2}}, false, false},
		{"smaps", smaps{smap("b", map[string]int{"w": 1, "v": 0}, "a", map[string]int{"y": 1, "x": 2}), 3}, false, false},
		{"meths", meths{1, new(yApp), 2, 3, []yApp{4, 5}, map[yTxt]yJSON{2: 1, 1: 2}, yApp(6)}, false, false},
		{"*omits", &omits{A: map[string]int{"a": 1}, C: &omits{}, E: yApp(1), D: 2, F: []flat{{}}}, false, false},
		{"deep", deep{"a": {{2: {}, 1: {}}}, "b": {{3: nil, 4: nil}}}, false, false},
		{"map of methods", map[string]yApp{"b": 1, "a": 2}, false, false},
		{"sync.Map with a method as key", smap(yTxt(3), 1, yTxt(1), 3), false, false},
		{"sync.Map of methods", smap("b", yJSON(1), "a", yJSON(2)), false, false},
		{"error in a map", map[string]yErr{"a": 1}, true, false},
		{"error in a sync.Map", smap("a", map[string]interface{}{"b": yErr(1)}), true, false},
		{"panic in a map", map[string]interface{}{"a": map[int]yPan{1: 1}}, false, true},
		{"panic in a sync.Map", smap("a", yPan(1)), false, true},
		{"outer", outer{map[string]yApp{"a": 1}, nil}, false, false},
		{"long", []interface{}{string(make([]byte, 300)), map[string]string{"k": string(make([]byte, 2000))}}, false, false},
	}
	subjects = append(subjects, pooled...)
	failing = []subject{
		{"error in a map", map[string]yErr{"a": 1}, true, false},
		{"error in a key", map[kErr]int{1: 1}, true, false},
		{"number in a map", map[string]interface{}{"a": []interface{}{map[string]int{"x": 1}, json.Number("x")}}, true, false},
		{"error in a sync.Map", smap("a", map[string]yErr{"b": 1}), true, false},
		{"error in a key of a sync.Map", smap(kErr(1), 1), true, false},
		{"bad key of a sync.Map", smap(1.5, 1), true, false},
		{"channel in a sync.Map", smap("a", make(chan int)), true, false},
		{"panic in a map", map[string]interface{}{"a": map[int]yPan{1: 1}}, false, true},
		{"panic in a key", map[kPan]int{1: 1}, false, true},
		{"panic in a sync.Map", smap("a", yPan(1)), false, true},
		{"panic in a key of a sync.Map", smap(kPan(1), 1), false, true},
		{"error", yErr(1), true, false},
		{"panic", []yPan{1}, false, true},
		{"NaN in a map", map[string]float64{"a": math.NaN()}, true, false},
		{"deep error", map[string]interface{}{"a": smap("b", map[int]interface{}{1: []yErr{1}})}, true, false},
	}
}
