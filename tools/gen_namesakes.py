bodies=[
 ('struct{ A int `json:"a"` }',), ('struct{ A int `json:"b"` }',), ('struct{ A int `json:"a,omitempty"` }',), ('struct{ A int `json:"-"` }',), ('struct{ A int `json:",string"` }',),
 ('struct{ A int8 `json:"a"` }',), ('struct{ A *int `json:"a"` }',), ('struct{ B int }',), ('struct{ A, B int }',), ('struct{ B, A int }',), ('struct{ A string `json:"a"` }',),
 ('struct{ A json.Number `json:"a"` }',), ('struct{ A time.Duration `json:"a"` }',), ('struct{ A [2]int8 `json:"a"` }',), ('struct{ A [8]byte `json:"a"` }',),
 ('struct{}',), ('struct{ *dupa.T }',), ('struct{ dupb.T }',), ('struct{ dupc.T }',),('struct{ A kit.Int_NVNN `json:"a"` }',), ('struct{ A kit.Int_NNVN `json:"a"` }',), ('struct{ a int; A int }',),
 ('int',), ('string',), ('bool',), ('float32',), ('float64',), ('uint8',), ('uint64',), ('[]int',), ('[]uint',), ('[]uint8',), ('[]string',), ('[]dupa.T',), ('[]dupb.T',), ('[2]int',), ('[1]int',), ('[1]string',),
 ('map[string]int',), ('map[string]string',), ('map[int]string',), ('map[dupa.K]int',), ('map[dupb.K]int',), ('map[string]dupa.N',), ('map[string]dupb.N',), ('*int',), ('*string',), ('*dupa.T',), ('*dupc.T',), ('interface{}',), ('[]interface{}',), ('interface{ MarshalText() ([]byte, error) }',),
]
print('''// Code generated by tools/gen_namesakes.py. DO NOT EDIT.

package main

import (
	"encoding/json"
	"reflect"
	"time"

	"verifmc/kit"
	dupa "verifmc/same/a/dup"
	dupb "verifmc/same/b/dup"
	dupc "verifmc/same/c/dup"
)

// namesakes are types that print alike: main.T for local types of different
// functions, dup.T for types of different packages.
var namesakes = []struct {
	name string
	ts   []reflect.Type
}{
	{"local", []reflect.Type{''')
for (b,) in bodies:
    print('\t\tfunc() reflect.Type { type T %s; return reflect.TypeOf(new(T)).Elem() }(),'%b)
print('\t}},')
for n in ['T','N','K','S','L']:
    print('\t{"dup.%s", []reflect.Type{reflect.TypeOf(new(dupa.%s)).Elem(), reflect.TypeOf(new(dupb.%s)).Elem(), reflect.TypeOf(new(dupc.%s)).Elem()}},'%(n,n,n,n))
print('}\n\nvar _ = kit.Fill\n\nvar _ json.Number\n\nvar _ time.Duration')
