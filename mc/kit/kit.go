// Package kit has the user-side of the closed system: types with every
// combination of marshaling methods, whose methods are under the control of
// the scenario, and generators of type expressions and values.
package kit

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// Call is one invocation of a marshaling method by the encoder or the model.
type Call struct {
	Type   string
	Method byte // C, A, J, T
	Repr   string
	Ctx    context.Context
	Buf    []byte // content of the buffer when called
}

func (c Call) String() string { return fmt.Sprintf("%s.%c(%s)", c.Type, c.Method, c.Repr) }

// Log of calls; reset by the scenario.
var Log []Call

// Logging enables Log.
var Logging bool

// Hook, if set, runs in every method before it returns. It may replace the
// result, return an error, panic, collect garbage, or encode something else.
var Hook func(c *Call, out []byte) ([]byte, error)

// AppendHook, if set, extends the buffer of append methods.
var AppendHook func(buf, out []byte) []byte

// Default is what a method returns when no hook interferes, without the
// buffer content.
func Default(typ string, m byte, repr string) []byte {
	switch m {
	case 'C':
		return []byte(`{"C":"` + typ + ":" + repr + `"}`)
	case 'A':
		return []byte(`["A","` + typ + ":" + repr + `"]`)
	case 'J':
		return []byte(" {\"J\" :\t[\"" + typ + ":" + repr + " <&>\", 1 ] }\n")
	default:
		return []byte(`T"\ ` + typ + ":" + repr + " <\u2028\xff")
	}
}

func call(typ string, m byte, r interface{}, ctx context.Context, buf []byte) ([]byte, error) {
	c := Call{Type: typ, Method: m, Repr: Repr(reflect.ValueOf(r)), Ctx: ctx}
	if Logging {
		c.Buf = append([]byte{}, buf...)
		Log = append(Log, c)
	}
	out := Default(typ, m, c.Repr)
	if Hook != nil {
		o, err := Hook(&c, out)
		if err != nil {
			return nil, err
		}
		out = o
	}
	if m == 'C' || m == 'A' {
		if AppendHook != nil {
			return AppendHook(buf, out), nil
		}
		return append(buf, out...), nil
	}
	return out, nil
}

func callC(typ string, r interface{}, ctx context.Context, buf []byte) ([]byte, error) {
	return call(typ, 'C', r, ctx, buf)
}
func callA(typ string, r interface{}, buf []byte) ([]byte, error) { return call(typ, 'A', r, nil, buf) }
func callJ(typ string, r interface{}) ([]byte, error)             { return call(typ, 'J', r, nil, nil) }
func callT(typ string, r interface{}) ([]byte, error)             { return call(typ, 'T', r, nil, nil) }

// Repr describes a value by its content; it has only characters that need no
// escaping in JSON.
func Repr(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return Repr(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return Repr(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, Repr(v.Field(i)))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, Repr(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, Repr(k)+":"+Repr(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "m(" + strings.Join(s, " ") + ")"
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		if f, ok := v.Interface().(interface{ Kit() int }); ok {
			return fmt.Sprint("f", f.Kit())
		}
		return "f"
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return fmt.Sprintf("s%x", v.String())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Chan:
		return "chan"
	}
	return "?"
}

// Info describes a generated type.
type Info struct {
	Name string
	T    reflect.Type
	Kind string
	Mask string // for C, A, J, T: N(one), V(alue) or P(ointer) receiver
}

// ByKind returns the generated types of one kind.
func ByKind(kind string) []Info {
	var r []Info
	for _, i := range Types {
		if i.Kind == kind {
			r = append(r, i)
		}
	}
	return r
}

// Lookup returns the generated type with that kind and mask.
func Lookup(kind, mask string) Info {
	for _, i := range Types {
		if i.Kind == kind && i.Mask == mask {
			return i
		}
	}
	panic("kit: no type " + kind + " " + mask)
}
