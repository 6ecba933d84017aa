package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"verifmc/core"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// enc encodes v with the package under test.
func enc(v interface{}, o *ref.Opts) ([]byte, error) {
	if o == nil {
		return jettison.Marshal(v)
	}
	return jettison.MarshalOpts(v, o.Options()...)
}

// check compares one encoding with the reference model.
func check(x *core.X, v interface{}, o *ref.Opts) ([]byte, error) {
	n, want := ref.Encode(v, o)
	b, err := enc(v, o)
	judge(x, v, o, b, err, n, want)
	return b, err
}

func judge(x *core.X, v interface{}, o *ref.Opts, b []byte, err error, n *ref.Node, want *ref.Error) {
	if want != nil {
		if err == nil {
			x.Failf("%s %s: got %q, want error %v", describe(v), o, b, want)
		}
		if m := ref.CheckErr(err, want); m != "" {
			x.Failf("%s %s: %s", describe(v), o, m)
		}
		if b != nil {
			x.Failf("%s %s: data %q together with error %v", describe(v), o, b, err)
		}
		x.Obs([]byte("E" + want.Error()))
		return
	}
	if err != nil {
		x.Failf("%s %s: error %v, want %q", describe(v), o, err, n.Bytes())
	}
	if o != nil && o.UnsortedMap {
		if !n.Match(b) {
			x.Failf("%s %s:\n got %q\nwant %q (members of maps in any order)", describe(v), o, b, n.Bytes())
		}
		b = n.Bytes()
	} else if w := n.Bytes(); !bytes.Equal(b, w) {
		// entries whose keys are encoded alike have no order
		if !n.Match(b) {
			x.Failf("%s %s:\n got %q\nwant %q", describe(v), o, b, w)
		}
		b = w
	}
	x.Obs(b)
	x.Sample(func() string { return fmt.Sprintf("%s %s -> %s", describe(v), o, b) })
}

// checkStd also compares with encoding/json; the model must agree with it.
func checkStd(x *core.X, v interface{}) {
	sb, serr := json.Marshal(v)
	sb = normBF(sb)
	if rb, rerr := ref.EncodeBytes(v, nil); (rerr != nil) != (serr != nil) || rerr == nil && !bytes.Equal(rb, sb) {
		x.Failf("MODEL: %s: reference model %q %v, encoding/json %q %v", describe(v), rb, rerr, sb, serr)
	}
	b, err := jettison.Marshal(v)
	if (err != nil) != (serr != nil) {
		x.Failf("%s: got %q, %v; encoding/json %q, %v", describe(v), b, err, sb, serr)
	}
	if err != nil {
		if b != nil {
			x.Failf("%s: data %q together with error %v", describe(v), b, err)
		}
		var e1 *jettison.UnsupportedTypeError
		var e2 *json.UnsupportedTypeError
		if errors.As(serr, &e2) && (!errors.As(err, &e1) || e1.Type != e2.Type) {
			x.Failf("%s: error %v, encoding/json %v", describe(v), err, serr)
		}
		x.Obs([]byte("E" + serr.Error()))
		return
	}
	if !bytes.Equal(normBF(b), sb) {
		x.Failf("%s:\n           got %q\nencoding/json %q", describe(v), b, sb)
	}
	x.Obs(b)
	x.Sample(func() string { return fmt.Sprintf("%s -> %s", describe(v), b) })
}

// normBF rewrites the two-character escapes of backspace and form feed, which
// are equivalent to the \u form.
func normBF(b []byte) []byte {
	if !bytes.Contains(b, []byte(`\b`)) && !bytes.Contains(b, []byte(`\f`)) {
		return b
	}
	var r []byte
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' && i+1 < len(b) {
			switch b[i+1] {
			case 'b':
				r = append(r, `\u0008`...)
			case 'f':
				r = append(r, `\u000c`...)
			default:
				r = append(r, b[i], b[i+1])
			}
			i++
			continue
		}
		r = append(r, b[i])
	}
	return r
}

func describe(v interface{}) string { return kit.Describe(v) }

// withLog runs f and returns the calls of marshaling methods it caused.
func withLog(f func()) []kit.Call {
	kit.Log, kit.Logging = nil, true
	defer func() { kit.Log, kit.Logging = nil, false }()
	f()
	return kit.Log
}

func logString(l []kit.Call, sorted bool) string {
	var s []string
	for _, c := range l {
		s = append(s, c.String())
	}
	if sorted {
		sort.Strings(s)
	}
	return fmt.Sprint(s)
}

// checkCalls is check, and compares the calls of marshaling methods too.
func checkCalls(x *core.X, v interface{}, o *ref.Opts, sorted bool) {
	var (
		n    *ref.Node
		want *ref.Error
		b    []byte
		err  error
	)
	l1 := logString(withLog(func() { n, want = ref.Encode(v, o) }), sorted)
	log := withLog(func() { b, err = enc(v, o) })
	l2 := logString(log, sorted)
	judge(x, v, o, b, err, n, want)
	if l1 != l2 {
		x.Failf("%s %s: methods called %s, want %s", describe(v), o, l2, l1)
	}
	ctxOf(x, v, o, log)
}

// ptrTo returns a pointer to a copy of v.
func ptrTo(v reflect.Value) interface{} {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

// form presents a value in one of the ways it can reach the encoder.
func form(x *core.X, v reflect.Value, n int) (interface{}, string) {
	switch x.Choose("form", n) {
	case 1:
		return ptrTo(v), "pointer"
	case 2:
		return []interface{}{v.Interface()}, "in []interface{}"
	case 3:
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
		return reflect.Append(s, v, v).Interface(), "slice"
	case 4:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
		m.SetMapIndex(reflect.ValueOf("k"), v)
		return m.Interface(), "map"
	case 5:
		t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(int8(0))}, {Name: "B", Type: v.Type()}, {Name: "C", Type: reflect.TypeOf("")}})
		s := reflect.New(t).Elem()
		s.Field(1).Set(v)
		return s.Interface(), "struct"
	case 6:
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return ptrTo(p), "pointer to pointer"
	case 7:
		a := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
		a.Index(0).Set(v)
		return a.Interface(), "array"
	}
	return v.Interface(), "value"
}

// ctxOf checks the contexts that methods were called with.
func ctxOf(x *core.X, v interface{}, o *ref.Opts, log []kit.Call) {
	for _, c := range log {
		if c.Method != 'C' {
			continue
		}
		if c.Ctx == nil {
			x.Failf("%s %s: %v called with a nil context", describe(v), o, c)
		}
		if o != nil && o.Ctx != nil {
			if c.Ctx != o.Ctx {
				x.Failf("%s %s: %v called with context %v, want %v", describe(v), o, c, c.Ctx, o.Ctx)
			}
		} else if c.Ctx.Err() != nil || c.Ctx.Value(ctxKey{}) != nil {
			x.Failf("%s %s: %v called with context %v of another call", describe(v), o, c, c.Ctx)
		}
	}
}
