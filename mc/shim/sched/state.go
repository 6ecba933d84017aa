package sched

import "reflect"

// A saved package-level variable of the code under test.
type saved struct {
	name string
	v    reflect.Value // addressable
	bits reflect.Value
	elem reflect.Value // of pointers to structs
	keys []reflect.Value
	vals []reflect.Value
}

var state []saved

// Register remembers the initial value of the variable p points to.
func Register(name string, p interface{}) {
	v := reflect.ValueOf(p).Elem()
	s := saved{name: name, v: v, bits: reflect.New(v.Type()).Elem()}
	s.bits.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
			s.elem = reflect.New(v.Type().Elem()).Elem()
			s.elem.Set(v.Elem())
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			s.keys = append(s.keys, k)
			s.vals = append(s.vals, v.MapIndex(k))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.Index(i))
			s.vals = append(s.vals, e)
		}
	}
	state = append(state, s)
}

// Names lists the variables registered.
func Names() (l []string) {
	for _, s := range state {
		l = append(l, s.name)
	}
	return
}

// Reset restores the initial state of the code under test: cold caches.
func Reset() {
	for _, s := range state {
		s.v.Set(s.bits)
		switch {
		case s.elem.IsValid():
			s.v.Elem().Set(s.elem)
		case s.v.Kind() == reflect.Map && !s.v.IsNil():
			for _, k := range s.v.MapKeys() {
				s.v.SetMapIndex(k, reflect.Value{})
			}
			for i := range s.keys {
				s.v.SetMapIndex(s.keys[i], s.vals[i])
			}
		case s.v.Kind() == reflect.Slice:
			for i := range s.vals {
				s.v.Index(i).Set(s.vals[i])
			}
		}
	}
}
