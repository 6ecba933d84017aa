package main

import "sync"

// syncMapOf makes a sync.Map of keys and values in turn.
func syncMapOf(kv ...interface{}) *sync.Map {
	m := new(sync.Map)
	for i := 0; i+1 < len(kv); i += 2 {
		m.Store(kv[i], kv[i+1])
	}
	return m
}
