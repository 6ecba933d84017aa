package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/kit"
	"verifmc/ref"

	"github.com/wI2L/jettison"
)

// A promotable member of chainWith.
type deepMember struct {
	t   reflect.Type
	tag string
}

// chainWith embeds a struct with the members n levels deep, by value, by
// pointer, in turn, or only the innermost by pointer.
func chainWith(n, how int, ms ...deepMember) reflect.Type {
	var fs []reflect.StructField
	for i, m := range ms {
		fs = append(fs, sf(fmt.Sprint("M", i), m.t, m.tag))
	}
	t := reflect.StructOf(fs)
	for i := n - 1; i >= 0; i-- {
		e := t
		if how == 1 || how == 2 && i%2 == 0 || how == 3 && i == n-1 {
			e = reflect.PtrTo(t)
		}
		t = reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("E", i), Type: e, Anonymous: true}, sf(fmt.Sprint("Z", i), boolT, `json:",omitempty"`)})
	}
	return t
}

// inner is the innermost struct of a chain, whose pointers it sets.
func innerOf(v reflect.Value) reflect.Value {
	for v.Type().Field(0).Anonymous {
		v = v.Field(0)
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
	}
	return v
}

func deepOptions(tags []string) func(x *core.X) {
	var ts []reflect.Type
	ts = append(ts, inPlaceTypes()...)
	for _, m := range manyMethods[:8] {
		for _, k := range []string{"Int", "St1p", "Str", "Map"} {
			ts = append(ts, kit.Lookup(k, m).T)
		}
	}
	ts = append(ts, reflect.TypeOf(json.Number("")), reflect.TypeOf(time.Time{}), reflect.TypeOf(&time.Time{}), reflect.TypeOf(json.RawMessage{}), anyT)
	return func(x *core.X) {
		l := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33}
		if x.Thorough {
			l = ladder(70, 1<<8)[1:]
		}
		n := l[x.Choose("depth", len(l))]
		how := x.Choose("how", 4)
		tag := tags[x.Choose("tag", len(tags))]
		for i, t := range ts {
			ct := chainWith(n, how, deepMember{t, tag}, deepMember{ts[(i+7)%len(ts)], ""}, deepMember{t, ""})
			v := reflect.New(ct)
			in := innerOf(v.Elem())
			for j := 0; j < in.NumField(); j++ {
				if in.Field(j).Kind() == reflect.Interface {
					in.Field(j).Set(reflect.ValueOf(i))
				} else {
					in.Field(j).Set(kit.FillN(in.Field(j).Type(), i+j))
				}
			}
			z := reflect.New(ct)
			innerOf(z.Elem())
			for _, w := range []interface{}{v.Interface(), v.Elem().Interface(), z.Interface(), z.Elem().Interface(), []interface{}{reflect.New(ct).Interface()}, mkMap(reflect.ValueOf("k"), v.Elem()).Interface()} {
				check(x, w, nil)
			}
			check(x, v.Interface(), &ref.Opts{HasAllow: true, Allow: []string{"M0", "n<"}, NoHTMLEscaping: true})
		}
		x.Beat()
	}
}

// ---- texts whose hashes are equal

type hashFn struct {
	name string
	f    func([]byte) uint32
}

func mul(h0, m uint32, xorFirst bool, add bool) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := h0
		for _, c := range b {
			switch {
			case add:
				h = h*m + uint32(c)
			case xorFirst:
				h = (h ^ uint32(c)) * m
			default:
				h = h*m ^ uint32(c)
			}
		}
		return h
	}
}

var hashFns = []hashFn{
	{"FNV-1a", mul(2166136261, 16777619, true, false)},
	{"FNV-1", mul(2166136261, 16777619, false, false)},
	{"FNV-1a from zero", mul(0, 16777619, true, false)},
	{"CRC-32", crc32.ChecksumIEEE},
	{"CRC-32C", func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) }},
	{"Adler-32", adler32.Checksum},
	{"31", mul(0, 31, false, true)},
	{"33", mul(5381, 33, false, true)},
	{"33 xor", mul(5381, 33, false, false)},
	{"37", mul(0, 37, false, true)},
	{"131", mul(0, 131, false, true)},
	{"257", mul(0, 257, false, true)},
	{"65599", mul(0, 65599, false, true)},
	{"16777619", mul(0, 16777619, false, true)},
	{"golden ratio", mul(0, 0x9E3779B1, false, true)},
	{"one at a time", func(b []byte) uint32 {
		var h uint32
		for _, c := range b {
			h += uint32(c)
			h += h << 10
			h ^= h >> 6
		}
		h += h << 3
		h ^= h >> 11
		return h + h<<15
	}},
	{"low half of FNV-1a 64", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) }},
	{"high half of FNV-1a 64", func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64() >> 32) }},
	{"folded FNV-1a 64", func(b []byte) uint32 {
		h := fnv.New64a()
		h.Write(b)
		return uint32(h.Sum64()>>32) ^ uint32(h.Sum64())
	}},
}

type collKey struct {
	fn             int
	prefix, suffix string
	letters        string
}

var (
	collMu   sync.Mutex
	collMemo = map[collKey][][2]string{}
)

// collisions are up to three pairs of texts of 8 letters for which the hashes
// of the texts between prefix and suffix are equal.
func collisions(fn int, prefix, suffix, letters string) [][2]string {
	k := collKey{fn, prefix, suffix, letters}
	collMu.Lock()
	defer collMu.Unlock()
	if l, ok := collMemo[k]; ok {
		return l
	}
	const n = 1 << 18
	text := func(i uint64) string {
		var b [8]byte
		i = (i + 1) * 0x9E3779B97F4A7C15 // spread
		i = (i ^ i>>30) * 0xBF58476D1CE4E5B9
		i = (i ^ i>>27) * 0x94D049BB133111EB
		i ^= i >> 31
		for j := range b {
			b[j] = letters[i%uint64(len(letters))]
			i /= uint64(len(letters))
		}
		return string(b[:])
	}
	hs := make([]uint64, n)
	buf := []byte(prefix)
	for i := range hs {
		t := append(append(buf[:len(prefix):cap(buf)], text(uint64(i))...), suffix...)
		buf = t
		hs[i] = uint64(hashFns[fn].f(t))<<32 | uint64(i)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	var l [][2]string
	for i := 1; i < n && len(l) < 3; i++ {
		if hs[i]>>32 == hs[i-1]>>32 {
			a, b := text(hs[i-1]&(1<<32-1)), text(hs[i]&(1<<32-1))
			if a != b {
				l = append(l, [2]string{a, b})
			}
		}
	}
	collMemo[k] = l
	return l
}

const (
	smallLetters = "abcdefghijklmnopqrstuvwxyz"
	digitLetters = "123456789"
)

// collided calls f with every pair, both ways, without and with 64 more letters.
func collided(x *core.X, prefix, suffix, letters string, f func(a, b string)) {
	fn := x.Choose("hash", len(hashFns))
	l := collisions(fn, prefix, suffix, letters)
	if len(l) == 0 {
		x.Skip()
	}
	long := strings.Repeat(letters[:8], 8)
	for _, p := range l {
		f(p[0], p[1])
		f(p[1], p[0])
		f(p[0]+long, p[1]+long)
	}
	x.Beat()
}

// ---- keys that continue each other

func paddedKeys(x *core.X) (ks []string) {
	bases := []string{"", "a", "ab", "abcdefg", "abcdefgh", "abcdefghi", strings.Repeat("k", 15), strings.Repeat("k", 16), strings.Repeat("k", 31), strings.Repeat("k", 63), strings.Repeat("k", 255)}
	pads := []string{"\x00", "\x01", " ", "!", "\"", "0", "~", "\x7f", "é", "\U0001f600", "\\", "<", "\xff"}
	b := bases[x.Choose("base", len(bases))]
	p, q := pads[x.Choose("pad", len(pads))], pads[x.Choose("other pad", len(pads))]
	n := []int{2, 9}[x.Choose("to", 2)]
	seen := map[string]bool{}
	for i := 0; i <= n; i++ {
		for _, k := range []string{b + strings.Repeat(p, i), b + strings.Repeat(p, i) + q, b + strings.Repeat(p, i) + "a", b + strings.Repeat(q, i) + p, q + strings.Repeat(p, i) + b} {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	return
}

// ---- results that are constants

func constantValues() []interface{} {
	var np *int
	var ns []int
	var nm map[string]int
	l := []interface{}{true, false, 0, 1, 7, 42, -1, 100, int8(3), uint8(255), 0.0, 1.5, "", "a", "ok", "null", struct{}{}, struct{ A *int }{}, map[string]int{}, []int{}, [0]int{}, []string{}, []interface{}{}, map[string]interface{}{},
		np, ns, nm, &struct{}{}, (*struct{ A int })(nil), []byte(nil), []byte{}, json.RawMessage("null"), json.RawMessage("{}"), json.RawMessage("[]"), json.RawMessage(`""`), json.Number(""), json.Number("0"), json.Number("1"), time.Duration(0), time.Time{}, time.Unix(0, 0).UTC(), new(sync.Map), rawMarshaler("true"), rawMarshaler("{}"), textStr(""), textStr("a"),
		[]interface{}{nil}, []bool{true}, map[string]bool{"a": true}, struct{ A int }{}, struct {
			A string `json:",omitempty"`
		}{}, [2]int{}, []*int{nil}}
	return append(l, nil, jettison.DurationFmt(0))
}

// disjoint reports whether the arrays of the slices have no byte in common.
func disjoint(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return true
	}
	pa, pb := uintptr(unsafe.Pointer(&a[:1][0])), uintptr(unsafe.Pointer(&b[:1][0]))
	return pa+uintptr(cap(a)) <= pb || pb+uintptr(cap(b)) <= pa
}

func constants(x *core.X) {
	vs := constantValues()
	v, w := vs[x.Choose("first", len(vs))], vs[x.Choose("second", len(vs))]
	how := x.Choose("how", 4)
	call := func(v interface{}, i int) []byte {
		var b []byte
		var err error
		switch (how + i) % 4 {
		case 0:
			b, err = jettison.Marshal(v)
		case 1:
			b, err = jettison.MarshalOpts(v, jettison.NoHTMLEscaping())
		case 2:
			b, err = jettison.Append(nil, v)
		case 3:
			b, err = jettison.AppendOpts(nil, v, jettison.NoHTMLEscaping())
		}
		r, e := ref.EncodeBytes(v, nil)
		if e != nil || err != nil || string(b) != string(r) {
			x.Failf("%s after %s, call %d: got %q, %v; want %q, %v", describe(v), describe(w), i, b, err, r, e)
		}
		x.Obs(b)
		return b
	}
	var rs [][]byte
	var texts []string
	for i := 0; i < 6; i++ {
		u := []interface{}{v, w}[i%2]
		b := call(u, i/2)
		for j, r := range rs {
			if !disjoint(r, b) {
				x.Failf("%s and %s: results %d and %d share memory", describe(v), describe(w), j, i)
			}
			if string(r) != texts[j] {
				x.Failf("%s and %s: result %d changed from %q to %q", describe(v), describe(w), j, texts[j], r)
			}
		}
		rs, texts = append(rs, b), append(texts, "")
		f := b[:cap(b)]
		for k := range f {
			f[k] = byte('A' + i)
		}
		texts[i] = string(b)
	}
}

// ---- names of every code point

func allNames(x *core.X) {
	const per = 48
	top := 0x110000
	g := x.Choose("group", (top+per-1)/per)
	var fs []reflect.StructField
	for r := g * per; r < (g+1)*per && r < top; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		name := string(rune(r))
		if x.Thorough && r%2 == 1 {
			name = "a" + name + "z"
		}
		fs = append(fs, sf(fmt.Sprint("F", r-g*per), i8T, "json:"+strconv.Quote(name)))
	}
	if len(fs) == 0 {
		x.Skip()
	}
	t := reflect.StructOf(fs)
	v := reflect.New(t).Elem()
	for i := range fs {
		v.Field(i).SetInt(int64(i))
	}
	want, serr := json.Marshal(v.Interface())
	want = normBF(want)
	b, err := jettison.Marshal(v.Interface())
	if err != nil || serr != nil || !bytes.Equal(b, want) {
		x.Failf("names of the code points %U..: got %q, %v; encoding/json %q, %v", g*per, b, err, want, serr)
	}
	x.Obs(b[:16])
	x.ObsN(int64(len(fs)))
	if g%64 == 0 {
		x.Beat()
	}
}

// ---- chains of pointers to nil

func nilChains(x *core.X) {
	var inners []reflect.Type
	inners = append(inners, inPlaceTypes()...)
	inners = append(inners, anyT, textT, jsonT, reflect.TypeOf(json.RawMessage{}), reflect.TypeOf([0]int{}), reflect.TypeOf(time.Time{}), reflect.TypeOf(json.Number("")))
	for _, m := range manyMethods[:8] {
		inners = append(inners, kit.Lookup("Map", m).T, kit.Lookup("Sl", m).T)
	}
	t := inners[x.Choose("type", len(inners))]
	depth := x.Choose("pointers", 5)
	at := x.Choose("nil at", depth+2)
	outer := x.Choose("around", 4)
	pt := t
	for i := 0; i < depth; i++ {
		pt = reflect.PtrTo(pt)
	}
	v := reflect.New(pt).Elem()
	set := v
	for i := 0; i < depth && i < at; i++ {
		set.Set(reflect.New(set.Type().Elem()))
		set = set.Elem()
	}
	if at > depth && set.Kind() != reflect.Interface {
		set.Set(kit.Fill(set.Type()))
	}
	switch outer {
	case 1:
		v = mkSlice(pt, v)
	case 2:
		v = mkArray(v)
	case 3:
		i := reflect.New(anyT).Elem()
		i.Set(v)
		v = i
	}
	for _, tag := range []string{`json:",omitnil"`, `json:",omitempty"`, `json:",omitempty,omitnil"`, `json:"n,omitnil,string"`, `json:",string,omitempty"`} {
		s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", intT, `json:",omitempty"`), sf("V", v.Type(), tag), sf("B", boolT, ""), sf("W", v.Type(), "")}))
		s.Elem().Field(1).Set(v)
		s.Elem().Field(3).Set(v)
		for _, o := range []*ref.Opts{nil, {NilMapEmpty: true, NilSliceEmpty: true}, {NoCompact: true}} {
			check(x, s.Interface(), o)
			check(x, s.Elem().Interface(), o)
		}
	}
}

// ---- huge values

func hugeSizes(x *core.X, min, max int) int {
	l := edges(min, max)
	if x.Thorough {
		l = edges(min, max*8)
	}
	return l[x.Choose("size", len(l))]
}

func huge(doc string, max int, f func(x *core.X, n int)) *core.Scenario {
	return &core.Scenario{Name: "huge", Doc: doc, SplitDepth: 2, Run: func(x *core.X) {
		f(x, hugeSizes(x, 1<<18, max))
		debug.FreeOSMemory()
		x.Beat()
	}}
}

// hugeSame compares the encoding of v with the text, and what follows.
func hugeSame(x *core.X, what string, v interface{}, o *ref.Opts, want []byte) {
	b, err := enc(v, o)
	sameBytes(x, what, b, want, err)
	p := []byte("prefix")
	if o == nil {
		b, err = jettison.Append(p, v)
	} else {
		b, err = jettison.AppendOpts(p, v, o.Options()...)
	}
	if len(b) < 6 || string(b[:6]) != "prefix" {
		x.Failf("%s: the prefix is lost", what)
	}
	sameBytes(x, what+", appended", b[6:], want, err)
	b, err = jettison.Marshal(map[string]interface{}{"after": []int{1}})
	sameBytes(x, what+", then a small map", b, []byte(`{"after":[1]}`), err)
}

func hugeError(x *core.X, what string, v interface{}, o *ref.Opts) {
	if b, err := enc(v, o); err == nil || b != nil {
		x.Failf("%s: %d bytes, %v; want an error", what, len(b), err)
	}
	b, err := jettison.Marshal(map[string]interface{}{"after": []int{1}})
	sameBytes(x, what+", then a small map", b, []byte(`{"after":[1]}`), err)
	x.Obs([]byte(what))
}

func hugeStd(x *core.X, what string, v interface{}) {
	w, err := json.Marshal(v)
	if err != nil {
		x.Failf("MODEL: %s: %v", what, err)
	}
	hugeSame(x, what, v, nil, normBF(w))
}

func init() {
	drive.Add("C23", &core.Scenario{Name: "deep-options", Doc: "a member of each of 100 types with the option, promoted through 1..33 (256) embedded structs, by value, by pointer, in turn, or only the innermost by pointer, filled and zero", SplitDepth: 2,
		Run: deepOptions([]string{`json:",string"`, `json:"n<,string"`, `json:",string,omitempty"`})})
	drive.Add("C13", &core.Scenario{Name: "deep-options", Doc: "a member of each of 100 types with omitempty, omitnil or both, promoted through 1..33 (256) embedded structs, by value, by pointer, in turn, or only the innermost by pointer, filled and zero", SplitDepth: 2,
		Run: deepOptions([]string{`json:",omitempty"`, `json:",omitnil"`, `json:"n<,omitempty,omitnil"`})},
		&core.Scenario{Name: "nil-chains", Doc: "members of pointers, 0 to 4 deep, to 76 types, nil at each level, plain, in a slice, an array or an interface, with 5 tags, under 3 option sets", SplitDepth: 2, Run: nilChains})
	drive.Add("C04", &core.Scenario{Name: "deep-options", Doc: "a member of each of 100 types, 36 of them with methods, promoted through 1..33 (256) embedded structs, by value, by pointer, in turn, or only the innermost by pointer, filled and zero", SplitDepth: 2,
		Run: deepOptions([]string{``, `json:"n<"`})},
		&core.Scenario{Name: "own-and-promoted", Doc: fmt.Sprintf("%d struct types that embed one of the four method interfaces, or a struct with one of the methods (by value or by pointer, on the value or the pointer), and have up to two of the methods themselves, with and without another member, at every position", len(pgTypes)), SplitDepth: 2,
			Run: func(x *core.X) {
				v := reflect.New(reflect.TypeOf(pgTypes[x.Choose("type", len(pgTypes))]).Elem()).Elem()
				for i := 0; i < v.NumField(); i++ {
					switch f := v.Field(i); f.Kind() {
					case reflect.Interface:
						f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
						f.Set(reflect.ValueOf(pgAll{1}))
					case reflect.Ptr:
						f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
						f.Set(reflect.New(f.Type().Elem()))
					}
				}
				w, _ := at(x, v, places)
				check(x, w, nil)
			}})

	drive.Add("C14", &core.Scenario{Name: "collisions", Doc: "members, listed and not, whose names have the same value under each of 19 hash functions, as lists of one and of many names, allowed and denied", SplitDepth: 1,
		Run: func(x *core.X) {
			collided(x, "", "", smallLetters, func(a, b string) {
				s := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", intT, fmt.Sprintf("json:%q", a)), sf("B", strT, fmt.Sprintf("json:%q", b)), sf("C", boolT, "")}))
				for _, more := range []int{0, 1, 7, 40, 300} {
					l := []string{b}
					for i := 0; i < more; i++ {
						l = append(l, fmt.Sprint("other", i))
					}
					for _, o := range []*ref.Opts{{HasAllow: true, Allow: l}, {HasDeny: true, Deny: l}, {HasAllow: true, Allow: append(l, a), HasDeny: true, Deny: l}} {
						check(x, s.Interface(), o)
						check(x, []interface{}{map[string]interface{}{a: s.Interface()}, s.Elem().Interface()}, o)
					}
					check(x, s.Interface(), &ref.Opts{HasDeny: true, Deny: []string{a}})
					check(x, s.Interface(), &ref.Opts{HasAllow: true, Allow: []string{a}})
				}
			})
		}})
	drive.Add("C03", &core.Scenario{Name: "collisions", Doc: "member names, of tags and of fields, that have the same value under each of 19 hash functions, at the same and at different depths", SplitDepth: 1,
		Run: func(x *core.X) {
			collided(x, "", "", smallLetters, func(a, b string) {
				q := func(s string) string { return fmt.Sprintf("json:%q", s) }
				in := reflect.StructOf([]reflect.StructField{sf("P", intT, q(b)), sf("Q", strT, "")})
				for _, fs := range [][]reflect.StructField{
					{sf("A", intT, q(a)), sf("B", strT, q(b))},
					{sf("A", intT, q(a)), {Name: "In", Type: in, Anonymous: true}},
					{{Name: "In", Type: reflect.PtrTo(in), Anonymous: true}, sf("A", boolT, q(a))},
					{sf("X"+a, intT, ""), sf("X"+b, strT, "")},
				} {
					t := reflect.StructOf(fs)
					checkBoth(x, kit.Fill(t).Interface())
					checkBoth(x, ptrTo(kit.FillN(t, 3)))
				}
			})
		}},
		&core.Scenario{Name: "all-names", Doc: "every code point as a name in a tag (thorough: every second one between letters), 48 to a struct: as encoding/json", SplitDepth: 1, Run: allNames})
	keysColl := func(sync bool) func(x *core.X) {
		return func(x *core.X) {
			prefix := []string{"", `"`}[x.Choose("prefix", 2)]
			collided(x, prefix, "", smallLetters, func(a, b string) {
				for _, o := range []*ref.Opts{nil, {UnsortedMap: true}} {
					for _, ks := range [][]string{{a, b}, {b, a, "a", "z"}} {
						m, tm, sm := map[string]int{}, map[textKey]string{}, syncMapOf()
						for i, k := range ks {
							m[k] = i
							tm[textKey{k}] = k
							sm.Store(k, i)
							sm.Store(textKey{k + "<"}, i)
						}
						if sync {
							check(x, sm, o)
							check(x, []interface{}{sm, syncMapOf(a, b, b, a)}, o)
						} else {
							check(x, m, o)
							check(x, tm, o)
							check(x, []interface{}{map[string]string{a: a}, map[string]string{b: b}, map[string]string{a: b}}, o)
						}
					}
				}
			})
		}
	}
	drive.Add("C06", &core.Scenario{Name: "collisions", Doc: "keys that have the same value under each of 19 hash functions, plain and in quotes, in one map and in turn", SplitDepth: 2, Run: keysColl(false)},
		&core.Scenario{Name: "padded", Doc: "maps of up to 50 keys that consist of 11 beginnings and up to 2 or 9 times one of 13 characters, alone and followed by others, of strings and texts, sorted and not", SplitDepth: 3,
			Run: func(x *core.X) {
				m, tm, im := map[string]int{}, map[textKey]int{}, map[interfaceKey]int{}
				for i, k := range paddedKeys(x) {
					m[k], tm[textKey{k}], im[textKey{k}] = i, i, i
				}
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, NoUTF8Coercion: true}, {NoStringEscaping: true}} {
					check(x, m, o)
					check(x, tm, o)
					check(x, im, o)
				}
			}})
	drive.Add("C07", &core.Scenario{Name: "collisions", Doc: "keys that have the same value under each of 19 hash functions, plain and in quotes, in one sync.Map and in turn", SplitDepth: 2, Run: keysColl(true)},
		&core.Scenario{Name: "padded", Doc: "sync.Maps of up to 50 keys that consist of 11 beginnings and up to 2 or 9 times one of 13 characters, alone and followed by others, of strings and texts, sorted and not", SplitDepth: 3,
			Run: func(x *core.X) {
				m, n := new(sync.Map), new(sync.Map)
				for i, k := range paddedKeys(x) {
					m.Store(k, i)
					if i%2 == 0 {
						n.Store(k, i)
					} else {
						n.Store(textKey{k}, i)
					}
				}
				for _, o := range []*ref.Opts{nil, {NoHTMLEscaping: true, NoUTF8Coercion: true}, {NoStringEscaping: true}} {
					check(x, m, o)
					check(x, n, o)
				}
			}})
	drive.Add("C05", &core.Scenario{Name: "collisions", Doc: "strings that have the same value under each of 19 hash functions, plain and in quotes, one of them or both with special characters behind, in turn, as values, texts, keys, members and raw bytes", SplitDepth: 2,
		Run: func(x *core.X) {
			prefix := []string{"", `"`}[x.Choose("prefix", 2)]
			collided(x, prefix, "", smallLetters, func(a, b string) {
				for _, tail := range []string{"", "<", "\xff\"", "\u2028"} {
					s, u := a+tail, b+tail
					for _, o := range []*ref.Opts{{}, {NoHTMLEscaping: true, RawByteSlice: true}} {
						for _, v := range []interface{}{[]string{s, u, s}, []interface{}{textStr(s), textStr(u), s, u}, map[string]string{s: u, u: s}, []interface{}{[]byte(s), []byte(u)}, struct {
							A string `json:",string"`
							B string `json:",string"`
						}{s, u}} {
							check(x, v, o)
						}
					}
				}
			})
		}})
	drive.Add("C12", &core.Scenario{Name: "collisions", Doc: "raw texts, valid and not, that have the same value under each of 19 hash functions, in turn, as raw messages and as results of MarshalJSON", SplitDepth: 2,
		Run: func(x *core.X) {
			forms := [][3]string{{`"`, `"`, smallLetters}, {"", "", digitLetters}, {`["<`, `" , 1]`, smallLetters}, {"[", "]", "12 345,6"}}
			f := forms[x.Choose("form", len(forms))]
			collided(x, f[0], f[1], f[2], func(a, b string) {
				a, b = f[0]+a+f[1], f[0]+b+f[1]
				for _, o := range []*ref.Opts{{}, {NoHTMLEscaping: true}} {
					for _, s := range []string{a, b, a, b + " ", b} {
						check(x, json.RawMessage(s), o)
						check(x, rawMarshaler(s), o)
						check(x, []interface{}{1, json.RawMessage(s), rawMarshaler(s)}, o)
					}
				}
			})
		}})
	drive.Add("C08", &core.Scenario{Name: "collisions", Doc: "number literals, valid and not, that have the same value under each of 19 hash functions, in turn", SplitDepth: 2,
		Run: func(x *core.X) {
			letters := []string{digitLetters, "123456789.e"}[x.Choose("letters", 2)]
			collided(x, "", "", letters, func(a, b string) {
				for _, s := range []string{a, b, "-" + a, "-" + b, a + ".5", b + ".5", a + "e", b + "e1", a, b} {
					check(x, json.Number(s), nil)
					check(x, []interface{}{json.Number(s), json.Number(b)}, nil)
					check(x, json.Number(s), &ref.Opts{NoNumberValidation: true})
				}
			})
		}})
	drive.Add("C09", &core.Scenario{Name: "collisions", Doc: "layouts that have the same value under each of 19 hash functions, in turn", SplitDepth: 1,
		Run: func(x *core.X) {
			collided(x, "", "", "bcefghikln:-/", func(a, b string) {
				for _, l := range []string{a, b, a + "2006", b + "2006", a, b} {
					check(x, []interface{}{time.Unix(1600000000, 5).UTC(), &[]time.Time{{}}[0]}, &ref.Opts{TimeLayout: l})
				}
			})
		}})
	drive.Add("C17", &core.Scenario{Name: "collisions", Doc: "types, new in every execution, whose texts have the same value under each of 19 hash functions: unnamed structs that differ in one name of a tag, by value, by pointer, in slices and maps", SplitDepth: 1,
		Run: func(x *core.X) {
			collided(x, `struct { A int "json:\"`, "", smallLetters, func(a, b string) {
				var ts [2]reflect.Type
				for i, n := range []string{a, b} {
					ts[i] = reflect.StructOf([]reflect.StructField{sf("A", intT, fmt.Sprintf("json:%q", n))})
				}
				for i := 0; i < 4; i++ {
					v := kit.FillN(ts[i%2], i)
					for _, w := range []interface{}{v.Interface(), ptrTo(v), mkSlice(v.Type(), v).Interface(), mkMap(reflect.ValueOf("k"), v).Interface(), struct{ B interface{} }{v.Interface()}} {
						check(x, w, nil)
					}
				}
			})
		}})
	drive.Add("C16", &core.Scenario{Name: "constants", Doc: "every two of 55 values that are written as constants or in a few bytes (nil, empty, zero, single digits), in turn, through every entry point: results have no memory in common, their owner overwrites them up to their capacity, later results are right", SplitDepth: 2, Run: constants})

	// Sizes beyond those of the ladders.
	drive.Add("C12", huge("raw messages and results of MarshalJSON around the powers of two from 2^18 to 2^22 (2^25) bytes: strings, lists of numbers, white space, nested members, with HTML characters, spaces or nothing, valid or with an error at the beginning, in the middle or at the end", 1<<22,
		func(x *core.X, n int) {
			form, bad := x.Choose("form", 4), x.Choose("error", 4)
			var b []byte
			switch form {
			case 0:
				b = append(append([]byte{'"'}, bytes.Repeat([]byte("x<y"), n/3)...), '"')
			case 1:
				b = append(append([]byte{'['}, bytes.Repeat([]byte("1 ,"), n/3)...), "2]"...)
			case 2:
				b = append(append([]byte{'['}, bytes.Repeat([]byte(" \n\t"), n/3)...), ']')
			case 3:
				b = append(append([]byte{'['}, bytes.Repeat([]byte(`{"a":[]},`), n/9)...), "{}]"...)
			}
			for len(b) < n {
				b = append(b, ' ')
			}
			what := fmt.Sprintf("raw text of form %d, %d bytes, error %d", form, n, bad)
			if bad > 0 {
				b[[]int{0, 1, len(b) / 2, len(b) - 1}[bad]] = 1
				hugeError(x, what, json.RawMessage(b), nil)
				hugeError(x, what, rawMarshaler(b), nil)
				hugeError(x, what, []interface{}{rawMarshaler(b)}, &ref.Opts{NoHTMLEscaping: true})
				return
			}
			var w, h bytes.Buffer
			json.Compact(&w, b)
			json.HTMLEscape(&h, w.Bytes())
			hugeSame(x, what, json.RawMessage(b), nil, h.Bytes())
			hugeSame(x, what, rawMarshaler(b), &ref.Opts{NoHTMLEscaping: true}, w.Bytes())
			hugeSame(x, what, rawMarshaler(b), &ref.Opts{NoCompact: true}, b)
		}))
	drive.Add("C11", huge("byte slices and arrays around the powers of two from 2^18 to 2^23 (2^26) bytes, as base64, raw and as arrays", 1<<23,
		func(x *core.X, n int) {
			n += x.Choose("more", 3)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i * 7 >> 3)
			}
			what := fmt.Sprintf("%d bytes", n)
			hugeStd(x, what, b)
			hugeStd(x, what, nBytes(b))
			hugeStd(x, what, []interface{}{1, b[:n/2], b[:n/4]})
			for i := range b {
				b[i] = 'a' + b[i]%26
			}
			b[n-1], b[n/2], b[0] = '<', '"', '\n'
			w, _ := json.Marshal(string(b))
			hugeSame(x, what, b, &ref.Opts{RawByteSlice: true}, w)
			a := reflect.New(reflect.ArrayOf(n/8+n%3, i8T)).Elem()
			hugeStd(x, what, a.Addr().Interface())
			if n < 1<<22 {
				a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
				reflect.Copy(a, reflect.ValueOf(b))
				hugeSame(x, what, a.Addr().Interface(), &ref.Opts{ByteArrayAsString: true}, w)
			}
		}))
	drive.Add("C05", huge("strings around the powers of two from 2^18 to 2^23 (2^26) bytes, with 12 sequences at both ends, in the middle and at every power of two, or nothing but them", 1<<23,
		func(x *core.X, n int) {
			toks := []string{"\"", "\\", "\n", "<", "\x01", "é", "\u2028", "世", "\U0001f600", "\xff", "\xe2\x80", "\xf0\x9f\x98"}
			tok := toks[x.Choose("sequence", len(toks))]
			what := fmt.Sprintf("string of %d bytes with %q", n, tok)
			b := bytes.Repeat([]byte{'a'}, n)
			for p := 1; p < n; p *= 2 {
				copy(b[p:], tok)
				copy(b[n-p:], tok)
				copy(b[n/2-1:], tok)
			}
			hugeStd(x, what, string(b))
			hugeStd(x, what, textStr(b))
			if n < 1<<22 {
				hugeStd(x, what, map[string]string{string(b): string(b[:n/3])})
				hugeStd(x, what+" alone", strings.Repeat(tok, n/len(tok)))
			}
		}))
	drive.Add("C06", huge("maps one of whose keys or values is around the powers of two from 2^18 to 2^22 (2^25) bytes, first, in the middle or last, followed by another map", 1<<22,
		func(x *core.X, n int) {
			where, kind := x.Choose("where", 3), x.Choose("kind", 4)
			k := string('a' + byte(2*where))
			var v interface{}
			switch s := strings.Repeat("v", n); kind {
			case 0:
				v = map[string]string{"b": "1", k: s, "d": "2"}
			case 1:
				v = map[string]int{"b": 1, k + s: 2, "d": 3}
			case 2:
				v = map[string]map[string]string{"b": {"x": "y"}, k: {"s": s, "r": "1"}, "d": nil}
			case 3:
				m := map[int]string{}
				for i := 0; i < n>>6; i++ {
					m[i*(where*where-3)] = s[:56]
				}
				v = m
			}
			hugeStd(x, fmt.Sprintf("map of kind %d with %d bytes, %d", kind, n, where), v)
		}))
	drive.Add("C07", huge("sync.Maps one of whose keys or values is around the powers of two from 2^18 to 2^22 (2^25) bytes, first, in the middle or last, followed by another map", 1<<22,
		func(x *core.X, n int) {
			where, kind := x.Choose("where", 3), x.Choose("kind", 3)
			k := string('a' + byte(2*where))
			m := map[string]interface{}{"b": 1, "d": 2}
			switch s := strings.Repeat("v", n); kind {
			case 0:
				m[k] = s
			case 1:
				m[k+s] = 1
			case 2:
				m[k] = map[string]string{"x": s, "y": s[:9]}
			}
			sm := new(sync.Map)
			for k, v := range m {
				sm.Store(k, v)
			}
			w, _ := json.Marshal(m)
			hugeSame(x, fmt.Sprintf("sync.Map of kind %d with %d bytes, %d", kind, n, where), sm, nil, w)
		}))
	drive.Add("C16", huge("results around the powers of two from 2^18 to 2^23 (2^26) bytes: each two have no memory in common, and small ones before and after", 1<<23,
		func(x *core.X, n int) {
			s := strings.Repeat("r", n-2)
			var rs [][]byte
			for i := 0; i < 5; i++ {
				v := interface{}(s)
				want := n
				if i%2 == 1 {
					v, want = []interface{}{"small", i}, 11
				}
				b, err := enc(v, []*ref.Opts{nil, {}}[i/2%2])
				if err != nil || len(b) != want {
					x.Failf("result of %d bytes, call %d: %d bytes, %v", n, i, len(b), err)
				}
				for j, r := range rs {
					if !disjoint(r, b) {
						x.Failf("results of %d bytes: %d and %d share memory", n, j, i)
					}
					if i := bytes.IndexByte(r, '#'); i >= 0 {
						x.Failf("result of %d bytes changed at %d", n, i)
					}
				}
				rs = append(rs, b)
				for j := len(b); j < cap(b); j++ {
					b[:cap(b)][j] = '#'
				}
			}
			x.Obs([]byte(fmt.Sprint(n)))
		}))
	drive.Add("C13", huge("structs with a first member around the powers of two from 2^18 to 2^22 (2^25) bytes, followed by members that are omitted, before they are written or after it", 1<<22,
		func(x *core.X, n int) {
			type st struct {
				A string
				B *int         `json:",omitempty"`
				C rawMarshaler `json:",omitnil"`
				D []int        `json:",omitnil"`
				E *hugeNull    `json:",omitnil"`
				F int          `json:",omitempty"`
				G string
			}
			s := strings.Repeat("s", n)
			g, _ := json.Marshal(s)
			for i, v := range []st{{A: s}, {A: s, C: rawMarshaler("null")}, {A: s, E: new(hugeNull), F: 1}, {A: "a", C: rawMarshaler(g)}, {A: s, C: rawMarshaler("[]"), G: s[:n/2]}} {
				nd, want := ref.Encode(v, nil)
				if want != nil {
					x.Failf("MODEL: %v", want)
				}
				hugeSame(x, fmt.Sprintf("struct %d with %d bytes", i, n), v, nil, nd.Bytes())
				hugeSame(x, fmt.Sprintf("pointer to struct %d with %d bytes", i, n), &v, nil, nd.Bytes())
			}
		}))
	drive.Add("C19", huge("values that fail after around 2^18 to 2^23 (2^26) bytes: no data with the error, and the next ones are right", 1<<23,
		func(x *core.X, n int) {
			s := strings.Repeat("s", n)
			ch := make(chan int)
			for i, v := range []interface{}{[]interface{}{s, ch}, map[string]interface{}{"a": s, "b": ch}, syncMapOf("a", s, "b", ch), struct {
				A string
				B json.Number
			}{s, "x"}, []interface{}{s, rawMarshaler(s)}, []rawMarshaler{rawMarshaler(`"` + s + `"`), rawMarshaler("{")}} {
				hugeError(x, fmt.Sprintf("failure %d after %d bytes", i, n), v, nil)
				hugeError(x, fmt.Sprintf("failure %d after %d bytes", i, n), v, &ref.Opts{UnsortedMap: true})
			}
		}))
	drive.Add("C22", huge("append methods, with a context and without, that are given and return around 2^18 to 2^23 (2^26) bytes: called once, their bytes are the result", 1<<23,
		func(x *core.X, n int) {
			calls := 0
			p := strings.Repeat("p", n)
			a := &hugeApp{n: n, calls: &calls}
			w := append(append([]byte(`"`), bytes.Repeat([]byte{'q'}, n)...), '"')
			for i, v := range []interface{}{a, []interface{}{p, a}, []*hugeApp{a, {3, &calls}, a}, map[string]interface{}{"a": p, "b": a}, syncMapOf("a", a)} {
				calls = 0
				var want []byte
				switch i {
				case 0:
					want = w
				case 1:
					want = []byte(`["` + p + `",` + string(w) + `]`)
				case 2:
					want = []byte(`[` + string(w) + `,"qqq",` + string(w) + `]`)
				case 3:
					want = []byte(`{"a":"` + p + `","b":` + string(w) + `}`)
				case 4:
					want = []byte(`{"a":` + string(w) + `}`)
				}
				b, err := jettison.Marshal(v)
				sameBytes(x, fmt.Sprintf("append method %d of %d bytes", i, n), b, want, err)
				if c := []int{1, 1, 3, 1, 1}[i]; calls != c {
					x.Failf("append method %d of %d bytes: %d calls, want %d", i, n, calls, c)
				}
			}
		}))
	drive.Add("C01", huge("slices of 2^18 to 2^21 (2^24) elements of 10 types, around the powers of two: as encoding/json", 1<<21,
		func(x *core.X, n int) {
			ts := []reflect.Type{intT, strT, boolT, i8T, anyT, reflect.TypeOf(0.0), reflect.TypeOf((*int)(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf([1]int{}), reflect.TypeOf(struct{ A int8 }{})}
			t := ts[x.Choose("type", len(ts))]
			s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
			for i := 0; i < n; i += 1 + n/1000 {
				if t.Kind() == reflect.Interface {
					s.Index(i).Set(reflect.ValueOf(i))
				} else {
					s.Index(i).Set(kit.FillN(t, i))
				}
			}
			hugeStd(x, fmt.Sprintf("%d elements of type %v", n, t), s.Interface())
		}))
}

type hugeApp struct {
	n     int
	calls *int
}

func (h *hugeApp) AppendJSON(b []byte) ([]byte, error) {
	*h.calls++
	b = append(b, '"')
	for i := 0; i < h.n; i++ {
		b = append(b, 'q')
	}
	return append(b, '"'), nil
}

type hugeNull struct{}

func (*hugeNull) MarshalJSON() ([]byte, error) { return []byte("null"), nil }

type interfaceKey interface {
	MarshalText() ([]byte, error)
}
