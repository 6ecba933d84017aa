// Package ref is the reference model of the encoder: a deliberately plain,
// reflection-based transcription of the documented rules. It shares no code
// with the package under test.
package ref

import (
	"bytes"
	"context"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

// Opts are the options of one call.
type Opts struct {
	Ctx                context.Context
	UnixTime           bool
	UnsortedMap        bool
	RawByteSlice       bool
	ByteArrayAsString  bool
	NilMapEmpty        bool
	NilSliceEmpty      bool
	NoStringEscaping   bool
	NoHTMLEscaping     bool
	NoUTF8Coercion     bool
	NoCompact          bool
	NoNumberValidation bool
	TimeLayout         string // "": default
	HasDur             bool
	Dur                jettison.DurationFmt
	HasAllow, HasDeny  bool
	Allow, Deny        []string
}

// FlagNames are the names of the boolean options, in the order of SetFlags.
var FlagNames = []string{"UnixTime", "UnsortedMap", "RawByteSlice", "ByteArrayAsString", "NilMapEmpty", "NilSliceEmpty",
	"NoStringEscaping", "NoHTMLEscaping", "NoUTF8Coercion", "NoCompact", "NoNumberValidation"}

func (o *Opts) flagPtrs() []*bool {
	return []*bool{&o.UnixTime, &o.UnsortedMap, &o.RawByteSlice, &o.ByteArrayAsString, &o.NilMapEmpty, &o.NilSliceEmpty,
		&o.NoStringEscaping, &o.NoHTMLEscaping, &o.NoUTF8Coercion, &o.NoCompact, &o.NoNumberValidation}
}

// SetFlags sets the boolean options from a bit mask.
func (o *Opts) SetFlags(m int) *Opts {
	for i, p := range o.flagPtrs() {
		*p = m>>uint(i)&1 == 1
	}
	return o
}

// Options returns the options for the package under test.
func (o *Opts) Options() []jettison.Option {
	var r []jettison.Option
	mk := []func() jettison.Option{jettison.UnixTime, jettison.UnsortedMap, jettison.RawByteSlice, jettison.ByteArrayAsString,
		jettison.NilMapEmpty, jettison.NilSliceEmpty, jettison.NoStringEscaping, jettison.NoHTMLEscaping, jettison.NoUTF8Coercion,
		jettison.NoCompact, jettison.NoNumberValidation}
	for i, p := range o.flagPtrs() {
		if *p {
			r = append(r, mk[i]())
		}
	}
	if o.TimeLayout != "" {
		r = append(r, jettison.TimeLayout(o.TimeLayout))
	}
	if o.HasDur {
		r = append(r, jettison.DurationFormat(o.Dur))
	}
	if o.Ctx != nil {
		r = append(r, jettison.WithContext(o.Ctx))
	}
	if o.HasAllow {
		r = append(r, jettison.AllowList(o.Allow))
	}
	if o.HasDeny {
		r = append(r, jettison.DenyList(o.Deny))
	}
	return r
}

func (o *Opts) String() string {
	var s []string
	for i, p := range o.flagPtrs() {
		if *p {
			s = append(s, FlagNames[i])
		}
	}
	if o.TimeLayout != "" {
		s = append(s, fmt.Sprintf("TimeLayout(%q)", o.TimeLayout))
	}
	if o.HasDur {
		s = append(s, fmt.Sprintf("DurationFormat(%d)", int(o.Dur)))
	}
	if o.Ctx != nil {
		s = append(s, "WithContext")
	}
	if o.HasAllow {
		s = append(s, fmt.Sprintf("AllowList(%q)", o.Allow))
	}
	if o.HasDeny {
		s = append(s, fmt.Sprintf("DenyList(%q)", o.Deny))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Error is what the model predicts when a value cannot be encoded.
type Error struct {
	Kind string // type, value, marshaler, number, raw, year, key
	Type reflect.Type
	Err  error
}

func (e *Error) Error() string { return fmt.Sprintf("%s %v %v", e.Kind, e.Type, e.Err) }

// Node is the expected output: ordered pieces, or members in any order.
type Node struct {
	lit       []byte
	kids      []*Node
	unordered bool // kids are "key":value members of a map
	key       []byte
}

func lit(s string) *Node       { return &Node{lit: []byte(s)} }
func (n *Node) add(k ...*Node) { n.kids = append(n.kids, k...) }

// Bytes is the output with map members in sorted order.
func (n *Node) Bytes() []byte { return n.append(nil) }

func (n *Node) append(b []byte) []byte {
	if n.lit != nil {
		b = append(b, n.lit...)
	}
	for i, k := range n.kids {
		if n.unordered && i > 0 {
			b = append(b, ',')
		}
		b = k.append(b)
	}
	return b
}

// Match tells whether b is the expected output.
func (n *Node) Match(b []byte) bool {
	rest, ok := n.match(b)
	return ok && len(rest) == 0
}

func (n *Node) match(b []byte) ([]byte, bool) {
	if n.lit != nil {
		if !bytes.HasPrefix(b, n.lit) {
			return b, false
		}
		b = b[len(n.lit):]
	}
	if !n.unordered {
		for _, k := range n.kids {
			var ok bool
			if b, ok = k.match(b); !ok {
				return b, false
			}
		}
		return b, true
	}
	used := make([]bool, len(n.kids))
	for i := range n.kids {
		if i > 0 {
			if len(b) == 0 || b[0] != ',' {
				return b, false
			}
			b = b[1:]
		}
		found := false
		for j, k := range n.kids {
			if used[j] || !bytes.HasPrefix(b, k.lit) {
				continue
			}
			// with equal keys, a value may be the beginning of another
			if r, ok := k.match(b); ok && (len(r) == 0 || r[0] == ',' || r[0] == '}') {
				b, used[j], found = r, true, true
				break
			}
		}
		if !found {
			return b, false
		}
	}
	return b, true
}

var (
	ctxT  = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
	appT  = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	jsonT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textT = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()

	timeT = reflect.TypeOf(time.Time{})
	durT  = reflect.TypeOf(time.Duration(0))
	numT  = reflect.TypeOf(json.Number(""))
	rawT  = reflect.TypeOf(json.RawMessage(nil))
	// SyncT is the type that is encoded as a sync.Map.
	SyncT   = reflect.TypeOf(sync.Map{})
	methodT = []reflect.Type{ctxT, appT, jsonT, textT}
)

type enc struct {
	o *Opts
}

// Encode predicts the outcome of encoding v.
func Encode(v interface{}, o *Opts) (n *Node, err *Error) {
	if o == nil {
		o = &Opts{}
	}
	if v == nil {
		return lit("null"), nil
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case *Error:
			n, err = nil, e
		default:
			panic(e)
		}
	}()
	return (&enc{o}).value(reflect.ValueOf(v), false), nil
}

// EncodeBytes is Encode for outcomes that have a single form.
func EncodeBytes(v interface{}, o *Opts) ([]byte, *Error) {
	n, err := Encode(v, o)
	if err != nil {
		return nil, err
	}
	return n.Bytes(), nil
}

func fail(kind string, t reflect.Type, err error) { panic(&Error{kind, t, err}) }

func (e *enc) str(s string) *Node {
	return &Node{lit: append(AppendEscaped([]byte{'"'}, s, e.o), '"')}
}

// AppendEscaped appends the content of the JSON string for s.
func AppendEscaped(dst []byte, s string, o *Opts) []byte {
	if o.NoStringEscaping {
		return append(dst, s...)
	}
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			if o.NoUTF8Coercion {
				dst = append(dst, s[i])
			} else {
				dst = append(dst, `\ufffd`...)
			}
		case r == '"':
			dst = append(dst, `\"`...)
		case r == '\\':
			dst = append(dst, `\\`...)
		case r == '\n':
			dst = append(dst, `\n`...)
		case r == '\r':
			dst = append(dst, `\r`...)
		case r == '\t':
			dst = append(dst, `\t`...)
		case r < ' ', r == '\u2028', r == '\u2029', !o.NoHTMLEscaping && (r == '<' || r == '>' || r == '&'):
			dst = append(dst, fmt.Sprintf(`\u%04x`, r)...)
		default:
			dst = append(dst, s[i:i+n]...)
		}
		i += n
	}
	return dst
}

func (e *enc) float(f float64, bits int) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		fail("value", nil, nil)
	}
	var b []byte
	if bits == 32 {
		b, _ = json.Marshal(float32(f))
	} else {
		b, _ = json.Marshal(f)
	}
	return string(b)
}

// rawTime is the text of a time; quoted tells if it is a JSON string.
func (e *enc) rawTime(t time.Time) (s string, quoted bool) {
	if y := t.Year(); y < 0 || y > 9999 {
		fail("year", nil, nil)
	}
	if e.o.UnixTime {
		return strconv.FormatInt(t.Unix(), 10), false
	}
	l := e.o.TimeLayout
	if l == "" {
		l = time.RFC3339Nano
	}
	return t.Format(l), true
}

func (e *enc) rawDuration(d time.Duration) (s string, quoted bool) {
	f := jettison.DurationNanoseconds
	if e.o.HasDur {
		f = e.o.Dur
	}
	switch f {
	case jettison.DurationString:
		return d.String(), true
	case jettison.DurationMinutes:
		return e.float(d.Minutes(), 64), false
	case jettison.DurationSeconds:
		return e.float(d.Seconds(), 64), false
	case jettison.DurationMilliseconds:
		return strconv.FormatInt(int64(d)/1000000, 10), false
	case jettison.DurationMicroseconds:
		return strconv.FormatInt(int64(d)/1000, 10), false
	}
	return strconv.FormatInt(int64(d), 10), false
}

func quote(n *Node) *Node { return &Node{lit: append(append([]byte{'"'}, n.Bytes()...), '"')} }

// ValidNumber is the JSON number grammar.
func ValidNumber(s string) bool {
	i := 0
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '0' {
		i++
	} else if !digits() {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !digits() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digits() {
			return false
		}
	}
	return i == len(s)
}

// Raw is how raw JSON is inserted.
func (e *enc) raw(b []byte, t reflect.Type) *Node {
	if e.o.NoCompact {
		return &Node{lit: append([]byte{}, b...)}
	}
	if !json.Valid(b) {
		fail("marshaler", t, nil)
	}
	return &Node{lit: CompactJSON(b, !e.o.NoHTMLEscaping)}
}

// CompactJSON is json.Compact, with the HTML characters escaped on request;
// the line separators are escaped in any case, like the package does.
func CompactJSON(b []byte, html bool) []byte {
	var c, h bytes.Buffer
	if err := json.Compact(&c, b); err != nil {
		return nil
	}
	if html {
		json.HTMLEscape(&h, c.Bytes())
		return h.Bytes()
	}
	r := bytes.ReplaceAll(c.Bytes(), []byte("\u2028"), []byte(`\u2028`))
	return bytes.ReplaceAll(r, []byte("\u2029"), []byte(`\u2029`))
}

func clean(v reflect.Value) reflect.Value {
	if !v.CanInterface() && v.CanAddr() {
		return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
	}
	return v
}

func (e *enc) value(v reflect.Value, quoted bool) *Node {
	v = clean(v)
	t := v.Type()
	switch t {
	case SyncT:
		return e.syncMap(v)
	case timeT:
		if s, q := e.rawTime(v.Interface().(time.Time)); q {
			return e.str(s)
		} else {
			return lit(s)
		}
	case durT:
		if s, q := e.rawDuration(time.Duration(v.Int())); q {
			return e.str(s)
		} else if quoted {
			return lit(`"` + s + `"`)
		} else {
			return lit(s)
		}
	case numT:
		s := v.String()
		if s == "" {
			s = "0"
		}
		if !e.o.NoNumberValidation && !ValidNumber(s) {
			fail("number", nil, nil)
		}
		if quoted {
			s = `"` + s + `"`
		}
		return lit(s)
	case rawT:
		if v.IsNil() {
			return lit("null")
		}
		return e.raw(v.Bytes(), t)
	}
	if t.Kind() == reflect.Ptr && t.Elem() == timeT { // the options apply, not the method
		if v.IsNil() {
			return lit("null")
		}
		return e.value(v.Elem(), quoted)
	}
	for _, m := range methodT {
		if t.Implements(m) {
			if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
				return lit("null")
			}
			return e.method(m, v.Interface(), t)
		}
		if t.Kind() != reflect.Ptr && v.CanAddr() && reflect.PtrTo(t).Implements(m) {
			return e.method(m, v.Addr().Interface(), reflect.PtrTo(t))
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		return e.scalar(strconv.FormatBool(v.Bool()), quoted)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.scalar(strconv.FormatInt(v.Int(), 10), quoted)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return e.scalar(strconv.FormatUint(v.Uint(), 10), quoted)
	case reflect.Float32:
		return e.scalar(e.float(v.Float(), 32), quoted)
	case reflect.Float64:
		return e.scalar(e.float(v.Float(), 64), quoted)
	case reflect.String:
		n := e.str(v.String())
		if quoted {
			if e.o.NoStringEscaping {
				return lit(`"\"` + v.String() + `\""`)
			}
			o := *e.o
			o.NoHTMLEscaping = true
			return (&enc{&o}).str(string(n.Bytes()))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return lit("null")
		}
		return e.value(v.Elem(), false)
	case reflect.Ptr:
		if v.IsNil() {
			return lit("null")
		}
		return e.value(v.Elem(), quoted)
	case reflect.Struct:
		return e.structure(v)
	case reflect.Map:
		return e.goMap(v)
	case reflect.Slice:
		if isBytes(t.Elem()) {
			if v.IsNil() {
				return lit("null")
			}
			if e.o.RawByteSlice {
				return e.str(string(v.Bytes()))
			}
			return lit(`"` + base64.StdEncoding.EncodeToString(v.Bytes()) + `"`)
		}
		if v.IsNil() {
			if e.o.NilSliceEmpty {
				return lit("[]")
			}
			return lit("null")
		}
		return e.list(v)
	case reflect.Array:
		if isBytes(t.Elem()) && e.o.ByteArrayAsString {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return e.str(string(b))
		}
		return e.list(v)
	}
	fail("type", t, nil)
	return nil
}

func (e *enc) scalar(s string, quoted bool) *Node {
	if quoted {
		return lit(`"` + s + `"`)
	}
	return lit(s)
}

func isBytes(et reflect.Type) bool {
	if et.Kind() != reflect.Uint8 {
		return false
	}
	for _, m := range methodT {
		if reflect.PtrTo(et).Implements(m) {
			return false
		}
	}
	return true
}

func (e *enc) list(v reflect.Value) *Node {
	n := &Node{}
	n.add(lit("["))
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			n.add(lit(","))
		}
		n.add(e.value(v.Index(i), false))
	}
	n.add(lit("]"))
	return n
}

func (e *enc) method(m reflect.Type, r interface{}, t reflect.Type) *Node {
	var (
		b   []byte
		err error
	)
	switch m {
	case ctxT:
		c := e.o.Ctx
		if c == nil {
			c = context.TODO()
		}
		b, err = r.(jettison.AppendMarshalerCtx).AppendJSONContext(c, nil)
	case appT:
		b, err = r.(jettison.AppendMarshaler).AppendJSON(nil)
	case jsonT:
		b, err = r.(json.Marshaler).MarshalJSON()
	case textT:
		b, err = r.(encoding.TextMarshaler).MarshalText()
	}
	if err != nil {
		fail("marshaler", t, err)
	}
	switch m {
	case jsonT:
		return e.raw(b, t)
	case textT:
		return e.str(string(b))
	}
	return &Node{lit: append([]byte{}, b...)}
}

func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Uintptr }

// key resolves a map key to its text.
func (e *enc) key(k reflect.Value) string {
	k = clean(k)
	t := k.Type()
	switch {
	case t.Kind() == reflect.String:
		return k.String()
	case t == timeT:
		s, _ := e.rawTime(k.Interface().(time.Time))
		return s
	case t == durT:
		s, _ := e.rawDuration(time.Duration(k.Int()))
		return s
	case t.Implements(textT):
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && k.IsNil() {
			return ""
		}
		b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			fail("marshaler", t, err)
		}
		return string(b)
	case k.CanInt():
		return strconv.FormatInt(k.Int(), 10)
	default:
		return strconv.FormatUint(k.Uint(), 10)
	}
}

type entry struct {
	raw string
	val *Node
}

func (e *enc) object(ents []entry) *Node {
	n := &Node{}
	if len(ents) == 0 {
		return lit("{}")
	}
	sort.SliceStable(ents, func(i, j int) bool { return ents[i].raw < ents[j].raw })
	m := &Node{unordered: true}
	for _, x := range ents {
		k := e.str(x.raw)
		mem := &Node{lit: append(append([]byte{}, k.lit...), ':')}
		mem.add(x.val)
		m.add(mem)
	}
	for i, j := 0, 0; i < len(ents); i = j {
		for j = i + 1; j < len(ents) && ents[j].raw == ents[i].raw; j++ {
		}
		if g := m.kids[i:j]; len(g) > 1 {
			sort.Slice(g, func(i, j int) bool { return bytes.Compare(g[i].Bytes(), g[j].Bytes()) < 0 })
		}
	}
	if !e.o.UnsortedMap {
		s := &Node{}
		for i := 0; i < len(ents); {
			if i > 0 {
				s.add(lit(","))
			}
			j := i + 1
			for j < len(ents) && ents[j].raw == ents[i].raw {
				j++
			}
			if j == i+1 {
				s.add(m.kids[i])
			} else {
				// keys that are encoded alike have no order
				s.add(&Node{unordered: true, kids: m.kids[i:j]})
			}
			i = j
		}
		m = s
	}
	n.add(lit("{"), m, lit("}"))
	return n
}

func (e *enc) goMap(v reflect.Value) *Node {
	t := v.Type()
	if kt := t.Key(); kt.Kind() != reflect.String && !isInt(kt.Kind()) && !kt.Implements(textT) {
		fail("type", t, nil)
	}
	if v.IsNil() {
		if e.o.NilMapEmpty {
			return lit("{}")
		}
		return lit("null")
	}
	var ents []entry
	it := v.MapRange()
	for it.Next() {
		ents = append(ents, entry{e.key(it.Key()), e.value(it.Value(), false)})
	}
	return e.object(ents)
}

func (e *enc) syncMap(v reflect.Value) *Node {
	if !v.CanAddr() {
		p := reflect.New(SyncT)
		p.Elem().Set(v)
		v = p.Elem()
	}
	sm := v.Addr().Interface().(interface {
		Range(func(k, v interface{}) bool)
	})
	var ents []entry
	sm.Range(func(k, val interface{}) bool {
		if k == nil {
			fail("key", nil, nil)
		}
		kv := reflect.ValueOf(k)
		kt := kv.Type()
		if kt.Kind() != reflect.String && !isInt(kt.Kind()) && !kt.Implements(textT) {
			fail("key", kt, nil)
		}
		raw := e.key(kv)
		var n *Node
		if val == nil {
			n = lit("null")
		} else {
			n = e.value(reflect.ValueOf(val), false)
		}
		ents = append(ents, entry{raw, n})
		return true
	})
	return e.object(ents)
}

// Field is a member selected by the encoding/json rules.
type Field struct {
	Name      string
	Index     []int
	Typ       reflect.Type
	Tagged    bool
	OmitEmpty bool
	OmitNil   bool
	Quoted    bool
}

var fieldCache sync.Map

// Fields returns the members of a struct type, in order.
func Fields(t reflect.Type) []Field {
	if f, ok := fieldCache.Load(t); ok {
		return f.([]Field)
	}
	f := fields(t)
	fieldCache.Store(t, f)
	return f
}

func validName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return true
}

func basicKind(k reflect.Kind) bool {
	return k == reflect.Bool || isInt(k) || k == reflect.Float32 || k == reflect.Float64 || k == reflect.String
}

func fields(t reflect.Type) []Field {
	type level struct {
		typ   reflect.Type
		index []int
		multi bool
	}
	var (
		all     []Field // in breadth-first order, with copies for repeated types
		visited = map[reflect.Type]bool{}
		cur     = []level{{typ: t}}
	)
	for len(cur) > 0 {
		count := map[reflect.Type]int{}
		var nxt []level
		for _, l := range cur {
			if visited[l.typ] {
				continue
			}
			visited[l.typ] = true
			for i := 0; i < l.typ.NumField(); i++ {
				sf := l.typ.Field(i)
				st := sf.Type
				if sf.Anonymous {
					if st.Kind() == reflect.Ptr {
						st = st.Elem()
					}
					if !sf.IsExported() && st.Kind() != reflect.Struct {
						continue
					}
				} else if !sf.IsExported() {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !validName(name) {
					name = ""
				}
				idx := append(append([]int{}, l.index...), i)
				ft := sf.Type
				if ft.Name() == "" && ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				if name == "" && sf.Anonymous && ft.Kind() == reflect.Struct {
					count[ft]++
					if count[ft] == 1 {
						nxt = append(nxt, level{ft, idx, false})
					}
					continue
				}
				f := Field{Name: name, Tagged: name != "", Index: idx, Typ: sf.Type}
				if name == "" {
					f.Name = sf.Name
				}
				for _, o := range parts[1:] {
					switch o {
					case "omitempty":
						f.OmitEmpty = true
					case "omitnil":
						f.OmitNil = true
					case "string":
						f.Quoted = basicKind(ft.Kind())
					}
				}
				all = append(all, f)
				if l.multi {
					all = append(all, f)
				}
			}
		}
		for i := range nxt {
			nxt[i].multi = count[nxt[i].typ] > 1
		}
		cur = nxt
	}
	byName := map[string][]Field{}
	for _, f := range all {
		byName[f.Name] = append(byName[f.Name], f)
	}
	var out []Field
	for _, fs := range byName {
		best := math.MaxInt32
		for _, f := range fs {
			if len(f.Index) < best {
				best = len(f.Index)
			}
		}
		var at, tagged []Field
		for _, f := range fs {
			if len(f.Index) == best {
				at = append(at, f)
				if f.Tagged {
					tagged = append(tagged, f)
				}
			}
		}
		if len(tagged) > 0 {
			at = tagged
		}
		if len(at) == 1 {
			out = append(out, at[0])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].Index, out[j].Index
		for k := range a {
			if k >= len(b) {
				return false
			}
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (e *enc) structure(v reflect.Value) *Node {
	n := &Node{}
	first := true
next:
	for _, f := range Fields(v.Type()) {
		if e.o.HasDeny && contains(e.o.Deny, f.Name) || e.o.HasAllow && !contains(e.o.Allow, f.Name) {
			continue
		}
		fv := v
		for i, x := range f.Index {
			if i > 0 && fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					continue next
				}
				fv = fv.Elem()
			}
			fv = clean(fv.Field(x))
		}
		k := f.Typ.Kind()
		if f.OmitNil && (k == reflect.Ptr || k == reflect.Interface || k == reflect.Slice || k == reflect.Map) && fv.IsNil() {
			continue
		}
		if f.OmitEmpty && empty(fv) {
			continue
		}
		val := e.value(fv, f.Quoted)
		if f.OmitNil && (f.Typ.Implements(jsonT) || reflect.PtrTo(f.Typ).Implements(jsonT)) && string(val.Bytes()) == "null" {
			continue
		}
		sep := ","
		if first {
			sep = "{"
		}
		first = false
		n.add(lit(sep), e.member(f.Name), val)
	}
	if first {
		return lit("{}")
	}
	n.add(lit("}"))
	return n
}

// member names contain no character that needs escaping but the HTML ones.
func (e *enc) member(name string) *Node {
	o := Opts{NoHTMLEscaping: e.o.NoHTMLEscaping}
	return &Node{lit: append((&enc{&o}).str(name).lit, ':')}
}

func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Interface, reflect.Ptr:
		return v.IsNil()
	}
	return false
}

// CheckErr tells whether err is what the model predicts ("" if so).
func CheckErr(err error, want *Error) string {
	switch want.Kind {
	case "type":
		var u *jettison.UnsupportedTypeError
		if !errors.As(err, &u) {
			return fmt.Sprintf("error %T (%v), want UnsupportedTypeError for %v", err, err, want.Type)
		}
		if u.Type != want.Type {
			return fmt.Sprintf("UnsupportedTypeError for %v, want %v", u.Type, want.Type)
		}
	case "value":
		var u *jettison.UnsupportedValueError
		if !errors.As(err, &u) {
			return fmt.Sprintf("error %T (%v), want UnsupportedValueError", err, err)
		}
	case "marshaler":
		var m *jettison.MarshalerError
		if !errors.As(err, &m) {
			return fmt.Sprintf("error %T (%v), want MarshalerError", err, err)
		}
		if want.Err != nil && !errors.Is(err, want.Err) && !sameText(err, want.Err) {
			return fmt.Sprintf("MarshalerError %v does not wrap the method's error %v", err, want.Err)
		}
		if want.Type != nil && m.Type != want.Type && deref(m.Type) != deref(want.Type) {
			return fmt.Sprintf("MarshalerError for %v, want %v", m.Type, want.Type)
		}
	}
	return ""
}

func deref(t reflect.Type) reflect.Type {
	if t != nil && t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

// sameText tells whether an error like want is in the chain of err: some
// methods return a new one for every call.
func sameText(err, want error) bool {
	for ; err != nil; err = errors.Unwrap(err) {
		if reflect.TypeOf(err) == reflect.TypeOf(want) && err.Error() == want.Error() {
			return true
		}
	}
	return false
}

// Merge sets the flags that are set in p.
func (o *Opts) Merge(p *Opts) {
	a, b := o.flagPtrs(), p.flagPtrs()
	for i := range a {
		*a[i] = *a[i] || *b[i]
	}
}
