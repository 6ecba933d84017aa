package main

import (
	"fmt"
	"reflect"
	"unicode"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/ref"
)

// Declarations whose identifiers are not the usual ones.
type (
	idBlank struct {
		_ int    `json:"x"`
		A int    `json:"a"`
		_ string `json:"a"`
		_ *int
	}
	idLetters struct {
		É     int
		Ünï   string
		Ж     *int
		é     int
		世     int
		X世    int
		Ǆ     int // upper case
		ǅ     int // title case
		A_    int
		Ａ     int
		A١    int
		Ω, ω  int
		X_1_2 bool `json:",omitempty"`
		É2    int  `json:"É"`
	}
	idGen[T any]     struct{ V T }
	idGen2[K, V any] struct {
		K K
		W V
	}
	idGenP[T any] struct{ P *T }
	IDGen[T any]  struct{ V2 T }
	idRec[T any]  struct {
		V T
		N *idRec[T]
	}
	idEmbedsGen struct{ idGen[int] }
	idEmbedsTwo struct {
		idGen[int]
		idGen2[string, bool]
	}
	idEmbedsPtr    struct{ *IDGen[[]string] }
	idEmbedsTagged struct {
		IDGen[map[string]int] `json:"g<"`
	}
	idEmbedsSame struct {
		idInA
		idInB
	}
	idInA           struct{ idGen[int] }
	idInB           struct{ idGen[string] }
	idInC           struct{ idGen[int] }
	idEmbedsSameGen struct {
		idInA
		idInC
	}
	idNamedGen       idGen[string]
	idAliasGen       = idGen[[]byte]
	idFuncLocal      interface{ local() }
	Élan             struct{ Mot string }
	idEmbedsÉ        struct{ Élan }
	idEmbedsÉPtr     struct{ *Élan }
	élan             struct{ Petit string }
	idEmbedsLower    struct{ élan }
	Ѐint             int
	idEmbedsInt      struct{ Ѐint }
	idEmbedsIntPtr   struct{ *Ѐint }
	ѐint             int
	idEmbedsLowerInt struct {
		ѐint
		A int
	}
	idShadow struct {
		Élan
		Mot int
	}
	idShadowTag struct {
		Élan
		M int `json:"Mot"`
	}
	idArrow[K comparable] struct{ M map[K]K }
)

func idLocals() []interface{} {
	type local struct{ A int }
	type emb struct{ local }
	a := []interface{}{local{1}, emb{local{2}}}
	{
		type local struct{ B string }
		type emb struct {
			local
			A int
		}
		a = append(a, local{"x"}, emb{local{"y"}, 3})
	}
	type gen[T any] struct {
		local
		G T
	}
	return append(a, gen[int]{local{4}, 5}, gen[string]{local{4}, "z"}, gen[gen[int]]{})
}

func init() {
	var runes []rune
	for r := rune(0x80); r <= unicode.MaxRune; r++ {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			runes = append(runes, r)
		}
	}
	const per = 128
	drive.Add("C03",
		&core.Scenario{Name: "identifiers", Doc: fmt.Sprintf("structs with members named by each of the %d letters and digits outside ASCII, after another letter, and alone where it is upper case, without a tag, in the tag, and with another's name as tag; as encoding/json and as the model's, with and without NoHTMLEscaping", len(runes)),
			SplitDepth: 1,
			Run: func(x *core.X) {
				b := x.Choose("block", (len(runes)+per-1)/per)
				var fs, ts []reflect.StructField
				for i := b * per; i < len(runes) && i < (b+1)*per; i++ {
					r := runes[i]
					fs = append(fs, sf("X"+string(r), intT, ""))
					ts = append(ts, sf("X"+string(r), intT, fmt.Sprintf(`json:"%c,omitempty"`, r)))
					if unicode.IsUpper(r) {
						fs = append(fs, sf(string(r), intT, ""))
						ts = append(ts, sf(string(r), intT, fmt.Sprintf(`json:"%c%c"`, r, r)))
					}
				}
				for _, l := range [][]reflect.StructField{fs, ts} {
					v := reflect.New(reflect.StructOf(l)).Elem()
					for i := 0; i < v.NumField(); i++ {
						v.Field(i).SetInt(int64(i + 1))
					}
					checkStd(x, v.Interface())
					check(x, v.Interface(), &ref.Opts{NoHTMLEscaping: true})
					check(x, v.Addr().Interface(), &ref.Opts{HasDeny: true, Deny: []string{l[0].Name, l[len(l)/2].Name, string([]rune(l[0].Name)[1:])}})
				}
				x.Beat()
			}},
		&core.Scenario{Name: "declarations", Doc: "blank members, members, types and embedded types named in other alphabets, generic types embedded, instantiated twice, recursive and nested, types declared in functions that share their names; by all ways of placing them, as encoding/json and as the model's",
			SplitDepth: 1,
			Run: func(x *core.X) {
				one := 1
				ei := Ѐint(7)
				l := append(idLocals(), idBlank{A: 1}, idLetters{É: 1, Ж: &one, é: 2, 世: 3, X世: 4, Ǆ: 5, ǅ: 6, Ａ: 7, A١: 8, Ω: 9, ω: 10, É2: 11},
					idGen[int]{1}, idGen[string]{"<"}, idGen[idGen[int]]{}, idGen2[string, int]{"k", 1}, idGenP[int]{&one}, IDGen[[]byte]{[]byte("x")}, idRec[int]{1, &idRec[int]{V: 2}}, idRec[*idRec[int]]{},
					idEmbedsGen{}, idEmbedsTwo{}, idEmbedsPtr{}, idEmbedsPtr{&IDGen[[]string]{[]string{"a"}}}, idEmbedsTagged{}, idEmbedsSame{}, idEmbedsSameGen{}, idNamedGen{"n"}, idAliasGen{[]byte("y")},
					idEmbedsÉ{Élan{"m"}}, idEmbedsÉPtr{}, idEmbedsÉPtr{&Élan{"m"}}, idEmbedsLower{élan{"p"}}, Ѐint(3), idEmbedsInt{4}, idEmbedsIntPtr{}, idEmbedsIntPtr{&ei}, idEmbedsLowerInt{5, 6}, idShadow{Élan{"s"}, 8}, idShadowTag{Élan{"t"}, 9},
					idArrow[string]{map[string]string{"a": "b"}}, idArrow[int8]{map[int8]int8{-1: 1}}, idGen[map[string]idGen[*int]]{map[string]idGen[*int]{"k": {&one}}})
				v := reflect.ValueOf(l[x.Choose("value", 49)%len(l)])
				for _, p := range places {
					if w, ok := mkPlace(p, v); ok {
						check(x, w.Interface(), nil)
					}
				}
				for _, w := range []reflect.Value{v, ptrV(v), mkSlice(v.Type(), v, v), mkMap(reflect.ValueOf("k"), v), mkSlice(anyT, v)} {
					checkStd(x, w.Interface())
				}
			}},
	)
}
