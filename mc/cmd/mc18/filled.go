package main

import (
	"fmt"
	"reflect"

	"verifmc/core"
	"verifmc/drive"
	"verifmc/shim/sched"

	"github.com/wI2L/jettison"
)

var fillers []interface{}

// fill makes the package know n more types.
func fill(x *core.X, n int) {
	for i := len(fillers); i < n; i++ {
		t := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("F", i), Type: reflect.ArrayOf(i%7+1, reflect.TypeOf(int8(0))), Tag: `json:",omitempty"`}})
		v := reflect.New(t)
		if i%2 == 0 {
			v = v.Elem()
		}
		fillers = append(fillers, v.Interface())
	}
	for i := 0; i < n; i++ {
		if _, err := jettison.Marshal(fillers[i]); err != nil {
			x.Failf("type %d: %v", i, err)
		}
	}
}

func init() {
	drive.Add("C18",
		&core.Scenario{Name: "filled", Doc: "2 goroutines encode values of 10 types for the first time, every pair, after 20, 70, 140, 270, 520, 1030, 2100 (4200, 8400) other types were encoded; then again, warm",
			MaxDev: 0, ThoroughDev: 1, SplitDepth: 2,
			Run: func(x *core.X) {
				ns := []int{20, 70, 140, 270, 520, 1030, 2100}
				if x.Thorough {
					ns = append(ns, 4200, 8400)
				}
				n := ns[x.Choose("types", len(ns))]
				l := []string{"flat", "node", "*node", "mutA", "nam1", "twoFlat", "iface", "maps", "smaps", "meths"}
				a, b := x.Choose("first", len(l)), x.Choose("second", len(l))
				if b < a || n > 600 && (a+b)%3 != 0 {
					x.Skip()
				}
				sched.Reset()
				fill(x, n)
				x.Beat()
				s, t := byName(l[a]), byName(l[b])
				js, jt := []*job{newJob(s, nil), newJob(t, nil)}, []*job{newJob(t, nil), newJob(s, nil)}
				conc(x, false, js, jt)
			}},
	)
}
