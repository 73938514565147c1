//go:build go1.18

package matrix

import (
	"fmt"

	"github.com/buildkite/yaml"
)

func vFilled(m Matrix) bool {
	return vForallKey(m, func(k string) bool { return len(m[k]) != 0 })
}

// listed rows are taken as they are
func P_C24_listed(d []byte) {
	was := string(d)
	data := struct {
		Matrix struct {
			Include []Axis
		}
	}{}
	err := yaml.Unmarshal([]byte(was), &data)
	rows, e := Parse(d)
	if err == nil && len(data.Matrix.Include) != 0 {
		vEnsure("listed rows are no error", e == nil)
		vEnsure("one row for each that is listed", len(rows) == len(data.Matrix.Include))
	}
}

// the number of rows is bounded, and no axis gives no row
func P_C24_limit(m Matrix) {
	vRequire(vFilled(m))
	rows := calc(m)
	vEnsure("no more than 27 rows", len(rows) <= 27)
	vEnsure("no axis, no row", len(m) != 0 || len(rows) == 0)
	vEnsure("the matrix is left alone", vUnchanged())
}

// all combinations, each once, while there are at most 27 of them and 12 axes
func N_C24_rows(m Matrix) {
	vRequire(vFilled(m) && len(m) <= 12)
	n := 1
	for _, vs := range m {
		n *= len(vs)
		for i := range vs {
			for j := range vs {
				vRequire(i == j || vs[i] != vs[j])
			}
		}
	}
	rows := calc(m)
	if len(m) == 0 {
		return
	}
	vEnsure("as many rows as combinations", len(rows) == n || n > 27 && len(rows) == 27)
	seen := map[string]bool{}
	for _, r := range rows {
		vEnsure("every axis in every row", len(r) == len(m))
		for k, v := range r {
			found := false
			for _, x := range m[k] {
				found = found || x == v
			}
			vEnsure("each with one of its values", found)
		}
		seen[fmt.Sprint(map[string]string(r))] = true
	}
	vEnsure("no combination twice", len(seen) == len(rows))
}
