package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
)

func init() {
	register(&Check{
		ID:    "C18",
		Rule:  "a case generates test data with the repository's generator over many sizes (0 and 1 included) or with the oracle's own (negative, several digits, int64 limits, empty providers), counts providers, rows, attributes and ranges, writes it to a file of a scratch directory and reads it back, computes the expected result and compares it with an independent evaluation, and asks the comparison about pairs that are the same multiset (permuted) or differ (a group missing, doubled, altered, added; either side empty); an evaluation is one data set or one pair, non-trivial when it has a row (distinct by sizes and kind)",
		Cases: c18Cases,
	})
}

type genShape struct {
	dps, rows, kept        int64
	gc, ge, wc, we, ac, ae int64
	types                  []int64
	random                 bool
}

func (s genShape) String() string {
	return fmt.Sprintf("%d providers, %d rows (%d kept), groups %d+%d of %v, where %d+%d, values %d+%d, random %v", s.dps, s.rows, s.kept, s.gc, s.ge, s.types, s.wc, s.we, s.ac, s.ae, s.random)
}

func checkNames(t *T, m map[string]int64, name string, from, n int64, what string) bool {
	ok := int64(len(m)) == n
	for i := from; i < from+n; i++ {
		_, has := m[name+strconv.FormatInt(i, 10)]
		ok = ok && has
	}
	return t.Check(ok, "generate:attributes", "%s: attributes %v instead of %s%d to %s%d", what, m, name, from, name, from+n-1)
}

func c18Generate(t *T, s genShape, dir string) {
	what := s.String()
	var data map[string][]libunlynx.DpClearResponse
	var err error
	pn := noPanic(func() {
		data, err = dataunlynx.GenerateData(s.dps, s.rows, s.kept, s.gc, s.ge, s.wc, s.we, s.ac, s.ae, s.types, s.random)
	})
	if !t.Check(pn == "", "generate:panic", "%s: %s", what, pn) {
		return
	}
	product := int64(1)
	for _, x := range s.types {
		product *= x
	}
	if int64(len(s.types)) != s.gc+s.ge || (!s.random && product != s.rows) {
		t.Check(err != nil, "generate:refuse", "%s: an impossible request is not refused", what)
		t.Count("refused requests", 1)
		t.Nontrivial("refused/%s", what)
		return
	}
	if !t.Check(err == nil, "generate:error", "%s: %v", what, err) {
		return
	}
	t.Check(int64(len(data)) == s.dps, "generate:providers", "%s: %d providers", what, len(data))
	for i := int64(0); i < s.dps; i++ {
		rows, ok := data[strconv.FormatInt(i, 10)]
		if !t.Check(ok && int64(len(rows)) == s.rows, "generate:rows", "%s: provider %d has %d rows", what, i, len(rows)) {
			continue
		}
		groups := map[string]int{}
		kept := int64(0)
		for _, r := range rows {
			if !(checkNames(t, r.GroupByClear, "g", 0, s.gc, what) && checkNames(t, r.GroupByEnc, "g", s.gc, s.ge, what) &&
				checkNames(t, r.WhereClear, "w", 0, s.wc, what) && checkNames(t, r.WhereEnc, "w", s.wc, s.we, what) &&
				checkNames(t, r.AggregatingAttributesClear, "s", 0, s.ac, what) && checkNames(t, r.AggregatingAttributesEnc, "s", s.ac, s.ae, what)) {
				return
			}
			g := attrs("g", r.GroupByClear, r.GroupByEnc)
			groups[fmt.Sprint(g)]++
			for k, v := range g {
				t.Check(v >= 0 && v < s.types[k], "generate:range", "%s: group attribute %d is %d", what, k, v)
			}
			for _, v := range attrs("s", r.AggregatingAttributesClear, r.AggregatingAttributesEnc) {
				t.Check(v == 0 || v == 1, "generate:range", "%s: a value is %d", what, v)
			}
			ones := true
			for _, v := range attrs("w", r.WhereClear, r.WhereEnc) {
				t.Check(v == 0 || v == 1, "generate:range", "%s: a where value is %d", what, v)
				ones = ones && v == 1
			}
			if ones {
				kept++
			}
		}
		if !s.random {
			t.Check(int64(len(groups)) == product, "generate:groups", "%s: %d of all %d groups in the data of provider %d", what, len(groups), product, i)
		}
		if s.wc+s.we > 0 {
			want := s.kept
			if want > s.rows {
				want = s.rows
			}
			t.Check(kept == want, "generate:kept", "%s: %d rows match all where attributes", what, kept)
		}
	}
	c18File(t, data, what, dir)
	c18Expect(t, data, what)
	if s.dps*s.rows > 0 {
		t.Nontrivial("%s", what)
	} else {
		t.Trivial()
	}
}

// dataDigest is a canonical form of test data.
func dataDigest(data map[string][]libunlynx.DpClearResponse) string {
	var ids []string
	for id := range data {
		ids = append(ids, id)
	}
	sortStrings(ids)
	s := ""
	for _, id := range ids {
		s += fmt.Sprintf("#%s: %d rows\n%s", id, len(data[id]), clearDigest(data[id]))
	}
	return s
}

var c18N int

func c18File(t *T, data map[string][]libunlynx.DpClearResponse, what, dir string) {
	c18N++
	name := filepath.Join(dir, fmt.Sprintf("data-%d.txt", c18N))
	defer os.Remove(name)
	before := dataDigest(data)
	// an older and longer file of that name must not show through
	if c18N%3 == 0 {
		must(ioutil.WriteFile(name, []byte("#9\n1 \n2 \n\n\n3 \n4 \n#8\n\n\n\n\n\n\n"+before), 0644))
	}
	var back map[string][]libunlynx.DpClearResponse
	var err error
	pn := noPanic(func() { err = dataunlynx.WriteDataToFile(name, data) })
	if !t.Check(pn == "" && err == nil, "file:write", "%s: writing fails: %v %s", what, err, pn) {
		return
	}
	pn = noPanic(func() { back, err = dataunlynx.ReadDataFromFile(name) })
	if !t.Check(pn == "" && err == nil, "file:read", "%s: reading fails: %v %s", what, err, pn) {
		return
	}
	t.Check(dataDigest(data) == before, "file:input-changed", "%s: writing changes the data", what)
	t.Check(dataDigest(back) == before, "file:differs", "%s: what is read differs from what was written: %s", what, trim(firstDiff(before, dataDigest(back)), 200))
	t.Count("files", 1)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 20
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("%q / %q", trim(a[from:], 80), trim(b[from:], 80))
}

// rowsOf turns test data into the oracle's rows.
func rowsOf(data map[string][]libunlynx.DpClearResponse, rep int) localRows {
	var l localRows
	for _, rows := range data {
		for _, r := range rows {
			l.groups = append(l.groups, attrs("g", r.GroupByClear, r.GroupByEnc))
			v := attrs("s", r.AggregatingAttributesClear, r.AggregatingAttributesEnc)
			for i := range v {
				v[i] *= int64(rep)
			}
			l.vals = append(l.vals, v)
			keep := true
			for _, w := range attrs("w", r.WhereClear, r.WhereEnc) {
				keep = keep && w == 1
			}
			l.keep = append(l.keep, keep)
		}
	}
	return l
}

func c18Expect(t *T, data map[string][]libunlynx.DpClearResponse, what string) {
	before := dataDigest(data)
	for i, rep := range []int{1, 1, 3, 2, 1} {
		clear := i%2 == 1
		w := fmt.Sprintf("%s; %d repetitions, without where %v", what, rep, clear)
		var res []libunlynx.DpClearResponse
		pn := noPanic(func() { res = dataunlynx.ComputeExpectedResult(data, rep, clear) })
		if !t.Check(pn == "", "expected:panic", "%s: %s", w, pn) {
			return
		}
		judgeClear(t, res, rowsOf(data, rep), "expected", w)
		if clear {
			for _, r := range res {
				t.Check(len(r.WhereClear)+len(r.WhereEnc)+len(r.GroupByEnc)+len(r.AggregatingAttributesEnc) == 0, "expected:not-cleared", "%s: the result still has where or encrypted attributes", w)
			}
		}
		if !t.Check(dataDigest(data) == before, "expected:input-changed", "%s: computing the expected result changes the data", w) {
			return
		}
		t.Count("expected results", 1)
		c18Pairs(t, res, w)
	}
}

func cloneClear(r libunlynx.DpClearResponse) libunlynx.DpClearResponse {
	cp := func(m map[string]int64) map[string]int64 {
		if m == nil {
			return nil
		}
		o := map[string]int64{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	return libunlynx.DpClearResponse{WhereClear: cp(r.WhereClear), WhereEnc: cp(r.WhereEnc), GroupByClear: cp(r.GroupByClear), GroupByEnc: cp(r.GroupByEnc), AggregatingAttributesClear: cp(r.AggregatingAttributesClear), AggregatingAttributesEnc: cp(r.AggregatingAttributesEnc)}
}

func clearField(r *libunlynx.DpClearResponse, i int) *map[string]int64 {
	return []*map[string]int64{&r.WhereClear, &r.WhereEnc, &r.GroupByClear, &r.GroupByEnc, &r.AggregatingAttributesClear, &r.AggregatingAttributesEnc}[i]
}

// c18Pairs asks the comparison about x and variants of it.
func c18Pairs(t *T, x []libunlynx.DpClearResponse, what string) {
	perm := func() []libunlynx.DpClearResponse {
		var y []libunlynx.DpClearResponse
		for _, i := range t.R.Perm(len(x)) {
			c := cloneClear(x[i])
			if t.R.Intn(3) == 0 && len(c.WhereEnc) == 0 {
				c.WhereEnc = nil
			}
			y = append(y, c)
		}
		return y
	}
	ask := func(kind string, a, b []libunlynx.DpClearResponse) {
		want := sortedDigest(a) == sortedDigest(b)
		var got bool
		pn := noPanic(func() { got = dataunlynx.CompareClearResponses(a, b) })
		t.Check(pn == "" && got == want, "compare:"+kind, "%s: comparing %d groups with %d (%s) gives %v instead of %v %s", what, len(a), len(b), kind, got, want, pn)
		t.Count(fmt.Sprintf("comparisons with verdict %v", want), 1)
	}
	both := func(kind string, y []libunlynx.DpClearResponse) {
		ask(kind, x, y)
		ask(kind, y, x)
	}
	both("same", perm())
	both("empty", nil)
	both("empty", []libunlynx.DpClearResponse{})
	if len(x) == 0 {
		return
	}
	y := perm()
	both("missing", y[1:])
	both("doubled", append(perm(), cloneClear(x[t.R.Intn(len(x))])))
	if len(x) > 1 {
		y = perm()
		y[0] = cloneClear(y[len(y)-1])
		both("replaced", y)
		// the same number of both, with other multiplicities
		a := append(perm(), cloneClear(x[0]))
		b := append(perm(), cloneClear(x[1]))
		ask("multiplicity", a, b)
		ask("multiplicity", b, a)
	}
	y = perm()
	i := t.R.Intn(len(y))
	for _, m := range []map[string]int64{y[i].AggregatingAttributesClear, y[i].AggregatingAttributesEnc, y[i].GroupByClear, y[i].GroupByEnc} {
		for k := range m {
			m[k]++
			both("altered", y)
			m[k]--
			v := m[k]
			delete(m, k)
			both("shorter", y)
			m[k] = v
			break
		}
	}
	// one map empty or absent on one side, and none, some or all others too
	for f := 0; f < 6; f++ {
		for _, fill := range []map[string]int64{{}, nil, {"zz": 1}} {
			y = perm()
			*clearField(&y[i], f) = fill
			both("emptied", y)
			if len(x) == 1 {
				// against a response that has something elsewhere only
				for h := 0; h < 6; h++ {
					a, b := libunlynx.DpClearResponse{}, libunlynx.DpClearResponse{}
					*clearField(&a, f) = fill
					*clearField(&b, h) = map[string]int64{"zz": 1}
					ask("sparse", []libunlynx.DpClearResponse{a}, []libunlynx.DpClearResponse{b})
					ask("sparse", []libunlynx.DpClearResponse{b}, []libunlynx.DpClearResponse{a})
				}
			}
		}
	}
	both("same", append([]libunlynx.DpClearResponse{}, x...))
}

// c18Own writes, reads and evaluates data of the oracle's own.
func c18Own(t *T, kind int, dir string) {
	data := map[string][]libunlynx.DpClearResponse{}
	n := 1 + t.R.Intn(4)
	g, w, v := t.R.Intn(4), t.R.Intn(3), t.R.Intn(4)
	gc, wc, vc := t.R.Intn(g+1), t.R.Intn(w+1), t.R.Intn(v+1)
	if kind == 3 {
		v, vc = 300, 7
	}
	num := func(small bool) int64 {
		switch {
		case small:
			return int64(t.R.Intn(3))
		case kind == 1:
			return []int64{1<<63 - 1, -1 << 63, 0, -1, 1000000007}[t.R.Intn(5)]
		}
		return []int64{0, 1, -1, 10, 12, 120, -25}[t.R.Intn(7)]
	}
	rows := 0
	for i := 0; i < n; i++ {
		id := []string{strconv.Itoa(i), fmt.Sprint("provider ", i), fmt.Sprint("#", i)}[i%3]
		if kind != 2 {
			id = strconv.Itoa(i)
		}
		list := []libunlynx.DpClearResponse{}
		k := t.R.Intn(8)
		if i == 0 && t.R.Intn(2) == 0 {
			k = 0
		}
		for j := 0; j < k; j++ {
			var r libunlynx.DpClearResponse
			mk := func(name string, from, to int, f func() int64) map[string]int64 {
				m := map[string]int64{}
				for x := from; x < to; x++ {
					m[fmt.Sprint(name, x)] = f()
				}
				return m
			}
			val := func() int64 { return num(false) }
			bit := func() int64 {
				if t.R.Intn(4) == 0 {
					return 0
				}
				return 1
			}
			grp := func() int64 { return []int64{0, 1, 10, -1, 11, 100}[t.R.Intn(6)] }
			r.GroupByClear, r.GroupByEnc = mk("g", 0, gc, grp), mk("g", gc, g, grp)
			r.WhereClear, r.WhereEnc = mk("w", 0, wc, bit), mk("w", wc, w, bit)
			r.AggregatingAttributesClear, r.AggregatingAttributesEnc = mk("s", 0, vc, val), mk("s", vc, v, val)
			list = append(list, r)
			rows++
		}
		data[id] = list
	}
	what := fmt.Sprintf("own data %d: %d providers, %d rows, %d group, %d where, %d values", kind, n, rows, g, w, v)
	c18File(t, data, what, dir)
	if kind != 1 { // sums of limits overflow
		c18Expect(t, data, what)
	}
	if rows > 0 {
		t.Nontrivial("own/%d/%d/%d/%d/%d/%d", kind, n, rows, g, w, v)
	} else {
		t.Trivial()
	}
}

func c18Groups(t *T) {
	for i := 0; i < 40; i++ {
		k := t.R.Intn(5)
		types := make([]int64, k)
		want := map[string]bool{"[]": true}
		for j := range types {
			types[j] = int64(1 + t.R.Intn(4))
		}
		cur := [][]int64{{}}
		for _, n := range types {
			var next [][]int64
			for _, g := range cur {
				for x := int64(0); x < n; x++ {
					next = append(next, append(append([]int64{}, g...), x))
				}
			}
			cur = next
		}
		want = map[string]bool{}
		for _, g := range cur {
			want[fmt.Sprint(g)] = true
		}
		var groups [][]int64
		dataunlynx.AllPossibleGroups(types, []int64{}, 0, &groups)
		t.Check(len(groups) == len(cur), "groups:number", "groups of types %v: %d instead of %d", types, len(groups), len(cur))
		seen := map[string]bool{}
		for _, g := range groups {
			s := fmt.Sprint(g)
			t.Check(want[s] && !seen[s], "groups:which", "groups of types %v: %s", types, s)
			seen[s] = true
		}
		t.Nontrivial("groups/%v", types)
		size, min := int64(t.R.Intn(50)), int64(t.R.Intn(20)-10)
		max := min + 1 + int64(t.R.Intn(10))
		sl := dataunlynx.CreateInt64Slice(size, min, max)
		ok := int64(len(sl)) == size
		for _, v := range sl {
			ok = ok && v >= min && v < max
		}
		t.Check(ok, "slice", "%d values from %d to %d: %v", size, min, max, sl)
		f := make([]int64, t.R.Intn(9))
		dataunlynx.FillInt64Slice(f, min)
		for _, v := range f {
			t.Check(v == min, "slice", "filled with %d: %v", min, f)
		}
	}
}

func c18Cases(tier string, seed int64) []Case {
	var out []Case
	reps := 1
	if tier == "thorough" {
		reps = 20
	}
	withDir := func(f func(t *T, dir string)) func(t *T) {
		return func(t *T) {
			dir, err := ioutil.TempDir("", "c18-")
			must(err)
			defer os.RemoveAll(dir)
			f(t, dir)
		}
	}
	for rep := 0; rep < reps; rep++ {
		for i := 0; i < 12; i++ {
			i := i
			out = append(out, Case{Name: fmt.Sprintf("generate-%d-%d", i, rep), Cost: 1, Run: withDir(func(t *T, dir string) {
				for k := 0; k < 12; k++ {
					s := genShape{dps: int64(t.R.Intn(5)), rows: int64(t.R.Intn(12)), gc: int64(t.R.Intn(3)), ge: int64(t.R.Intn(3)), wc: int64(t.R.Intn(3)), we: int64(t.R.Intn(3)), ac: int64(t.R.Intn(4)), ae: int64(t.R.Intn(4)), random: i%2 == 0}
					s.kept = int64(t.R.Intn(int(s.rows) + 2))
					product := int64(1)
					for j := int64(0); j < s.gc+s.ge; j++ {
						x := int64(1 + t.R.Intn(3))
						s.types = append(s.types, x)
						product *= x
					}
					if !s.random && k%6 != 0 {
						s.rows = product
					}
					if k == 5 {
						s.types = append(s.types, 2)
					}
					c18Generate(t, s, dir)
				}
			})})
		}
		for kind := 0; kind < 4; kind++ {
			kind := kind
			out = append(out, Case{Name: fmt.Sprintf("own-%d-%d", kind, rep), Cost: 1, Run: withDir(func(t *T, dir string) {
				for k := 0; k < 40; k++ {
					c18Own(t, kind, dir)
				}
			})})
		}
		out = append(out, Case{Name: fmt.Sprintf("groups-%d", rep), Cost: 0.2, Run: c18Groups})
	}
	return out
}
