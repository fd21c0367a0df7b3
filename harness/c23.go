package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:    "C23",
		Rule:  "a case puts a precomputed shuffling table in one state (made for this or another key, narrower or wider than the rows, without lines; its file missing, empty, truncated, bit-flipped, filled with other data, unwritable, written by another server at the same time), asks the system for a table and shuffles with what it gets, locally and in collective runs; the rows that come out are opened and compared with those put in; an evaluation is one table state followed by a shuffle, non-trivial when the table or its file was not simply valid (distinct by state and sizes)",
		Cases: c23Cases,
	})
}

// shuffleWith shuffles enough rows to touch every line of the table and
// judges the result.
func shuffleWith(t *T, tab []libunlynxshuffle.CipherVectorScalar, sk kyber.Scalar, pk kyber.Point, rows, width int, key, what string) {
	in := matInts(t, rows, width)
	inC := t.encMat(pk, in)
	var out []libunlynx.CipherVector
	if p := noPanic(func() { out, _, _ = libunlynxshuffle.ShuffleSequence(inC, suite.Point().Base(), pk, tab) }); p != "" {
		t.Fail(key+":panic", "%s: %s", what, p)
		return
	}
	judgeShuffle(t, sk, in, inC, out, key, what)
}

func c23Memory(t *T) {
	sk, pk := newKey()
	for _, pre := range []string{"exact", "wide", "narrow", "stale", "nolines"} {
		for _, width := range []int{1, 3} {
			for _, rows := range []int{1, 40} {
				sc := shufCase{netCase{size: rows}, width, pre, false}
				sec, _ := newKey()
				shuffleWith(t, table(sc, pk, sec), sk, pk, rows, width, "memory:"+pre, sc.String())
				if pre == "exact" {
					t.Trivial()
				} else {
					t.Nontrivial("memory/%v", sc)
				}
			}
		}
	}
	t.Sample("a table for another key used for 40 rows of 3")
}

// c23File exercises the cache file.
func c23File(t *T, state string, rounds int) {
	for r := 0; r < rounds; r++ {
		dir, err := ioutil.TempDir(t.Dir, "cache")
		must(err)
		file := filepath.Join(dir, "pre.gob")
		sk, pk := newKey()
		sec, _ := newKey()
		line := 1 + t.R.Intn(4)
		what := fmt.Sprintf("%s, lines of %d", state, line)
		write := func(key kyber.Point, line int) {
			s2, _ := newKey()
			_, err := libunlynxshuffle.PrecomputeForShuffling("s", file, s2, key, line)
			must(err)
		}
		mayErr := false
		switch state {
		case "missing":
		case "valid":
			write(pk, line)
		case "stale-key":
			_, other := newKey()
			write(other, line)
		case "narrow":
			write(pk, line)
			line *= 3
		case "wide":
			write(pk, line*3)
		case "empty":
			must(ioutil.WriteFile(file, nil, 0600))
		case "garbage":
			b := make([]byte, t.R.Intn(2000))
			t.R.Read(b)
			must(ioutil.WriteFile(file, b, 0600))
		case "truncated":
			write(pk, line)
			b, err := ioutil.ReadFile(file)
			must(err)
			must(ioutil.WriteFile(file, b[:t.R.Intn(len(b))], 0600))
		case "bitflip":
			write(pk, line)
			b, err := ioutil.ReadFile(file)
			must(err)
			o := t.R.Intn(len(b))
			what += fmt.Sprintf(", bit %d of byte %d of %d", r%8, o, len(b))
			b[o] ^= 1 << uint(r%8)
			must(ioutil.WriteFile(file, b, 0600))
		case "bytes":
			write(pk, line)
			b, err := ioutil.ReadFile(file)
			must(err)
			for i := 0; i < 1+t.R.Intn(40); i++ {
				b[t.R.Intn(len(b))] = byte(t.R.Intn(256))
			}
			must(ioutil.WriteFile(file, b, 0600))
		case "swapped": // one element exchanged with another one, all decodable
			tab := libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), pk, suite.RandomStream(), 2*line, 10)
			i, j, k, l := t.R.Intn(10), t.R.Intn(10), t.R.Intn(2*line), t.R.Intn(2*line)
			if i == j {
				j = (i + 1) % 10
			}
			switch r % 4 {
			case 0:
				tab[i].CipherV[k], tab[j].CipherV[l] = tab[j].CipherV[l], tab[i].CipherV[k]
			case 1:
				tab[i].CipherV[k].C, tab[j].CipherV[l].C = tab[j].CipherV[l].C, tab[i].CipherV[k].C
			case 2:
				tab[i].CipherV = tab[i].CipherV[:k]
			case 3:
				tab[i].CipherV[k].C = pt(int64(t.R.Intn(5)))
			}
			what += fmt.Sprint(", way ", r%4)
			enc, err := libunlynxshuffle.EncodeCipherVectorScalar(tab)
			must(err)
			must(gobTo(file, enc))
		case "no-lines":
			must(gobTo(file, []libunlynxshuffle.CipherVectorScalarBytes{}))
		case "empty-lines":
			must(gobTo(file, make([]libunlynxshuffle.CipherVectorScalarBytes, 10)))
		case "other-type":
			must(gobTo(file, map[string]int{"a": 1}))
		case "directory":
			must(os.Mkdir(file, 0700))
			mayErr = true
		case "no-directory":
			file = filepath.Join(dir, "none", "pre.gob")
			mayErr = true
		case "writers": // several servers share the directory
			for i := 0; i < 4; i++ {
				i := i
				go func() {
					s2, _ := newKey()
					_, _ = libunlynxshuffle.PrecomputationWritingForShuffling(true, file, "other", s2, pk, 1+i%3)
				}()
			}
		}
		key := "file:" + state
		get := func(f func() ([]libunlynxshuffle.CipherVectorScalar, error), how string) {
			var tab []libunlynxshuffle.CipherVectorScalar
			var err error
			if p := noPanic(func() { tab, err = f() }); p != "" {
				t.Fail(key+":panic", "%s: %s: %s", what, how, p)
				return
			}
			t.Seen("cache_states", state+"/"+how)
			if err != nil {
				t.Count("errors_reported", 1)
				// with nothing wrong there has to be a table
				t.Check(mayErr || (state != "missing" && state != "valid"), key+":no-table", "%s: %s: no table: %v", what, how, err)
				return
			}
			t.Count("tables_obtained", 1)
			shuffleWith(t, tab, sk, pk, 60, line, key, what+", "+how)
			shuffleWith(t, tab, sk, pk, 3, 2*line, key, what+", "+how)
			shuffleWith(t, tab, sk, pk, 3, 2*line+1, key, what+", "+how)
		}
		read := func() ([]libunlynxshuffle.CipherVectorScalar, error) {
			return libunlynxshuffle.ReadPrecomputedFile(file)
		}
		app := func() ([]libunlynxshuffle.CipherVectorScalar, error) {
			return libunlynxshuffle.PrecomputationWritingForShuffling(true, file, "s", sec, pk, line)
		}
		if t.R.Intn(2) == 0 {
			get(read, "read")
		}
		get(app, "first")
		get(app, "again")
		get(read, "read")
		get(func() ([]libunlynxshuffle.CipherVectorScalar, error) {
			return libunlynxshuffle.PrecomputationWritingForShuffling(false, file, "s", sec, pk, line)
		}, "memory")
		if state == "valid" {
			t.Trivial()
		} else {
			t.Nontrivial("%s/%d", what, r)
		}
		must(os.RemoveAll(dir))
	}
	t.Sample("cache file %s, %d times", state, rounds)
}

func gobTo(file string, v interface{}) error {
	f, err := os.Create(file)
	if err != nil {
		return err
	}
	defer f.Close()
	return gobEncode(f, v)
}

func c23Cases(tier string, seed int64) []Case {
	var out []Case
	k := 1
	if tier == "thorough" {
		k = 12
	}
	out = append(out, Case{Name: "memory", Cost: 2, Run: func(t *T) {
		for i := 0; i < k; i++ {
			c23Memory(t)
		}
	}})
	for s, n := range map[string]int{"missing": 1, "valid": 2, "stale-key": 3, "narrow": 3, "wide": 2, "empty": 1, "garbage": 4, "truncated": 12, "bitflip": 60, "bytes": 12, "swapped": 16, "no-lines": 1, "empty-lines": 1, "other-type": 1, "directory": 1, "no-directory": 1, "writers": 5} {
		for n > 0 {
			s, m := s, minInt(n, 6)
			out = append(out, Case{Name: fmt.Sprintf("file-%s-%d", s, n), Cost: 0.3 * float64(m), Run: func(t *T) { c23File(t, s, m*k) }})
			n -= m
		}
	}
	for i, pre := range []string{"stale", "narrow", "nolines", "stale"} {
		for j, n := range []int{1, 3, 5} {
			if tier != "thorough" && (i+j)%2 == 0 {
				continue
			}
			sc := shufCase{netCase{n: n, kind: treeKinds[(i+j)%len(treeKinds)], size: []int{2, 30, 110}[j], sched: schedModes[j]}, 1 + i, pre, false}
			out = append(out, Case{Name: fmt.Sprintf("run-%s-%d-%d", pre, n, i), Cost: 1, Run: func(t *T) {
				cl, ro, tr := sc.build(t)
				runShuffle(t, sc, cl, ro, tr, true)
			}})
		}
	}
	sortCases(out)
	return out
}
