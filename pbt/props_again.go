package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// --- several conversions in turn ---------------------------------------------------

// againCase is a file of a few keys whose values are set and converted in turn.
type againCase struct {
	Vals   []S
	Shadow bool // the keys may have shadows
	Steps  []againStep
}

type againStep struct {
	Key    int
	Op     string
	Text   S   `json:",omitempty"`
	Delim  S   `json:",omitempty"`
	Kind   int `json:",omitempty"` // type of a scalar, or set of list types
	Must   int `json:",omitempty"` // 0: accessor, 1: Must, 2: Must with default
	Layout int `json:",omitempty"`
	N      int64
}

// againKey is a key and the text it has.
type againKey struct {
	k       *ini.Key
	text    string
	shadows []string
}

// once performs one conversion.
func (a typed[T]) once(x *againKey, must int, dflt T) error {
	var zero T
	want, ok := a.oracle(x.text)
	switch must {
	case 0:
		got, err := a.get(x.k)
		if (err == nil) != ok || ok && !a.same(got, want) {
			return fmt.Errorf("%T of %q: %v, error %v; want %v, success %v", zero, x.text, got, err, want, ok)
		}
		return nil
	case 1:
		if !ok {
			want = zero
		}
		if got := a.must(x.k); !a.same(got, want) {
			return fmt.Errorf("Must %T of %q without default is %v, want %v", zero, x.text, got, want)
		}
		return nil
	}
	if !ok {
		want = dflt
	}
	was := x.text
	if got := a.must(x.k, dflt); !a.same(got, want) {
		return fmt.Errorf("Must %T of %q with default %v is %v, want %v", zero, was, dflt, got, want)
	}
	if !ok {
		x.text = x.k.Value()
		if got, ok := a.oracle(x.text); !ok || !a.same(got, dflt) {
			return fmt.Errorf("Must %T of %q with default %v made the value %q", zero, was, dflt, x.text)
		}
	}
	return nil
}

func (x *againKey) scalar(st againStep) error {
	layout := timeLayouts[st.Layout]
	tm := time.Unix(st.N, 0).UTC()
	// A default that the layout spells completely.
	if y, err := time.Parse(layout, tm.Format(layout)); err == nil {
		tm = y
	}
	u := st.N
	if u < 0 {
		u = -u
	}
	switch st.Kind % 9 {
	case 0:
		return typed[bool]{oracleBool, (*ini.Key).Bool, (*ini.Key).MustBool, same[bool], nil}.once(x, st.Must, st.N%2 == 0)
	case 1:
		return typed[int]{func(s string) (int, bool) { n, ok := oracleInt(s); return int(n), ok }, (*ini.Key).Int, (*ini.Key).MustInt, same[int], nil}.once(x, st.Must, int(st.N))
	case 2:
		return typed[int64]{oracleInt, (*ini.Key).Int64, (*ini.Key).MustInt64, same[int64], nil}.once(x, st.Must, st.N)
	case 3:
		return typed[uint]{func(s string) (uint, bool) { n, ok := oracleUint(s); return uint(n), ok }, (*ini.Key).Uint, (*ini.Key).MustUint, same[uint], nil}.once(x, st.Must, uint(u))
	case 4:
		return typed[uint64]{oracleUint, (*ini.Key).Uint64, (*ini.Key).MustUint64, same[uint64], nil}.once(x, st.Must, uint64(u))
	case 5:
		return typed[float64]{oracleFloat, (*ini.Key).Float64, (*ini.Key).MustFloat64, sameFloat, nil}.once(x, st.Must, float64(st.N)/8)
	case 6:
		return typed[time.Duration]{oracleDuration, (*ini.Key).Duration, (*ini.Key).MustDuration, same[time.Duration], nil}.once(x, st.Must, time.Duration(st.N))
	case 7:
		return typed[time.Time]{oracleTime(time.RFC3339), (*ini.Key).Time, (*ini.Key).MustTime, sameTime, nil}.once(x, st.Must, time.Unix(st.N, 0).UTC())
	default:
		get := func(k *ini.Key) (time.Time, error) { return k.TimeFormat(layout) }
		must := func(k *ini.Key, v ...time.Time) time.Time { return k.MustTimeFormat(layout, v...) }
		return typed[time.Time]{oracleTime(layout), get, must, sameTime, nil}.once(x, st.Must, tm)
	}
}

// admissible asks whether the value is one of, or between, what the step says.
func (x *againKey) admissible(st againStep) error {
	n, isInt := oracleInt(x.text)
	f, isFloat := oracleFloat(x.text)
	lo, hi := st.N-int64(st.Must), st.N+int64(st.Layout)
	const dflt = -77
	switch st.Kind % 4 {
	case 0:
		want := int64(dflt)
		var cands []int64
		for c := lo; c <= hi; c++ {
			cands = append(cands, c)
			if isInt && c == n {
				want = n
			}
		}
		if got := x.k.InInt64(dflt, cands); got != want {
			return fmt.Errorf("InInt64 of %q among %v is %d, want %d", x.text, cands, got, want)
		}
	case 1:
		v, want := n, int64(dflt)
		if !isInt {
			v = 0
		}
		if lo <= v && v <= hi {
			want = v
		}
		if got := x.k.RangeInt64(dflt, lo, hi); got != want {
			return fmt.Errorf("RangeInt64 of %q between %d and %d is %d, want %d", x.text, lo, hi, got, want)
		}
	case 2:
		v, want := f, float64(dflt)
		if !isFloat {
			v = 0
		}
		if float64(lo) <= v && v <= float64(hi) && !math.IsNaN(v) {
			want = v
		}
		if got := x.k.RangeFloat64(dflt, float64(lo), float64(hi)); got != want {
			return fmt.Errorf("RangeFloat64 of %q between %d and %d is %v, want %v", x.text, lo, hi, got, want)
		}
	case 3:
		cands := []string{fmt.Sprint(lo), string(st.Text), fmt.Sprint(hi)}
		want := "dflt"
		for _, c := range cands {
			if c == x.text {
				want = c
			}
		}
		if got := x.k.In("dflt", cands); got != want {
			return fmt.Errorf("In of %q among %q is %q, want %q", x.text, cands, got, want)
		}
	}
	return nil
}

func (d againCase) check(c *Ctx) error {
	f := ini.Empty(ini.LoadOptions{AllowShadows: d.Shadow, AllowDuplicateShadowValues: d.Shadow})
	s := f.Section("s")
	var keys []*againKey
	for i, v := range d.Vals {
		k, err := s.NewKey(fmt.Sprintf("k%d", i), string(v))
		if err != nil {
			return err
		}
		keys = append(keys, &againKey{k: k, text: string(v)})
	}
	asked := map[int]int{}
	for i, st := range d.Steps {
		x := keys[st.Key]
		where := func(err error) error { return fmt.Errorf("step %d (%s of key %d): %v", i, st.Op, st.Key, err) }
		var err error
		switch st.Op {
		case "set":
			x.k.SetValue(string(st.Text))
			x.text = string(st.Text)
		case "again-new":
			name := x.k.Name()
			s.DeleteKey(name)
			x.shadows, x.text = nil, string(st.Text)
			x.k, err = s.NewKey(name, x.text)
		case "swap":
			y := keys[(st.Key+1)%len(keys)]
			x.text, y.text = y.text, x.text
			x.k.SetValue(x.text)
			y.k.SetValue(y.text)
		case "shadow":
			err = x.k.AddShadow(string(st.Text))
			x.shadows = append(x.shadows, string(st.Text))
		case "scalar":
			asked[st.Key]++
			err = x.scalar(st)
		case "in":
			asked[st.Key]++
			err = x.admissible(st)
		case "list":
			asked[st.Key]++
			delim := string(st.Delim)
			err = listAccessors(x.k, splitList(x.text, delim), x.text, delim, timeLayouts[st.Layout], st.Kind)
		case "shadow-list":
			asked[st.Key]++
			delim, want := string(st.Delim), []string{}
			for _, v := range append([]string{x.text}, x.shadows...) {
				if v == "" {
					continue
				}
				for _, e := range strings.Split(v, delim) {
					want = append(want, strings.TrimSpace(e))
				}
			}
			if got := x.k.StringsWithShadows(delim); !eqStrs(got, want) {
				err = fmt.Errorf("StringsWithShadows(%q) of %q and %q: %q, want %q", delim, x.text, x.shadows, got, want)
			}
		}
		if err != nil {
			return where(err)
		}
		for j, y := range keys {
			if y.k.Value() != y.text || y.k.String() != y.text {
				return where(fmt.Errorf("value of key %d is %q, string %q, want %q", j, y.k.Value(), y.k.String(), y.text))
			}
		}
	}
	for _, n := range asked {
		c.NonTrivial(n > 1)
	}
	c.Label(len(d.Vals) > 1, "several-keys")
	c.Label(d.Shadow, "shadows")
	return nil
}

// genAgain draws a case of the given operations; texts have no references.
func genAgain(ops ...string) func(t *rapid.T) againCase {
	lists := false
	for _, o := range ops {
		lists = lists || o == "list"
	}
	return func(t *rapid.T) againCase {
		var d againCase
		layout := intn(t, len(timeLayouts))
		delim := pickFrom(t, listDelims)
		d.Shadow = lists && chance(t, 50)
		text := func() S {
			s := ""
			switch {
			case lists && chance(t, 60):
				s = genUniform(t, delim, layout)
			case lists:
				s = genListText(t, delim, true)
			case chance(t, 30):
				s = fmt.Sprint(intn(t, 12))
			case chance(t, 25):
				s = drawTime(t).Format(timeLayouts[layout])
			default:
				s = anyNumText(t)
			}
			return S(strings.ReplaceAll(s, "%", "p"))
		}
		for i := between(t, 1, 3); i > 0; i-- {
			d.Vals = append(d.Vals, text())
		}
		for i := between(t, 2, 12); i > 0; i-- {
			st := againStep{Key: intn(t, len(d.Vals)), Op: pickFrom(t, ops)}
			switch st.Op {
			case "set", "again-new":
				st.Text = text()
			case "shadow":
				if st.Text = text(); !d.Shadow || st.Text == "" {
					continue
				}
			case "scalar":
				st.Kind, st.Must, st.Layout = intn(t, 9), pick(t, 0, 0, 0, 1, 2), layout
				if chance(t, 40) {
					st.Layout = intn(t, len(timeLayouts))
				}
				st.N = int64(intn(t, 2000000000)) - 500000000
			case "in":
				st.Kind, st.Must, st.Layout = intn(t, 4), intn(t, 3), intn(t, 3)
				st.N, st.Text = int64(intn(t, 14)-1), pickFrom(t, d.Vals)
			case "list", "shadow-list":
				st.Delim, st.Kind, st.Layout = S(delim), 1<<intn(t, 9)|intn(t, 512), layout
				if chance(t, 40) {
					st.Delim = S(pickFrom(t, listDelims))
				}
				if chance(t, 30) {
					st.Layout = intn(t, len(timeLayouts))
				}
			}
			d.Steps = append(d.Steps, st)
		}
		return d
	}
}
