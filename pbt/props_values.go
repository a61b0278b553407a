package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// --- texts ----------------------------------------------------------------------

var (
	trueTexts  = []string{"1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "ON", "on", "On"}
	falseTexts = []string{"0", "f", "F", "false", "FALSE", "False", "NO", "no", "No", "n", "OFF", "off", "Off"}

	timeLayouts = []string{time.RFC3339, "2006-01-02", time.RFC1123, time.Kitchen, time.RFC3339Nano, "2006/01/02 15:04:05 -0700", "02.01.2006"}
)

// interestingInts are numbers around every limit.
var interestingInts = func() []*big.Int {
	var out []*big.Int
	for _, n := range []int64{0, 1, -1, 2, 7, 8, 9, 10, 42, 100, -7, -128} {
		out = append(out, big.NewInt(n))
	}
	for _, sh := range []uint{7, 8, 15, 16, 31, 32, 53, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), sh)
		for _, d := range []int64{-1, 0, 1} {
			x := new(big.Int).Add(p, big.NewInt(d))
			out = append(out, x, new(big.Int).Neg(x))
		}
	}
	return out
}()

func drawInt(t *rapid.T) *big.Int {
	if chance(t, 50) {
		return pickFrom(t, interestingInts)
	}
	n := rapid.Int64().Draw(t, "int")
	return big.NewInt(n)
}

// intText spells a number in some base.
func intText(t *rapid.T, n *big.Int) string {
	sign := ""
	switch {
	case n.Sign() < 0:
		sign = "-"
	case chance(t, 8):
		sign = "+"
	}
	a := new(big.Int).Abs(n)
	s := ""
	switch intn(t, 7) {
	case 0, 1, 2:
		s = a.Text(10)
	case 3:
		s = pick(t, "0x", "0X") + pick(t, a.Text(16), strings.ToUpper(a.Text(16)))
	case 4:
		s = pick(t, "0o", "0O") + a.Text(8)
	case 5:
		s = pick(t, "0b", "0B") + a.Text(2)
	case 6:
		s = "0" + a.Text(8)
	}
	if len(s) > 3 && chance(t, 10) {
		i := between(t, 2, len(s)-1)
		s = s[:i] + "_" + s[i:]
	}
	return sign + s
}

func drawFloat(t *rapid.T) float64 {
	switch intn(t, 4) {
	case 0:
		return pick(t, 0, 1, -1, 0.5, 1.5, 1e100, 1e-100, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 3.25, 1e22, 123456789.125, math.NaN(), math.MaxFloat32, math.Copysign(0, -1))
	case 1:
		f, _ := new(big.Float).SetInt(drawInt(t)).Float64()
		return f
	}
	return rapid.Float64().Draw(t, "float")
}

func floatText(t *rapid.T, f float64) string {
	return strconv.FormatFloat(f, pick(t, byte('g'), byte('f'), byte('e'), byte('x')), -1, 64)
}

func drawDuration(t *rapid.T) time.Duration {
	if chance(t, 60) {
		d := pick(t, time.Nanosecond, time.Millisecond, time.Second, time.Minute, time.Hour, time.Microsecond)
		return d * time.Duration(between(t, 0, 200)-40)
	}
	return time.Duration(rapid.Int64().Draw(t, "duration"))
}

func drawTime(t *rapid.T) time.Time {
	switch intn(t, 5) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0).UTC()
	}
	u := time.Unix(int64(between(t, 0, 1000))*4000003-500000000, int64(intn(t, 3))*500000000)
	return u.In(time.FixedZone("", pick(t, 0, 3600, -5*3600, 19800, 14*3600)))
}

// messUp breaks a text in one place.
func messUp(t *rapid.T, s string) string {
	i := intn(t, min(len(s), 1000)+1)
	switch intn(t, 5) {
	case 0:
		return s[:i] + pick(t, " ", "x", "-", "+", ".", "_", "e", "9", "0", "\n", "٣", "\x00", ",", "n", "s") + s[i:]
	case 1:
		if i < len(s) {
			return s[:i] + s[i+1:]
		}
		return s + s
	case 2:
		return pick(t, " ", "\t") + s
	case 3:
		return s + pick(t, " ", "\n", "L", "f", "0", "ms")
	}
	return strings.ToUpper(s)
}

// anyNumText draws a text that some accessor converts, or nearly so.
func anyNumText(t *rapid.T) string {
	s := ""
	switch intn(t, 12) {
	case 0:
		return pick(t, "", "", "abc", "-", "+", "0x", "1.2.3", "nope", " ", "yess", "tRUE", "oN", "Y", "N", "nan", "inf", "1e400", "0.0", ".5", "5.", "1e5", "١", "--1", "1e-400")
	case 1, 2:
		s = pickFrom(t, append(append([]string{}, trueTexts...), falseTexts...))
	case 3, 4, 5:
		s = intText(t, drawInt(t))
	case 6, 7:
		s = floatText(t, drawFloat(t))
	case 8, 9:
		s = drawDuration(t).String()
	default:
		s = drawTime(t).Format(pickFrom(t, timeLayouts))
	}
	if chance(t, 15) {
		s = messUp(t, s)
	}
	return s
}

// --- oracles --------------------------------------------------------------------

func oracleInt(s string) (int64, bool) {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func oracleUint(s string) (uint64, bool) {
	if strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") {
		return 0, false
	}
	n, ok := new(big.Int).SetString(s, 0)
	if !ok || !n.IsUint64() {
		return 0, false
	}
	return n.Uint64(), true
}

func oracleBool(s string) (bool, bool) {
	for _, x := range trueTexts {
		if s == x {
			return true, true
		}
	}
	for _, x := range falseTexts {
		if s == x {
			return false, true
		}
	}
	return false, false
}

func oracleFloat(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil
}

func oracleDuration(s string) (time.Duration, bool) {
	d, err := time.ParseDuration(s)
	return d, err == nil
}

func oracleTime(layout string) func(string) (time.Time, bool) {
	return func(s string) (time.Time, bool) {
		x, err := time.Parse(layout, s)
		return x, err == nil
	}
}

func sameFloat(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

func same[T comparable](a, b T) bool { return a == b }

func sameTime(a, b time.Time) bool { return a.Equal(b) }

// --- one typed accessor ----------------------------------------------------------

// typed is the pair of accessors of one type and what they are to return.
type typed[T any] struct {
	oracle func(string) (T, bool)
	get    func(*ini.Key) (T, error)
	must   func(*ini.Key, ...T) T
	same   func(a, b T) bool
	text   func(T) string // exact text of a default that becomes the value; nil where any that converts to it may do
}

func (a typed[T]) check(d valCase, dflt T) error {
	var zero T
	text := string(d.Text)
	want, ok := a.oracle(text)
	fresh := func() (*ini.Key, *ini.Key, error) { return d.key() }
	k, _, err := fresh()
	if err != nil {
		return err
	}
	raw := k.Value()
	got, err := a.get(k)
	if (err == nil) != ok {
		return fmt.Errorf("%T of %q: error %v, want success: %v", zero, text, err, ok)
	}
	if ok && !a.same(got, want) {
		return fmt.Errorf("%T of %q is %v, want %v", zero, text, got, want)
	}
	if !ok {
		want = zero
	}
	if got := a.must(k); !a.same(got, want) {
		return fmt.Errorf("Must %T of %q without default is %v, want %v", zero, text, got, want)
	}
	if k.Value() != raw {
		return fmt.Errorf("%T: the value of %q changed to %q without a default", zero, raw, k.Value())
	}
	// with default
	if !ok {
		want = dflt
	}
	if got := a.must(k, dflt); !a.same(got, want) {
		return fmt.Errorf("Must %T of %q with default %v is %v, want %v", zero, text, dflt, got, want)
	}
	if ok {
		if k.Value() != raw {
			return fmt.Errorf("%T: the value %q that converts changed to %q", zero, raw, k.Value())
		}
	} else {
		if a.text != nil {
			if k.Value() != a.text(dflt) {
				return fmt.Errorf("Must %T of %q with default %v made the value %q", zero, text, dflt, k.Value())
			}
		} else if got, ok := a.oracle(k.Value()); !ok || !a.same(got, dflt) {
			return fmt.Errorf("Must %T of %q with default %v made the value %q", zero, text, dflt, k.Value())
		}
	}
	return d.rest(k)
}

// valCase is one value text and defaults for every type.
type valCase struct {
	Text   S
	Ref    bool // through a reference
	Load   bool // from a document, where the text allows
	Layout int

	B   bool
	I   int64
	U   uint64
	F   uint64 // bits
	D   int64
	T   int64
	N   int
	Str S
}

// key builds a fresh file with the key and a key beside it.
func (d valCase) key() (*ini.Key, *ini.Key, error) {
	f := ini.Empty()
	s := f.Section("s")
	text := string(d.Text)
	if d.Load && trimmed(text) && !strings.ContainsAny(text, "\n#;\"'`\\\x00") {
		var err error
		if f, err = load(Opts{}, "[s]\nsrc = "+text+"\nk = "+text+"\nother = o\n"); err != nil {
			return nil, nil, err
		}
		s = f.Section("s")
	} else {
		for _, n := range []string{"src", "k"} {
			if _, err := s.NewKey(n, text); err != nil {
				return nil, nil, err
			}
		}
		s.Key("other").SetValue("o")
	}
	k, err := s.GetKey("k")
	if err != nil {
		return nil, nil, err
	}
	if d.Ref {
		k.SetValue("%(src)s")
	}
	d2, err := s.GetKey("src")
	if err != nil {
		return nil, nil, err
	}
	if d2.Value() != text {
		return nil, nil, fmt.Errorf("value is %q, want %q", d2.Value(), text)
	}
	valSecs = s
	return k, d2, nil
}

// valSecs is the section of the last file built.
var valSecs *ini.Section

// rest checks that all but the key is as it was and that the section knows the
// key's value.
func (d valCase) rest(k *ini.Key) error {
	s := valSecs
	if h := s.KeysHash(); len(h) != 3 || h["k"] != k.Value() || h["src"] != string(d.Text) || h["other"] != "o" {
		return fmt.Errorf("key hash is %q, value %q", h, k.Value())
	}
	if own := s.Key("k"); own != k || own.Value() != k.Value() {
		return fmt.Errorf("section has the value %q, key %q", own.Value(), k.Value())
	}
	if s.Key("src").Value() != string(d.Text) || s.Key("other").Value() != "o" {
		return fmt.Errorf("another key changed")
	}
	return nil
}

func genVal(t *rapid.T) valCase {
	d := valCase{Text: S(anyNumText(t)), Ref: chance(t, 20), Load: chance(t, 50), Layout: intn(t, len(timeLayouts)),
		B: chance(t, 50), U: drawInt(t).Uint64(), F: math.Float64bits(drawFloat(t)), D: int64(drawDuration(t)), N: intn(t, 3), Str: S(odd(t, 3))}
	if n := drawInt(t); n.IsInt64() {
		d.I = n.Int64()
	}
	d.T = drawTime(t).Unix()
	return d
}

func checkVal(c *Ctx, d valCase) error {
	text := string(d.Text)
	layout := timeLayouts[d.Layout]
	_, isInt := oracleInt(text)
	_, isUint := oracleUint(text)
	_, isBool := oracleBool(text)
	_, isFloat := oracleFloat(text)
	_, isDur := oracleDuration(text)
	_, isTime := oracleTime(layout)(text)
	_, isRFC := oracleTime(time.RFC3339)(text)
	c.Label(isInt, "int")
	c.Label(isUint && !isInt, "uint-only")
	c.Label(isBool, "bool")
	c.Label(isFloat && !isInt, "float")
	c.Label(isDur && !isInt, "duration")
	c.Label(isTime || isRFC, "time")
	c.Label(strings.Contains(text, "x") && isInt, "prefixed")
	c.Label(strings.Contains(text, "_") && isInt, "underscore")
	conv := isInt || isUint || isBool || isFloat || isDur || isTime || isRFC
	c.Label(!conv, "none")
	c.NonTrivial(text != "")

	if err := (typed[bool]{oracleBool, (*ini.Key).Bool, (*ini.Key).MustBool, same[bool], strconv.FormatBool}).check(d, d.B); err != nil {
		return err
	}
	if err := (typed[int]{func(s string) (int, bool) { n, ok := oracleInt(s); return int(n), ok }, (*ini.Key).Int, (*ini.Key).MustInt, same[int], nil}).check(d, int(d.I)); err != nil {
		return err
	}
	if err := (typed[int64]{oracleInt, (*ini.Key).Int64, (*ini.Key).MustInt64, same[int64], nil}).check(d, d.I); err != nil {
		return err
	}
	if err := (typed[uint]{func(s string) (uint, bool) { n, ok := oracleUint(s); return uint(n), ok }, (*ini.Key).Uint, (*ini.Key).MustUint, same[uint], nil}).check(d, uint(d.U)); err != nil {
		return err
	}
	if err := (typed[uint64]{oracleUint, (*ini.Key).Uint64, (*ini.Key).MustUint64, same[uint64], nil}).check(d, d.U); err != nil {
		return err
	}
	if err := (typed[float64]{oracleFloat, (*ini.Key).Float64, (*ini.Key).MustFloat64, sameFloat, nil}).check(d, math.Float64frombits(d.F)); err != nil {
		return err
	}
	if err := (typed[time.Duration]{oracleDuration, (*ini.Key).Duration, (*ini.Key).MustDuration, same[time.Duration], nil}).check(d, time.Duration(d.D)); err != nil {
		return err
	}
	tm := time.Unix(d.T, 0).UTC()
	if err := (typed[time.Time]{oracleTime(time.RFC3339), (*ini.Key).Time, (*ini.Key).MustTime, sameTime, nil}).check(d, tm); err != nil {
		return err
	}
	get := func(k *ini.Key) (time.Time, error) { return k.TimeFormat(layout) }
	must := func(k *ini.Key, x ...time.Time) time.Time { return k.MustTimeFormat(layout, x...) }
	if err := (typed[time.Time]{oracleTime(layout), get, must, sameTime, func(x time.Time) string { return x.Format(layout) }}).check(d, tm); err != nil {
		return err
	}
	// MustString takes the default for the empty string only.
	k, _, err := d.key()
	if err != nil {
		return err
	}
	raw, want := k.Value(), text
	if text == "" {
		want = string(d.Str)
		raw = want
	}
	if got := k.MustString(string(d.Str)); got != want || k.Value() != raw {
		return fmt.Errorf("MustString of %q with default %q is %q and leaves %q", text, d.Str, got, k.Value())
	}
	return d.rest(k)
}

// --- candidates and ranges --------------------------------------------------------

type inCase struct {
	Val  valCase
	Ints []S // numbers: default, min, max, candidates
	Strs []S
	F    []uint64
	T    []int64
	NS   []int
	Zone int
}

func genIn(t *rapid.T) inCase {
	d := inCase{Val: genVal(t), Zone: pick(t, 0, 3600, -7200)}
	for i := between(t, 3, 7); i > 0; i-- {
		d.Ints = append(d.Ints, S(drawInt(t).Text(10)))
		d.F = append(d.F, math.Float64bits(drawFloat(t)))
		d.T = append(d.T, drawTime(t).Unix())
		d.NS = append(d.NS, pick(t, 0, 0, 500000000, 1, 999999999))
		d.Strs = append(d.Strs, S(anyNumText(t)))
	}
	text := string(d.Val.Text)
	near := func(lo int) int { return between(t, lo, len(d.Ints)-1) }
	// Often the value itself, or a neighbour, is a bound or a candidate.
	if n, ok := new(big.Int).SetString(text, 0); ok {
		for i := intn(t, 3); i > 0; i-- {
			d.Ints[near(0)] = S(new(big.Int).Add(n, big.NewInt(int64(pick(t, 0, 0, 1, -1)))).Text(10))
		}
	}
	if f, ok := oracleFloat(text); ok {
		for i := intn(t, 3); i > 0; i-- {
			d.F[near(0)] = math.Float64bits(pick(t, f, f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1))))
		}
	}
	for _, l := range []string{time.RFC3339, timeLayouts[d.Val.Layout]} {
		if x, ok := oracleTime(l)(text); ok {
			for i := intn(t, 3); i > 0; i-- {
				j := near(0)
				d.T[j], d.NS[j] = x.Unix()+int64(pick(t, 0, 0, 1, -1)), pick(t, x.Nanosecond(), x.Nanosecond(), 0, 600000000)
			}
		}
	}
	if chance(t, 50) {
		d.Strs[near(1)] = d.Val.Text
	}
	return d
}

func contains[T any](same func(a, b T) bool, l []T, v T) bool {
	for _, x := range l {
		if same(x, v) {
			return true
		}
	}
	return false
}

func checkInOne[T any](d inCase, oracle func(string) (T, bool), in func(k *ini.Key, dflt T, cands []T) T, eq func(a, b T) bool, dflt T, cands []T) (hit bool, err error) {
	k, _, err := d.Val.key()
	if err != nil {
		return false, err
	}
	raw := k.Value()
	// Several times: with all candidates, with some of them, in reverse, and with
	// all again. The lists stay what they are.
	other := append([]T{}, cands...)
	slices.Reverse(other)
	for i, l := range [][]T{cands, other[:len(other)/2], other, cands} {
		v, ok := oracle(string(d.Val.Text))
		want := dflt
		if ok && contains(eq, l, v) {
			want, hit = v, true
		}
		was := fmt.Sprintf("%v", l)
		got := in(k, dflt, l)
		if fmt.Sprintf("%v", got) != fmt.Sprintf("%v", want) {
			return hit, fmt.Errorf("In %T of %q (call %d), default %v, candidates %v: %v, want %v", dflt, d.Val.Text, i, dflt, l, got, want)
		}
		if now := fmt.Sprintf("%v", l); now != was {
			return hit, fmt.Errorf("In %T of %q changed the candidates %s to %s", dflt, d.Val.Text, was, now)
		}
		if k.Value() != raw {
			return hit, fmt.Errorf("In %T changed the value %q to %q", dflt, raw, k.Value())
		}
	}
	return hit, d.Val.rest(k)
}

func checkRangeOne[T any](d inCase, oracle func(string) (T, bool), rng func(k *ini.Key, dflt, min, max T) T, less func(a, b T) bool, dflt, lo, hi T) (hit bool, err error) {
	k, _, err := d.Val.key()
	if err != nil {
		return false, err
	}
	raw := k.Value()
	v, ok := oracle(string(d.Val.Text))
	if !ok {
		var zero T
		v = zero
	}
	want := dflt
	if !less(v, lo) && !less(hi, v) && comparableValue(v) && comparableValue(lo) && comparableValue(hi) {
		want, hit = v, true
	}
	got := rng(k, dflt, lo, hi)
	if fmt.Sprintf("%v", got) != fmt.Sprintf("%v", want) {
		return hit, fmt.Errorf("Range %T of %q, default %v, bounds %v and %v: %v, want %v", dflt, d.Val.Text, dflt, lo, hi, got, want)
	}
	if k.Value() != raw {
		return hit, fmt.Errorf("Range %T changed the value %q to %q", dflt, raw, k.Value())
	}
	return hit && ok, d.Val.rest(k)
}

// comparableValue tells whether v lies somewhere, which what is not a number
// does not.
func comparableValue(v any) bool {
	f, ok := v.(float64)
	return !ok || !math.IsNaN(f)
}

func checkIn(c *Ctx, d inCase) error {
	layout := timeLayouts[d.Val.Layout]
	// An Int that does not fit is replaced by a small one.
	var is []int64
	var us []uint64
	for _, s := range d.Ints {
		n, ok := new(big.Int).SetString(string(s), 10)
		if !ok {
			return fmt.Errorf("bad case")
		}
		if n.IsInt64() {
			is = append(is, n.Int64())
		} else {
			is = append(is, 5)
		}
		if n.IsUint64() {
			us = append(us, n.Uint64())
		} else {
			us = append(us, 6)
		}
	}
	var ints []int
	var uints []uint
	for i := range is {
		ints, uints = append(ints, int(is[i])), append(uints, uint(us[i]))
	}
	var fs []float64
	for _, b := range d.F {
		fs = append(fs, math.Float64frombits(b))
	}
	var ts []time.Time
	for i, u := range d.T {
		ts = append(ts, time.Unix(u, int64(d.NS[i])).In(time.FixedZone("", d.Zone)))
	}
	oInt := func(s string) (int, bool) { n, ok := oracleInt(s); return int(n), ok }
	oUint := func(s string) (uint, bool) { n, ok := oracleUint(s); return uint(n), ok }
	eqF := func(a, b float64) bool { return a == b } // nothing equals NaN
	oT := oracleTime(layout)
	for _, run := range []struct {
		name string
		f    func() (bool, error)
	}{
		{"in-string", func() (bool, error) {
			return checkInOne(d, func(s string) (string, bool) { return s, true }, (*ini.Key).In, same[string], string(d.Strs[0]), strs(d.Strs[1:]))
		}},
		{"in-float", func() (bool, error) {
			return checkInOne(d, oracleFloat, (*ini.Key).InFloat64, eqF, fs[0], fs[1:])
		}},
		{"in-int", func() (bool, error) { return checkInOne(d, oInt, (*ini.Key).InInt, same[int], ints[0], ints[1:]) }},
		{"in-int64", func() (bool, error) { return checkInOne(d, oracleInt, (*ini.Key).InInt64, same[int64], is[0], is[1:]) }},
		{"in-uint", func() (bool, error) {
			return checkInOne(d, oUint, (*ini.Key).InUint, same[uint], uints[0], uints[1:])
		}},
		{"in-uint64", func() (bool, error) {
			return checkInOne(d, oracleUint, (*ini.Key).InUint64, same[uint64], us[0], us[1:])
		}},
		{"in-time", func() (bool, error) {
			return checkInOne(d, oracleTime(time.RFC3339), (*ini.Key).InTime, sameTime, ts[0], ts[1:])
		}},
		{"in-timeformat", func() (bool, error) {
			in := func(k *ini.Key, dflt time.Time, cands []time.Time) time.Time {
				return k.InTimeFormat(layout, dflt, cands)
			}
			return checkInOne(d, oT, in, sameTime, ts[0], ts[1:])
		}},
		{"range-float", func() (bool, error) {
			return checkRangeOne(d, oracleFloat, (*ini.Key).RangeFloat64, func(a, b float64) bool { return a < b }, fs[0], fs[1], fs[2])
		}},
		{"range-int", func() (bool, error) {
			return checkRangeOne(d, oInt, (*ini.Key).RangeInt, func(a, b int) bool { return a < b }, ints[0], ints[1], ints[2])
		}},
		{"range-int64", func() (bool, error) {
			return checkRangeOne(d, oracleInt, (*ini.Key).RangeInt64, func(a, b int64) bool { return a < b }, is[0], is[1], is[2])
		}},
		{"range-time", func() (bool, error) {
			return checkRangeOne(d, oracleTime(time.RFC3339), (*ini.Key).RangeTime, time.Time.Before, ts[0], ts[1], ts[2])
		}},
		{"range-timeformat", func() (bool, error) {
			rng := func(k *ini.Key, dflt, lo, hi time.Time) time.Time {
				return k.RangeTimeFormat(layout, dflt, lo, hi)
			}
			return checkRangeOne(d, oT, rng, time.Time.Before, ts[0], ts[1], ts[2])
		}},
	} {
		hit, err := run.f()
		if err != nil {
			return fmt.Errorf("%s: %v", run.name, err)
		}
		c.Label(hit, run.name)
		c.NonTrivial(hit)
	}
	return nil
}

// --- lists -----------------------------------------------------------------------

type listCase struct {
	Delim  S
	Text   S
	More   []S // shadows
	Load   bool
	Layout int
	Src    S // value of the key that a text may refer to
}

// splitList is the splitter of the documentation: a delimiter ends an element
// unless a backslash is before it; that backslash, and one before a backslash,
// is dropped.
func splitList(s, delim string) []string {
	var out []string
	var tok strings.Builder
	for s != "" {
		switch {
		case strings.HasPrefix(s, `\`+delim):
			tok.WriteString(delim)
			s = s[1+len(delim):]
		case strings.HasPrefix(s, `\\`):
			tok.WriteByte('\\')
			s = s[2:]
		case strings.HasPrefix(s, delim):
			out = append(out, strings.TrimSpace(tok.String()))
			tok.Reset()
			s = s[len(delim):]
		case s[0] == '\\' && len(s) > 1:
			// The byte after a backslash is never the start of a delimiter.
			tok.WriteString(s[:2])
			s = s[2:]
		default:
			tok.WriteByte(s[0])
			s = s[1:]
		}
	}
	if tok.Len() > 0 {
		out = append(out, strings.TrimSpace(tok.String()))
	}
	return out
}

var listDelims = []string{",", ",", ";", "|", " ", ", ", "::", "é", "日", "ab", "aa", "\t", "a", "1", "=>", "\n", "%", "aab", "\u00a0"}

func genListText(t *rapid.T, delim string, typed bool) string {
	var b strings.Builder
	for i := pick(t, intn(t, 9), intn(t, 9), few(t, 0)*pick(t, 1, 1, 8)); i > 0; i-- {
		switch {
		case chance(t, 25):
			b.WriteString(pick(t, `\`, `\`+delim, `\\`, `\\`+delim, delim[:1], delim[len(delim)-1:], delim+delim, " ", "\t", `\n`, "x", "%(src)s", "a", "aa", "é"))
		case typed:
			b.WriteString(anyNumText(t))
		default:
			b.WriteString(word(t))
		}
		if chance(t, 70) {
			b.WriteString(pick(t, "", "", " ") + delim + pick(t, "", "", " "))
		}
	}
	return b.String()
}

// genUniform draws a list of elements of one kind, few of them spoilt.
func genUniform(t *rapid.T, delim string, layout int) string {
	kind, bad := intn(t, 6), pick(t, 0, 0, 10, 30)
	var out []string
	for i := pick(t, between(t, 1, 6), between(t, 1, 6), few(t, 1)*pick(t, 1, 1, 8)); i > 0; i-- {
		s := ""
		switch kind {
		case 0:
			s = intText(t, drawInt(t))
		case 1:
			s = intText(t, big.NewInt(int64(intn(t, 300)-100)))
		case 2:
			s = pickFrom(t, append(append([]string{}, trueTexts...), falseTexts...))
		case 3:
			s = floatText(t, drawFloat(t))
		case 4:
			s = drawTime(t).Format(time.RFC3339)
		case 5:
			s = drawTime(t).Format(timeLayouts[layout])
		}
		if chance(t, bad) {
			s = pick(t, messUp(t, s), anyNumText(t), "")
		}
		out = append(out, s)
	}
	return strings.Join(out, pick(t, "", " ")+delim+pick(t, "", " "))
}

func genList(t *rapid.T) listCase {
	d := listCase{Delim: S(pickFrom(t, listDelims)), Load: chance(t, 30), Layout: intn(t, len(timeLayouts)), Src: S(pick(t, "7", "x", "", "1,2", `\`, "true"))}
	if chance(t, 40) {
		d.Text = S(genUniform(t, string(d.Delim), d.Layout))
	} else {
		d.Text = S(genListText(t, string(d.Delim), chance(t, 70)))
	}
	for i := pick(t, 0, 0, 1, 2, 3); i > 0; i-- {
		d.More = append(d.More, S(genListText(t, string(d.Delim), chance(t, 50))))
	}
	return d
}

func checkElems[T any](what string, elems []string, oracle func(string) (T, bool), eq func(a, b T) bool, plain, valid []T, strict []T, serr error) error {
	var zero T
	var wantPlain, wantValid []T
	bad := ""
	all := true
	for _, e := range elems {
		v, ok := oracle(e)
		if !ok {
			if all {
				bad = e
			}
			all = false
			wantPlain = append(wantPlain, zero)
			continue
		}
		wantPlain, wantValid = append(wantPlain, v), append(wantValid, v)
	}
	eql := func(a, b []T) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !eq(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	if !eql(plain, wantPlain) {
		return fmt.Errorf("%s of %q: %v, want %v", what, elems, plain, wantPlain)
	}
	if !eql(valid, wantValid) {
		return fmt.Errorf("valid %s of %q: %v, want %v", what, elems, valid, wantValid)
	}
	if (serr == nil) != all {
		return fmt.Errorf("strict %s of %q: error %v; first that does not convert: %q", what, elems, serr, bad)
	}
	if all && !eql(strict, wantPlain) {
		return fmt.Errorf("strict %s of %q: %v, want %v", what, elems, strict, wantPlain)
	}
	return nil
}

func checkList(c *Ctx, d listCase) error {
	delim, text := string(d.Delim), string(d.Text)
	f := ini.Empty(ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true})
	s := f.Section("")
	if d.Load && trimmed(text) && !strings.ContainsAny(text, "\n#;\"'`\x00") && !strings.HasSuffix(text, `\`) {
		var err error
		if f, err = load(Opts{AllowShadows: true, AllowDuplicateShadowValues: true}, "k = "+text+"\n"); err != nil {
			return err
		}
		s = f.Section("")
		c.Label(true, "loaded")
	} else if _, err := s.NewKey("k", text); err != nil {
		return err
	}
	if _, err := s.NewKey("src", string(d.Src)); err != nil {
		return err
	}
	k, err := s.GetKey("k")
	if err != nil {
		return err
	}
	if k.Value() != text {
		return fmt.Errorf("value is %q, want %q", k.Value(), text)
	}
	m := &MFile{}
	ms := m.section("")
	mk, _ := m.newKey(ms, "k", text)
	m.newKey(ms, "src", string(d.Src))
	blown := false
	expand := func(s string) string {
		out, _, _, ok := m.expand(ms, mk, s, expandCap)
		blown = blown || !ok
		return out
	}
	text = expand(text)
	if blown {
		return fmt.Errorf("bad case: expansion without limit")
	}
	if err := listOf(c, k, text, delim, timeLayouts[d.Layout]); err != nil {
		return err
	}
	// shadows
	want := []string{}
	for i, v := range append([]string{string(d.Text)}, strs(d.More)...) {
		if i > 0 {
			if err := k.AddShadow(v); err != nil {
				return err
			}
		}
		if v == "" {
			continue
		}
		for _, e := range strings.Split(v, delim) {
			want = append(want, expand(strings.TrimSpace(e)))
		}
	}
	c.Label(len(d.More) > 0, "shadows")
	if got := k.StringsWithShadows(delim); !eqStrs(got, want) {
		return fmt.Errorf("StringsWithShadows(%q) of %q and %q: %q, want %q", delim, text, d.More, got, want)
	}
	if k.Value() != string(d.Text) {
		return fmt.Errorf("value changed to %q", k.Value())
	}
	return nil
}

func listOf(c *Ctx, k *ini.Key, text, delim, layout string) error {
	elems := splitList(text, delim)
	c.NonTrivial(len(elems) > 1)
	c.Label(strings.Contains(text, `\`+delim), "escaped-delimiter")
	c.Label(strings.Contains(text, `\\`), "escaped-backslash")
	c.Label(strings.HasSuffix(text, `\`), "trailing-backslash")
	c.Label(len(delim) > 1, "long-delimiter")
	conv := 0
	for _, e := range elems {
		if _, ok := oracleInt(e); ok {
			conv++
		}
	}
	c.Label(conv > 0 && conv < len(elems), "mixed-ints")
	c.Label(conv > 1 && conv == len(elems), "all-ints")
	times := 0
	for _, e := range elems {
		for _, l := range []string{time.RFC3339, layout} {
			if _, ok := oracleTime(l)(e); ok {
				times++
				break
			}
		}
	}
	c.Label(times > 1, "times")
	return listAccessors(k, elems, text, delim, layout, ^0)
}

// listAccessors compares what the accessors in the set return.
func listAccessors(k *ini.Key, elems []string, text, delim, layout string, set int) error {
	oInt := func(s string) (int, bool) { n, ok := oracleInt(s); return int(n), ok }
	oUint := func(s string) (uint, bool) { n, ok := oracleUint(s); return uint(n), ok }
	for i, f := range []func() error{
		func() error {
			if got := k.Strings(delim); !eqStrs(got, elems) {
				return fmt.Errorf("Strings(%q) of %q: %q, want %q", delim, text, got, elems)
			}
			return nil
		},
		func() error {
			l, e := k.StrictBools(delim)
			return checkElems("bools", elems, oracleBool, same[bool], k.Bools(delim), k.ValidBools(delim), l, e)
		},
		func() error {
			l, e := k.StrictInts(delim)
			return checkElems("ints", elems, oInt, same[int], k.Ints(delim), k.ValidInts(delim), l, e)
		},
		func() error {
			l, e := k.StrictInt64s(delim)
			return checkElems("int64s", elems, oracleInt, same[int64], k.Int64s(delim), k.ValidInt64s(delim), l, e)
		},
		func() error {
			l, e := k.StrictUints(delim)
			return checkElems("uints", elems, oUint, same[uint], k.Uints(delim), k.ValidUints(delim), l, e)
		},
		func() error {
			l, e := k.StrictUint64s(delim)
			return checkElems("uint64s", elems, oracleUint, same[uint64], k.Uint64s(delim), k.ValidUint64s(delim), l, e)
		},
		func() error {
			l, e := k.StrictFloat64s(delim)
			return checkElems("floats", elems, oracleFloat, sameFloat, k.Float64s(delim), k.ValidFloat64s(delim), l, e)
		},
		func() error {
			l, e := k.StrictTimes(delim)
			return checkElems("times", elems, oracleTime(time.RFC3339), sameTime, k.Times(delim), k.ValidTimes(delim), l, e)
		},
		func() error {
			l, e := k.StrictTimesFormat(layout, delim)
			return checkElems("times of a format", elems, oracleTime(layout), sameTime, k.TimesFormat(layout, delim), k.ValidTimesFormat(layout, delim), l, e)
		},
	} {
		if set>>i&1 == 0 {
			continue
		}
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

// joinCase is a list of elements, written with escapes and read back.
type joinCase struct {
	Delim S
	Elems []S
}

func checkJoin(c *Ctx, d joinCase) error {
	delim := string(d.Delim)
	var parts []string
	for _, e := range d.Elems {
		x := strings.ReplaceAll(string(e), `\`, `\\`)
		x = strings.ReplaceAll(x, delim, `\`+delim)
		parts = append(parts, x)
	}
	text := strings.Join(parts, delim)
	want := strs(d.Elems)
	f := ini.Empty()
	k, err := f.Section("").NewKey("k", text)
	if err != nil {
		return err
	}
	c.NonTrivial(len(want) > 1)
	c.Label(strings.Contains(text, `\`+delim), "escaped-delimiter")
	if got := k.Strings(delim); !eqStrs(got, want) {
		return fmt.Errorf("elements %q joined as %q: %q", want, text, got)
	}
	return nil
}

func init() {
	register("C22",
		"a case is non-trivial when the text is not empty (every case drives the accessors of all types); again: a key is converted at least twice",
		sub[valCase]{name: "typed", quick: 120000, thoro: 1500000, gen: genVal, check: checkVal},
		sub[againCase]{name: "again", quick: 40000, thoro: 1000000, gen: genAgain("set", "again-new", "swap", "scalar", "scalar", "scalar", "scalar"),
			check: func(c *Ctx, d againCase) error { return d.check(c) }})
	register("C23",
		"a case is non-trivial when some In accessor finds the value among the candidates or some Range accessor finds a converted value within the bounds; again: a key is asked at least twice",
		sub[inCase]{name: "admissible", quick: 100000, thoro: 1200000, gen: genIn, check: checkIn},
		sub[againCase]{name: "again", quick: 40000, thoro: 1000000, gen: genAgain("set", "again-new", "swap", "in", "in", "in", "scalar"),
			check: func(c *Ctx, d againCase) error { return d.check(c) }})
	register("C24",
		"a case is non-trivial when the text has at least two elements (every case drives the lists of all types); again: a key is split at least twice",
		sub[listCase]{name: "lists", quick: 180000, thoro: 2500000, gen: genList, check: checkList},
		sub[againCase]{name: "again", quick: 40000, thoro: 1000000, gen: genAgain("set", "again-new", "swap", "shadow", "shadow-list", "list", "list", "list", "list"),
			check: func(c *Ctx, d againCase) error { return d.check(c) }},
		sub[joinCase]{name: "join", quick: 80000, thoro: 1000000,
			gen: func(t *rapid.T) joinCase {
				d := joinCase{Delim: S(pick(t, ",", ";", "|", "=>", "日", "ab", "é", "/"))}
				for i := between(t, 1, 6); i > 0; i-- {
					var e strings.Builder
					for j := between(t, 0, 3); j > 0; j-- {
						e.WriteString(pick(t, string(d.Delim), `\`, "x", "y z", string(d.Delim[0]), "日", "é", ",", "1", `\\`))
					}
					s := strings.TrimSpace(strings.ToValidUTF8(e.String(), "?"))
					if i == 1 && s == "" {
						s = "last"
					}
					d.Elems = append(d.Elems, S(s))
				}
				return d
			}, check: checkJoin},
	)
}
