package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// filesCase is a file for each goroutine, which no other one knows.
type filesCase struct {
	F     format
	Files []ownFile
}

type ownFile struct {
	O   Opts
	Src S
	Val S
	N   int
}

type tourStruct struct {
	Name, Key string
	A         int
	B         bool
	Flag      *float64
	List      []string `ini:"a" delim:","`
	Ints      []int    `ini:"b"`
	At        time.Time
	For       time.Duration
	Sub       struct {
		A, B string
		More []string `ini:"key,omitempty,allowshadow"`
	} `ini:"a" comment:"nested"`
}

// tour uses all parts of the package on one file and writes down what they say.
func (d ownFile) tour() string {
	var log bytes.Buffer
	say := func(what string, x ...any) { fmt.Fprintf(&log, "%s %+q\n", what, x) }
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	// At most one reference per value, for several grow exponentially (finding K6).
	src := string(d.Src)
	if i := strings.Index(src, "%("); i >= 0 {
		src = src[:i+2] + strings.ReplaceAll(src[i+2:], "%(", "%{")
	}
	f, err := load(d.O, src)
	if say("load", errText(err)); err != nil {
		return log.String()
	}
	f.NameMapper = ini.TitleUnderscore
	edit := func() {
		for i, s := range f.Sections() {
			say("section", s.Name(), s.Comment, s.Body(), s.KeyStrings())
			for j, k := range s.Keys() {
				say("key", k.Name(), k.Comment, k.Value(), k.ValueWithShadows(), k.NestedValues())
				if j > 20 {
					continue
				}
				n, err := k.Int()
				say("int", n, errText(err), k.Strings(","), k.MustBool(), k.Float64s(","), k.InInt(1, []int{2, 3}))
				x, err := k.Duration()
				say("duration", x, errText(err))
				if (i+j)%3 == d.N%3 {
					k.SetValue(string(d.Val))
				}
			}
			if i%2 == d.N%2 {
				_, err := s.NewKey("new", string(d.Val))
				say("new", errText(err), s.HasValue(string(d.Val)), len(s.KeysHash()))
			}
			s.Comment += string(d.Val[:len(d.Val)/2])
		}
		if l := f.SectionStrings(); d.N%2 == 0 && len(l) > 2 {
			f.DeleteSection(l[1])
		}
	}
	write := func() {
		var b bytes.Buffer
		n, err := f.WriteToIndent(&b, " ")
		say("write", n, errText(err), b.String())
	}
	write()
	edit()
	var v tourStruct
	err = f.StrictMapTo(&v)
	say("strict", errText(err))
	err = f.MapTo(&v)
	v.Flag = nil
	say("map", errText(err), fmt.Sprint(v))
	v.Name, v.A, v.At = string(d.Val), d.N, time.Unix(int64(d.N), 0).UTC()
	g := ini.Empty(ini.LoadOptions{AllowShadows: true})
	say("reflect", errText(ini.ReflectFromWithMapper(g, &v, ini.SnackCase)))
	var b bytes.Buffer
	_, err = g.WriteTo(&b)
	say("reflected", errText(err), b.String())
	write()
	say("append", errText(f.Append([]byte("[more]\na = %(name)s\n"))))
	edit()
	write()
	return log.String()
}

func checkFiles(c *Ctx, d filesCase) error {
	c.NonTrivial(true)
	d.F.set()
	defer resetGlobals()
	want := make([]string, len(d.Files))
	for i, f := range d.Files {
		want[i] = f.tour()
	}
	for round := 0; round < 2; round++ {
		got := make([]string, len(d.Files))
		if err := parallel(len(d.Files), func(t int) { got[t] = d.Files[t].tour() }); err != nil {
			return err
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Errorf("a file used while other goroutines use theirs:\n%s\nused alone:\n%s", abbrev(got[i]), abbrev(want[i]))
			}
		}
	}
	return nil
}

func genFiles(t *rapid.T) filesCase {
	d := filesCase{F: genFormat(t, nil)}
	for i := between(t, 2, 4); i > 0; i-- {
		f := ownFile{Val: S(pick(t, "v", "1", "2020-01-01T00:00:00Z", "x # y", "%(name)s", "a,b,c", `c:\d`)), N: intn(t, 6)}
		if chance(t, 70) {
			f.O = loadOpts(t, 20)
			f.Src = genDoc(t, f.O, docConf{odd: 5, comments: 30, multi: 10}, between(t, 1, 12)).Src[0]
		} else {
			f.Src = S(soup(t, 8, 3))
		}
		d.Files = append(d.Files, f)
	}
	return d
}
