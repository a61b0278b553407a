package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/go-ini/ini"
)

func sortS(in []S) []S {
	sort.Slice(in, func(i, j int) bool { return in[i] < in[j] })
	return in
}

// load loads byte slices and enforces that exactly one of file and error results.
func load(o Opts, srcs ...string) (*ini.File, error) {
	return loadAny(o.ini(), toSources(srcs)...)
}

func toSources(srcs []string) []any {
	out := make([]any, len(srcs))
	for i, s := range srcs {
		out[i] = []byte(s)
	}
	return out
}

func loadAny(lo ini.LoadOptions, srcs ...any) (*ini.File, error) {
	f, err := ini.LoadSources(lo, srcs[0], srcs[1:]...)
	if (f == nil) == (err == nil) {
		return nil, both{fmt.Errorf("LoadSources returned file %v and error %v", f != nil, err)}
	}
	return f, err
}

// both is the violation of returning a file and an error, or neither.
type both struct{ error }

func writeBytes(f *ini.File) ([]byte, error) {
	var b bytes.Buffer
	n, err := f.WriteTo(&b)
	if err != nil {
		return nil, fmt.Errorf("WriteTo: %v", err)
	}
	if n != int64(b.Len()) {
		return nil, fmt.Errorf("WriteTo returned %d and wrote %d bytes", n, b.Len())
	}
	return b.Bytes(), nil
}

// format is one setting of the package's output formatting.
type format struct {
	Pretty, Equal, Section, Header bool
	Left, Right                    S
	LineBreak                      S
}

func defaultFormat() format {
	return format{Pretty: true, Section: true, LineBreak: "\n"}
}

func (m format) set() {
	ini.PrettyFormat, ini.PrettyEqual, ini.PrettySection, ini.DefaultHeader = m.Pretty, m.Equal, m.Section, m.Header
	ini.DefaultFormatLeft, ini.DefaultFormatRight = string(m.Left), string(m.Right)
	ini.LineBreak = string(m.LineBreak)
}
