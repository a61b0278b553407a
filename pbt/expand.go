package main

import "strings"

// findRef finds the leftmost %(name)s of a text.
func findRef(s string) (at int, ref, name string) {
	for i := 0; i+2 < len(s); i++ {
		if s[i] != '%' || s[i+1] != '(' {
			continue
		}
		j := strings.IndexByte(s[i+2:], ')')
		if j <= 0 || !strings.HasPrefix(s[i+2+j:], ")s") {
			continue
		}
		return i, s[i : i+2+j+2], s[i+2 : i+2+j]
	}
	return -1, "", ""
}

// expand is the expansion of references in a raw value of key k (nil for none)
// in section s. It gives up, with ok false, beyond max bytes; unresolved tells
// whether it stopped at a reference to nothing, steps how many were replaced.
func (m *MFile) expand(s *MSec, k *MKey, val string, max int) (out string, steps int, unresolved, ok bool) {
	for i := 0; i < 99; i++ {
		_, ref, name := findRef(val)
		if ref == "" {
			break
		}
		to := m.lookup(s, name)
		if to == nil || to == k {
			to = nil
			if d := m.first(""); d != nil {
				to = m.lookup(d, name)
			}
			if to == nil {
				return val, steps, true, true
			}
		}
		if len(val)+strings.Count(val, ref)*(len(to.Val)-len(ref)) > max {
			return "", steps, false, false
		}
		val = strings.ReplaceAll(val, ref, to.Val)
		steps++
	}
	return val, steps, false, true
}

// modelOf is a model of a file as it was read, for lookups.
func modelOf(o Opts, sn Snap) *MFile {
	m := &MFile{O: o}
	for _, s := range sn {
		ms := &MSec{Name: s.Name, Comment: s.Comment, Body: s.Body}
		for _, k := range s.Keys {
			mk := &MKey{Name: k.Name, Val: k.Value, Nested: k.Nested, Comment: k.Comment}
			all := k.All
			if k.Value != "" && len(all) > 0 {
				all = all[1:]
			}
			mk.Shadows = all
			ms.Keys = append(ms.Keys, mk)
		}
		m.Secs = append(m.Secs, ms)
	}
	return m
}
