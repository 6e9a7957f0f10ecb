package tachograph_test

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
)

// simDiffMsg names the first difference of two messages of one type.
func simDiffMsg(path string, a, b protoreflect.Message) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s present %v/%v", path, a.IsValid(), b.IsValid())
	}
	fs := a.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		p := path + "." + string(fd.Name())
		if a.Has(fd) != b.Has(fd) {
			return fmt.Sprintf("%s set %v/%v", p, a.Has(fd), b.Has(fd))
		}
		if !a.Has(fd) {
			continue
		}
		x, y := a.Get(fd), b.Get(fd)
		switch {
		case fd.IsList():
			l, m := x.List(), y.List()
			if l.Len() != m.Len() {
				return fmt.Sprintf("%s has %d/%d elements", p, l.Len(), m.Len())
			}
			for k := 0; k < l.Len(); k++ {
				q := fmt.Sprintf("%s[%d]", p, k)
				if fd.Message() != nil {
					if s := simDiffMsg(q, l.Get(k).Message(), m.Get(k).Message()); s != "" {
						return s
					}
				} else if !l.Get(k).Equal(m.Get(k)) {
					return fmt.Sprintf("%s is %.60v/%.60v", q, l.Get(k), m.Get(k))
				}
			}
		case fd.Message() != nil:
			if s := simDiffMsg(p, x.Message(), y.Message()); s != "" {
				return s
			}
		case !x.Equal(y):
			if fd.Kind() == protoreflect.BytesKind {
				s, t := x.Bytes(), y.Bytes()
				k := 0
				for k < len(s) && k < len(t) && s[k] == t[k] {
					k++
				}
				return fmt.Sprintf("%s differs at byte %d (%d/%d bytes)", p, k, len(s), len(t))
			}
			return fmt.Sprintf("%s is %.60v/%.60v", p, x, y)
		}
	}
	if s, t := string(a.GetUnknown()), string(b.GetUnknown()); s != t {
		return path + " unknown fields differ"
	}
	return ""
}

func simShort(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}
