package ref

import (
	"net/url"
	"strings"
)

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Unescape decodes a text. For texts with malformed escapes the result is what
// copying them gives; ok is false if that is ambiguous (a malformed escape
// with another % or + in its three characters).
func Unescape(s string) (out string, ok bool) {
	if u, err := url.QueryUnescape(s); err == nil {
		return u, true
	}
	var b strings.Builder
	ok = true
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b.WriteByte(' ')
		case '%':
			if i+2 < len(s) && hexVal(s[i+1]) >= 0 && hexVal(s[i+2]) >= 0 {
				b.WriteByte(byte(hexVal(s[i+1])<<4 | hexVal(s[i+2])))
				i += 2
				continue
			}
			end := i + 3
			if end > len(s) {
				end = len(s)
			}
			if strings.ContainsAny(s[i+1:end], "%+") {
				return "", false
			}
			b.WriteByte('%')
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), ok
}

const upperHex = "0123456789ABCDEF"

func unreserved(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
		c == '-' || c == '_' || c == '.' || c == '~'
}

// EscapePath leaves unreserved characters and $&+,/:;=@ as they are.
func EscapePath(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; unreserved(c) || strings.IndexByte("$&+,/:;=@", c) >= 0 {
			b.WriteByte(c)
		} else {
			b.WriteByte('%')
			b.WriteByte(upperHex[c>>4])
			b.WriteByte(upperHex[c&15])
		}
	}
	return b.String()
}

// DecodePath decodes name<sep>k=v<amp>k=v...; known is false where the
// property does not say what the result is.
func DecodePath(path string, sep, amp byte) (tags []Tag, isErr, known bool) {
	name, args, found := strings.Cut(path, string(sep))
	if !found || strings.Contains(name, "=") {
		return nil, true, true
	}
	known = true
	put := func(k, v string) {
		uk, ok1 := Unescape(k)
		uv, ok2 := Unescape(v)
		known = known && ok1 && ok2
		tags = append(tags, Tag{uk, uv})
	}
	put("__name__", name)
	tags[0].Key = "__name__"
	if args == "" {
		return tags, false, false
	}
	pieces := strings.Split(args, string(amp))
	for i, p := range pieces {
		k, v, ok := strings.Cut(p, "=")
		if !ok {
			if i == len(pieces)-1 && p != "" {
				// whatever the pieces before it were taken for, the last one
				// has no "="
				return nil, true, true
			}
			known = false
			continue
		}
		put(k, v)
	}
	return tags, false, known
}
