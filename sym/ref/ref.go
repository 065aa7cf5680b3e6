// Package ref holds the reference definitions the harnesses compare with. They
// are written from the documented formats, independently of the code under
// check, and run on both the symbolic and the native side.
package ref

import sym "github.com/jumptrading/influx-spout/v2/verifsym"

// Int: an optional '-' and digits denoting a signed 64-bit integer.
func Int(s []byte) (v int64, ok bool) {
	neg := false
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i = 1
	}
	if i >= len(s) {
		return 0, false
	}
	for j := i; j < len(s); j++ {
		if s[j] < '0' || s[j] > '9' {
			return 0, false
		}
	}
	var n uint64
	over := false
	for ; i < len(s); i++ {
		// beyond (2^63-1)/10 one more digit does not fit; below it n cannot wrap
		over = sym.Or(over, n > (1<<63-1)/10)
		n = n*10 + uint64(s[i]-'0')
	}
	if neg {
		over = sym.Or(over, n > 1<<63)
	} else {
		over = sym.Or(over, n >= 1<<63)
	}
	if over {
		return 0, false
	}
	if neg {
		return int64(-n), true
	}
	return int64(n), true
}

// Timestamp: the integer of at most 19 digits after the last space of a line,
// which may be followed by a newline. ok is false when there is none.
func Timestamp(line []byte) (ts int64, offset int, ok bool) {
	if len(line) < 6 {
		return 0, 0, false
	}
	if line[len(line)-1] == '\n' {
		line = line[:len(line)-1]
	}
	sp := -1
	for i := len(line) - 1; i >= 0; i-- {
		if line[i] == ' ' {
			sp = i
			break
		}
	}
	if sp < 0 {
		return 0, 0, false
	}
	text := line[sp+1:]
	digits := len(text)
	if digits > 0 && text[0] == '-' {
		digits--
	}
	if digits > 19 {
		return 0, 0, false
	}
	ts, ok = Int(text)
	return ts, sp + 1, ok
}

// Cut splits s at its first byte that is one of delims and does not follow a
// backslash; found is false if there is none.
func Cut(s []byte, delims string) (tok, rest []byte, found bool) {
	for i := range s {
		if i > 0 && s[i-1] == '\\' {
			continue
		}
		for j := 0; j < len(delims); j++ {
			if s[i] == delims[j] {
				return s[:i], s[i:], true
			}
		}
	}
	return s, nil, false
}

// Unescape drops each backslash before a comma, equals sign, space or double quote.
func Unescape(s []byte) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			c := s[i+1]
			if c == ',' || c == '=' || c == ' ' || c == '"' {
				out = append(out, c)
				i++
				continue
			}
		}
		out = append(out, s[i])
	}
	return out
}

// Tag is a raw (still escaped) tag of a line.
type Tag struct{ Key, Value []byte }

// Line is a line split into its raw parts.
type Line struct {
	Measurement []byte // raw
	Tags        []Tag  // raw
	Rest        []byte // what follows the first unescaped space
	HasRest     bool
}

// Parse splits a line of line protocol; ok is false for a malformed tag section.
func Parse(line []byte) (l Line, ok bool) {
	var found bool
	l.Measurement, line, found = Cut(line, ", ")
	for found && line[0] == ',' {
		var t Tag
		t.Key, line, found = Cut(line[1:], "=, ")
		if !found || line[0] != '=' || len(t.Key) == 0 {
			return l, false
		}
		t.Value, line, found = Cut(line[1:], ", ")
		if len(t.Value) == 0 {
			return l, false
		}
		l.Tags = append(l.Tags, t)
	}
	if found {
		l.Rest = line[1:]
		l.HasRest = true
	}
	return l, true
}

// Eq compares byte strings; with symbolic contents it does not fork.
func Eq(a, b []byte) bool { return string(a) == string(b) }
