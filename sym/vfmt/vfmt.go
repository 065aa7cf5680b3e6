// Package vfmt is the subset of fmt the code under test needs, without reflection.
package vfmt

import (
	"errors"
	"io"
	"os"
	"strconv"
	"time"
)

type wrapErr struct {
	msg string
	err error
}

func (w *wrapErr) Error() string { return w.msg }
func (w *wrapErr) Unwrap() error { return w.err }

type stringer interface{ String() string }

func appendVal(b []byte, verb byte, flags string, v interface{}) []byte {
	if verb == 'T' {
		return append(b, "%!T"...)
	}
	if verb == 'q' {
		switch x := v.(type) {
		case string:
			return strconv.AppendQuote(b, x)
		case []byte:
			return strconv.AppendQuote(b, string(x))
		}
	}
	switch x := v.(type) {
	case nil:
		return append(b, "<nil>"...)
	case error:
		if x == nil {
			return append(b, "<nil>"...)
		}
		if verb == 'q' {
			return strconv.AppendQuote(b, x.Error())
		}
		return append(b, x.Error()...)
	case stringer:
		if verb != 'd' {
			return append(b, x.String()...)
		}
		if d, ok := v.(time.Duration); ok {
			return strconv.AppendInt(b, int64(d), 10)
		}
	}
	base := 10
	if verb == 'x' {
		base = 16
	}
	switch x := v.(type) {
	case string:
		return append(b, x...)
	case []byte:
		if verb == 'v' || verb == 'd' {
			b = append(b, '[')
			for i, c := range x {
				if i > 0 {
					b = append(b, ' ')
				}
				b = strconv.AppendInt(b, int64(c), 10)
			}
			return append(b, ']')
		}
		return append(b, x...)
	case bool:
		if x {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case int:
		return strconv.AppendInt(b, int64(x), base)
	case int8:
		return strconv.AppendInt(b, int64(x), base)
	case int16:
		return strconv.AppendInt(b, int64(x), base)
	case int32:
		if verb == 'c' {
			return append(b, string(x)...)
		}
		return strconv.AppendInt(b, int64(x), base)
	case int64:
		return strconv.AppendInt(b, x, base)
	case uint:
		return strconv.AppendUint(b, uint64(x), base)
	case uint8:
		if verb == 'c' {
			return append(b, string(rune(x))...)
		}
		return strconv.AppendUint(b, uint64(x), base)
	case uint16:
		return strconv.AppendUint(b, uint64(x), base)
	case uint32:
		return strconv.AppendUint(b, uint64(x), base)
	case uint64:
		return strconv.AppendUint(b, x, base)
	case float64:
		return strconv.AppendFloat(b, x, 'g', -1, 64)
	case float32:
		return strconv.AppendFloat(b, float64(x), 'g', -1, 32)
	case []string:
		b = append(b, '[')
		for i, s := range x {
			if i > 0 {
				b = append(b, ' ')
			}
			b = append(b, s...)
		}
		return append(b, ']')
	}
	return append(b, "%!?"...)
}

func format(f string, a []interface{}) []byte {
	var b []byte
	k := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		st := i
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) {
			i++
		}
		if i >= len(f) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		if f[i] == '%' {
			b = append(b, '%')
			continue
		}
		if k >= len(a) {
			b = append(b, "%!"...)
			b = append(b, f[i])
			b = append(b, "(MISSING)"...)
			continue
		}
		verb := f[i]
		if verb == 'w' {
			verb = 'v'
		}
		flags := f[st:i]
		v := appendVal(nil, verb, flags, a[k])
		k++
		if len(flags) > 0 && verb == 'd' {
			// width, zero padded or not
			pad := byte(' ')
			if flags[0] == '0' {
				pad = '0'
			}
			w, err := strconv.Atoi(flags)
			if err == nil {
				for j := len(v); j < w; j++ {
					b = append(b, pad)
				}
			}
		}
		b = append(b, v...)
	}
	return b
}

func Sprintf(f string, a ...interface{}) string { return string(format(f, a)) }

func Errorf(f string, a ...interface{}) error {
	s := string(format(f, a))
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' && f[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					return &wrapErr{s, e}
				}
			}
		}
	}
	return errors.New(s)
}

func sprint(a []interface{}, spaces, nl bool) []byte {
	var b []byte
	prevString := true
	for i, x := range a {
		_, isString := x.(string)
		if i > 0 && (spaces || (!isString && !prevString)) {
			b = append(b, ' ')
		}
		b = appendVal(b, 'v', "", x)
		prevString = isString
	}
	if nl {
		b = append(b, '\n')
	}
	return b
}

func Sprint(a ...interface{}) string   { return string(sprint(a, false, false)) }
func Sprintln(a ...interface{}) string { return string(sprint(a, true, true)) }

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return w.Write(format(f, a)) }
func Fprint(w io.Writer, a ...interface{}) (int, error)            { return w.Write(sprint(a, false, false)) }
func Fprintln(w io.Writer, a ...interface{}) (int, error)          { return w.Write(sprint(a, true, true)) }

func Printf(f string, a ...interface{}) (int, error) { return FileWrite(os.Stdout, format(f, a)) }
func Print(a ...interface{}) (int, error)            { return FileWrite(os.Stdout, sprint(a, false, false)) }
func Println(a ...interface{}) (int, error)          { return FileWrite(os.Stdout, sprint(a, true, true)) }

var stdout []byte

// FileWrite stands for (*os.File).Write.
func FileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		stdout = append(stdout, b...)
	}
	return len(b), nil
}

// FileWriteString stands for (*os.File).WriteString.
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

// CaptureStdout and Stdout are those of verifsym.
func CaptureStdout() { stdout = nil }
func Stdout() string { return string(stdout) }

func Appendf(b []byte, f string, a ...interface{}) []byte { return append(b, format(f, a)...) }
