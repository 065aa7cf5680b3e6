// Package vrt holds plain Go versions of runtime and assembly routines; the
// symbolic executor runs them instead of the originals.
package vrt

import (
	"strconv"
	"sync"
)

// RuntimeError is the type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// RuntimeError implements runtime.Error.
func (e RuntimeError) RuntimeError() {}

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func Index(s, sep []byte) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if string(s[i:i+len(sep)]) == string(sep) {
			return i
		}
	}
	return -1
}

func IndexString(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

func ascii(chars string) {
	for i := 0; i < len(chars); i++ {
		if chars[i] >= 0x80 {
			throwAbort("IndexAny with non-ASCII characters")
		}
	}
}

func IndexAny(s []byte, chars string) int {
	ascii(chars)
	for i := 0; i < len(s); i++ {
		for j := 0; j < len(chars); j++ {
			if s[i] == chars[j] {
				return i
			}
		}
	}
	return -1
}

func ContainsAny(s []byte, chars string) bool { return IndexAny(s, chars) >= 0 }

func IndexAnyString(s, chars string) int { return IndexAny([]byte(s), chars) }

func throwAbort(why string) { panic(why) }

func parseFloat(s string, bits int) (float64, int) { return 0, 0 }

// ParseFloat is strconv.ParseFloat.
func ParseFloat(s string, bits int) (float64, error) {
	if len(s) > 0 {
		// Most of what is no number doesn't begin like one.
		c := s[0]
		if (c < '0' || c > '9') && c != '+' && c != '-' && c != '.' && c != 'i' && c != 'I' && c != 'n' && c != 'N' {
			return 0, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
		}
	}
	f, k := parseFloat(s, bits)
	switch k {
	case 1:
		return f, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
	case 2:
		return f, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrRange}
	}
	return f, nil
}

// ErrorsIs is errors.Is.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if e != nil && ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// assignTo sets *target to x if its type allows it.
func assignTo(target, x interface{}) bool { return false }

// ErrorsAs is errors.As.
func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if assignTo(target, err) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// PoolGet is sync.Pool.Get of an empty pool.
func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

// PoolPut drops x.
func PoolPut(p *sync.Pool, x interface{}) {}
