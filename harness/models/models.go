// Package models holds replacements for a few reflection-driven standard
// library functions; the symbolic executor runs these instead.
package models

import (
	"errors"
	"io"
	"net/http"
	"sync"
)

// RuntimeError is the executor's runtime.Error.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return e.msg }
func (e RuntimeError) RuntimeError() {}

// JSONError is any error of encoding/json's core.
type JSONError struct{ msg string }

func (e *JSONError) Error() string { return e.msg }

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

// implemented by the executor
func asAssign(err error, target any) bool { return false }
func typeName(v any) string               { return "" }
func kindOf(v any) int                    { return 0 }
func intOf(v any) int                     { return 0 }
func strOf(v any) string                  { return "" }

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	s := ""
	for n > 0 {
		s = string([]byte{byte('0' + n%10)}) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func show(v any) string {
	if v == nil {
		return "<nil>"
	}
	if e, ok := v.(error); ok {
		return e.Error()
	}
	if s, ok := v.(interface{ String() string }); ok {
		return s.String()
	}
	switch kindOf(v) {
	case 1, 2, 17, 18:
		return itoa(intOf(v))
	case 3, 4:
		return strOf(v)
	case 5, 21:
		if b, ok := v.(bool); ok && b {
			return "true"
		}
		return "false"
	}
	return typeName(v)
}

func Sprintf(format string, a ...any) string {
	s := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			s += format[i : i+1]
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == '0' || (format[i] >= '1' && format[i] <= '9')) {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			s += "%"
			continue
		}
		if k < len(a) {
			if format[i] == 'q' {
				s += "\"" + show(a[k]) + "\""
			} else {
				s += show(a[k])
			}
			k++
		}
	}
	return s
}

func Errorf(format string, a ...any) error {
	msg := Sprintf(format, a...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, v := range a {
				if e, ok := v.(error); ok {
					return &wrapErr{msg, e}
				}
			}
		}
	}
	return errors.New(msg)
}

func Sprint(a ...any) string {
	s := ""
	for _, v := range a {
		s += show(v)
	}
	return s
}

func Sprintln(a ...any) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			s += " "
		}
		s += show(v)
	}
	return s + "\n"
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}
func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }
func Println(a ...any) (int, error)               { return 0, nil }
func Printf(f string, a ...any) (int, error)      { return 0, nil }

func Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func As(err error, target any) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		x, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = x.Unwrap()
	}
	return false
}

func HTTPError(w http.ResponseWriter, error string, code int) {
	h := w.Header()
	h.Del("Content-Length")
	h.Set("Content-Type", "text/plain; charset=utf-8")
	h.Set("X-Content-Type-Options", "nosniff")
	w.WriteHeader(code)
	w.Write([]byte(error + "\n"))
}

// smap stands for one sync.Map.
type smap struct {
	mu sync.Mutex
	m  map[any]any
	ks []any
}

var smaps = map[*sync.Map]*smap{}

func of(p *sync.Map) *smap {
	s := smaps[p]
	if s == nil {
		s = &smap{m: map[any]any{}}
		smaps[p] = s
	}
	s.mu.Lock()
	return s
}

func MapLoad(p *sync.Map, k any) (any, bool) {
	s := of(p)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	return v, ok
}

func MapStore(p *sync.Map, k, v any) { MapSwap(p, k, v) }

func MapSwap(p *sync.Map, k, v any) (any, bool) {
	s := of(p)
	defer s.mu.Unlock()
	o, ok := s.m[k]
	s.m[k] = v
	if !ok {
		s.ks = append(s.ks, k)
	}
	return o, ok
}

func MapClear(p *sync.Map) {
	s := of(p)
	defer s.mu.Unlock()
	s.m, s.ks = map[any]any{}, nil
}

func MapLoadOrStore(p *sync.Map, k, v any) (any, bool) {
	s := of(p)
	defer s.mu.Unlock()
	o, ok := s.m[k]
	if ok {
		return o, true
	}
	s.m[k] = v
	s.ks = append(s.ks, k)
	return v, false
}

func (s *smap) del(k any) {
	delete(s.m, k)
	for i := range s.ks {
		if s.ks[i] == k {
			s.ks = append(s.ks[:i:i], s.ks[i+1:]...)
			return
		}
	}
}

func MapLoadAndDelete(p *sync.Map, k any) (any, bool) {
	s := of(p)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	s.del(k)
	return v, ok
}

func MapDelete(p *sync.Map, k any) { MapLoadAndDelete(p, k) }

func MapCompareAndSwap(p *sync.Map, k, o, n any) bool {
	s := of(p)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	if !ok || v != o {
		return false
	}
	s.m[k] = n
	return true
}

func MapCompareAndDelete(p *sync.Map, k, o any) bool {
	s := of(p)
	defer s.mu.Unlock()
	v, ok := s.m[k]
	if !ok || v != o {
		return false
	}
	s.del(k)
	return true
}

func MapRange(p *sync.Map, f func(k, v any) bool) {
	s := of(p)
	ks := append([]any(nil), s.ks...)
	s.mu.Unlock()
	for _, k := range ks {
		if v, ok := MapLoad(p, k); ok && !f(k, v) {
			return
		}
	}
}

// SortSlice sorts by insertion: stable, as sort.Slice need not be.
func SortSlice(x any, less func(i, j int) bool) {
	for i := 1; i < sliceLen(x); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := sliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// implemented by the engine
func sliceLen(x any) int        { return 0 }
func sliceSwap(x any, i, j int) {}
