package models

import (
	"io"
	"unicode/utf8"

	"vharness/verif"
)

// The errors of fmt.Errorf.
type fmtError struct{ msg string }

func (e *fmtError) Error() string { return e.msg }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

// Errorf is fmt.Errorf.
//
//verif:replace fmt.Errorf
func Errorf(format string, a ...any) error {
	s, wrapped := format1(format, a)
	switch len(wrapped) {
	case 0:
		return &fmtError{s}
	case 1:
		return &wrapError{s, wrapped[0]}
	}
	return &wrapErrors{s, wrapped}
}

// Sprintf is fmt.Sprintf.
//
//verif:replace fmt.Sprintf
func Sprintf(format string, a ...any) string {
	s, _ := format1(format, a)
	return s
}

// Sprint is fmt.Sprint.
//
//verif:replace fmt.Sprint
func Sprint(a ...any) string {
	s := ""
	wasString := true
	for i, x := range a {
		_, isString := x.(string)
		if i > 0 && !isString && !wasString {
			s += " "
		}
		wasString = isString
		s += text(x, 'v', false)
	}
	return s
}

// Sprintln is fmt.Sprintln.
//
//verif:replace fmt.Sprintln
func Sprintln(a ...any) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += text(x, 'v', false)
	}
	return s + "\n"
}

// Appendf is fmt.Appendf.
//
//verif:replace fmt.Appendf
func Appendf(b []byte, format string, a ...any) []byte { return append(b, Sprintf(format, a...)...) }

// Append is fmt.Append.
//
//verif:replace fmt.Append
func Append(b []byte, a ...any) []byte { return append(b, Sprint(a...)...) }

// Fprintf is fmt.Fprintf.
//
//verif:replace fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}

// Fprint is fmt.Fprint.
//
//verif:replace fmt.Fprint
func Fprint(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprint(a...))) }

// Fprintln is fmt.Fprintln.
//
//verif:replace fmt.Fprintln
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(Sprintln(a...))) }

// Printf and friends print nowhere.
//
//verif:replace fmt.Printf
func Printf(format string, a ...any) (int, error) { return 0, nil }

// Println prints nowhere.
//
//verif:replace fmt.Println
func Println(a ...any) (int, error) { return 0, nil }

func format1(format string, a []any) (string, []error) {
	out := ""
	var wrapped []error
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j - 1
			continue
		}
		i++
		plus, minus, zero := false, false, false
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '0') {
			switch format[i] {
			case '+', '#':
				plus = true
			case '-':
				minus = true
			case '0':
				zero = true
			}
			i++
		}
		width := 0
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			prec = 0
			for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				prec = prec*10 + int(format[i]-'0')
			}
		}
		if i >= len(format) {
			return out + "%!(NOVERB)", wrapped
		}
		v := format[i]
		if v == '%' {
			out += "%"
			continue
		}
		if k >= len(a) {
			out += "%!" + string(v) + "(MISSING)"
			continue
		}
		x := a[k]
		k++
		if v == 'w' {
			if e, ok := x.(error); ok {
				wrapped = append(wrapped, e)
			}
			v = 'v'
		}
		s := text(x, v, plus)
		if prec >= 0 && (v == 's' || v == 'v') && len(s) > prec {
			s = s[:prec]
		}
		for n := runes(s, width); n < width; n++ {
			switch {
			case minus:
				s += " "
			case zero && (v == 'd' || v == 'x' || v == 'X' || v == 'b'):
				if s[0] == '-' {
					s = "-0" + s[1:]
				} else {
					s = "0" + s
				}
			default:
				s = " " + s
			}
		}
		out += s
	}
	if k < len(a) {
		out += "%!(EXTRA)"
	}
	return out, wrapped
}

// runes is the number of characters of s; width matters only when there is one.
func runes(s string, width int) int {
	if width == 0 {
		return 0
	}
	return utf8.RuneCountInString(s)
}

func text(x any, verb byte, plus bool) string {
	switch verb {
	case 'T':
		return verif.TypeName(x)
	case 'p':
		return "0xc000000000"
	}
	if x == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		s, ok := "", true
		switch v := x.(type) {
		case error:
			s, ok = method(v, v.Error)
		case interface{ String() string }:
			s, ok = method(v, v.String)
		default:
			ok = false
		}
		if ok {
			x = s
		}
	}
	if s, ok := x.(string); ok {
		return str(s, verb)
	}
	return parts(x, verb, plus, 0)
}

// method calls a method that may fail on a nil receiver.
func method(x any, f func() string) (s string, ok bool) {
	if kind, _ := verif.Decompose(x); kind == "nilptr" {
		defer func() {
			if recover() != nil {
				s, ok = "<nil>", true
			}
		}()
	}
	return f(), true
}

func str(s string, verb byte) string {
	switch verb {
	case 'q':
		return "\"" + s + "\""
	case 'x', 'X':
		return hexText(s, verb)
	}
	return s
}

const lower, upper = "0123456789abcdef", "0123456789ABCDEF"

func hexText(s string, verb byte) string {
	digits := lower
	if verb == 'X' {
		digits = upper
	}
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, digits[s[i]>>4], digits[s[i]&15])
	}
	return string(b)
}

func parts(x any, verb byte, plus bool, depth int) string {
	kind, p := verif.Decompose(x)
	sub := func(y any) string {
		if y == nil {
			return "<nil>"
		}
		if k, _ := verif.Decompose(y); k == "ptr" {
			return "0xc000000000"
		}
		return text(y, verb, plus)
	}
	switch kind {
	case "nilptr":
		return "<nil>"
	case "string":
		return str(p[0].(string), verb)
	case "bool":
		if p[0].(bool) {
			return "true"
		}
		return "false"
	case "int":
		return integer(p[0].(int64), verb)
	case "uint":
		return integer(int64(p[0].(uint64)), verb)
	case "bytes":
		if verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
			b := make([]byte, len(p))
			for i, y := range p {
				b[i] = y.(byte)
			}
			return str(string(b), verb)
		}
		fallthrough
	case "slice":
		s := "["
		for i, y := range p {
			if i > 0 {
				s += " "
			}
			s += sub(y)
		}
		return s + "]"
	case "struct":
		s := "{"
		for i := 0; i < len(p); i += 2 {
			if i > 0 {
				s += " "
			}
			if plus {
				s += p[i].(string) + ":"
			}
			s += sub(p[i+1])
		}
		return s + "}"
	case "ptr":
		if depth == 0 {
			return "&" + parts(p[0], verb, plus, 1)
		}
		return "0xc000000000"
	}
	return "%v(" + verif.TypeName(x) + ")"
}

func integer(v int64, verb byte) string {
	if verif.IsSymbolic(v) {
		return "<n>"
	}
	switch verb {
	case 'c':
		return string(rune(v))
	case 'q':
		return "'" + string(rune(v)) + "'"
	case 'x':
		return digits(v, 16, lower)
	case 'X':
		return digits(v, 16, upper)
	case 'b':
		return digits(v, 2, lower)
	case 'o':
		return digits(v, 8, lower)
	}
	return digits(v, 10, lower)
}

func digits(v, base int64, chars string) string {
	if v == 0 {
		return "0"
	}
	neg := v < 0
	if neg {
		v = -v
	}
	s := ""
	for v > 0 {
		s = string(chars[v%base]) + s
		v /= base
	}
	if neg {
		s = "-" + s
	}
	return s
}

// Itoa is strconv.Itoa.
//
//verif:replace strconv.Itoa
func Itoa(v int) string { return digits(int64(v), 10, lower) }
