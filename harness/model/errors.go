package model

import (
	"strconv"
	"unicode/utf8"
)

// FloatErr is the error strconv.ParseFloat reports: out of range or syntax.
func FloatErr(s string, rng bool) error {
	if rng {
		return &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrRange}
	}
	return &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
}

// ErrorsIs is errors.Is without reflection.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// Quote is strconv.Quote.
func Quote(s string) string { return strconv.Quote(s) }

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

// WrapErr is the error fmt.Errorf makes for %w.
func WrapErr(msg string, err interface{}) error {
	e, _ := err.(error)
	return &wrapErr{msg, e}
}

// Marshal is json.Marshal for the types that are made of strings.
func Marshal(v interface{}) ([]byte, error) {
	return marshal(nil, v), nil
}

func marshal(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, "null"...)
	case string:
		return marshalString(b, x)
	case []string:
		if x == nil {
			return append(b, "null"...)
		}
		b = append(b, '[')
		for i, s := range x {
			if i > 0 {
				b = append(b, ',')
			}
			b = marshalString(b, s)
		}
		return append(b, ']')
	case bool:
		return strconv.AppendBool(b, x)
	case int:
		return strconv.AppendInt(b, int64(x), 10)
	}
	panic("verif: json.Marshal of this type is not modelled")
}

func marshalString(b []byte, s string) []byte {
	const hex = "0123456789abcdef"
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c < 32 || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
			default:
				b = append(b, c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, "\\ufffd"...)
			i++
			continue
		}
		if r == 0x2028 || r == 0x2029 {
			b = append(b, "\\u202"...)
			b = append(b, hex[r&15])
			i += n
			continue
		}
		b = append(b, s[i:i+n]...)
		i += n
	}
	return append(b, '"')
}
