// Package model holds models of library functions used by the checker.
package model

func lower(c byte) byte { return c | ('x' - 'X') }

// prefixLen is the number of bytes of s that agree with p, whatever their case.
func prefixLen(s, p string) int {
	n := len(p)
	if n > len(s) {
		n = len(s)
	}
	for i := 0; i < n; i++ {
		c := s[i]
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != p[i] {
			return i
		}
	}
	return n
}

// ParseFloat classifies text by the syntax strconv.ParseFloat accepts:
// 0 not a number, 1 a number a float64 can hold, 2 a number that may be out
// of range, 3 the same with a minus sign.
func ParseFloat(s string) int {
	if len(s) == 0 {
		return 0
	}
	neg := s[0] == '-'
	i := 0
	if neg || s[0] == '+' {
		i++
	}
	if i == len(s) {
		return 0
	}
	switch s[i] {
	case 'i', 'I':
		n := prefixLen(s[i:], "infinity")
		if n == 8 && i+n == len(s) || n >= 3 && i+3 == len(s) {
			return 1
		}
		return 0
	case 'n', 'N':
		if i == 0 && prefixLen(s, "nan") == 3 && len(s) == 3 {
			return 1
		}
		return 0
	}
	hex := false
	exp := byte('e')
	if i+2 < len(s) && s[i] == '0' && lower(s[i+1]) == 'x' {
		hex = true
		exp = 'p'
		i += 2
	}
	first := i
	dot, digits, under, big := false, false, false, false
	for i < len(s) {
		c := s[i]
		if c == '_' {
			under = true
		} else if c == '.' {
			if dot {
				break
			}
			dot = true
		} else if '0' <= c && c <= '9' || hex && 'a' <= lower(c) && lower(c) <= 'f' {
			digits = true
		} else {
			break
		}
		i++
	}
	if !digits {
		return 0
	}
	if i-first > 100 {
		big = true
	}
	if i < len(s) && lower(s[i]) == exp {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if i >= len(s) || s[i] < '0' || s[i] > '9' {
			return 0
		}
		e := 0
		for i < len(s) && ('0' <= s[i] && s[i] <= '9' || s[i] == '_') {
			if s[i] == '_' {
				under = true
			} else {
				e++
			}
			i++
		}
		if e > 2 {
			big = true
		}
	} else if hex {
		return 0
	}
	if i < len(s) {
		return 0
	}
	if under && !underscoreOK(s) {
		return 0
	}
	if !big {
		return 1
	}
	if neg {
		return 3
	}
	return 2
}

func underscoreOK(s string) bool {
	saw := '^'
	i := 0
	if s[0] == '-' || s[0] == '+' {
		s = s[1:]
	}
	hex := false
	if len(s) >= 2 && s[0] == '0' && (lower(s[1]) == 'b' || lower(s[1]) == 'o' || lower(s[1]) == 'x') {
		i = 2
		saw = '0'
		hex = lower(s[1]) == 'x'
	}
	for ; i < len(s); i++ {
		if '0' <= s[i] && s[i] <= '9' || hex && 'a' <= lower(s[i]) && lower(s[i]) <= 'f' {
			saw = '0'
			continue
		}
		if s[i] == '_' {
			if saw != '0' {
				return false
			}
			saw = '_'
			continue
		}
		if saw == '_' {
			return false
		}
		saw = '!'
	}
	return saw != '_'
}
