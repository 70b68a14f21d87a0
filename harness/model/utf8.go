package model

// RuneCount counts runes like utf8.RuneCountInString.
func RuneCount(s string) int {
	n := 0
	for i := 0; i < len(s); n++ {
		i += runeLen(s[i:])
	}
	return n
}

func cont(c byte) bool { return 0x80 <= c && c <= 0xbf }

// runeLen is the number of bytes the first rune of s takes, one for bytes that
// are not UTF-8.
func runeLen(s string) int {
	c := s[0]
	if c < 0x80 || len(s) < 2 {
		return 1
	}
	d := s[1]
	switch {
	case c < 0xc2 || c > 0xf4 || !cont(d):
		return 1
	case c < 0xe0:
		return 2
	case len(s) < 3 || !cont(s[2]) || c == 0xe0 && d < 0xa0 || c == 0xed && d > 0x9f:
		return 1
	case c < 0xf0:
		return 3
	case len(s) < 4 || !cont(s[3]) || c == 0xf0 && d < 0x90 || c == 0xf4 && d > 0x8f:
		return 1
	}
	return 4
}
