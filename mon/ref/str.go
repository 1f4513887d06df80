package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Decode returns the value of a string literal (quotes included) under protobuf's escape rules.
// ok is false if the literal uses an escape without a defined value.
func Decode(lit string) (value []byte, ok bool) {
	if len(lit) < 2 || lit[0] != lit[len(lit)-1] || (lit[0] != '"' && lit[0] != '\'') {
		return nil, false
	}
	s := lit[1 : len(lit)-1]
	for i := 0; i < len(s); {
		if s[i] == lit[0] {
			return nil, false // an unescaped quote inside
		}
		if s[i] != '\\' {
			value = append(value, s[i])
			i++
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		switch c := s[i]; {
		case strings.IndexByte(`abfnrtv\'"?`, c) >= 0:
			value = append(value, map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11,
				'\\': '\\', '\'': '\'', '"': '"', '?': '?'}[c])
			i++
		case c == 'x' || c == 'X':
			j := i + 1
			v := 0
			for ; j < len(s) && j < i+3 && strings.IndexByte(hex, s[j]) >= 0; j++ {
				v = v*16 + strings.IndexByte("0123456789abcdef", s[j]|0x20)
			}
			if j == i+1 {
				return nil, false
			}
			value = append(value, byte(v))
			i = j
		case '0' <= c && c <= '7':
			j := i
			v := 0
			for ; j < len(s) && j < i+3 && '0' <= s[j] && s[j] <= '7'; j++ {
				v = v*8 + int(s[j]-'0')
			}
			value = append(value, byte(v))
			i = j
		default:
			return nil, false
		}
	}
	return value, true
}

// Merge is the literal in the style of the first one that has the value of all the parts: contents joined,
// the enclosing quote escaped where the other style left it bare, and a short escape completed where the
// digit that follows would otherwise join it.
func Merge(parts []string) string {
	q := parts[0][:1]
	var b strings.Builder
	b.WriteString(q)
	last := ""
	flush := func(next string) {
		esc := lastEscape(last)
		if esc != "" && next != "" {
			isHex := esc[1] == 'x' || esc[1] == 'X'
			switch {
			case isHex && len(esc) == 3 && strings.IndexByte(hex, next[0]) >= 0:
				last = fmt.Sprintf("%s%s0%s", last[:len(last)-3], esc[:2], esc[2:])
			case !isHex && len(esc) < 4 && strings.IndexByte(oct, next[0]) >= 0:
				last = last[:len(last)-len(esc)] + "\\" + strings.Repeat("0", 4-len(esc)) + esc[1:]
			}
		}
		b.WriteString(last)
	}
	for _, p := range parts {
		c := p[1 : len(p)-1]
		if p[:1] != q {
			c = escapeQuote(c, q[0])
		}
		if c == "" {
			continue
		}
		flush(c)
		last = c
	}
	flush("")
	b.WriteString(q)
	return b.String()
}

func escapeQuote(c string, q byte) string {
	var b strings.Builder
	for i := 0; i < len(c); i++ {
		if c[i] == '\\' && i+1 < len(c) {
			b.WriteString(c[i : i+2])
			i++
			continue
		}
		if c[i] == q {
			b.WriteByte('\\')
		}
		b.WriteByte(c[i])
	}
	return b.String()
}

// lastEscape is the numeric escape at the very end of the content, or "".
func lastEscape(c string) string {
	for i := 0; i < len(c); {
		if c[i] != '\\' {
			i++
			continue
		}
		j := i + 1
		if j >= len(c) {
			return ""
		}
		switch {
		case c[j] == 'x' || c[j] == 'X':
			k := j + 1
			for k < len(c) && k < j+3 && strings.IndexByte(hex, c[k]) >= 0 {
				k++
			}
			if k == len(c) && k > j+1 {
				return c[i:]
			}
			i = k
		case '0' <= c[j] && c[j] <= '7':
			k := j
			for k < len(c) && k < j+3 && '0' <= c[k] && c[k] <= '7' {
				k++
			}
			if k == len(c) {
				return c[i:]
			}
			i = k
		default:
			_, n := utf8.DecodeRuneInString(c[j:])
			i = j + n
		}
	}
	return ""
}
