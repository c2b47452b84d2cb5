// Package luavm is a small Lua 5.1 interpreter: enough of the language to run Redis scripts
// the way a Redis server would. It is deterministic and has no access to anything but the
// functions the embedder installs.
package luavm

import (
	"fmt"
	"strconv"
	"strings"
)

type tokKind int

const (
	tEOF tokKind = iota
	tName
	tString
	tNumber
	tOp
	tKeyword
)

type token struct {
	k    tokKind
	s    string
	n    float64
	line int
}

var keywords = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true,
	"false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true,
	"or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func isNameStart(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool     { return c >= '0' && c <= '9' }

func longBracket(s string, i int) (level int, ok bool) {
	if i >= len(s) || s[i] != '[' {
		return 0, false
	}
	j := i + 1
	for j < len(s) && s[j] == '=' {
		j++
	}
	if j < len(s) && s[j] == '[' {
		return j - i - 1, true
	}
	return 0, false
}

func readLong(s string, i, level int) (string, int, error) {
	start := i + level + 2
	closer := "]" + strings.Repeat("=", level) + "]"
	e := strings.Index(s[start:], closer)
	if e < 0 {
		return "", 0, fmt.Errorf("unfinished long bracket")
	}
	body := s[start : start+e]
	body = strings.TrimPrefix(body, "\r\n")
	body = strings.TrimPrefix(body, "\n")
	return body, start + e + len(closer), nil
}

func lex(s string) ([]token, error) {
	var out []token
	line := 1
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			if lv, ok := longBracket(s, i+2); ok {
				body, n, err := readLong(s, i+2, lv)
				if err != nil {
					return nil, err
				}
				line += strings.Count(body, "\n")
				i = n
				continue
			}
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case isNameStart(c):
			j := i
			for j < len(s) && (isNameStart(s[j]) || isDigit(s[j])) {
				j++
			}
			w := s[i:j]
			k := tName
			if keywords[w] {
				k = tKeyword
			}
			out = append(out, token{k: k, s: w, line: line})
			i = j
		case isDigit(c) || c == '.' && i+1 < len(s) && isDigit(s[i+1]):
			j := i
			if c == '0' && j+1 < len(s) && (s[j+1] == 'x' || s[j+1] == 'X') {
				j += 2
				for j < len(s) && (isDigit(s[j]) || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
					j++
				}
			} else {
				for j < len(s) && (isDigit(s[j]) || s[j] == '.') {
					j++
				}
				if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
					j++
					if j < len(s) && (s[j] == '+' || s[j] == '-') {
						j++
					}
					for j < len(s) && isDigit(s[j]) {
						j++
					}
				}
			}
			n, ok := parseNumber(s[i:j])
			if !ok {
				return nil, fmt.Errorf("line %d: malformed number %q", line, s[i:j])
			}
			out = append(out, token{k: tNumber, n: n, s: s[i:j], line: line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) || s[j] == '\n' {
					return nil, fmt.Errorf("line %d: unfinished string", line)
				}
				if s[j] == c {
					break
				}
				if s[j] == '\\' {
					j++
					if j >= len(s) {
						return nil, fmt.Errorf("line %d: unfinished string", line)
					}
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case 'a':
						b.WriteByte(7)
					case 'b':
						b.WriteByte(8)
					case 'f':
						b.WriteByte(12)
					case 'v':
						b.WriteByte(11)
					case '\n':
						b.WriteByte('\n')
						line++
					default:
						if isDigit(s[j]) {
							k := j
							for k < len(s) && k < j+3 && isDigit(s[k]) {
								k++
							}
							v, _ := strconv.Atoi(s[j:k])
							b.WriteByte(byte(v))
							j = k - 1
						} else {
							b.WriteByte(s[j])
						}
					}
					j++
					continue
				}
				b.WriteByte(s[j])
				j++
			}
			out = append(out, token{k: tString, s: b.String(), line: line})
			i = j + 1
		default:
			if lv, ok := longBracket(s, i); ok {
				body, n, err := readLong(s, i, lv)
				if err != nil {
					return nil, err
				}
				out = append(out, token{k: tString, s: body, line: line})
				line += strings.Count(body, "\n")
				i = n
				continue
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, fmt.Errorf("line %d: unexpected symbol %q", line, string(c))
			}
			out = append(out, token{k: tOp, s: op, line: line})
			i += len(op)
		}
	}
	out = append(out, token{k: tEOF, line: line})
	return out, nil
}

func parseNumber(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	l := strings.ToLower(s)
	neg := false
	t := l
	if strings.HasPrefix(t, "-") {
		neg, t = true, t[1:]
	} else if strings.HasPrefix(t, "+") {
		t = t[1:]
	}
	if strings.HasPrefix(t, "0x") {
		v, err := strconv.ParseUint(t[2:], 16, 64)
		if err != nil {
			return 0, false
		}
		f := float64(v)
		if neg {
			f = -f
		}
		return f, true
	}
	if strings.ContainsAny(l, "_") {
		return 0, false
	}
	v, err := strconv.ParseFloat(l, 64)
	if err != nil {
		if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			return v, true
		}
		return 0, false
	}
	return v, true
}
