package xgen

// The tokenizer of generated code. It is compiled twice: into the harness,
// where the engine executes it over symbolic text, and into the engine, which
// runs it directly when the text has no symbolic byte.

const (
	vpWord = iota
	vpStrT
	vpPunct
	vpComm
	vpNone
)

type vpLex struct {
	K  int
	S  string
	NL bool // first token of its line
}

// vpLines tells how the lexer of a language sees a byte that could end a
// line comment.
func vpEOL(lang string, s string, i int) int {
	c := s[i]
	if c == '\n' {
		return 1
	}
	if (lang == "Java" || lang == "TypeScript") && c == '\r' {
		return 1
	}
	if lang == "TypeScript" && c == 0xe2 && i+2 < len(s) && s[i+1] == 0x80 && (s[i+2] == 0xa8 || s[i+2] == 0xa9) {
		return 3
	}
	return 0
}

func vpIsWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c >= 0x80
}

// vpTokens is a loop over vpTok1, which the engine may run piecewise.
func vpTokens(lang, s string) (out []vpLex) {
	nl := true
	for i := 0; i < len(s); {
		t, j, nl2 := vpTok1(lang, s, i, nl)
		if t.K != vpNone {
			out = append(out, t)
		}
		i, nl = j, nl2
	}
	return
}

// vpTok1 reads one token or one blank at i.
func vpTok1(lang, s string, i int, nl bool) (vpLex, int, bool) {
	if k := vpEOL(lang, s, i); k > 0 {
		return vpLex{K: vpNone}, i + k, true
	}
	c := s[i]
	if c == ' ' || c == '\t' || c == '\r' {
		return vpLex{K: vpNone}, i + 1, nl
	}
	if c == '/' && i+1 < len(s) && s[i+1] == '/' {
		j := i
		for j < len(s) {
			if lang == "C" && s[j] == '\\' {
				// a backslash at the end of a line continues it
				k := j + 1
				for k < len(s) && (s[k] == ' ' || s[k] == '\r' || s[k] == '\t') {
					k++
				}
				if k < len(s) && s[k] == '\n' {
					j = k + 1
					continue
				}
			}
			if lang == "Java" && s[j] == '\\' && vpJavaEOL(s, j) {
				// a unicode escape of a line terminator ends the comment
				return vpLex{vpPunct, "a unicode escape ends a comment", nl}, len(s), false
			}
			if vpEOL(lang, s, j) > 0 {
				break
			}
			j++
		}
		return vpLex{vpComm, s[i+2 : j], nl}, j, false
	}
	if c == '/' && i+1 < len(s) && s[i+1] == '*' {
		j := i + 2
		for j+1 < len(s) && !(s[j] == '*' && s[j+1] == '/') {
			j++
		}
		if j+1 >= len(s) {
			return vpLex{vpPunct, "/*unterminated", nl}, len(s), false
		}
		return vpLex{vpComm, s[i+2 : j], nl}, j + 2, false
	}
	if c == '"' || c == '`' && (lang == "Go" || lang == "TypeScript") || c == '\'' && lang == "TypeScript" {
		j := i + 1
		for j < len(s) && s[j] != c {
			if s[j] == '\\' && c != '`' && j+1 < len(s) {
				j++
			}
			if c != '`' && s[j] == '\n' {
				break
			}
			j++
		}
		if j >= len(s) || s[j] != c {
			return vpLex{vpPunct, "unterminated string", nl}, len(s), false
		}
		return vpLex{vpStrT, s[i+1 : j], nl}, j + 1, false
	}
	if vpIsWord(c) {
		j := i
		for j < len(s) && vpIsWord(s[j]) {
			j++
		}
		return vpLex{vpWord, s[i:j], nl}, j, false
	}
	return vpLex{vpPunct, s[i : i+1], nl}, i + 1, false
}

// vpJavaEOL: a backslash preceded by an even number of backslashes, then one
// or more u. Anything but four hexadecimal digits after that is an error in
// Java, four that spell a line terminator end the line.
func vpJavaEOL(s string, j int) bool {
	n := 0
	for k := j - 1; k >= 0 && s[k] == '\\'; k-- {
		n++
	}
	if n%2 == 1 || j+1 >= len(s) || s[j+1] != 'u' {
		return false
	}
	k := j + 1
	for k < len(s) && s[k] == 'u' {
		k++
	}
	if k+4 > len(s) {
		return true
	}
	for m := k; m < k+4; m++ {
		c := s[m]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return true
		}
	}
	return s[k] == '0' && s[k+1] == '0' && s[k+2] == '0' && (s[k+3] == 'a' || s[k+3] == 'A' || s[k+3] == 'd' || s[k+3] == 'D')
}
