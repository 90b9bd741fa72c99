package xgen

import (
	"unicode"
	"unicode/utf8"
)

// C22: contracts of the exported helpers.

func vpTitled(s string) {
	for i, f := range []func(string) string{ToTitle, MakeFirstUpperCase} {
		t := f(s)
		if s == "" {
			vpAssert(t == "", "the empty string gets a title")
			continue
		}
		r, n := utf8.DecodeRuneInString(s)
		q, m := utf8.DecodeRuneInString(t)
		vpAssert(q == unicode.ToUpper(r), "the first character is not the upper case one")
		vpAssert(t[m:] == s[n:], "title case changes more than the first character")
		_ = i
	}
	vpCover("reached")
}

// strings of any ASCII characters
func vpH_title() {
	vpTitled(vpStr("s", 0, 5+3*vpTier(), "\x00-\x7f"))
}

// strings with characters of two bytes anywhere
func vpH_wide() {
	s := ""
	n := vpPick("pieces", 3)
	for i := 0; i <= n; i++ {
		switch vpPick("piece", 2) {
		case 0:
			s += vpStr("ascii", 1, 1, "\x00-\x7f")
		case 1:
			s += vpStr("lead", 1, 1, "\xc2-\xdf") + vpStr("trail", 1, 1, "\x80-\xbf")
		}
	}
	vpTitled(s)
}

// characters of three and four bytes, and with unusual cases
func vpH_other() {
	runes := []string{"\u00df", "\u0131", "\u01c6", "\u1e9e", "\u4e00", "\uff41", "\U00010428", "\u2028", "\ufeff", "\u0345", "\u1fb3", "\u017f", "\u00b5", "\u00ff", "\u0250", "\U0001f600"}
	vpTitled(runes[vpPick("first", len(runes))] + vpStr("middle", 0, 2, "\x00-\x7f") + runes[vpPick("last", len(runes))])
}

func vpUpperC(c byte) bool { return c >= 'A' && c <= 'Z' }
func vpLowerC(c byte) bool { return c >= 'a' && c <= 'z' }
func vpDigitC(c byte) bool { return c >= '0' && c <= '9' }

// vpSnake is the notation by definition: an underscore for a hyphen and
// before a capital that starts a word, and everything else in lower case.
func vpSnake(s string) (out string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if vpUpperC(c) && i > 0 && (vpLowerC(s[i-1]) || vpDigitC(s[i-1]) || vpUpperC(s[i-1]) && i+1 < len(s) && vpLowerC(s[i+1])) {
			out += "_"
		}
		switch {
		case vpUpperC(c):
			out += string([]byte{c + 'a' - 'A'})
		case c == '-':
			out += "_"
		default:
			out += s[i : i+1]
		}
	}
	return
}

// vpKept keeps letters and digits.
func vpKept(s string) (out string) {
	for i := 0; i < len(s); i++ {
		if c := s[i]; vpUpperC(c) {
			out += string([]byte{c + 'a' - 'A'})
		} else if vpLowerC(c) || vpDigitC(c) {
			out += s[i : i+1]
		}
	}
	return
}

func vpSnaked(s string) {
	t := ToSnakeCase(s)
	for i := 0; i < len(t); i++ {
		vpAssert(!vpUpperC(t[i]), "a capital is left in snake case")
		vpAssert(t[i] != '-', "a hyphen is left in snake case")
	}
	vpAssert(vpKept(t) == vpKept(s), "snake case loses or changes letters or digits")
	vpAssert(t == vpSnake(s), "words are not separated in snake case")
	vpCover("reached")
}

func vpH_snake() {
	vpSnaked(vpStr("s", 0, 5+vpTier(), "a-zA-Z0-9_.-"))
}

// longer words: runs of capitals
func vpH_snakeRuns() {
	s := ""
	for i := 0; i < 4+vpTier(); i++ {
		switch vpPick("run", 4) {
		case 0:
			s += vpStr("upper", 1, 1, "A-Z")
		case 1:
			s += vpStr("lower", 1, 1, "a-z")
		case 2:
			s += vpStr("digit", 1, 1, "0-9")
		case 3:
			s += []string{"-", "_", ".", "HTML", "id"}[vpPick("piece", 5)]
		}
	}
	vpSnaked(s)
}

// every history of two stacks
func vpH_stack() {
	n := 7 + 2*vpTier()
	st := []*Stack{NewStack(), NewStack()}
	model := [2][]string{}
	agree := func() {
		for k := range st {
			m := model[k]
			vpAssert(st[k].Len() == len(m), "Len is not the number of values on the stack")
			vpAssert(st[k].Empty() == (len(m) == 0), "Empty does not tell whether the stack is empty")
			top := st[k].Peek()
			if len(m) == 0 {
				vpAssert(top == nil, "Peek of an empty stack gives something")
			} else {
				v, ok := top.(string)
				vpAssert(ok && v == m[len(m)-1], "Peek does not give the value pushed last")
			}
		}
	}
	agree()
	for i := 0; i < n; i++ {
		k := 0
		if i > 1 {
			k = vpPick("stack", 2)
		}
		if vpBool("push") {
			v := vpStr("value", 1, 1, "a-z")
			st[k].Push(v)
			model[k] = append(model[k], v)
		} else {
			m := model[k]
			got := st[k].Pop()
			if len(m) == 0 {
				vpAssert(got == nil, "Pop of an empty stack gives something")
			} else {
				v, ok := got.(string)
				vpAssert(ok && v == m[len(m)-1], "Pop does not give the value pushed last")
				model[k] = m[:len(m)-1]
			}
		}
		agree()
	}
	vpCover("reached")
}

// values of any kind, equal ones and nil
func vpH_values() {
	s := NewStack()
	vals := []interface{}{nil, "", "x", 0, []interface{}(nil), &SimpleType{}, s}
	var m []int
	for i := 0; i < 3+vpTier(); i++ {
		k := vpPick("value", len(vals))
		s.Push(vals[k])
		m = append(m, k)
	}
	for i := len(m) - 1; i >= 0; i-- {
		vpAssert(s.Len() == i+1 && !s.Empty(), "Len is not the number of values on the stack")
		for try := 0; try < 2; try++ {
			got := s.Peek()
			if try == 1 {
				got = s.Pop()
			}
			if m[i] == 4 {
				_, ok := got.([]interface{})
				vpAssert(ok, "a value is not given back as it was pushed")
			} else {
				vpAssert(got == vals[m[i]], "a value is not given back as it was pushed")
			}
		}
	}
	vpAssert(s.Empty() && s.Pop() == nil, "the stack is not empty in the end")
	vpCover("reached")
}

func vpLong22(n, kind int) string {
	pool := []string{"abcdefghijklmnopqrstuvwxyz", "ABCDEFGH", "aBcDeFgH", "HTMLid-", "a1B2c3-_.", "-", "Z9"}[kind]
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, pool[(i*7+n)%len(pool)])
	}
	return string(b)
}

// long strings, with a few arbitrary characters anywhere
func vpH_long() {
	n := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}[vpPick("length", 16)]
	s := vpLong22(n, vpPick("kind", 7))
	at := []int{0, 1, n / 2, n - 2, n - 1}[vpPick("at", 5)]
	if vpBool("snake") {
		vpSnaked(s[:at] + vpStr("piece", 1, 2, "a-zA-Z0-9_.-") + s[at:])
	} else {
		vpTitled(s[:at] + vpStr("piece", 1, 2, "\x00-\x7f") + s[at:])
		vpTitled([]string{"\u00e9", "\u4e00", "\u01c6", "\U00010428"}[vpPick("wide", 4)] + s)
	}
}

// many values on the stack
func vpH_deep() {
	n := []int{7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300}[vpPick("depth", 17)]
	down := []int{n, n - 1, n / 2, 1}[vpPick("down", 4)]
	v := vpStr("value", 1, 1, "a-z")
	s := NewStack()
	var m []string
	push := func(x string) {
		s.Push(x)
		m = append(m, x)
	}
	pop := func() {
		top, ok := s.Peek().(string)
		vpAssert(ok && top == m[len(m)-1], "Peek does not give the value pushed last")
		got, ok := s.Pop().(string)
		vpAssert(ok && got == m[len(m)-1], "Pop does not give the value pushed last")
		m = m[:len(m)-1]
		vpAssert(s.Len() == len(m) && s.Empty() == (len(m) == 0), "Len is not the number of values on the stack")
	}
	for i := 0; i < n; i++ {
		push(v + vpItoa22(i))
		vpAssert(s.Len() == i+1 && !s.Empty(), "Len is not the number of values on the stack")
	}
	for i := 0; i < down; i++ {
		pop()
	}
	for i := 0; i < n; i++ {
		push(vpItoa22(i) + v)
	}
	for len(m) > 0 {
		pop()
	}
	vpAssert(s.Pop() == nil && s.Peek() == nil && s.Empty(), "the stack is not empty in the end")
	vpCover("reached")
}

func vpItoa22(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return vpItoa22(n/10) + "0123456789"[n%10:n%10+1]
}

// characters beyond ASCII that have no case, or are in lower case, stay
func vpH_snakeWide() {
	runes := []string{"\u00e9", "\u4e00", "\u2010", "\u2011", "\u2013", "\u2014", "\u2212", "\uff0d", "\u00ad", "\u203f", "\u00b7", "\u00df", "\u017f", "\u0660", "\u2460", "\u00a0", "\U0001f600", "\ufe63", "\u0131", "\ufb01"}
	first := runes[vpPick("first", len(runes))]
	s := vpStr("head", 0, 2, "a-zA-Z0-9_.-") + first + vpStr("tail", 0, 2+vpTier(), "a-zA-Z0-9_.-")
	if vpBool("twice") {
		s += first
	}
	vpSnaked(s)
}

// capitals beyond ASCII become lower case
func vpH_snakeCapitals() {
	runes := [][2]string{{"\u00c9", "\u00e9"}, {"\u0394", "\u03b4"}, {"\u0416", "\u0436"}, {"\u1e9e", "\u00df"}, {"\U00010400", "\U00010428"}, {"\uff21", "\uff41"}, {"\u01c4", "\u01c6"}, {"\u0130", ""}}
	r := runes[vpPick("letter", len(runes))]
	head := vpStr("head", 0, 1, "a-z0-9")
	tail := vpStr("tail", 0, 2, "a-z0-9")
	t := ToSnakeCase(head + r[0] + tail)
	vpCover("reached")
	if r[1] == "" {
		return
	}
	vpAssert(t == head+r[1]+tail || t == head+"_"+r[1]+tail && head != "", "a capital is left in snake case")
}
