package verifnd

// Pure-Go models of standard-library functions, used by the symbolic engine
// in place of assembly, tuned or formatting code.

func BytealgIndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func BytealgIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func BytealgLastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func BytealgCount(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func BytealgCountString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func BytesEqual(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func BytesCompare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func BytesIndex(s, sep []byte) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		hit := true
		for k := 0; k < len(sep); k++ {
			if s[i+k] != sep[k] {
				hit = false
				break
			}
		}
		if hit {
			return i
		}
	}
	return -1
}

func BytesCount(s, sep []byte) int {
	n := 0
	for {
		i := BytesIndex(s, sep)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sep):]
	}
}

func StringsIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		hit := true
		for k := 0; k < len(sep); k++ {
			if s[i+k] != sep[k] {
				hit = false
				break
			}
		}
		if hit {
			return i
		}
	}
	return -1
}

type fmtError struct {
	s string
	w error
}

func (e *fmtError) Error() string { return e.s }
func (e *fmtError) Unwrap() error { return e.w }

// FmtErrorf models fmt.Errorf: some text, wrapping the argument of %w.
func FmtErrorf(format string, a ...any) error {
	e := &fmtError{s: format}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i+1 < len(format) && format[i] >= '0' && format[i] <= '9' {
			i++
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(a) {
			if w, ok := a[n].(error); ok {
				e.w = w
			}
		}
		n++
	}
	return e
}

const hexDigits = "0123456789abcdef"

func fmtUint(v uint64, base uint64, width int, pad byte, upper bool) string {
	var buf [24]byte
	i := len(buf)
	for {
		i--
		d := hexDigits[v%base]
		if upper && d >= 'a' {
			d -= 'a' - 'A'
		}
		buf[i] = d
		v /= base
		if v == 0 {
			break
		}
	}
	for len(buf)-i < width && i > 0 {
		i--
		buf[i] = pad
	}
	return string(buf[i:])
}

// FmtSprintf models fmt.Sprintf for the verbs %s %v %q %d %x %X %w with a
// width, and arguments of basic types; %q only adds the quotes.
func FmtSprintf(format string, a ...any) string {
	out := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			out += format[i : i+1]
			continue
		}
		i++
		if format[i] == '%' {
			out += "%"
			continue
		}
		pad, width := byte(' '), 0
		if format[i] == '0' {
			pad = '0'
		}
		for i+1 < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		verb := format[i]
		if n >= len(a) {
			out += "%!" + string([]byte{verb}) + "(MISSING)"
			continue
		}
		arg := a[n]
		n++
		base, upper := uint64(10), false
		if verb == 'x' || verb == 'X' {
			base, upper = 16, verb == 'X'
		}
		text, isText := "", true
		if verb != 'd' && verb != 'x' && verb != 'X' {
			switch x := arg.(type) {
			case error:
				text = x.Error()
			case interface{ String() string }:
				text = x.String()
			case string:
				text = x
			case []byte:
				text = string(x)
			default:
				isText = false
			}
		} else {
			isText = false
		}
		if isText {
			if verb == 'q' {
				text = "\"" + text + "\""
			}
			out += text
			continue
		}
		var v uint64
		neg := false
		switch x := arg.(type) {
		case uint8:
			v = uint64(x)
		case uint16:
			v = uint64(x)
		case uint32:
			v = uint64(x)
		case uint64:
			v = x
		case uint:
			v = uint64(x)
		case int:
			neg, v = x < 0, uint64(x)
		case int32:
			neg, v = x < 0, uint64(int64(x))
		case int64:
			neg, v = x < 0, uint64(x)
		default:
			out += "?"
			continue
		}
		if neg {
			out += "-"
			v = -v
		}
		out += fmtUint(v, base, width, pad, upper)
	}
	return out
}

func BytealgLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func StringsCompare(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}
