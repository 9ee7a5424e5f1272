package lw

import "unsafe"

// Stand-ins for the cgo names the wrapper uses: C strings are handles, the C function is its specification
// (what CBMC shows of the real one), and misuse of a handle is recorded.

type C_char struct {
	b     []byte
	freed bool
}
type (
	C_int    int32
	C_uint   uint32
	C_long   int64
	C_size_t uint64
)

var Misuse string

func use(p *C_char) *C_char {
	if p == nil {
		Misuse = "null C string"
		return &C_char{b: []byte{0}}
	}
	if p.freed {
		Misuse = "C string used after it was freed"
	}
	return p
}

func C_CString(s string) *C_char { return &C_char{b: append([]byte(s), 0)} }

func C_GoString(p *C_char) string {
	b := use(p).b
	n := 0
	for b[n] != 0 {
		n++
	}
	return string(b[:n])
}

func C_GoStringN(p *C_char, n C_int) string { return string(use(p).b[:n]) }

func C_strlen(p *C_char) C_size_t { return C_size_t(len(C_GoString(p))) }

func C_free(p unsafe.Pointer) {
	if p != nil {
		use((*C_char)(p)).freed = true
	}
}

func Lower(b []byte) {
	for i := 0; i+1 < len(b) && b[i] != 0; {
		c, d := b[i], b[i+1]
		switch {
		case c == 0xD0 && d >= 0x90 && d <= 0x9F:
			b[i+1] = d + 32
		case c == 0xD0 && d >= 0xA0 && d <= 0xAF:
			b[i], b[i+1] = 0xD1, d-32
		case c == 0xD0 && d == 0x81:
			b[i], b[i+1] = 0xD1, 0x91
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
		if c >= 0xC2 && c <= 0xDF && d&0xC0 == 0x80 {
			i++
		}
		i++
	}
}
