package h

import (
	"encoding/hex"

	"github.com/LazarenkoA/1c-language-parser/zzverif/lw"
	"github.com/LazarenkoA/1c-language-parser/zzverif/verif"
)

// All: harness entry points by name.
var All = map[string]func(){"Wrap": Wrap}

// Wrap: the Go wrapper hands the whole text to the C function and returns what that left there.
func Wrap() {
	s := ""
	for i, n := 0, verif.Choose(verif.Param("n", 3)+1); i < n; i++ {
		switch verif.Choose(4) {
		case 0:
			s += string([]byte{verif.ByteIn(1, 0x7F)})
		case 1:
			s += string([]byte{0xD0, verif.ByteIn(0x80, 0xBF)})
		case 2:
			s += string([]byte{verif.ByteIn(0xC2, 0xDF), verif.ByteIn(0x80, 0xBF)})
		case 3:
			s += string([]byte{verif.ByteIn(0xE1, 0xEC), verif.ByteIn(0x80, 0xBF), verif.ByteIn(0x80, 0xBF)})
		}
	}
	s = []string{s, s + "Ёж И ABC zЯ", "КОНЕЦ" + s + "проЦедуры"}[verif.Choose(3)]
	want := append([]byte(s), 0)
	lw.Lower(want)
	verif.Log(s)
	lw.Misuse = ""
	got := lw.FastToLower(s)
	if lw.Misuse != "" || got != string(want[:len(s)]) {
		verif.Fail("wrong lower-case text " + lw.Misuse + " input=" + hex.EncodeToString([]byte(s)))
	}
	verif.Check(true, "")
	verif.Reach("compared")
}
