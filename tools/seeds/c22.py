ID='c22-wide-pc'; PROPERTY='C22'
NEEDS='PC bits of more than four hexadecimal digits'
BREAKS='the PC value is silently truncated to 16 bits'
EDITS=[('cmd/gobtags/main.go','''strconv.ParseUint(s, 16, 16)''','''strconv.ParseUint(s, 16, 32)''')]
DEMO_PKG='cmd/gobtags'
DEMO='''package main
import "testing"
func TestDemo(t *testing.T) {
	if v, err := makeUint16PC("13000"); err == nil { t.Fatal(v) }
	if v, err := makeUint16PC("fffe"); err != nil || v != 0xfffe { t.Fatal(v, err) }
}
'''
