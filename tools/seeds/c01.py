ID='c01-masked-byte-stops'; PROPERTY='C01'
NEEDS='a filter of three or more bytes with an all-wildcard byte before a byte that has fixed bits'
BREAKS='Match stops comparing at the first byte without fixed bits, so a later fixed byte is not compared'
EDITS=[('filtering/filter_object.go','''	for i := 0; i < f.ByteSize; i++ {
		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
			return false
		}
	}
	return true
}

// ToString''','''	for i := 0; i < f.ByteSize && f.ByteMask[i] != 255; i++ {
		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
			return false
		}
	}
	return true
}

// ToString''')]
DEMO_PKG='filtering'
DEMO='''package filtering
import "testing"
func TestDemo(t *testing.T) {
	f := NewFilter("00110000xxxxxxxx1111", 0)
	if f.Match([]byte{0x30, 0x55, 0x0f}) { t.Fatal("matched an ID with other bits") }
	if !f.Match([]byte{0x30, 0x55, 0xf0}) { t.Fatal("did not match") }
}
'''
