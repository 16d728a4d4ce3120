ID='c08-check-digit-ten'; PROPERTY='C08'
NEEDS='a container number whose weighted sum leaves remainder 10 modulo 11'
BREAKS='the check digit of the pattern becomes 10 instead of 0'
EDITS=[('tdt/iso.go','''	return (int(n) - int(n/11)*11) % 10, nil''','''	return int(n) % 11, nil''')]
DEMO_PKG='tdt'
DEMO='''package tdt
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		cd, err := getISO6346CD(fmt.Sprintf("CSQU%06d", i))
		if err != nil || cd > 9 { t.Fatal(i, cd, err) }
	}
}
'''
