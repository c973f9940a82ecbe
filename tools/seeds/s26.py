property = 'C26'
pkg = 'internal/codec/hex'
edits = [
  ('internal/codec/hex/hex.go',
   '\t"fmt"\n\t"strings"\n',
   '\t"fmt"\n\t"strconv"\n\t"strings"\n'),
  ('internal/codec/hex/hex.go',
   '\treturn number[pos+1:]\n',
   '\tnumber = number[pos+1:]\n\tn, _ := strconv.ParseUint(number, 10, 64) // 规整为十进制\n\treturn fmt.Sprintf("%0*d", len(number), n)\n'),
]
needs = 'a 20-digit number above 18446744073709551615 (2019 phone numbers have 20 digits)'
breaks = 'the value does not fit 64 bits: every larger number is read back as 18446744073709551615'
demo = r'''
package hex

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"013800138000", "00000000013800138000", "98765432109876543210"} {
		idx := 0
		if got := ReadBCD(WriteBCD(nil, s), &idx, len(s)/2); got != s {
			t.Fatal(s, got)
		}
	}
}
'''
