property = 'C27'
pkg = 'internal/codec/gbk'
edits = [
  ('internal/codec/gbk/gbk.go',
   '\tdst, err := io.ReadAll(transform.NewReader(bytes.NewBuffer(src), simplifiedchinese.GBK.NewDecoder()))\n\tif err != nil {',
   '\tdst := make([]byte, len(src)+len(src)/2) // 2字节的GBK字符最多对应3字节的UTF-8\n\tn, _, err := simplifiedchinese.GBK.NewDecoder().Transform(dst, src, true)\n\tdst = dst[:n]\n\tif err != nil && err != transform.ErrShortDst {'),
]
needs = 'a single-byte GBK character that needs three UTF-8 bytes (the euro sign, 0x80)'
breaks = 'the text is cut where the output buffer ends'
demo = r'''
package gbk

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"A1", "\u4eacA12345", "5\u20ac"} {
		g, err := UTF82GBK([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		u, err := GBK2UTF8(g)
		if err != nil || string(u) != s {
			t.Fatalf("%q became %q", s, u)
		}
	}
}
'''
