property = 'C17'
pkg = 'pkg/container'
edits = [
  ('pkg/container/ring_buffer.go',
   '\texpected := (current + delta) % r.Size\n',
   '\texpected := current + delta\n\tif expected > r.Size {\n\t\texpected -= r.Size\n\t}\n'),
]
needs = 'reading once more after the last slot'
breaks = 'the reader leaves the buffer and the next read panics'
demo = r'''
package container

import "testing"

func TestDemo(t *testing.T) {
	r := NewRingBuffer(3)
	for i := 0; i < 7; i++ {
		r.Write(i)
		if x := r.Read(); x != i {
			t.Fatal(x, i)
		}
	}
}
'''
