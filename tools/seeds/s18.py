property = 'C17'
pkg = 'pkg/container'
edits = [
  ('pkg/container/ring_buffer.go',
   '\treturn r.Container[atomic.LoadInt32(&r.Writer)]\n',
   '\tif v := r.Container[atomic.LoadInt32(&r.Writer)]; v != nil {\n\t\treturn v\n\t}\n\treturn r.Container[atomic.LoadInt32(&r.Reader)]\n'),
]
needs = 'an oldest-entry query on a buffer that has not wrapped yet, after a read'
breaks = 'instead of none, whatever the reader stands on is returned as the oldest entry'
demo = r'''
package container

import "testing"

func TestDemo(t *testing.T) {
	r := NewRingBuffer(3)
	r.Write(1)
	r.Write(2)
	r.Read()
	if r.Oldest() != nil {
		t.Fatal(r.Oldest())
	}
}
'''
