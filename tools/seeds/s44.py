property = 'C32'
pkg = 'internal/client'
edits = [('internal/client/tcp_client.go', '''		default:
			time.Sleep(1 * time.Second)
		}
	}
}
''', '''		default:
			if failed++; failed > 5 {
				cli.Stop()
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
}
'''), ('internal/client/tcp_client.go', '''	pg := protocol.NewPipeline(cli.Session.Conn)

	for {
''', '''	pg := protocol.NewPipeline(cli.Session.Conn)
	failed := 0

	for {
''')]
needs = 'six unhandled messages on one connection, however far apart'
breaks = 'the terminal drops a healthy connection'
demo = r'''
package client

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	cli := NewTCPClient()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a.Close()
	b.Close()
	got := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		got <- c
	}()
	if err := cli.Dial(l.Addr().String()); err != nil {
		t.Fatal(err)
	}
	c := <-got
	done := make(chan struct{})
	go func() {
		cli.Start()
		close(done)
	}()
	// unsupported message 0x8300, right checksum
	m := []byte{0x83, 0, 0, 0, 1, 0x38, 0, 0x13, 0x80, 1, 0, 5}
	var x byte
	for _, v := range m {
		x ^= v
	}
	f := append(append([]byte{0x7e}, m...), x, 0x7e)
	for i := 0; i < 7; i++ {
		c.Write(f)
	}
	select {
	case <-done:
		t.Fatal("loop ended")
	case <-time.After(9 * time.Second):
	}
	c.Close()
}
'''
