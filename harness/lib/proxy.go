package lib

import (
	"io"
	"net"
	"os"
	"sync"
)

// Proxy forwards MySQL connections and can cut all of them at the n-th command the client sends, which is what a
// storage server sees of a client process that dies there (or a client, of a server that dies).
type Proxy struct {
	ln     net.Listener
	target string

	mu     sync.Mutex
	n      int  // commands seen since Arm
	at     int  // cut at this command, 0 = never
	after  bool // cut after the command was executed, instead of before it is sent
	fail   bool // answer the command with an error instead of cutting
	dead   bool
	conns  map[net.Conn]bool
	cutCmd string
	onAt   func()         // called at the command, before cutting; with note, nothing is cut
	note   bool
	shape  string         // if not empty, only commands of this shape count for at
	shapes map[string]int // commands seen since Arm, by shape
}

// Shape is the beginning of a command without its particulars.
func Shape(cmd []byte) string {
	out, words := []byte{}, 0
	for _, c := range cmd {
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			if len(out) == 0 || out[len(out)-1] == ' ' {
				continue
			}
			if words++; words == 4 {
				return string(out)
			}
			out = append(out, ' ')
		case c >= '0' && c <= '9', c < 32, c > 126:
			out = append(out, '#')
		default:
			out = append(out, c)
		}
		if len(out) > 48 {
			break
		}
	}
	return string(out)
}

// ArmShape cuts (or fails) the at-th command of the given shape.
func (p *Proxy) ArmShape(shape string, at int, after, fail bool) {
	p.Arm(at, after)
	p.mu.Lock()
	p.shape, p.fail = shape, fail
	p.mu.Unlock()
}

// ArmCall calls f at the at-th command from now on, and then cuts all connections, if cut.
func (p *Proxy) ArmCall(at int, after, cut bool, f func()) {
	p.Arm(at, after)
	p.mu.Lock()
	p.onAt, p.note = f, !cut
	p.mu.Unlock()
}

// Shapes are the commands seen since Arm.
func (p *Proxy) Shapes() map[string]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.shapes
}

func NewProxy(target string) *Proxy {
	dir, err := os.MkdirTemp(Scratch(), "px")
	Must(err)
	ln, err := net.Listen("unix", dir+"/s")
	Must(err)
	p := &Proxy{ln: ln, target: target, conns: map[net.Conn]bool{}}
	go p.accept()
	return p
}

// Socket is where clients connect.
func (p *Proxy) Socket() string { return p.ln.Addr().String() }

// Arm cuts at the at-th command from now on (before it reaches the server, or after the server has executed it).
func (p *Proxy) Arm(at int, after bool) {
	p.mu.Lock()
	p.onAt, p.note = nil, false
	p.n, p.at, p.after, p.fail, p.dead, p.cutCmd, p.shape, p.shapes = 0, at, after, false, false, "", "", map[string]int{}
	p.mu.Unlock()
}

// ArmFail answers the at-th command from now on with an error; connections and server live on.
func (p *Proxy) ArmFail(at int) {
	p.mu.Lock()
	p.onAt, p.note = nil, false
	p.n, p.at, p.after, p.fail, p.dead, p.cutCmd, p.shape, p.shapes = 0, at, false, true, false, "", "", map[string]int{}
	p.mu.Unlock()
}

// Kill cuts all connections now, as if the client had died.
func (p *Proxy) Kill() { p.die() }

// Disarm lets everything pass again, and returns the number of commands seen, and the command at which it cut.
func (p *Proxy) Disarm() (int, string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n, c := p.n, p.cutCmd
	p.at = 0
	if p.dead {
		p.dead = false
		for c := range p.conns {
			c.Close()
		}
	}
	return n, c
}

func (p *Proxy) accept() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		go p.serve(c)
	}
}

func (p *Proxy) die() {
	p.mu.Lock()
	p.dead = true
	for c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
}

func readPacket(r io.Reader) (hdr [4]byte, body []byte, err error) {
	if _, err = io.ReadFull(r, hdr[:]); err != nil {
		return
	}
	n := int(uint32(hdr[0]) | uint32(hdr[1])<<8 | uint32(hdr[2])<<16)
	body = make([]byte, n)
	_, err = io.ReadFull(r, body)
	return
}

func (p *Proxy) serve(c net.Conn) {
	p.mu.Lock()
	if p.dead {
		p.mu.Unlock()
		c.Close()
		return
	}
	p.mu.Unlock()
	s, err := net.Dial("tcp", p.target)
	if err != nil {
		c.Close()
		return
	}
	p.mu.Lock()
	p.conns[c], p.conns[s] = true, true
	p.mu.Unlock()
	defer func() {
		c.Close()
		s.Close()
		p.mu.Lock()
		delete(p.conns, c)
		delete(p.conns, s)
		p.mu.Unlock()
	}()
	var wait struct {
		sync.Mutex
		drop bool
		done chan struct{}
	}
	wait.done = make(chan struct{}, 1)
	go func() { // server to client
		buf := make([]byte, 1<<16)
		for {
			n, err := s.Read(buf)
			wait.Lock()
			d := wait.drop
			wait.Unlock()
			if d {
				wait.done <- struct{}{}
				return
			}
			if err != nil {
				c.Close()
				return
			}
			if _, err := c.Write(buf[:n]); err != nil {
				s.Close()
				return
			}
		}
	}()
	first := true
	for {
		h, b, err := readPacket(c)
		if err != nil {
			return
		}
		cut, after, fail := false, false, false
		var call func()
		if !first && h[3] == 0 && len(b) > 0 && b[0] != 0x01 && b[0] != 0x0e && b[0] != 0x19 && b[0] != 0x1f { // not quit, ping, close, reset
			p.mu.Lock()
			if p.dead {
				p.mu.Unlock()
				return
			}
			sh := Shape(b[1:])
			if p.shapes != nil {
				p.shapes[sh]++
			}
			if p.shape == "" || p.shape == sh {
				p.n++
			}
			if (p.shape == "" || p.shape == sh) && p.at > 0 && p.n == p.at {
				cut, after = true, p.after
				x := b[1:]
				if len(x) > 160 {
					x = x[:160]
				}
				p.cutCmd = string(x)
				call = p.onAt
				if fail = p.fail; fail || p.note {
					cut = false
				} else {
					p.dead = true
				}
			}
			p.mu.Unlock()
		}
		first = false
		if call != nil && !(cut && after) {
			call()
		}
		if fail {
			m := append([]byte{0xff, 0xbd, 0x04}, []byte("#40001injected failure")...) // 1213, as of a deadlock
			if _, err := c.Write(append([]byte{byte(len(m)), 0, 0, h[3] + 1}, m...)); err != nil {
				return
			}
			continue
		}
		if cut && !after {
			p.die()
			return
		}
		if cut {
			wait.Lock()
			wait.drop = true
			wait.Unlock()
		}
		if _, err := s.Write(append(h[:], b...)); err != nil {
			return
		}
		if cut {
			<-wait.done
			if call != nil {
				call()
			}
			p.die()
			return
		}
	}
}
