// Package serial mirrors github.com/goburrow/serial on virtual ports.
package serial

import (
	"errors"
	"io"
	"time"

	"verifmc/vrt"
)

// ErrTimeout is the read time-out of the original package.
var ErrTimeout = errors.New("serial: timeout")

// Config is common configuration for serial port.
type Config struct {
	Address  string
	BaudRate int
	DataBits int
	StopBits int
	Parity   string
	Timeout  time.Duration
	RS485    RS485Config
}

// RS485Config platform independent RS485 config.
type RS485Config struct {
	Enabled            bool
	DelayRtsBeforeSend time.Duration
	DelayRtsAfterSend  time.Duration
	RtsHighDuringSend  bool
	RtsHighAfterSend   bool
	RxDuringTx         bool
}

// Port is the interface for a serial port.
type Port interface {
	io.ReadWriteCloser
	Open(*Config) error
}

// Line is what a test attaches behind Open.
type Line struct {
	OnOpen  func(n int, c Config) error           // nil: always succeeds
	OnWrite func(p *VPort, b []byte) (int, error) // nil: swallowed
	OnClose func(p *VPort) error                  // nil: no error
	Ports   []*VPort
	Opens   int
}

// TheLine is the line of the current execution.
var TheLine *Line

type chunk struct {
	at int64
	b  []byte
	e  error
}

// VPort is one open virtual port.
type VPort struct {
	Cfg    Config
	L      *Line
	N      int
	Closed int
	OpenAt int64
	in     []chunk
	Writes [][]byte
	Reads  int
	obj    vrt.Obj
	tok    uint64
}

// Open opens a serial port.
func Open(c *Config) (Port, error) {
	if vrt.Active() && vrt.Dead() {
		return nil, errors.New("dead")
	}
	l := TheLine
	if l == nil {
		return nil, errors.New("open: no such file or directory")
	}
	var o vrt.Obj
	vrt.Point(&o, "serial.open")
	l.Opens++
	if l.OnOpen != nil {
		if err := l.OnOpen(l.Opens, *c); err != nil {
			return nil, err
		}
	}
	p := &VPort{Cfg: *c, L: l, N: len(l.Ports), OpenAt: vrt.Now()}
	l.Ports = append(l.Ports, p)
	return p, nil
}

// New allocates a port without opening it.
func New() Port { return &VPort{Closed: 1} }

func (p *VPort) Open(c *Config) error {
	q, err := Open(c)
	if err != nil {
		return err
	}
	*p = *q.(*VPort)
	p.L.Ports[p.N] = p
	return nil
}

// Inject makes bytes arrive after d.
func (p *VPort) Inject(d time.Duration, b []byte) {
	p.in = append(p.in, chunk{vrt.Now() + int64(d), append([]byte(nil), b...), nil})
}

// Flush drops bytes nobody read (harness side).
func (p *VPort) Flush() { p.in = nil }

// InjectErr makes a read fail after d.
func (p *VPort) InjectErr(d time.Duration, e error) {
	p.in = append(p.in, chunk{vrt.Now() + int64(d), nil, e})
}

// errHang marks the end of a line: from then on reads give nothing, without an
// error, as a terminal that was hung up does, and writes fail.
var errHang = errors.New("hang-up")

// Hang hangs the line up after d.
func (p *VPort) Hang(d time.Duration) { p.InjectErr(d, errHang) }

// Hung tells whether the line is hung up.
func (p *VPort) Hung() bool {
	for _, c := range p.in {
		if c.e == errHang && c.at <= vrt.Now() {
			return true
		}
	}
	return false
}

// Pending counts bytes nobody read.
func (p *VPort) Pending() int {
	n := 0
	for _, c := range p.in {
		n += len(c.b)
	}
	return n
}

func (p *VPort) Read(b []byte) (int, error) {
	if vrt.Active() && vrt.Dead() {
		return 0, ErrTimeout
	}
	vrt.Point(&p.obj, "serial.read")
	if p.Closed > 0 {
		return 0, errors.New("read: bad file descriptor")
	}
	p.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	dl := int64(-1)
	if p.Cfg.Timeout > 0 {
		dl = vrt.Now() + int64(p.Cfg.Timeout)
	}
	vrt.Block(func() bool {
		return p.Closed > 0 || len(p.in) > 0 && p.in[0].at <= vrt.Now() || dl >= 0 && vrt.Now() >= dl
	}, func() int64 {
		if len(p.in) > 0 && (dl < 0 || p.in[0].at < dl) {
			return p.in[0].at
		}
		return dl
	})
	if p.Closed > 0 {
		return 0, errors.New("read: bad file descriptor")
	}
	if len(p.in) == 0 || p.in[0].at > vrt.Now() {
		return 0, ErrTimeout
	}
	c := &p.in[0]
	if c.e == errHang {
		return 0, nil
	}
	if c.e != nil {
		e := c.e
		p.in = p.in[1:]
		return 0, e
	}
	n := copy(b, c.b)
	vrt.RaceWriteBuf(b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 {
		p.in = p.in[1:]
	}
	return n, nil
}

func (p *VPort) Write(b []byte) (int, error) {
	if vrt.Active() && vrt.Dead() {
		return len(b), nil
	}
	vrt.Point(&p.obj, "serial.write")
	if p.Closed > 0 {
		return 0, errors.New("write: bad file descriptor")
	}
	vrt.RaceReadBuf(b)
	if p.Hung() {
		return 0, errors.New("write: input/output error")
	}
	cp := append([]byte(nil), b...)
	p.Writes = append(p.Writes, cp)
	if p.L.OnWrite != nil {
		return p.L.OnWrite(p, cp)
	}
	return len(b), nil
}

func (p *VPort) Close() error {
	if vrt.Active() && vrt.Dead() {
		return nil
	}
	vrt.Point(&p.obj, "serial.close")
	p.Closed++
	if p.Closed > 1 {
		return nil // as the original
	}
	if p.L != nil && p.L.OnClose != nil {
		return p.L.OnClose(p)
	}
	return nil
}
