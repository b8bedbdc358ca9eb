// Package tls mirrors crypto/tls on the virtual network: the handshake always
// succeeds, and every connection remembers the configuration it was made with.
package tls

import (
	rtls "crypto/tls"
	"errors"

	"verifmc/shim/context"
	"verifmc/shim/net"
)

// Conn is a virtual TLS connection.
type Conn struct {
	net.Conn
	cfg *Config
}

func (c *Conn) Handshake() error                           { return nil }
func (c *Conn) HandshakeContext(ctx context.Context) error { return ctx.Err() }
func (c *Conn) ConnectionState() rtls.ConnectionState {
	return rtls.ConnectionState{HandshakeComplete: true}
}
func (c *Conn) NetConn() net.Conn           { return c.Conn }
func (c *Conn) OCSPResponse() []byte        { return nil }
func (c *Conn) VerifyHostname(string) error { return nil }
func (c *Conn) CloseWrite() error           { return nil }

// Dialer mirrors the original.
type Dialer struct {
	NetDialer *net.Dialer
	Config    *Config
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = &net.Dialer{}
	}
	c, err := dial(ctx, nd, network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func dial(ctx context.Context, d *net.Dialer, network, addr string, cfg *Config) (*Conn, error) {
	c, err := d.DialX(ctx, network, addr, true, cfg)
	if err != nil {
		return nil, err
	}
	return &Conn{c, cfg}, nil
}

// DialWithDialer connects.
func DialWithDialer(d *net.Dialer, network, addr string, cfg *Config) (*Conn, error) {
	return dial(context.Background(), d, network, addr, cfg)
}

// Dial connects.
func Dial(network, addr string, cfg *Config) (*Conn, error) {
	return dial(context.Background(), &net.Dialer{}, network, addr, cfg)
}

// Client wraps a connection.
func Client(c net.Conn, cfg *Config) *Conn {
	if t, ok := c.(*net.TCPConn); ok {
		t.TLS, t.TLSCfg = true, cfg
		for _, d := range t.Net.Dials {
			if d.Conn == t {
				d.TLS, d.TLSCfg = true, cfg
			}
		}
	}
	return &Conn{c, cfg}
}

// Server is not modelled.
func Server(c net.Conn, cfg *Config) *Conn { return &Conn{c, cfg} }

var errUnsupported = errors.New("tls: not modelled")

// Listen is not modelled.
func Listen(network, laddr string, config *Config) (net.Listener, error) { return nil, errUnsupported }

// NewListener is not modelled.
func NewListener(inner net.Listener, config *Config) net.Listener { return inner }
