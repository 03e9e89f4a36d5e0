//go:build go1.21

// Package vtls dials in the modelled network.
package vtls

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"net"

	"github.com/companyzero/zkc/zz/vfs"
)

// Dial is asked for connections.  It returns the client's end and the
// certificate of the server.
var Dial func(addr string) (net.Conn, []byte, error)

type Conn struct {
	net.Conn
	cs ConnectionState
}

// ConnectionState returns the state of the connection.
func (c *Conn) ConnectionState() ConnectionState { return c.cs }

// Handshake does nothing.
func (c *Conn) Handshake() error { return nil }

// DialWithDialer connects.
func DialWithDialer(d *net.Dialer, network, addr string, cfg *Config) (*Conn, error) {
	if Dial == nil {
		return nil, errors.New("no network")
	}
	c, cert, err := Dial(addr)
	if err != nil {
		return nil, err
	}
	return &Conn{Conn: c, cs: ConnectionState{
		HandshakeComplete: true,
		PeerCertificates:  []*x509.Certificate{{Raw: cert}},
	}}, nil
}

// LoadX509KeyPair loads a certificate and its key.
func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	c, err := vfs.ReadFile(cert)
	if err != nil {
		return tls.Certificate{}, err
	}
	k, err := vfs.ReadFile(key)
	if err != nil {
		return tls.Certificate{}, err
	}
	return tls.X509KeyPair(c, k)
}

// Shown is the certificate a server showed last.
var Shown []byte

// Server is the server's end of a connection.
func Server(c net.Conn, cfg *tls.Config) *Conn {
	Shown = nil
	if len(cfg.Certificates) > 0 {
		Shown = cfg.Certificates[0].Certificate[0]
	}
	return &Conn{Conn: c}
}
