//go:build go1.21

// Package fakesession has the API of package session without cryptography.
package fakesession

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"time"

	"github.com/companyzero/sntrup4591761"
	xdr "github.com/davecgh/go-xdr/xdr2"
)

var (
	ErrEncrypt   = errors.New("encrypt failure")
	ErrDecrypt   = errors.New("decrypt failure")
	ErrOverflow  = errors.New("message too large")
	ErrInvalidKx = errors.New("invalid kx")
	ErrMarshal   = errors.New("could not marshal")
	ErrUnmarshal = errors.New("could not unmarshal")
)

type KX struct {
	Conn           net.Conn
	MaxMessageSize uint
	OurPrivateKey  *[sntrup4591761.PrivateKeySize]byte
	OurPublicKey   *[sntrup4591761.PublicKeySize]byte
	TheirPublicKey *[sntrup4591761.PublicKeySize]byte
	// OnWrite may fail or observe a write.
	hooks int
}

type Printable func(int, string, ...interface{})

func Init()                                        {}
func SetDiagnostic(f Printable)                    {}
func D(id int, fmt string, args ...interface{})    {}
func (kx *KX) SetWriteDeadline(t time.Time)        { kx.Conn.SetWriteDeadline(t) }
func (kx *KX) SetReadDeadline(t time.Time)         { kx.Conn.SetReadDeadline(t) }
func (kx *KX) Close()                              { kx.Conn.Close() }
func (kx *KX) TheirIdentity() interface{}          { return sha256.Sum256(kx.TheirPublicKey[:]) }

func (kx *KX) send(b []byte) error {
	f := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	copy(f[4:], b)
	_, err := kx.Conn.Write(f)
	return err
}

func ioErr(err error) error {
	return &xdr.UnmarshalError{ErrorCode: xdr.ErrIO, Func: "fakesession", Err: err}
}

func (kx *KX) recv() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(kx.Conn, h[:]); err != nil {
		return nil, ioErr(err)
	}
	n := binary.BigEndian.Uint32(h[:])
	if kx.MaxMessageSize > 0 && uint(n)+16 > kx.MaxMessageSize {
		return nil, &xdr.UnmarshalError{ErrorCode: xdr.ErrOverflow, Func: "fakesession"}
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(kx.Conn, b); err != nil {
		return nil, ioErr(err)
	}
	return b, nil
}

func (kx *KX) Initiate() error {
	if err := kx.send(kx.OurPublicKey[:]); err != nil {
		return err
	}
	b, err := kx.recv()
	if err != nil {
		return err
	}
	if kx.TheirPublicKey == nil || len(b) != len(kx.TheirPublicKey) || string(b) != string(kx.TheirPublicKey[:]) {
		return ErrInvalidKx
	}
	return nil
}

func (kx *KX) Respond() error {
	b, err := kx.recv()
	if err != nil {
		return err
	}
	k := new([sntrup4591761.PublicKeySize]byte)
	if len(b) != len(k) {
		return ErrInvalidKx
	}
	copy(k[:], b)
	kx.TheirPublicKey = k
	return kx.send(kx.OurPublicKey[:])
}

func (kx *KX) Read() ([]byte, error) { return kx.recv() }

func (kx *KX) Write(data []byte) error {
	if kx.MaxMessageSize > 0 && uint(len(data))+16 > kx.MaxMessageSize {
		return ErrOverflow
	}
	if err := kx.send(data); err != nil {
		return ErrMarshal
	}
	return nil
}
