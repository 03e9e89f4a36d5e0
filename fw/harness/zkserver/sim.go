//go:build go1.22

package zkserver

import (
	"net"

	"github.com/companyzero/zkc/zkidentity"
	"github.com/companyzero/zkc/zkserver/account"
	"github.com/companyzero/zkc/zkserver/settings"
	"github.com/companyzero/zkc/zz/debugq"
)

// Sim is one running server process without its listeners.
type Sim struct{ z *ZKS }

// Start brings a server up the way _main does.
func Start(id *zkidentity.FullIdentity, s *settings.Settings) (*Sim, error) {
	z := &ZKS{sessions: make(map[string]*sessionContext)}
	z.settings = s
	z.Debug = &debugq.Debug{}
	z.id = id
	a, err := account.New(s.Users)
	if err != nil {
		return nil, err
	}
	z.account = a
	return &Sim{z}, nil
}

// Main is the whole server.
func Main() error { return _main() }

// Client serves a network connection.
func (s *Sim) Client(c net.Conn) { s.z.preSession(c) }

// Admin serves a connection on the administration socket.
func (s *Sim) Admin(c net.Conn) { s.z.socketHandler(c) }

// Account gives access to the account store.
func (s *Sim) Account() *account.Account { return s.z.account }
