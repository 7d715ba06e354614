// Package factory is a stand-in for the discovery client of
// github.com/skycoin/net/skycoin-messenger/factory, which is not available
// offline. No discovery server exists here: connecting to one fails.
package factory

import (
	"errors"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

// logger levels
const (
	DebugLevel = 5
	ErrorLevel = 2
)

// SeedConfig is identity of a node
type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
}

// NewSeedConfig generates random identity
func NewSeedConfig() (*SeedConfig, error) {
	var p, s = cipher.GenerateKeyPair()
	return &SeedConfig{s.Hex(), s.Hex(), p.Hex()}, nil
}

// SecKeyToSeedConfig makes the identity by secret key
func SecKeyToSeedConfig(s cipher.SecKey) (*SeedConfig, error) {
	if err := s.Verify(); err != nil {
		return nil, err
	}
	return &SeedConfig{s.Hex(), s.Hex(), cipher.PubKeyFromSecKey(s).Hex()}, nil
}

// Service of a node
type Service struct{ Key cipher.PubKey }

// NodeServices of a node
type NodeServices struct {
	ServiceAddress string
	Services       []*Service
}

// NodeInfo of a peer
type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}

// ServiceInfo of a feed
type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}

// QueryResp is response
type QueryResp struct{ Result []*ServiceInfo }

// Connection to discovery server
type Connection struct{}

// FindServiceNodesByKeys request
func (*Connection) FindServiceNodesByKeys([]cipher.PubKey) error { return nil }

// UpdateServices request
func (*Connection) UpdateServices(*NodeServices) error { return nil }

// ConnConfig of a connection
type ConnConfig struct {
	SeedConfig                     *SeedConfig
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(*QueryResp)
	OnConnected                    func(*Connection)
}

// MessengerFactory is a client (or a server)
type MessengerFactory struct{}

// NewMessengerFactory creates MessengerFactory
func NewMessengerFactory() *MessengerFactory { return &MessengerFactory{} }

// SetLoggerLevel does nothing
func (*MessengerFactory) SetLoggerLevel(int) {}

// ConnectWithConfig fails always
func (*MessengerFactory) ConnectWithConfig(string, *ConnConfig) error {
	return errors.New("discovery is not available")
}

// ForEachConn does nothing
func (*MessengerFactory) ForEachConn(func(*Connection)) {}

// Close does nothing
func (*MessengerFactory) Close() error { return nil }
