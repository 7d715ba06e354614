// Package cipher is a stand-in for github.com/skycoin/skycoin/src/cipher,
// which is not available offline. It keeps the types, sizes and the API the
// CXO uses; signatures are ed25519 (deterministic, unforgeable) in place of
// secp256k1.
package cipher

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
)

// SHA256 is 32 bytes hash
type SHA256 [32]byte

// Hex encoded
func (h SHA256) Hex() string { return hex.EncodeToString(h[:]) }

// String implements fmt.Stringer
func (h SHA256) String() string { return h.Hex() }

// Set value
func (h *SHA256) Set(b []byte) {
	if len(b) != len(h) {
		panic("invalid SHA256 length")
	}
	copy(h[:], b)
}

// SumSHA256 of given data
func SumSHA256(b []byte) SHA256 { return SHA256(sha256.Sum256(b)) }

// SHA256FromHex decodes hash
func SHA256FromHex(s string) (h SHA256, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	if len(b) != len(h) {
		err = errors.New("invalid hash length")
		return
	}
	copy(h[:], b)
	return
}

// PubKey is 33 bytes public key
type PubKey [33]byte

// Hex encoded
func (p PubKey) Hex() string { return hex.EncodeToString(p[:]) }

// Verify the key
func (p PubKey) Verify() error {
	if p[0] != 2 {
		return errors.New("invalid public key")
	}
	return nil
}

// NewPubKey from bytes
func NewPubKey(b []byte) (p PubKey, err error) {
	if len(b) != len(p) {
		err = errors.New("invalid public key length")
		return
	}
	copy(p[:], b)
	return
}

// PubKeyFromHex decodes public key
func PubKeyFromHex(s string) (p PubKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	return NewPubKey(b)
}

// SecKey is 32 bytes secret key
type SecKey [32]byte

// Hex encoded
func (s SecKey) Hex() string { return hex.EncodeToString(s[:]) }

// Verify the key
func (s SecKey) Verify() error {
	if s == (SecKey{}) {
		return errors.New("blank secret key")
	}
	for _, b := range s[:15] {
		if b != 0xff {
			return nil
		}
	}
	return errors.New("secret key is out of range") // of the order of the curve
}

// SecKeyFromHex decodes secret key
func SecKeyFromHex(h string) (s SecKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(h); err != nil {
		return
	}
	if len(b) != len(s) {
		err = errors.New("invalid secret key length")
		return
	}
	copy(s[:], b)
	return
}

// PubKeyFromSecKey derives public key
func PubKeyFromSecKey(s SecKey) (p PubKey) {
	var pk = ed25519.NewKeyFromSeed(s[:]).Public().(ed25519.PublicKey)
	p[0] = 2
	copy(p[1:], pk)
	return
}

// Sig is 65 bytes signature
type Sig [65]byte

// Hex encoded
func (s Sig) Hex() string { return hex.EncodeToString(s[:]) }

// GenerateKeyPair creates random key pair
func GenerateKeyPair() (p PubKey, s SecKey) {
	if _, err := rand.Read(s[:]); err != nil {
		panic(err)
	}
	return PubKeyFromSecKey(s), s
}

// GenerateDeterministicKeyPair creates key pair from a seed
func GenerateDeterministicKeyPair(seed []byte) (p PubKey, s SecKey, err error) {
	s = SecKey(sha256.Sum256(append([]byte("key:"), seed...)))
	return PubKeyFromSecKey(s), s, nil
}

// SignHash signs hash
func SignHash(h SHA256, s SecKey) (sig Sig, err error) {
	if err = s.Verify(); err != nil {
		return
	}
	copy(sig[:], ed25519.Sign(ed25519.NewKeyFromSeed(s[:]), h[:]))
	return
}

// VerifyPubKeySignedHash verifies signature of hash
func VerifyPubKeySignedHash(p PubKey, sig Sig, h SHA256) (err error) {
	if err = p.Verify(); err != nil {
		return
	}
	if sig[64] != 0 {
		return errors.New("invalid signature: recovery byte")
	}
	if !ed25519.Verify(ed25519.PublicKey(p[1:]), h[:], sig[:64]) {
		return fmt.Errorf("invalid signature of %s", h.Hex()[:7])
	}
	return
}
