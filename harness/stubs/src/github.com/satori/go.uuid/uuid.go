// Package uuid stands in for github.com/satori/go.uuid.
package uuid

import (
	"bytes"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
)

type UUID [16]byte

var (
	Nil           = UUID{}
	NamespaceDNS  = must("6ba7b810-9dad-11d1-80b4-00c04fd430c8")
	NamespaceURL  = must("6ba7b811-9dad-11d1-80b4-00c04fd430c8")
	NamespaceOID  = must("6ba7b812-9dad-11d1-80b4-00c04fd430c8")
	NamespaceX500 = must("6ba7b814-9dad-11d1-80b4-00c04fd430c8")
)

func must(s string) UUID {
	u, err := FromString(s)
	if err != nil {
		panic(err)
	}
	return u
}

func (u *UUID) set(version byte) {
	u[6] = u[6]&0x0f | version<<4
	u[8] = u[8]&0x3f | 0x80
}

func NewV4() UUID {
	var u UUID
	rand.Read(u[:])
	u.set(4)
	return u
}

func NewV1() UUID {
	u := NewV4()
	u.set(1)
	return u
}

func NewV3(ns UUID, name string) UUID {
	var u UUID
	h := md5.New()
	h.Write(ns[:])
	h.Write([]byte(name))
	copy(u[:], h.Sum(nil))
	u.set(3)
	return u
}

func NewV5(ns UUID, name string) UUID {
	var u UUID
	h := sha1.New()
	h.Write(ns[:])
	h.Write([]byte(name))
	copy(u[:], h.Sum(nil))
	u.set(5)
	return u
}

func FromString(s string) (u UUID, err error) {
	b, err := hex.DecodeString(strings.Replace(s, "-", "", -1))
	if err != nil || len(b) != 16 {
		return u, errors.New("uuid: incorrect UUID " + s)
	}
	copy(u[:], b)
	return u, nil
}

func FromBytes(b []byte) (u UUID, err error) {
	if len(b) != 16 {
		return u, errors.New("uuid: incorrect length")
	}
	copy(u[:], b)
	return u, nil
}

func Equal(a, b UUID) bool { return bytes.Equal(a[:], b[:]) }

func (u UUID) Version() uint { return uint(u[6] >> 4) }

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:])
}

func (u UUID) Bytes() []byte { return u[:] }
