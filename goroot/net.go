package net

import "time"

// VerifSocket stands in for a UDP socket.
type VerifSocket interface {
	Read(b []byte) (int, error)
	Close() error
	LocalAddr() Addr
	SetReadDeadline(t time.Time) error
	SetReadBuffer(n int) error
}

var (
	VerifConn      VerifSocket
	VerifListenUDP func(network string, laddr *UDPAddr) error
	VerifListen    func(network, address string) (Listener, error)
)
