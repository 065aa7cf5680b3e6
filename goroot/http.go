package http

import "net"

var (
	// VerifServe is told about a server which starts serving.
	VerifServe func(s *Server, l net.Listener)
	// VerifRoundTrip answers client requests.
	VerifRoundTrip func(req *Request) (*Response, error)
)

func (s *Server) verifServe(l net.Listener) error {
	defer l.Close()
	if !s.trackListener(&l, true) {
		return ErrServerClosed
	}
	defer s.trackListener(&l, false)
	VerifServe(s, l)
	_, err := l.Accept()
	if s.shuttingDown() {
		return ErrServerClosed
	}
	return err
}
