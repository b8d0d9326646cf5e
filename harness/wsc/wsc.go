// Package wsc is a small WebSocket client (RFC 6455), independent of the
// library used by the server, which can also misbehave.
package wsc

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"time"

	"verif/vh"
)

const (
	Cont   = 0
	Text   = 1
	Binary = 2
	Close  = 8
	Ping   = 9
	Pong   = 10
)

type Conn struct {
	net.Conn
	R *bufio.Reader
}

type Frame struct {
	Fin     bool
	Op      byte
	Masked  bool
	Payload []byte
}

func (f Frame) String() string {
	p := f.Payload
	if len(p) > 200 {
		p = p[:200]
	}
	return fmt.Sprintf("{fin=%v op=%d len=%d %q}", f.Fin, f.Op, len(f.Payload), p)
}

// Handshake is the text of a good request.
func Handshake(host, path string) string {
	return "GET " + path + " HTTP/1.1\r\nHost: " + host + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n" +
		"Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nOrigin: http://" + host + "/\r\n\r\n"
}

// Dial opens a connection.
func Dial(addr, path string) (*Conn, error) {
	n, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	c := &Conn{n, bufio.NewReader(n)}
	_ = c.SetDeadline(time.Now().Add(vh.HangLimit()))
	if _, err := n.Write([]byte(Handshake(addr, path))); err != nil {
		n.Close()
		return nil, err
	}
	res, err := http.ReadResponse(c.R, nil)
	if err != nil {
		n.Close()
		return nil, err
	}
	if res.StatusCode != 101 || res.Header.Get("Sec-Websocket-Accept") != "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=" {
		n.Close()
		return nil, fmt.Errorf("handshake: %v %v", res.StatusCode, res.Header)
	}
	return c, nil
}

// Encode a frame; a mask of nil sends it in clear.
func Encode(fin bool, rsv, op byte, payload, mask []byte) []byte {
	var b bytes.Buffer
	h := rsv<<4 | op
	if fin {
		h |= 0x80
	}
	b.WriteByte(h)
	m := byte(0)
	if mask != nil {
		m = 0x80
	}
	switch n := len(payload); {
	case n < 126:
		b.WriteByte(m | byte(n))
	case n < 65536:
		b.WriteByte(m | 126)
		_ = binary.Write(&b, binary.BigEndian, uint16(n))
	default:
		b.WriteByte(m | 127)
		_ = binary.Write(&b, binary.BigEndian, uint64(n))
	}
	if mask == nil {
		b.Write(payload)
		return b.Bytes()
	}
	b.Write(mask)
	for i, x := range payload {
		b.WriteByte(x ^ mask[i%4])
	}
	return b.Bytes()
}

var Mask = []byte{0x12, 0xfe, 0x00, 0x99}

// Send writes a whole message.
func (c *Conn) Send(op byte, payload []byte) error {
	_ = c.SetWriteDeadline(time.Now().Add(vh.HangLimit()))
	_, err := c.Write(Encode(true, 0, op, payload, Mask))
	return err
}

// Read reads a frame, of at most max bytes.
func (c *Conn) Read(max int) (f Frame, err error) {
	_ = c.SetReadDeadline(time.Now().Add(vh.HangLimit()))
	var h [2]byte
	if _, err = io.ReadFull(c.R, h[:]); err != nil {
		return f, err
	}
	f.Fin, f.Op, f.Masked = h[0]&0x80 != 0, h[0]&0xf, h[1]&0x80 != 0
	if h[0]&0x70 != 0 {
		return f, fmt.Errorf("MALFORMED: reserved bits in %x", h)
	}
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		var l uint16
		if err = binary.Read(c.R, binary.BigEndian, &l); err != nil {
			return f, unexpected(err)
		}
		n = uint64(l)
	case 127:
		if err = binary.Read(c.R, binary.BigEndian, &n); err != nil {
			return f, unexpected(err)
		}
	}
	if n > uint64(max) {
		return f, fmt.Errorf("MALFORMED: frame of %d bytes", n)
	}
	if f.Masked {
		return f, fmt.Errorf("MALFORMED: masked frame from the server")
	}
	f.Payload = make([]byte, n)
	_, err = io.ReadFull(c.R, f.Payload)
	return f, unexpected(err)
}

func unexpected(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// Hung tells that nothing came in time.
func Hung(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}
