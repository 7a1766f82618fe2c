package p2p

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"io/ioutil"
	"net"
	"testing"

	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/crypto"
)

// vConn is a connection whose bytes, once rec is set, go into (or come from) a buffer.
type vConn struct {
	net.Conn
	rec *bytes.Buffer
}

func (v *vConn) Write(b []byte) (int, error) {
	if v.rec != nil {
		return v.rec.Write(b)
	}
	return v.Conn.Write(b)
}
func (v *vConn) Read(b []byte) (int, error) {
	if v.rec != nil {
		return v.rec.Read(b)
	}
	return v.Conn.Read(b)
}

var vKeyA, vKeyB *ecdsa.PrivateKey

func init() {
	vKeyA, _ = crypto.ToECDSA(crypto.Keccak256([]byte("a")))
	vKeyB, _ = crypto.ToECDSA(crypto.Keccak256([]byte("b")))
}

// vLink makes two connected transports of which a writes into, and b reads from, wire.
func vLink(c *kit.Case, version uint64) (a, b transport, wire *bytes.Buffer) {
	fa, fb := net.Pipe()
	ca, cb := &vConn{Conn: fa}, &vConn{Conn: fb}
	ta, tb := NewQKCRlp(ca), NewQKCRlp(cb)
	shake := func(t transport, k *ecdsa.PrivateKey, to *ecdsa.PublicKey) error {
		if _, err := t.doEncHandshake(k, to); err != nil {
			return err
		}
		_, err := t.doProtoHandshake(&protoHandshake{Version: version, ID: crypto.FromECDSAPub(&k.PublicKey)[1:], Caps: []Cap{{"a", 1}}})
		return err
	}
	done := make(chan error, 1)
	go func() { done <- shake(ta, vKeyA, &vKeyB.PublicKey) }()
	err := shake(tb, vKeyB, nil)
	erra := <-done
	c.Check(err == nil && erra == nil, "C12 handshake", "handshake failed: %v, %v", erra, err)
	wire = new(bytes.Buffer)
	ca.rec, cb.rec = wire, wire
	return ta, tb, wire
}

func vBody(n, salt int) []byte {
	b := make([]byte, n)
	x := uint32(salt*7919 + 1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	if salt%2 == 1 && n > 64 {
		copy(b[32:], bytes.Repeat([]byte{7}, n-32)) // compressible
	}
	return b
}

func TestVerifC12Wire(t *testing.T) {
	h := kit.New("C12", "wire")
	defer h.Done()
	sizes := []int{0, 1, 3, 15, 16, 17, 31, 32, 33, 255, 256, 4095, 65535, 65536, 300000}
	versions := []uint64{4, 5}
	send := func(c *kit.Case, a transport, n, k int) []byte {
		body := vBody(n, k)
		m, err := MakeMsgWithSerializedData(P2PCommandOp(k%20), uint64(k)<<33|7, Metadata{Branch: uint32(k)}, body)
		c.Check(err == nil, "C12 wire", "no message: %v", err)
		err = a.WriteMsg(m)
		c.Check(err == nil, "C12 wire", "writing %d bytes: %v", n, err)
		c.Step()
		return body
	}
	h.Bound("messages on a connection", kit.Tier(2, 3))
	h.Explore("messages of boundary sizes, compressed or not", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		v := versions[c.Choose(2, "version")]
		a, b, wire := vLink(c, v)
		var bodies [][]byte
		for k := 0; k < kit.Tier(2, 3); k++ {
			bodies = append(bodies, send(c, a, sizes[c.Choose(len(sizes), "size")], k+int(v)))
		}
		for k, body := range bodies {
			m, err := b.ReadMsg()
			c.Check(err == nil, "C12 wire", "reading message %d: %v", k, err)
			p, err := ioutil.ReadAll(m.Payload)
			c.Check(err == nil && uint32(len(p)) == m.Size, "C12 wire", "message %d says %d bytes and has %d (%v)", k, m.Size, len(p), err)
			q, err := DecodeQKCMsg(p)
			k := k + int(v)
			c.Check(err == nil && bytes.Equal(q.Data, body) && int(q.Op) == k%20 && q.RpcID == uint64(k)<<33|7 && q.MetaData.Branch == uint32(k),
				"C12 wire", "message of %d bytes arrives changed (%d bytes, op %d, id %d, branch %d, %v)", len(body), len(q.Data), q.Op, q.RpcID, q.MetaData.Branch, err)
		}
		c.Check(wire.Len() == 0, "C12 wire", "%d bytes left unread", wire.Len())
		c.State(fmt.Sprint(v, len(bodies[0]), len(bodies[1])))
		c.Outcome("arrived")
	})
	h.Explore("any one bit of a message changed on its way, or the message cut short", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		v := versions[c.Choose(2, "version")]
		n := []int{0, 5, 20}[c.Choose(3, "size")]
		a, b, wire := vLink(c, v)
		send(c, a, n, 3)
		first := wire.Len()
		send(c, a, 9, 4)
		raw := wire.Bytes()
		i := c.Choose(first, "byte")
		bit := c.Choose(kit.Tier(3, 9), "bit")
		if kit.Quick() {
			bit = []int{0, 7, 8}[bit]
		}
		if bit < 8 {
			raw[i] ^= 1 << uint(bit)
		} else {
			wire.Truncate(i)
		}
		var err error
		var m Msg
		site, val := kit.Try(func() {
			if m, err = b.ReadMsg(); err == nil {
				_, err = ioutil.ReadAll(m.Payload)
			}
		})
		c.Check(site == "", "C12 wire crash "+site, "crash: %v", val)
		c.Check(err != nil, "C12 wire altered", "a message of %d bytes with byte %d of %d changed (bit %d, 8: cut there) is delivered", n, i, first, bit)
		c.Outcome("refused")
	})
}
