package types

// C21: the sender of a transaction is the address of the key that signed exactly these contents.

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
)

var c21N, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

var c21Keys = func() (l []*ecdsa.PrivateKey) {
	for i := 1; i <= 3; i++ {
		k, err := crypto.ToECDSA(common.BigToHash(big.NewInt(int64(0x4242*i))).Bytes())
		if err != nil {
			panic(err)
		}
		l = append(l, k)
	}
	return
}()

// c21Tx is the plain content of a transaction.
type c21Tx struct {
	nonce      uint64
	price      *big.Int
	gas        uint64
	to         *account.Recipient
	value      *big.Int
	data       []byte
	network    uint32
	from, dest uint32
	gasTok     uint64
	xferTok    uint64
	version    uint32
	v, r, s    *big.Int
}

func (x c21Tx) String() string {
	to := "none"
	if x.to != nil {
		to = fmt.Sprintf("%x", x.to[:])
	}
	return fmt.Sprintf("{nonce %d price %v gas %d to %s value %v data %x network %d keys %#x %#x tokens %d %d version %d sig %x %x %x}", x.nonce, x.price, x.gas, to, x.value, x.data, x.network, x.from, x.dest, x.gasTok, x.xferTok, x.version, x.v, x.r, x.s)
}

// ---- an encoder of our own

func c21Str(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return append(c21Head(0x80, len(b)), b...)
}
func c21Head(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	l := new(big.Int).SetInt64(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(l))}, l...)
}
func c21List(items ...[]byte) []byte {
	var body []byte
	for _, i := range items {
		body = append(body, i...)
	}
	return append(c21Head(0xc0, len(body)), body...)
}
func c21Int(v uint64) []byte   { return c21Str(new(big.Int).SetUint64(v).Bytes()) }
func c21Num(v *big.Int) []byte { return c21Str(v.Bytes()) }
func c21Key(v uint32) []byte {
	return []byte{0x84, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}
func c21To(to *account.Recipient) []byte {
	if to == nil {
		return []byte{0x80}
	}
	return c21Str(to[:])
}
func c21Left(b []byte, n int) []byte { return append(make([]byte, n-len(b)), b...) }
func c21Left64(v uint64, n int) []byte {
	return c21Left(new(big.Int).SetUint64(v).Bytes(), n)
}

// signed is the hash the holder of the key signs.
func (x c21Tx) signed() []byte {
	switch x.version {
	case 0:
		return crypto.Keccak256(c21List(c21Int(x.nonce), c21Num(x.price), c21Int(x.gas), c21To(x.to), c21Num(x.value), c21Str(x.data), c21Int(uint64(x.network)), c21Key(x.from), c21Key(x.dest), c21Int(x.gasTok), c21Int(x.xferTok)))
	case 1:
		schema := "uint256 nonce" + "uint256 gasPrice" + "uint256 gasLimit" + "uint160 to" + "uint256 value" + "bytes data" + "uint256 networkId" + "uint32 fromFullShardKey" + "uint32 toFullShardKey" + "uint64 gasTokenId" + "uint64 transferTokenId" + "string qkcDomain"
		var to [20]byte
		if x.to != nil {
			to = *x.to
		}
		p := bytes.Join([][]byte{c21Left64(x.nonce, 32), c21Left(x.price.Bytes(), 32), c21Left64(x.gas, 32), to[:], c21Left(x.value.Bytes(), 32), x.data, c21Left64(uint64(x.network), 32),
			c21Left64(uint64(x.from), 4), c21Left64(uint64(x.dest), 4), c21Left64(x.gasTok, 8), c21Left64(x.xferTok, 8), []byte("bottom-quark")}, nil)
		return crypto.Keccak256(crypto.Keccak256([]byte(schema)), crypto.Keccak256(p))
	default:
		return crypto.Keccak256(c21List(c21Int(x.nonce), c21Num(x.price), c21Int(x.gas), c21To(x.to), c21Num(x.value), c21Str(x.data), c21Int(uint64(x.network)), c21Int(0), c21Int(0)))
	}
}

func (x c21Tx) sign(k int) c21Tx {
	sig, err := crypto.Sign(x.signed(), c21Keys[k])
	if err != nil {
		panic(err)
	}
	x.r, x.s = new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	x.v = big.NewInt(27 + int64(sig[64]))
	if x.version == 2 {
		x.v.Add(x.v, big.NewInt(8+2*int64(x.network)))
	}
	return x
}

func (x c21Tx) wire() []byte {
	return c21List(c21Int(x.nonce), c21Num(x.price), c21Int(x.gas), c21To(x.to), c21Num(x.value), c21Str(x.data), c21Int(uint64(x.network)), c21Key(x.from), c21Key(x.dest), c21Int(x.gasTok), c21Int(x.xferTok), c21Int(uint64(x.version)), c21Num(x.v), c21Num(x.r), c21Num(x.s))
}

// tx builds the transaction, by the constructors.
func (x c21Tx) tx() *EvmTransaction {
	var e *EvmTransaction
	if x.to == nil {
		e = NewEvmContractCreation(x.nonce, x.value, x.gas, x.price, x.from, x.dest, x.network, x.version, x.data, x.gasTok, x.xferTok)
	} else {
		e = NewEvmTransaction(x.nonce, *x.to, x.value, x.gas, x.price, x.from, x.dest, x.network, x.version, x.data, x.gasTok, x.xferTok)
	}
	if x.v != nil {
		e.SetVRS(x.v, x.r, x.s)
	}
	return e
}

func c21Addr(k int) account.Recipient { return crypto.PubkeyToAddress(c21Keys[k].PublicKey) }

func c21B(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return v
}

var c21Nums = []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(127), big.NewInt(128), big.NewInt(255), big.NewInt(256), c21B("0xffffffffffffffff"), c21B("0x10000000000000000"), c21B("0xffffffffffffffffffffffffffffffff"),
	c21B("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")}
var c21U64 = []uint64{0, 1, 127, 128, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}
var c21U32 = []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func c21Rcps() []*account.Recipient {
	var l []*account.Recipient
	for _, s := range []string{"0000000000000000000000000000000000000000", "0000000000000000000000000000000000000001", "0102030405060708090a0b0c0d0e0f1011121314", "ffffffffffffffffffffffffffffffffffffffff", "1400000000000000000000000000000000000000"} {
		r := account.BytesToIdentityRecipient(common.FromHex(s))
		l = append(l, &r)
	}
	self := c21Addr(0)
	return append(l, &self, nil)
}

var c21Datas = [][]byte{nil, {0}, {1}, {0x7f}, {0x80}, bytes.Repeat([]byte{7}, 31), bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{7}, 55), bytes.Repeat([]byte{7}, 56), bytes.Repeat([]byte{7}, 256), []byte("bottom-quark")}

// c21Fields sets the i-th alternative of the contents; nil when there are no more.
type c21Field struct {
	name string
	n    int
	set  func(x *c21Tx, i int)
}

func c21Fields() []c21Field {
	rc := c21Rcps()
	return []c21Field{
		{"nonce", len(c21U64), func(x *c21Tx, i int) { x.nonce = c21U64[i] }},
		{"price", len(c21Nums), func(x *c21Tx, i int) { x.price = c21Nums[i] }},
		{"gas", len(c21U64), func(x *c21Tx, i int) { x.gas = c21U64[i] }},
		{"to", len(rc), func(x *c21Tx, i int) { x.to = rc[i] }},
		{"value", len(c21Nums), func(x *c21Tx, i int) { x.value = c21Nums[i] }},
		{"data", len(c21Datas), func(x *c21Tx, i int) { x.data = c21Datas[i] }},
		{"network", len(c21U32), func(x *c21Tx, i int) { x.network = c21U32[i] }},
		{"from", len(c21U32), func(x *c21Tx, i int) { x.from = c21U32[i] }},
		{"dest", len(c21U32), func(x *c21Tx, i int) { x.dest = c21U32[i] }},
		{"gasTok", len(c21U64), func(x *c21Tx, i int) { x.gasTok = c21U64[i] }},
		{"xferTok", len(c21U64), func(x *c21Tx, i int) { x.xferTok = c21U64[i] }},
	}
}

func c21Base(shape int, network uint32, version uint32) c21Tx {
	rc := c21Rcps()
	x := c21Tx{nonce: 5, price: big.NewInt(1000000000), gas: 30000, to: rc[2], value: big.NewInt(77), network: network, from: 0x10002, dest: 0x20003, gasTok: 35760, xferTok: 12345, version: version}
	switch shape {
	case 1:
		x.to, x.data = nil, []byte{0x60, 0x00}
	case 2:
		x.data = bytes.Repeat([]byte{9}, 68)
	case 3:
		x.to, x.data = rc[0], []byte{0x60, 0x00}
	}
	return x
}

var c21Hashes sync.Map

// c21Hash checks that no two different transactions share a hash.
func c21Hash(c *kit.Case, x c21Tx, e *EvmTransaction) {
	wire := x.wire()
	got, err := rlp.EncodeToBytes(e)
	c.Check(err == nil && bytes.Equal(got, wire), "tx-encoding", "%v is encoded as %x (%v), want %x", x, got, err, wire)
	t := &Transaction{TxType: EvmTx, EvmTx: e}
	full := append([]byte{0, byte(len(wire) >> 24), byte(len(wire) >> 16), byte(len(wire) >> 8), byte(len(wire))}, wire...)
	want := common.BytesToHash(crypto.Keccak256(full))
	h := t.Hash()
	c.Check(h == want && t.Hash() == want, "tx-hash", "%v has hash %x, want %x", x, h, want)
	c.Check(e.Hash() == common.BytesToHash(crypto.Keccak256(wire)), "evm-tx-hash", "%v has inner hash %x", x, e.Hash())
	if old, dup := c21Hashes.LoadOrStore(h, x.String()); dup {
		c.Check(old.(string) == x.String(), "hash-shared", "%v and %v share hash %x", x, old, h)
	}
}

func c21Sender(c *kit.Case, e *EvmTransaction, network uint32) (account.Recipient, error) {
	var a account.Recipient
	var err error
	site, val := kit.Try(func() { a, err = Sender(MakeSigner(network), e) })
	if site != "" {
		c.Fail("sender-panic", "at %s: %v", site, val)
	}
	return a, err
}

func TestVerifC21Sign(t *testing.T) {
	h := kit.New("C21", "Sign")
	defer h.Done()
	fields := c21Fields()
	dev := kit.Tier(2, 3)
	h.Bound("fields_away_from_typical", dev)
	h.Explore("all", kit.Opt{MaxDev: dev}, func(c *kit.Case) {
		version := uint32(c.Choose(3, "version"))
		shape := c.Choose(2, "shape")
		x := c21Base(shape, 3, version)
		for _, f := range fields {
			if i := c.Dev(f.n+1, f.name); i > 0 {
				f.set(&x, i-1)
			}
		}
		who := 0
		if kit.Quick() {
			who = int((x.nonce + uint64(x.network) + uint64(len(x.data))) % uint64(len(c21Keys)))
		} else {
			who = c.Choose(len(c21Keys), "key")
		}
		x = x.sign(who)
		e := x.tx()
		a, err := c21Sender(c, e, x.network)
		c.Check(err == nil && a == c21Addr(who), "signer-not-sender", "%v signed by %x has sender %x (%v)", x, c21Addr(who), a, err)
		if version != 2 {
			a, err = c21Sender(c, x.tx(), x.network^1)
			c.Check(err != nil, "other-network-accepted", "%v has sender %x on network %d", x, a, x.network^1)
			// the sender found on one network must not answer for another
			a, err = c21Sender(c, e, x.network^1)
			c.Check(err != nil, "other-network-accepted", "%v, once recovered, has sender %x on network %d", x, a, x.network^1)
		}
		c21Hash(c, x, e)
		if version == 0 {
			unsigned := x
			unsigned.v = nil
			s, err := SignTx(unsigned.tx(), MakeSigner(x.network), c21Keys[who])
			if err != nil {
				c.Fail("sign", "%v: %v", x, err)
				return
			}
			v, r, sv := s.RawSignatureValues()
			c.Check(v.Cmp(x.v) == 0 && r.Cmp(x.r) == 0 && sv.Cmp(x.s) == 0, "signature", "%v signed as %x %x %x", x, v, r, sv)
			c21Hash(c, x, s)
		}
		// as it comes over the wire
		b, err := serialize.SerializeToBytes(&Transaction{TxType: EvmTx, EvmTx: e})
		t2 := new(Transaction)
		if err == nil {
			err = serialize.DeserializeFromBytes(b, t2)
		}
		if err != nil {
			c.Fail("tx-wire", "%v: %v", x, err)
			return
		}
		a, err = t2.Sender(MakeSigner(x.network))
		c.Check(err == nil && a == c21Addr(who), "signer-not-sender", "%v signed by %x and transmitted has sender %x (%v)", x, c21Addr(who), a, err)
		c21Hash(c, x, t2.EvmTx)
		m, err := t2.EvmTx.AsMessage(MakeSigner(x.network), t2.Hash(), x.price, x.gasTok, 100)
		ok := err == nil && m.From() == c21Addr(who) && m.Nonce() == x.nonce && m.Gas() == x.gas && m.Value().Cmp(x.value) == 0 && m.GasPrice().Cmp(x.price) == 0 && bytes.Equal(m.Data(), x.data) &&
			m.FromFullShardKey() == x.from && *m.ToFullShardKey() == x.dest && m.TransferTokenID() == x.xferTok && m.GasTokenID() == x.gasTok && m.TxHash() == t2.Hash() && m.CheckNonce() && (m.To() == nil) == (x.to == nil) && (x.to == nil || *m.To() == *x.to)
		c.Check(ok, "message", "%v becomes message %+v (%v)", x, m, err)
		c.State(x.String())
		c.Outcome("version %d", version)
	})
}

// c21Same tells whether the two signed contents are the same for the version's signature.
func c21Same(a, b c21Tx) bool {
	if a.version != b.version || a.network != b.network || a.v.Cmp(b.v) != 0 || a.r.Cmp(b.r) != 0 || a.s.Cmp(b.s) != 0 {
		return false
	}
	to := (a.to == nil) == (b.to == nil) && (a.to == nil || *a.to == *b.to)
	same := to && a.nonce == b.nonce && a.price.Cmp(b.price) == 0 && a.gas == b.gas && a.value.Cmp(b.value) == 0 && bytes.Equal(a.data, b.data)
	if a.version != 2 { // the shard accepts version 2 with one value of these only, see the shard's part
		same = same && a.from == b.from && a.dest == b.dest && a.gasTok == b.gasTok && a.xferTok == b.xferTok
	}
	return same
}

func TestVerifC21Alter(t *testing.T) {
	h := kit.New("C21", "Alter")
	defer h.Done()
	fields := c21Fields()
	half := new(big.Int).Rsh(c21N, 1)
	sigs := []c21Field{
		{"version", 4, func(x *c21Tx, i int) { x.version = []uint32{0, 1, 2, 3}[i] }},
		{"v", 22, func(x *c21Tx, i int) {
			d := []int64{-27, -28, -1, 0, 1, 2, 26, 27, 28, 29, 35, 36, 255, 256, 283, 284, 512}
			switch {
			case i < 4:
				// the other parity, and the values a sign or a byte off
				x.v = new(big.Int).Add(x.v, big.NewInt([]int64{-1, 1, -256, 256}[i]))
			case i == 4:
				x.v = new(big.Int).Sub(big.NewInt(16+4*int64(x.network)), x.v) // v with the opposite sign after the network is taken off
			case i < 5+len(d):
				x.v = big.NewInt(d[i-5])
			}
			if x.v.Sign() < 0 {
				x.v = new(big.Int)
			}
		}},
		{"r", 7, func(x *c21Tx, i int) {
			x.r = []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Add(x.r, big.NewInt(1)), new(big.Int).Sub(c21N, x.r), c21N, new(big.Int).Add(c21N, x.r), x.s}[i]
		}},
		{"s", 8, func(x *c21Tx, i int) {
			x.s = []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Add(x.s, big.NewInt(1)), new(big.Int).Sub(c21N, x.s), c21N, half, new(big.Int).Add(half, big.NewInt(1)), new(big.Int).Add(x.s, c21N)}[i]
		}},
		{"malleated", 2, func(x *c21Tx, i int) { // the other signature of the same contents
			x.s = new(big.Int).Sub(c21N, x.s)
			base := int64(27)
			if x.version == 2 {
				base += 8 + 2*int64(x.network)
			}
			x.v = new(big.Int).Sub(big.NewInt(2*base+1), x.v)
		}},
	}
	all := append(fields, sigs...)
	dev := kit.Tier(2, 3)
	h.Bound("altered_fields", dev)
	nets := []uint32{1, 3, 110000, 1<<32 - 1}
	h.Explore("all", kit.Opt{MaxDev: dev}, func(c *kit.Case) {
		version := uint32(c.Choose(3, "version"))
		shape := c.Choose(4, "shape")
		network := nets[1]
		if n := c.Dev(len(nets), "network"); n > 0 {
			network = nets[(1+n)%len(nets)]
		}
		x := c21Base(shape, network, version).sign(0)
		y := x
		for _, f := range all {
			if i := c.Dev(f.n+1, f.name); i > 0 {
				f.set(&y, i-1)
			}
		}
		for _, n := range []**big.Int{&y.v, &y.r, &y.s} { // a negative number cannot be transmitted
			if (*n).Sign() < 0 {
				*n = new(big.Int)
			}
		}
		e := y.tx()
		c21Hash(c, y, e)
		a, err := c21Sender(c, e, y.network)
		if c21Same(x, y) {
			c.Check(err == nil && a == c21Addr(0), "signer-not-sender", "%v has sender %x (%v)", y, a, err)
			c.Outcome("same")
			return
		}
		if version == 1 && y.version == 1 && (x.to == nil || *x.to == account.Recipient{}) && (y.to == nil || *y.to == account.Recipient{}) {
			z := y
			z.to = x.to
			if c21Same(x, z) {
				c.Check(err != nil || a != c21Addr(0), "version1-creation-or-zero-address", "signed %v; %v has the same sender", x, y)
				c.Outcome("creation or zero address")
				return
			}
		}
		c.Check(err != nil || a != c21Addr(0), "altered-keeps-sender", "signed %v; %v has the same sender", x, y)
		c.Check(y.version <= 2 || err != nil, "unknown-version", "%v has sender %x", y, a)
		// nor on the network it was signed for
		if y.network != x.network && y.version != 2 {
			a, err = c21Sender(c, y.tx(), x.network)
			c.Check(err != nil, "other-network-accepted", "%v has sender %x on network %d", y, a, x.network)
		}
		if err != nil {
			c.Outcome("refused")
		} else {
			c.Outcome("another sender")
		}
	})
}
