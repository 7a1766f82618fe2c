package rpc

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
)

// ---------------------------------------------------------------------------------------------
// C12: every message and record survives encode and decode.
//
// Every type that travels between peers or cluster members, or is stored, is built from small
// boundary domains by reflection: one "typical" value, and every value that differs from it in
// up to MaxDev leaves (0, 1, maximum, empty, 255/256/65535/65536 long, absent, …). Equality is
// judged by a textual dump written here, which does not use the serializer.

var (
	vBigT   = reflect.TypeOf(big.Int{})
	vU256T  = reflect.TypeOf(serialize.Uint256{})
	vU128T  = reflect.TypeOf(serialize.Uint128{})
	vTxT    = reflect.TypeOf(types.Transaction{})
	vMinT   = reflect.TypeOf(types.MinorBlock{})
	vRootT  = reflect.TypeOf(types.RootBlock{})
	vTokT   = reflect.TypeOf(types.TokenBalances{})
	vRcptT  = reflect.TypeOf(types.Receipt{})
	vDepT   = reflect.TypeOf(types.CrossShardTransactionDepositList{})
	vLogT   = reflect.TypeOf(types.Log{})
	vRecip  = reflect.TypeOf(account.Recipient{})
	vHashT  = reflect.TypeOf(common.Hash{})
	vBloomT = reflect.TypeOf(types.Bloom{})
)

// fields whose absence means something
var vOptional = map[string]bool{
	"MasterInfo.RootTip": true, "GetTransactionResponse.MinorBlock": true, "ExecuteTransactionRequest.BlockHeight": true,
	"GetTransactionReceiptResponse.MinorBlock": true, "GetTransactionReceiptResponse.Receipt": true,
	"GetTransactionListByAddressRequest.TransferTokenID": true, "TransactionDetail.ToAddress": true,
	"GetAccountDataRequest.BlockHeight": true, "GetStorageRequest.BlockHeight": true, "GetCodeRequest.BlockHeight": true,
	"GetWorkRequest.CoinbaseAddr": true,
}

// lists that may hold at most 255 items
var vShort = map[string]bool{"Log.Topics": true, "PeerInfoForDisPlay.ID": true, "Receipt.PostState": true}

// byte strings that may be at most 65535 long
var vMid = map[string]bool{"MinorBlockHeader.Extra": true, "RootBlockHeader.Extra": true, "track": true}

// vGen builds values. `salt` makes the leaves of the typical value differ from each other.
type vGen struct {
	c     *kit.Case
	salt  uint64
	deep  int // no deviations below this depth
	depth int
	bad   bool // an unencodable value was chosen
}

func (g *vGen) dev(n int, label string) int {
	if g.depth > g.deep {
		return 0
	}
	return g.c.Dev(n, label)
}
func (g *vGen) next() uint64 { g.salt++; return g.salt }

func (g *vGen) bytes(n int) []byte {
	b := make([]byte, n)
	s := g.next()
	for i := range b {
		b[i] = byte(s*31 + uint64(i)*7 + 1)
	}
	return b
}

func (g *vGen) bigInt(label string) *big.Int {
	one := big.NewInt(1)
	switch g.dev(8, label) {
	case 1:
		return new(big.Int)
	case 2:
		return big.NewInt(1)
	case 3:
		return big.NewInt(256)
	case 4:
		return new(big.Int).Lsh(one, 64)
	case 5:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
	case 6:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 255*8), one)
	case 7:
		g.bad = true
		return new(big.Int).Lsh(one, 255*8)
	}
	return new(big.Int).SetUint64(1000003 * g.next())
}

func (g *vGen) fixed(label string, bits uint) *big.Int {
	one := big.NewInt(1)
	switch g.dev(7, label) {
	case 1:
		return new(big.Int)
	case 2:
		return big.NewInt(255)
	case 3:
		return big.NewInt(256)
	case 4:
		return new(big.Int).Lsh(one, bits-1)
	case 5:
		return new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	case 6:
		g.bad = true
		return new(big.Int).Lsh(one, bits)
	}
	return new(big.Int).SetUint64(1000003 * g.next())
}

func (g *vGen) uint(label string, bits uint) uint64 {
	max := ^uint64(0) >> (64 - bits)
	switch g.dev(6, label) {
	case 1:
		return 0
	case 2:
		return 1
	case 3:
		return max
	case 4:
		return 1 << (bits - 1)
	case 5:
		return 0xff & max
	}
	return (g.next()*0x0102030405060709 + 5) & max
}

// tokens is a set of token balances (all non-zero ones survive).
func (g *vGen) tokens(label string) *types.TokenBalances {
	m := map[uint64]*big.Int{}
	switch g.dev(7, label) {
	case 0:
		m[35760] = big.NewInt(int64(100 + g.next()))
		m[3] = big.NewInt(int64(70 + g.next()))
	case 1: // none
	case 2:
		m[0] = big.NewInt(1)
	case 3:
		m[^uint64(0)] = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	case 4:
		m[35760] = big.NewInt(0)
		m[7] = big.NewInt(5)
	case 5:
		for i := uint64(0); i < 20; i++ {
			m[i*i*i*1000003] = big.NewInt(int64(i + 1))
		}
	case 6:
		for i := uint64(0); i < 300; i++ {
			m[i<<32|i] = big.NewInt(int64(i*i + 1))
		}
	}
	return types.NewTokenBalancesWithMap(m)
}

func (g *vGen) list(label string, heavy bool) int {
	n := 5
	if heavy {
		n = 4
	}
	switch g.dev(n, label) {
	case 1:
		return 0
	case 2:
		return 2
	case 3:
		if vShort[label] {
			return 255
		}
		return 256
	case 4:
		return 255
	}
	return 1
}

func (g *vGen) byteLen(label string) int {
	n := 6
	if vShort[label] {
		n = 4
	}
	switch g.dev(n, label) {
	case 1:
		return 0
	case 2:
		return 1
	case 3:
		return 255
	case 4:
		return 256
	case 5:
		if vMid[label] {
			return 65535
		}
		return 65536
	}
	return 3
}

func (g *vGen) tx() *types.Transaction {
	g.depth++
	defer func() { g.depth-- }()
	var to *account.Recipient
	if g.dev(2, "to") == 0 {
		r := account.BytesToIdentityRecipient(g.bytes(20))
		to = &r
	}
	nonce, gas := g.uint("nonce", 64), g.uint("gas", 64)
	price, value := g.rlpBig("price"), g.rlpBig("value")
	fk, tk := uint32(g.uint("fromKey", 32)), uint32(g.uint("toKey", 32))
	net, ver := uint32(g.uint("net", 32)), uint32(g.uint("ver", 32))
	gt, tt := g.uint("gasToken", 64), g.uint("token", 64)
	var data []byte
	switch g.dev(8, "payload") {
	case 0:
		data = g.bytes(4)
	case 1:
	case 2:
		data = []byte{0}
	case 3:
		data = []byte{0x7f}
	case 4:
		data = []byte{0x80}
	case 5:
		data = g.bytes(55)
	case 6:
		data = g.bytes(56)
	case 7:
		data = g.bytes(70000)
	}
	var e *types.EvmTransaction
	if to != nil {
		e = types.NewEvmTransaction(nonce, *to, value, gas, price, fk, tk, net, ver, data, gt, tt)
	} else {
		e = types.NewEvmContractCreation(nonce, value, gas, price, fk, tk, net, ver, data, gt, tt)
	}
	e.SetVRS(g.rlpBig("v"), g.rlpBig("r"), g.rlpBig("s"))
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

func (g *vGen) rlpBig(label string) *big.Int {
	one := big.NewInt(1)
	switch g.dev(7, label) {
	case 1:
		return new(big.Int)
	case 2:
		return big.NewInt(0x7f)
	case 3:
		return big.NewInt(0x80)
	case 4:
		return new(big.Int).Lsh(one, 64)
	case 5:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
	case 6:
		return new(big.Int).Lsh(one, 600)
	}
	return new(big.Int).SetUint64(1000003 * g.next())
}

// value fills v, which is settable.
func (g *vGen) value(v reflect.Value, label string) {
	t := v.Type()
	switch t {
	case vBigT:
		v.Set(reflect.ValueOf(*g.bigInt(label)))
		return
	case vU256T:
		v.Set(reflect.ValueOf(serialize.Uint256{Value: g.fixed(label, 256)}))
		return
	case vU128T:
		v.Set(reflect.ValueOf(serialize.Uint128{Value: g.fixed(label, 128)}))
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if vOptional[label] && g.dev(2, label+"?") == 1 {
			return
		}
		switch t.Elem() {
		case vTxT:
			v.Set(reflect.ValueOf(g.tx()))
		case vTokT:
			v.Set(reflect.ValueOf(g.tokens(label)))
		case vMinT:
			v.Set(reflect.ValueOf(g.minor()))
		case vRootT:
			v.Set(reflect.ValueOf(g.root()))
		case vRcptT:
			v.Set(reflect.ValueOf(g.receipt()))
		default:
			v.Set(reflect.New(t.Elem()))
			g.value(v.Elem(), label)
		}
	case reflect.Bool:
		v.SetBool(g.dev(2, label) == 0)
	case reflect.String:
		switch g.dev(4, label) {
		case 0:
			v.SetString(fmt.Sprintf("s%d", g.next()))
		case 1:
		case 2:
			v.SetString("\x00\xff\u00e9")
		case 3:
			v.SetString(strings.Repeat("x", 70000))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.uint(label, uint(t.Bits())))
	case reflect.Array: // of bytes
		switch g.dev(3, label) {
		case 0:
			reflect.Copy(v, reflect.ValueOf(g.bytes(v.Len())))
		case 1:
		case 2:
			for i := 0; i < v.Len(); i++ {
				v.Index(i).SetUint(255)
			}
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.bytes(g.byteLen(label)))
			return
		}
		n := g.list(label, t.Elem().Kind() == reflect.Ptr)
		v.Set(reflect.MakeSlice(t, n, n))
		g.depth++
		saved := g.deep
		for i := 0; i < n; i++ {
			if i > 1 {
				g.deep = -1 // only the first two items deviate
			}
			g.value(v.Index(i), label+"[]")
		}
		g.deep = saved
		g.depth--
	case reflect.Struct:
		g.depth++
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || (t == vLogT && f.Name == "Removed") {
				continue
			}
			g.value(v.Field(i), t.Name()+"."+f.Name)
		}
		g.depth--
	default:
		panic("cannot generate " + t.String())
	}
}

func (g *vGen) minorHeader() *types.MinorBlockHeader {
	h := new(types.MinorBlockHeader)
	g.value(reflect.ValueOf(h).Elem(), "")
	return h
}

func (g *vGen) minor() *types.MinorBlock {
	g.depth++
	defer func() { g.depth-- }()
	h := g.minorHeader()
	m := new(types.MinorBlockMeta)
	g.value(reflect.ValueOf(m).Elem(), "")
	var txs []*types.Transaction
	n := g.list("txs", true)
	saved := g.deep
	for i := 0; i < n; i++ {
		if i > 1 {
			g.deep = -1
		}
		txs = append(txs, g.tx())
	}
	g.deep = saved
	return types.NewMinorBlockWithHeader(h, m).WithBody(txs, g.bytes(g.byteLen("track")))
}

func (g *vGen) root() *types.RootBlock {
	g.depth++
	defer func() { g.depth-- }()
	h := new(types.RootBlockHeader)
	g.value(reflect.ValueOf(h).Elem(), "")
	var hs types.MinorBlockHeaders
	n := g.list("headers", true)
	saved := g.deep
	for i := 0; i < n; i++ {
		if i > 1 {
			g.deep = -1
		}
		hs = append(hs, g.minorHeader())
	}
	g.deep = saved
	// NewRootBlock recomputes MinorHeaderHash, which is one more hash field here
	return types.NewRootBlock(h, hs, g.bytes(g.byteLen("track")))
}

func (g *vGen) receipt() *types.Receipt {
	r := new(types.Receipt)
	g.depth++
	defer func() { g.depth-- }()
	switch g.dev(3, "status") {
	case 0:
		r.Status = types.ReceiptStatusSuccessful
	case 1:
		r.Status = types.ReceiptStatusFailed
	case 2:
		r.PostState = g.bytes(32)
	}
	r.GasUsed = g.uint("gasUsed", 64)
	r.CumulativeGasUsed = g.uint("cumulative", 64)
	v := reflect.ValueOf(r).Elem()
	for _, f := range []string{"Bloom", "TxHash", "ContractAddress", "ContractFullShardKey", "Logs"} {
		g.value(v.FieldByName(f), "Receipt."+f)
	}
	return r
}

// ---------------------------------------------------------------------------------------------

func vDumpTokens(t *types.TokenBalances) string {
	m := t.GetBalanceMap()
	var ks []uint64
	for k, v := range m {
		if v.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	s := "tokens("
	for _, k := range ks {
		s += fmt.Sprintf("%d:%v,", k, m[k])
	}
	return s + ")"
}

func vDumpEvm(b *bytes.Buffer, e *types.EvmTransaction) {
	to := "none"
	if e.To() != nil {
		to = fmt.Sprintf("%x", e.To().Bytes())
	}
	v, r, s := e.RawSignatureValues()
	fmt.Fprintf(b, "tx(%d %v %d %s %v %x %d %x %x %d %d %d %v %v %v)", e.Nonce(), e.GasPrice(), e.Gas(), to, e.Value(), e.Data(), e.NetworkId(),
		e.FromFullShardKey(), e.ToFullShardKey(), e.GasTokenID(), e.TransferTokenID(), e.Version(), v, r, s)
}

func vDump(b *bytes.Buffer, v reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			b.WriteString(x.String())
		case *serialize.Uint256:
			fmt.Fprintf(b, "%v", x.Value)
		case *serialize.Uint128:
			fmt.Fprintf(b, "%v", x.Value)
		case *types.TokenBalances:
			b.WriteString(vDumpTokens(x))
		case *types.EvmTransaction:
			vDumpEvm(b, x)
		case *types.Transaction:
			fmt.Fprintf(b, "%d", x.TxType)
			vDumpEvm(b, x.EvmTx)
		case *types.MinorBlock:
			b.WriteString("minor{")
			vDump(b, reflect.ValueOf(x.Header()))
			vDump(b, reflect.ValueOf(x.Meta()))
			vDump(b, reflect.ValueOf(x.Transactions()))
			fmt.Fprintf(b, "%x}", x.TrackingData())
		case *types.RootBlock:
			b.WriteString("root{")
			vDump(b, reflect.ValueOf(x.Header()))
			vDump(b, reflect.ValueOf(x.MinorBlockHeaders()))
			fmt.Fprintf(b, "%x}", x.TrackingData())
		default:
			vDump(b, v.Elem())
		}
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%v", v.Interface())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Array, reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if t.Kind() == reflect.Array {
				c := reflect.New(t).Elem()
				c.Set(v)
				v = c.Slice(0, c.Len())
			}
			fmt.Fprintf(b, "x%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			vDump(b, v.Index(i))
			b.WriteString(";")
		}
		b.WriteString("]")
	case reflect.Struct:
		switch t {
		case vU256T, vU128T, vBigT:
			c := reflect.New(t)
			c.Elem().Set(v)
			vDump(b, c)
			return
		}
		b.WriteString(t.Name() + "{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || (t == vLogT && f.Name == "Removed") {
				continue
			}
			b.WriteString(f.Name + "=")
			vDump(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString("}")
	default:
		panic("cannot dump " + t.String())
	}
}

func vDumpOf(x interface{}) string {
	var b bytes.Buffer
	vDump(&b, reflect.ValueOf(x))
	return b.String()
}

// vHashOf: the identity hash of the types that have one.
func vHashOf(x interface{}) (h common.Hash, ok bool) {
	switch x := x.(type) {
	case *types.Transaction:
		return x.Hash(), true
	case *types.MinorBlock:
		return x.Hash(), true
	case *types.RootBlock:
		return x.Hash(), true
	case *types.MinorBlockHeader:
		return x.Hash(), true
	case *types.RootBlockHeader:
		return x.Hash(), true
	case *types.MinorBlockMeta:
		return x.Hash(), true
	}
	return
}

// vIdent: what the identity hash covers, dumped.
func vIdent(x interface{}) string {
	switch x := x.(type) {
	case *types.MinorBlock:
		return vDumpOf(x.Header())
	case *types.RootBlock:
		return vDumpOf(x.Header())
	}
	return vDumpOf(x)
}

// vSeen remembers which value an encoding (or hash) stands for, over all executions of a type.
type vSeen struct {
	mu sync.Mutex
	m  map[string]string
}

func (s *vSeen) add(kind string, key []byte, val string) (string, bool) {
	k := kind + string(crypto.Keccak256(key))
	v := string(crypto.Keccak256([]byte(val)))
	s.mu.Lock()
	defer s.mu.Unlock()
	if old, ok := s.m[k]; ok && old != v {
		return k, false
	}
	s.m[k] = v
	return "", true
}

type vCodec struct {
	name string
	typ  reflect.Type // pointer type
	gen  func(g *vGen) interface{}
	enc  func(x interface{}) ([]byte, error)
	dec  func(b []byte) (interface{}, int, error) // value, bytes consumed
}

func vSerCodec(zero interface{}, gen func(g *vGen) interface{}) vCodec {
	t := reflect.TypeOf(zero)
	if gen == nil {
		gen = func(g *vGen) interface{} {
			x := reflect.New(t.Elem())
			g.value(x.Elem(), "")
			return x.Interface()
		}
	}
	return vCodec{
		name: t.Elem().String(), typ: t, gen: gen,
		enc: func(x interface{}) ([]byte, error) { return serialize.SerializeToBytes(x) },
		dec: func(b []byte) (interface{}, int, error) {
			x := reflect.New(t.Elem()).Interface()
			bb := serialize.NewByteBuffer(b)
			err := serialize.Deserialize(bb, x)
			return x, bb.GetOffset(), err
		},
	}
}

func vRlpCodec(name string, zero interface{}, gen func(g *vGen) interface{}, norm func(x interface{}) interface{}) vCodec {
	t := reflect.TypeOf(zero)
	return vCodec{
		name: name, typ: t, gen: gen,
		enc: func(x interface{}) ([]byte, error) { return rlp.EncodeToBytes(norm(x)) },
		dec: func(b []byte) (interface{}, int, error) {
			x := reflect.New(t.Elem()).Interface()
			r := bytes.NewReader(b)
			s := rlp.NewStream(r, uint64(len(b)))
			err := s.Decode(x)
			return x, len(b) - r.Len(), err
		},
	}
}

func vCodecs() []vCodec {
	var out []vCodec
	add := func(zs ...interface{}) {
		for _, z := range zs {
			out = append(out, vSerCodec(z, nil))
		}
	}
	// cluster messages
	add(new(Ping), new(Pong), new(SlaveInfo), new(ShardStatus), new(ConnectToSlavesRequest), new(ConnectToSlavesResult),
		new(ConnectToSlavesResponse), new(MasterInfo), new(ArtificialTxConfig), new(MineRequest), new(GenTxRequest),
		new(GetMinorBlockRequest), new(PoSWInfo), new(GetMinorBlockHeaderListWithSkipRequest), new(GetMinorBlockResponse),
		new(GetMinorBlockListRequest), new(GetMinorBlockListResponse), new(BroadcastMinorBlock), new(BroadcastTransactions),
		new(MinorHeadRequest), new(GetMinorBlockHeaderListResponse), new(BroadcastNewTip), new(GetTransactionRequest),
		new(GetTransactionResponse), new(ExecuteTransactionRequest), new(ExecuteTransactionResponse), new(GetTransactionReceiptRequest),
		new(GetTransactionReceiptResponse), new(GetTransactionListByAddressRequest), new(TransactionDetail), new(GetTxDetailResponse),
		new(GetAllTxRequest), new(AddRootBlockRequest), new(AddRootBlockResponse), new(EcoInfo), new(GetEcoInfoListResponse),
		new(GetNextBlockToMineRequest), new(GetNextBlockToMineResponse), new(AddMinorBlockRequest), new(HeadersInfo),
		new(GetUnconfirmedHeadersResponse), new(GetAccountDataRequest), new(AccountBranchData), new(GetAccountDataResponse),
		new(AddTransactionRequest), new(AddMinorBlockHeaderRequest), new(AddMinorBlockHeaderResponse), new(AddMinorBlockHeaderListRequest),
		new(CrossShardTransactionList), new(AddXshardTxListRequest), new(BatchAddXshardTxListRequest), new(AddBlockListForSyncRequest),
		new(AddBlockListForSyncResponse), new(HandleNewTipRequest), new(GetLogResponse), new(EstimateGasRequest), new(EstimateGasResponse),
		new(GetStorageRequest), new(GetStorageResponse), new(GetCodeRequest), new(GetCodeResponse), new(GasPriceRequest), new(GasPriceResponse),
		new(GetWorkRequest), new(GetWorkResponse), new(SubmitWorkRequest), new(SubmitWorkResponse), new(PeerInfoForDisPlay),
		new(GetRootChainStakesRequest), new(GetRootChainStakesResponse), new(P2PRedirectRequest))
	// peer messages
	seen := map[reflect.Type]bool{}
	for op := p2p.P2PCommandOp(0); op < p2p.MaxOPNum; op++ {
		if z, ok := p2p.OPSerializerMap[op]; ok && !seen[reflect.TypeOf(z)] {
			seen[reflect.TypeOf(z)] = true
			out = append(out, vSerCodec(reflect.New(reflect.TypeOf(z)).Interface(), nil))
		}
	}
	add(new(p2p.GetRootBlockHeaderListWithSkipRequest), new(p2p.NewBlockMinor))
	// records
	add(new(account.CoinbaseStatses), new(account.Address), new(account.Branch), new(rawdb.HashList), new(rawdb.LookupEntry),
		new(types.MinorBlockHeader), new(types.MinorBlockMeta), new(types.RootBlockHeader), new(types.Log),
		new(types.CrossShardTransactionDeposit), new(types.CrossShardTransactionDepositList))
	out = append(out,
		vSerCodec(new(types.Transaction), func(g *vGen) interface{} { return g.tx() }),
		vSerCodec(new(types.MinorBlock), func(g *vGen) interface{} { return g.minor() }),
		vSerCodec(new(types.RootBlock), func(g *vGen) interface{} { return g.root() }),
		vSerCodec(new(types.TokenBalances), func(g *vGen) interface{} { return g.tokens("tokens") }),
		vSerCodec(new(types.Receipt), func(g *vGen) interface{} { return g.receipt() }))
	// RLP
	out = append(out,
		vRlpCodec("rlp EvmTransaction", new(types.EvmTransaction), func(g *vGen) interface{} { return g.tx().EvmTx },
			func(x interface{}) interface{} { return x }),
		vRlpCodec("rlp Receipt", new(types.Receipt), func(g *vGen) interface{} {
			// the consensus form leaves out what the transaction or the block tells
			r := g.receipt()
			r.TxHash, r.GasUsed = common.Hash{}, 0
			for _, l := range r.Logs {
				*l = types.Log{Recipient: l.Recipient, Topics: l.Topics, Data: l.Data}
			}
			return r
		}, func(x interface{}) interface{} { return x }),
		vRlpCodec("rlp stored Receipt", new(types.ReceiptForStorage), func(g *vGen) interface{} { return (*types.ReceiptForStorage)(g.receipt()) },
			func(x interface{}) interface{} { return x }),
		vRlpCodec("rlp Log", new(types.Log), func(g *vGen) interface{} {
			l := new(types.Log)
			g.value(reflect.ValueOf(l).Elem(), "")
			return &types.Log{Recipient: l.Recipient, Topics: l.Topics, Data: l.Data}
		}, func(x interface{}) interface{} { return x }),
		vRlpCodec("rlp stored Log", new(types.LogForStorage), func(g *vGen) interface{} {
			l := new(types.Log)
			g.value(reflect.ValueOf(l).Elem(), "")
			return (*types.LogForStorage)(l)
		}, func(x interface{}) interface{} { return x }),
		vRlpCodec("rlp Uint32", new(types.Uint32), func(g *vGen) interface{} { u := types.Uint32(g.uint("u", 32)); return &u },
			func(x interface{}) interface{} { return x }),
		// the form balances take in an account
		vCodec{name: "account balances", typ: reflect.TypeOf(new(types.TokenBalances)),
			gen: func(g *vGen) interface{} {
				m := map[uint64]*big.Int{}
				n := []int{2, 0, 1, 15, 16}[g.c.Dev(5, "n")]
				for i := 0; i < n; i++ {
					m[uint64(i*i)+g.uint(fmt.Sprintf("id%d", i%2), 64)] = g.rlpBig(fmt.Sprintf("bal%d", i%3))
				}
				return types.NewTokenBalancesWithMap(m)
			},
			enc: func(x interface{}) ([]byte, error) { return x.(*types.TokenBalances).SerializeToBytes() },
			dec: func(b []byte) (interface{}, int, error) {
				t, err := types.NewTokenBalances(b, trie.NewDatabase(ethdb.NewMemDatabase()))
				if t == nil {
					t = types.NewEmptyTokenBalances()
				}
				return t, len(b), err
			}})
	return out
}

func TestVerifC12Codecs(t *testing.T) {
	h := kit.New("C12", "codecs")
	defer h.Done()
	codecs := vCodecs()
	h.Bound("types", len(codecs))
	h.Bound("fields changed from the typical value at the same time", fmt.Sprintf("up to %d in small types, %d in large ones", kit.Tier(2, 3), kit.Tier(1, 2)))
	for _, cd := range codecs {
		cd := cd
		seen := &vSeen{m: map[string]string{}}
		// how many leaves the type has decides how far the deviations go
		maxDev := kit.Tier(1, 2)
		record := strings.HasPrefix(cd.name, "types.") || strings.HasPrefix(cd.name, "rlp")
		if n := vLeaves(cd); n <= kit.Tier(12, 90) || (record && n <= 30) {
			maxDev = kit.Tier(2, 3)
			if n > 25 {
				maxDev = 2
			}
		}
		h.Explore(cd.name, kit.Opt{MaxDev: maxDev}, func(c *kit.Case) {
			g := &vGen{c: c, deep: 6}
			x := cd.gen(g)
			site, val := kit.Try(func() { vRound(c, cd, g, x, seen) })
			c.Check(site == "", "C12 crash "+site, "%s: encoding or decoding crashed: %v", cd.name, val)
		})
	}
}

func vLeaves(cd vCodec) int {
	return kit.Points(func(c *kit.Case) { cd.gen(&vGen{c: c, deep: 6}) })
}

func vRound(c *kit.Case, cd vCodec, g *vGen, x interface{}, seen *vSeen) {
	want := vDumpOf(x)
	enc, err := cd.enc(x)
	if err != nil {
		c.Check(g.bad, "C12 encode "+cd.name, "%s cannot be encoded: %v\n%.600s", cd.name, err, want)
		c.Outcome("not encodable")
		return
	}
	c.State(cd.name + string(crypto.Keccak256(enc)))
	keep := append([]byte{}, enc...)
	// the same value always has the same encoding, and no other value has it
	again, err := cd.enc(x)
	c.Check(err == nil && bytes.Equal(enc, again), "C12 unstable "+cd.name, "%s: two encodings of one value differ", cd.name)
	if _, ok := seen.add("enc", enc, want); !ok {
		c.Fail("C12 shared encoding "+cd.name, "%s: two different values have the same encoding, %s: one is %.1000s", cd.name, kit.Hex(vHead(enc)), want)
	}
	if hash, ok := vHashOf(x); ok {
		if _, ok := seen.add("hash", hash[:], vIdent(x)); !ok {
			c.Fail("C12 shared hash "+cd.name, "%s: two different values have the same hash: one is %.1000s", cd.name, want)
		}
	}
	// decoding gives the value back and consumes what was written
	got, n, err := cd.dec(append(append([]byte{}, enc...), 0xa5, 0x01, 0x00)[:len(enc)])
	if err != nil {
		c.Fail("C12 decode "+cd.name, "%s: decoding its own encoding (%d bytes, %s) failed: %v\n%.600s", cd.name, len(enc), kit.Hex(vHead(enc)), err, want)
		return
	}
	c.Check(n == len(enc), "C12 consumed "+cd.name, "%s: decoding consumed %d of %d bytes", cd.name, n, len(enc))
	vSame(c, cd, "C12 round trip "+cd.name, want, vDumpOf(got))
	if hash, ok := vHashOf(x); ok {
		h2, _ := vHashOf(got)
		c.Check(hash == h2, "C12 hash "+cd.name, "%s: hash %x before encoding, %x after decoding", cd.name, hash, h2)
	}
	// followed by other data, only the own bytes are consumed
	if cd.name != "account balances" && !strings.HasPrefix(cd.name, "rlp") {
		buf := append(append([]byte{}, enc...), 0xa5, 0x01, 0x00)
		got, n, err := cd.dec(buf)
		c.Check(err == nil && n == len(enc), "C12 consumed "+cd.name, "%s followed by other data: decoding consumed %d of %d bytes, error %v", cd.name, n, len(enc), err)
		if err == nil {
			d := vDumpOf(got)
			for i := range buf {
				buf[i] ^= 0xff
			}
			c.Check(vDumpOf(got) == d, "C12 alias "+cd.name, "%s: the decoded value changes with the buffer it was decoded from", cd.name)
			vSame(c, cd, "C12 round trip "+cd.name, want, d)
		}
	}
	// the value does not change with its encoding
	for i := range enc {
		enc[i] ^= 0xff
	}
	c.Check(vDumpOf(x) == want, "C12 alias "+cd.name, "%s: the value changes with its encoding", cd.name)
	enc = keep
	c.Step()
	// damaged input
	if c.Devs() > kit.Tier(0, 1) {
		c.Outcome("ok")
		return
	}
	cut := func(n int) {
		_, _, err := cd.dec(append([]byte{}, enc[:n]...))
		c.Check(err != nil, "C12 truncated "+cd.name, "%s: %d of its %d bytes were decoded without an error", cd.name, n, len(enc))
		c.Step()
	}
	step := 1
	if len(enc) > 3000 {
		step = len(enc)/1500 + 1
	}
	if cd.name != "account balances" {
		for i := 0; i < len(enc); i += step {
			cut(i)
		}
	} else {
		for i := 0; i < len(enc); i++ {
			cd.dec(enc[:i])
		}
	}
	for i := 0; i < len(enc); i += step {
		for _, b := range []byte{0, 1, 0x7f, 0x80, 0xb8, 0xc0, 0xf8, 0xff, enc[i] ^ 1, enc[i] + 1} {
			if b == enc[i] {
				continue
			}
			bad := append([]byte{}, enc...)
			bad[i] = b
			got, n, err := cd.dec(bad)
			c.Step()
			if err != nil {
				continue
			}
			c.Check(n <= len(bad), "C12 beyond "+cd.name, "%s: decoding consumed %d of %d bytes", cd.name, n, len(bad))
			// what was accepted can be encoded and decoded again
			d := vDumpOf(got)
			e2, err := cd.enc(got)
			if err != nil {
				c.Fail("C12 altered "+cd.name, "%s: byte %d changed to %02x: decoded, but the value cannot be encoded: %v", cd.name, i, b, err)
				return
			}
			got2, _, err := cd.dec(e2)
			if err != nil {
				c.Fail("C12 altered "+cd.name, "%s: byte %d changed to %02x: decoded, but the value does not survive: %v", cd.name, i, b, err)
				return
			}
			vSame(c, cd, "C12 altered "+cd.name, d, vDumpOf(got2))
			if bytes.Equal(e2, bad) {
				if _, ok := seen.add("enc", bad, d); !ok {
					c.Fail("C12 shared encoding "+cd.name, "%s: two different values have the same encoding %s", cd.name, kit.Hex(vHead(bad)))
				}
			}
		}
	}
	c.Outcome("ok")
}

func vHead(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func vSame(c *kit.Case, cd vCodec, sig, want, got string) {
	if want == got {
		return
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := i - 80
	if from < 0 {
		from = 0
	}
	c.Fail(sig, "%s: the decoded value differs: …%.200s… became …%.200s…", cd.name, want[from:], got[from:])
}

// ---------------------------------------------------------------------------------------------
// records: everything written to the database is read back

func TestVerifC12Records(t *testing.T) {
	h := kit.New("C12", "records")
	defer h.Done()
	h.Explore("all kinds of record of one block, and a second block's, side by side", kit.Opt{MaxDev: kit.Tier(1, 2)}, func(c *kit.Case) {
		db := ethdb.NewMemDatabase()
		type rec struct {
			name string
			want string
			read func() string
		}
		var recs []rec
		str := func(x interface{}) string { return vDumpOf(x) }
		for k := 0; k < 2; k++ {
			k := k
			g := &vGen{c: c, deep: 5, salt: uint64(1000 * k)}
			if k == 1 {
				g.deep = -1
			}
			mb := g.minor()
			rb := g.root()
			if g.bad {
				c.Stop()
			}
			mh, rh := mb.Hash(), rb.Hash()
			add := func(name, want string, read func() string) {
				recs = append(recs, rec{fmt.Sprintf("%s %d", name, k), want, read})
			}
			rawdb.WriteMinorBlock(db, mb)
			add("minor block", str(mb), func() string { return str(rawdb.ReadMinorBlock(db, mh)) })
			rawdb.WriteMinorBlockHeader(db, mb.Header())
			add("minor header", str(mb.Header()), func() string { return str(rawdb.ReadMinorBlockHeader(db, mh)) })
			add("minor number", fmt.Sprint(mb.NumberU64()), func() string { return fmt.Sprint(*rawdb.ReadHeaderNumber(db, mh)) })
			rawdb.WriteRootBlock(db, rb)
			add("root block", str(rb), func() string { return str(rawdb.ReadRootBlock(db, rh)) })
			rawdb.WriteRootBlockHeader(db, rb.Header())
			add("root header", str(rb.Header()), func() string { return str(rawdb.ReadRootBlockHeader(db, rh)) })
			hs := []*types.MinorBlockHeader(rb.MinorBlockHeaders())
			rawdb.WriteLatestMinorBlockHeaders(db, rh, hs)
			add("latest headers", str(hs), func() string { return str(rawdb.ReadLatestMinorBlockHeaders(db, rh)) })
			var rs types.Receipts
			var ws []*types.ReceiptForStorage
			for i := 0; i < 2; i++ {
				r := g.receipt()
				rs = append(rs, r)
				ws = append(ws, (*types.ReceiptForStorage)(r))
			}
			rawdb.WriteReceipts(db, mh, rs)
			add("receipts", str(ws), func() string {
				var got []*types.ReceiptForStorage
				for _, r := range rawdb.ReadReceipts(db, mh) {
					got = append(got, (*types.ReceiptForStorage)(r))
				}
				return str(got)
			})
			dl, cl := new(types.CrossShardTransactionDepositList), new(types.CrossShardTransactionDepositList)
			g.value(reflect.ValueOf(dl).Elem(), "")
			g.value(reflect.ValueOf(cl).Elem(), "")
			if g.bad {
				c.Stop()
			}
			rawdb.WriteCrossShardTxList(db, mh, dl)
			add("deposit list", str(dl), func() string { return str(rawdb.ReadCrossShardTxList(db, mh)) })
			rawdb.WriteConfirmedCrossShardTxList(db, mh, cl)
			add("confirmed deposit list", str(cl), func() string { return str(rawdb.ReadConfirmedCrossShardTxList(db, mh)) })
			gb := g.minor()
			if g.bad {
				c.Stop()
			}
			rawdb.WriteGenesisBlock(db, rh, gb)
			add("genesis", str(gb), func() string { return str(rawdb.ReadGenesis(db, rh)) })
			tb := g.tokens("coinbase")
			rawdb.WriteMinorBlockCoinbase(db, mh, tb)
			add("coinbase", str(tb), func() string { return str(rawdb.GetMinorBlockCoinbaseToken(db, mh)) })
			hl := &rawdb.HashList{}
			g.value(reflect.ValueOf(hl).Elem(), "")
			rawdb.PutXShardDepositHashList(db, mh, hl)
			add("deposit hashes", str(hl), func() string { return str(rawdb.GetXShardDepositHashList(db, mh)) })
			tot := uint32(g.uint("total", 32))
			rawdb.WriteTotalTx(db, mh, tot)
			add("total tx", fmt.Sprint(tot), func() string { return fmt.Sprint(*rawdb.ReadTotalTx(db, mh)) })
			lc := common.BytesToHash(g.bytes(32))
			rawdb.WriteLastConfirmedMinorBlockHeaderAtRootBlock(db, rh, lc)
			add("last confirmed", lc.Hex(), func() string { return rawdb.ReadLastConfirmedMinorBlockHeaderAtRootBlock(db, rh).Hex() })
			id := append(mh.Bytes(), 0, 0, 0, byte(2+k))
			rawdb.PutRootBlockConfirmingMinorBlock(db, id, rh)
			add("confirming root", rh.Hex(), func() string { return rawdb.GetRootBlockConfirmingMinorBlock(db, id).Hex() })
			cnt := g.bytes(g.byteLen("count"))
			rawdb.WriteMinorBlockCnt(db, uint32(2+k), 7, cnt)
			rawdb.WriteMinorBlockCnt(db, 2, uint32(8+k), append(cnt, 1))
			add("count", fmt.Sprintf("%x", cnt), func() string { return fmt.Sprintf("%x", rawdb.GetMinorBlockCnt(db, uint32(2+k), 7)) })
			add("count above", fmt.Sprintf("%x", append(cnt, 1)), func() string { return fmt.Sprintf("%x", rawdb.GetMinorBlockCnt(db, 2, uint32(8+k))) })
			ch, ch2 := common.BytesToHash(g.bytes(32)), common.BytesToHash(g.bytes(32))
			num := uint64(5+k) | uint64(5+k)<<40
			rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, ch, num)
			rawdb.WriteCanonicalHash(db, rawdb.ChainTypeRoot, ch2, num)
			add("canonical minor", ch.Hex(), func() string { return rawdb.ReadCanonicalHash(db, rawdb.ChainTypeMinor, num).Hex() })
			add("canonical root", ch2.Hex(), func() string { return rawdb.ReadCanonicalHash(db, rawdb.ChainTypeRoot, num).Hex() })
			has := []byte("yn")[g.dev(2, "committed"):][0]
			if has == 'y' {
				rawdb.WriteCommitMinorBlock(db, mh)
			}
			add("committed", fmt.Sprint(has == 'y'), func() string { return fmt.Sprint(rawdb.HasCommitMinorBlock(db, mh)) })
			if k == 0 {
				rawdb.WriteRootBlockCommittingHash(db, rh)
				rawdb.WriteHeadBlockHash(db, mh)
				rawdb.WriteHeadHeaderHash(db, ch)
				add("committing", rh.Hex(), func() string { return rawdb.ReadRbCommittingHash(db).Hex() })
				add("head block", mh.Hex(), func() string { return rawdb.ReadHeadBlockHash(db).Hex() })
				add("head header", ch.Hex(), func() string { return rawdb.ReadHeadHeaderHash(db).Hex() })
			}
			// lookup entries, with the hashes of arrived deposits behind those of the transactions
			rawdb.WriteBlockContentLookupEntriesWithCrossShardHashList(db, mb, hl)
			for i, tx := range mb.Transactions() {
				if i > 3 {
					break
				}
				i, th := i, tx.Hash()
				add(fmt.Sprintf("lookup %d", i), fmt.Sprintf("%x %d", mh, i), func() string {
					b, n := rawdb.ReadBlockContentLookupEntry(db, th)
					return fmt.Sprintf("%x %d", b, n)
				})
			}
			for i, dh := range hl.HList {
				if i > 3 || dh == (common.Hash{}) || (i > 0 && dh == hl.HList[0]) || dh[0] == 0xff {
					break
				}
				i, dh := i, dh
				add(fmt.Sprintf("deposit lookup %d", i), fmt.Sprintf("%x %d", mh, i+len(mb.Transactions())), func() string {
					b, n := rawdb.ReadBlockContentLookupEntry(db, dh)
					return fmt.Sprintf("%x %d", b, n)
				})
			}
		}
		for _, r := range recs {
			got := ""
			site, val := kit.Try(func() { got = r.read() })
			c.Check(site == "" && got == r.want, "C12 record "+strings.TrimRight(r.name, " 01"), "record %s: wrote %.300s, read %.300s (%v)", r.name, r.want, got, val)
			c.Step()
		}
		c.Outcome("read back")
	})
}

// ---------------------------------------------------------------------------------------------
// old deposit lists, and nesting of a message in a peer frame

func TestVerifC12Legacy(t *testing.T) {
	h := kit.New("C12", "legacy")
	defer h.Done()
	type listV0 struct {
		TXList []*types.CrossShardTransactionDepositV0 `bytesizeofslicelen:"4"`
	}
	h.Explore("deposit lists written before refund rates existed", kit.Opt{MaxDev: 2}, func(c *kit.Case) {
		g := &vGen{c: c, deep: 5}
		var l listV0
		g.value(reflect.ValueOf(&l).Elem(), "")
		if g.bad {
			c.Stop()
		}
		enc, err := serialize.SerializeToBytes(&l)
		c.Check(err == nil, "C12 legacy", "encoding failed: %v", err)
		var want []*types.CrossShardTransactionDeposit
		for _, d := range l.TXList {
			want = append(want, &types.CrossShardTransactionDeposit{CrossShardTransactionDepositV0: *d, RefundRate: 100})
		}
		got := new(types.CrossShardTransactionDepositList)
		site, val := kit.Try(func() { err = serialize.DeserializeFromBytes(enc, got) })
		c.Check(site == "" && err == nil && vDumpOf(got.TXList) == vDumpOf(want), "C12 legacy", "a list of %d deposits of the first version reads as %.400s (%v, %v)", len(want), vDumpOf(got.TXList), err, val)
		c.State(fmt.Sprintf("%x", crypto.Keccak256(enc)))
	})
	h.Explore("any peer command, request number, branch and body in an envelope", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		op := p2p.P2PCommandOp(c.Choose(int(p2p.MaxOPNum)+2, "op"))
		id := []uint64{0, 1, 1 << 40, ^uint64(0)}[c.Choose(4, "id")]
		br := []uint32{0, 2, 65538, ^uint32(0)}[c.Choose(4, "branch")]
		body := bytes.Repeat([]byte{0xa7}, []int{0, 1, 12, 13, 300}[c.Choose(5, "body")])
		enc, err := p2p.Encrypt(p2p.Metadata{Branch: br}, op, id, body)
		c.Check(err == nil, "C12 envelope", "encoding failed: %v", err)
		m, err := p2p.DecodeQKCMsg(enc)
		c.Check(err == nil && m.Op == op && m.RpcID == id && m.MetaData.Branch == br && bytes.Equal(m.Data, body), "C12 envelope",
			"op %d id %d branch %d with %d bytes reads as op %d id %d branch %d with %d bytes (%v)", op, id, br, len(body), m.Op, m.RpcID, m.MetaData.Branch, len(m.Data), err)
		for n := 0; n < 13; n++ {
			site, _ := kit.Try(func() { _, err = p2p.DecodeQKCMsg(enc[:n]) })
			c.Check(site == "" && err != nil, "C12 envelope", "an envelope of %d bytes is accepted (%s)", n, site)
		}
	})
}
