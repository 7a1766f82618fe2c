package sync

import (
	"errors"
	"fmt"
	"math/big"
	gosync "sync"
	"testing"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	kit "github.com/QuarkChain/goquarkchain/zzverif"
	"github.com/ethereum/go-ethereum/common"
)

// chains of headers

type c16Chain struct {
	root  bool
	heads []types.IHeader
	at    map[common.Hash]int
}

func c16Header(root bool, parent types.IHeader, number uint64, diff int64, salt byte) types.IHeader {
	var ph common.Hash
	td := big.NewInt(diff)
	if parent != nil {
		ph = parent.Hash()
		if root {
			td = new(big.Int).Add(parent.GetTotalDifficulty(), td)
		}
	}
	if root {
		return &types.RootBlockHeader{Number: uint32(number), ParentHash: ph, Difficulty: big.NewInt(diff), ToTalDifficulty: td,
			CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{salt}, Time: number}
	}
	return &types.MinorBlockHeader{Number: number, ParentHash: ph, Difficulty: big.NewInt(diff), Branch: account.Branch{Value: 2},
		CoinbaseAmount: types.NewEmptyTokenBalances(), Extra: []byte{salt}, Time: number}
}

// c16Fork: base's first f+1 headers and n more (numbers f+1 .. f+n); f < 0: another genesis.
func c16Fork(root bool, base *c16Chain, f, n int, diff int64, salt byte) *c16Chain {
	c := &c16Chain{root: root, at: map[common.Hash]int{}}
	var last types.IHeader
	if f >= 0 {
		if base == nil {
			c.heads = append(c.heads, c16Header(root, nil, 0, 1, 0))
		} else {
			c.heads = append(c.heads, base.heads[:f+1]...)
		}
		last = c.heads[len(c.heads)-1]
	} else {
		last = c16Header(root, nil, 0, 1, salt)
		c.heads = append(c.heads, last)
	}
	for i := 0; i < n; i++ {
		last = c16Header(root, last, last.NumberU64()+1, diff, salt)
		c.heads = append(c.heads, last)
	}
	for i, h := range c.heads {
		c.at[h.Hash()] = i
	}
	return c
}

func (c *c16Chain) tip() types.IHeader { return c.heads[len(c.heads)-1] }

func c16Block(h types.IHeader) types.IBlock {
	if r, ok := h.(*types.RootBlockHeader); ok {
		return types.NewRootBlockWithHeader(r)
	}
	return types.NewMinorBlockWithHeader(h.(*types.MinorBlockHeader), &types.MinorBlockMeta{})
}

// the node's own chain: a stand-in that takes linked blocks and follows the heaviest.
type c16Seals struct {
	core.Validator
	n *c16Node
}

type c16Node struct {
	base   *c16Chain
	more   map[common.Hash]types.IHeader
	head   types.IHeader
	badPow map[common.Hash]bool
	sealed map[common.Hash]bool
	added  []common.Hash
	synced map[common.Hash]int
	wrong  string
}

func (n *c16Node) has(h common.Hash) bool {
	_, a := n.base.at[h]
	_, b := n.more[h]
	return a || b
}
func (n *c16Node) HasBlock(h common.Hash) bool                                    { return n.has(h) }
func (n *c16Node) CurrentHeader() types.IHeader                                   { return n.head }
func (n *c16Node) Validator() core.Validator                                      { return c16Seals{n: n} }
func (n *c16Node) IsMinorBlockValidated(common.Hash) bool                         { return true }
func (n *c16Node) AddValidatedMinorBlockHeader(common.Hash, *types.TokenBalances) {}
func (v c16Seals) ValidateSeal(h types.IHeader, p bool) error {
	n := v.n
	if n.badPow[h.Hash()] {
		return errors.New("bad seal")
	}
	n.sealed[h.Hash()] = true
	return nil
}
func (n *c16Node) AddBlock(b types.IBlock) error {
	h := b.IHeader()
	if !n.has(h.GetParentHash()) && n.wrong == "" {
		n.wrong = fmt.Sprintf("block %d is added before its parent", h.NumberU64())
	}
	if !n.sealed[h.Hash()] && n.wrong == "" {
		n.wrong = fmt.Sprintf("block %d is added although its header was never asked for and checked", h.NumberU64())
	}
	if !n.has(h.GetParentHash()) {
		return errors.New("unknown parent")
	}
	n.added = append(n.added, h.Hash())
	if n.has(h.Hash()) {
		return nil
	}
	n.more[h.Hash()] = h
	better := h.NumberU64() > n.head.NumberU64()
	if n.base.root {
		better = h.GetTotalDifficulty().Cmp(n.head.GetTotalDifficulty()) > 0
	}
	if better {
		n.head = h
	}
	return nil
}

// the peer

const c16Requests = 60

type c16Peer struct {
	c        *c16Chain
	other    *c16Chain // a chain the peer lies with
	more     map[common.Hash]types.IHeader
	tip      types.IHeader
	headers  func(n int, l []types.IHeader, tip *types.RootBlockHeader) ([]types.IHeader, *types.RootBlockHeader, error)
	blocks   func(n int, l []types.IBlock) ([]types.IBlock, error)
	hreqs    int
	breqs    int
	requests int
	limit    int
	wrong    string
}

func (p *c16Peer) PeerID() string                   { return "p" }
func (p *c16Peer) RootHead() *types.RootBlockHeader { return p.tip.(*types.RootBlockHeader) }
func (p *c16Peer) count() {
	if p.requests++; p.requests > p.limit {
		panic("c16: asks without end")
	}
}
func (p *c16Peer) list(height *uint64, skip, limit uint64, dir uint8, max uint64) ([]types.IHeader, error) {
	p.count()
	if limit == 0 || limit > max || height == nil || dir != qcom.DirectionToTip {
		if p.wrong == "" {
			p.wrong = fmt.Sprintf("an honest peer refuses the request: limit %d height %v direction %d", limit, height, dir)
		}
		return nil, errors.New("bad request")
	}
	var l []types.IHeader
	for x := *height; uint64(len(l)) < limit && x <= p.tip.NumberU64(); x += skip + 1 {
		l = append(l, p.c.heads[x])
	}
	return l, nil
}

func (p *c16Peer) GetRootBlockHeaderList(r *p2p.GetRootBlockHeaderListWithSkipRequest) (*p2p.GetRootBlockHeaderListResponse, error) {
	var h *uint64
	if r.Type == qcom.SkipHeight && r.GetHeight() != nil {
		v := uint64(*r.GetHeight())
		h = &v
	}
	l, err := p.list(h, uint64(r.Skip), uint64(r.Limit), r.Direction, 2*RootBlockHeaderListLimit)
	tip := p.tip.(*types.RootBlockHeader)
	p.hreqs++
	if err == nil && p.headers != nil {
		l, tip, err = p.headers(p.hreqs-1, l, tip)
	}
	if err != nil {
		return nil, err
	}
	res := &p2p.GetRootBlockHeaderListResponse{RootTip: types.CopyRootBlockHeader(tip)}
	for _, x := range l {
		res.BlockHeaderList = append(res.BlockHeaderList, types.CopyRootBlockHeader(x.(*types.RootBlockHeader)))
	}
	return res, nil
}

func (p *c16Peer) GetMinorBlockHeaderList(r *rpc.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
	var h *uint64
	if r.Type == qcom.SkipHeight && r.GetHeight() != nil {
		v := uint64(*r.GetHeight())
		h = &v
	}
	if r.Branch.Value != 2 && p.wrong == "" {
		p.wrong = fmt.Sprintf("asks for branch %d", r.Branch.Value)
	}
	l, err := p.list(h, uint64(r.Skip), uint64(r.Limit), r.Direction, 2*MinorBlockHeaderListLimit)
	p.hreqs++
	if err == nil && p.headers != nil {
		l, _, err = p.headers(p.hreqs-1, l, nil)
	}
	if err != nil {
		return nil, err
	}
	var res []*types.MinorBlockHeader
	for _, x := range l {
		res = append(res, types.CopyMinorBlockHeader(x.(*types.MinorBlockHeader)))
	}
	return res, nil
}

func (p *c16Peer) get(hashes []common.Hash) ([]types.IBlock, error) {
	p.count()
	var l []types.IBlock
	for _, h := range hashes {
		if i, ok := p.c.at[h]; ok {
			l = append(l, c16Block(p.c.heads[i]))
		} else if i, ok := p.other.at[h]; ok {
			l = append(l, c16Block(p.other.heads[i]))
		} else if x, ok := p.more[h]; ok {
			l = append(l, c16Block(x))
		}
	}
	p.breqs++
	if p.blocks != nil {
		return p.blocks(p.breqs-1, l)
	}
	return l, nil
}

func (p *c16Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error) {
	l, err := p.get(hashes)
	if err != nil {
		return nil, err
	}
	var r []*types.RootBlock
	for _, b := range l {
		r = append(r, b.(*types.RootBlock))
	}
	return r, nil
}

func (p *c16Peer) GetMinorBlockList(hashes []common.Hash, branch uint32) ([]*types.MinorBlock, error) {
	l, err := p.get(hashes)
	if err != nil {
		return nil, err
	}
	var r []*types.MinorBlock
	for _, b := range l {
		r = append(r, b.(*types.MinorBlock))
	}
	return r, nil
}

type c16Conns struct{ rpc.ConnManager }

func (c16Conns) GetSlaveConnsById(uint32) []rpc.ISlaveConn { return nil }

func c16Task(p *c16Peer) Task {
	if p.c.root {
		return NewRootChainTask(p, p.tip.(*types.RootBlockHeader), &BlockSychronizerStats{}, make(chan *rpc.ShardStatus, 1000), c16Conns{})
	}
	return NewMinorChainTask(p, p.tip.(*types.MinorBlockHeader))
}

// c16Run: the task's result; ended is false when it asked without end.
func c16Run(c *kit.Case, n *c16Node, p *c16Peer) (err error, ended bool) {
	ended = true
	site, val := kit.Try(func() { err = c16Task(p).Run(n) })
	if val != nil {
		if fmt.Sprint(val) == "c16: asks without end" {
			return nil, false
		}
		c.Fail("panic "+site, "synchronising crashes the node: %v at %s", val, site)
	}
	c.Step()
	return err, ended
}

func c16NewNode(base *c16Chain) *c16Node {
	return &c16Node{base: base, more: map[common.Hash]types.IHeader{}, head: base.tip(), badPow: map[common.Hash]bool{}, sealed: map[common.Hash]bool{}, synced: map[common.Hash]int{}}
}

var c16Cache gosync.Map

func c16Get(root bool, l int) *c16Chain {
	k := fmt.Sprint(root, l)
	if c, ok := c16Cache.Load(k); ok {
		return c.(*c16Chain)
	}
	c := c16Fork(root, nil, 0, l, 2, 0)
	x, _ := c16Cache.LoadOrStore(k, c)
	return x.(*c16Chain)
}

func TestVerifC16(t *testing.T) {
	t.Run("honest", c16Honest)
	t.Run("lying", c16Lying)
	t.Run("schedule", c16Schedule)
	t.Run("minor", c16Minor)
}

func c16Honest(t *testing.T) {
	h := kit.New("C16", "honest")
	defer h.Done()
	lens := []int{0, 1, 2, 3, 4, 99, 100, 101, 201, 499, 500, 501, 1003}
	forks := []int{-1, 0, 1, 2, 3, 98, 99, 100, 101, 102, 200, 498, 499, 500, 501, 502, 1000, 1003}
	news := []int{0, 1, 2, 3, 4, 6, 7, 99, 100, 101, 102, 203, 499, 500, 501, 1002}
	if kit.Quick() {
		lens = []int{0, 1, 2, 4, 100, 101, 500, 501, 1003}
		forks = []int{-1, 0, 1, 3, 99, 100, 101, 499, 500, 501, 1002, 1003}
		news = []int{0, 1, 2, 4, 6, 100, 101, 203, 501, 1002}
	}
	h.Bound("own chain lengths", lens)
	h.Bound("last common blocks", forks)
	h.Bound("peer's own blocks", news)
	h.Explore("honest peer", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		root := c.Bool("root chain")
		l := lens[c.Choose(len(lens), "length")]
		f := forks[c.Choose(len(forks), "fork")]
		if f > l {
			c.Stop()
		}
		k := news[c.Choose(len(news), "more")]
		diff := int64(2)
		if root {
			diff = []int64{1, 2, 5}[c.Choose(3, "difficulty")]
		}
		base := c16Get(root, l)
		pc := c16Fork(root, base, f, k, diff, 1)
		n := c16NewNode(base)
		p := &c16Peer{c: pc, other: base, tip: pc.tip(), limit: 4000}
		c.Logf("root %v: own chain %d, common up to %d, peer has %d more of difficulty %d", root, l, f, k, diff)
		err, ended := c16Run(c, n, p)
		c.Check(ended, "endless", "synchronising does not end")
		c.Check(n.wrong == "", "order", "%s", n.wrong)
		c.Check(p.wrong == "" || f < 0, "request", "%s", p.wrong)
		better := pc.tip().NumberU64() > base.tip().NumberU64()
		if root {
			better = pc.tip().GetTotalDifficulty().Cmp(base.tip().GetTotalDifficulty()) > 0
		}
		switch {
		case !better:
			c.Check(p.requests == 0 && len(n.added) == 0 && err == nil, "worse", "a peer with no better chain: %d requests, %d blocks added, %v", p.requests, len(n.added), err)
		case f < 0:
			c.Check(len(n.added) == 0 && err != nil, "stranger", "a peer with another genesis: %d blocks added, %v", len(n.added), err)
		default:
			c.Check(err == nil, "fails", "synchronising with an honest peer fails: %v", err)
			c.Check(n.head.Hash() == pc.tip().Hash(), "not adopted", "the head is %d, the peer's is %d", n.head.NumberU64(), pc.tip().NumberU64())
			ok := len(n.added) == k
			for i := 0; ok && i < k; i++ {
				ok = n.added[i] == pc.heads[f+1+i].Hash()
			}
			c.Check(ok, "blocks", "%d blocks added, the peer has %d the node lacks", len(n.added), k)
			c.Check(p.requests <= 8+k/3+k/100+4, "wasteful", "%d requests for %d blocks", p.requests, k)
		}
		c.Outcome("better %v err %v", better, err != nil)
	})
	// long own chains: the search for the common block is cut off
	h.Explore("old forks", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		root := c.Bool("root chain")
		stale := 22500
		if !root {
			if kit.Quick() {
				c.Stop()
			}
			stale = 22500 * 6
		}
		l := stale + 10
		base := c16Get(root, l)
		f := []int{-1, 0, 5, 9, 10, 11, 12, stale, l}[c.Choose(9, "fork")]
		k := []int{1, 5, stale + 8}[c.Choose(3, "more")]
		diff := int64(2)
		if root && k < 10 {
			diff = int64(stale) * 3
		} else if !root && f+k <= l {
			c.Stop()
		}
		pc := c16Fork(root, base, f, k, diff, 1)
		n := c16NewNode(base)
		p := &c16Peer{c: pc, other: base, tip: pc.tip(), limit: 30000}
		c.Logf("root %v: own chain %d, common up to %d, peer has %d more", root, l, f, k)
		err, ended := c16Run(c, n, p)
		c.Check(ended, "endless", "synchronising does not end")
		c.Check(n.wrong == "", "order", "%s", n.wrong)
		better := !root || pc.tip().GetTotalDifficulty().Cmp(base.tip().GetTotalDifficulty()) > 0
		switch {
		case !better || f < l-stale:
			c.Check(len(n.added) == 0 && n.head == base.tip(), "stale", "%d blocks added from a fork that is too old", len(n.added))
		case f == l && better || f > l-stale:
			c.Check(err == nil && n.head.Hash() == pc.tip().Hash(), "not adopted", "%v; the head is %d, the peer's is %d", err, n.head.NumberU64(), pc.tip().NumberU64())
		}
	})
}

func c16Lying(t *testing.T) {
	h := kit.New("C16", "lying")
	defer h.Done()
	const l = 4
	maxDev := kit.Tier(2, 3)
	h.Bound("wrong answers per synchronisation", maxDev)
	h.Explore("lying peer", kit.Opt{MaxDev: maxDev}, func(c *kit.Case) {
		root := c.Bool("root chain")
		f := []int{-1, 0, 2, 4}[c.Choose(4, "fork")]
		k := []int{1, 5, 7}[c.Choose(3, "more")]
		base := c16Get(root, l)
		diff := int64(3)
		if root && c.Bool("light") {
			diff = 1
		}
		pc := c16Fork(root, base, f, k, diff, 1)
		other := c16Fork(root, base, 1, 9, 1, 2)
		strange := c16Fork(root, base, -1, 9, 1, 3)
		n := c16NewNode(base)
		p := &c16Peer{c: pc, other: other, tip: pc.tip(), more: map[common.Hash]types.IHeader{}, limit: c16Requests}
		if root && c.Dev(2, "boasts") == 1 { // announces more than it has
			x := types.CopyRootBlockHeader(p.tip.(*types.RootBlockHeader))
			x.ToTalDifficulty = big.NewInt(1000000)
			p.tip = x
			c.Logf("announces a tip of difficulty %d", x.ToTalDifficulty)
		}
		announced := p.tip
		lied, sticky, stickyB := false, -1, -1
		mangle := func(how int, ls []types.IHeader, tip *types.RootBlockHeader) ([]types.IHeader, *types.RootBlockHeader, error) {
			ls = append([]types.IHeader(nil), ls...)
			from := func(o *c16Chain) {
				for i, x := range ls {
					if int(x.NumberU64()) < len(o.heads) {
						ls[i] = o.heads[x.NumberU64()]
					}
				}
			}
			switch how {
			case 1:
				return nil, nil, errors.New("peer fails")
			case 2:
				ls = nil
			case 3:
				if len(ls) > 0 {
					ls = ls[:len(ls)-1]
				}
			case 4:
				if len(ls) > 0 {
					ls = ls[1:]
				}
			case 5:
				for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
					ls[i], ls[j] = ls[j], ls[i]
				}
			case 6:
				for i := range ls {
					ls[i] = ls[0]
				}
			case 7, 8: // one header altered: its successors no longer link
				if len(ls) > 0 {
					i := len(ls) / 2
					x := c16Header(root, nil, ls[i].NumberU64(), 3, 9)
					if how == 8 {
						i = len(ls) - 1
						var ph types.IHeader
						if j := int(ls[i].NumberU64()) - 1; j >= 0 {
							ph = pc.heads[j]
						}
						x = c16Header(root, ph, ls[i].NumberU64(), 3, 9)
						n.badPow[x.Hash()] = true
					}
					p.more[x.Hash()] = x
					ls[i] = x
				}
			case 9:
				ls = append(ls, pc.tip())
			case 10:
				from(other)
			case 11:
				from(strange)
			case 12:
				from(base)
			case 13:
				for i, x := range ls {
					if x.NumberU64() > 0 {
						ls[i] = pc.heads[x.NumberU64()-1]
					}
				}
			case 14: // tip of lower difficulty
				if root {
					t := types.CopyRootBlockHeader(tip)
					t.ToTalDifficulty = big.NewInt(4)
					tip = t
				}
			case 15: // tip of a greater number
				if root {
					t := types.CopyRootBlockHeader(tip)
					t.Number += 3
					t.ToTalDifficulty = new(big.Int).Add(t.ToTalDifficulty, big.NewInt(9))
					tip = t
				}
			case 16: // tip of number 0
				if root {
					t := types.CopyRootBlockHeader(tip)
					t.Number = 0
					t.ToTalDifficulty = new(big.Int).Add(t.ToTalDifficulty, big.NewInt(9))
					tip = t
				}
			case 17:
				if root {
					t := types.CopyRootBlockHeader(tip)
					t.Number = 1<<32 - 1
					t.ToTalDifficulty = new(big.Int).Add(t.ToTalDifficulty, big.NewInt(9))
					tip = t
				}
			}
			return ls, tip, nil
		}
		p.headers = func(i int, ls []types.IHeader, tip *types.RootBlockHeader) ([]types.IHeader, *types.RootBlockHeader, error) {
			how := sticky
			if how < 0 {
				how = c.Dev(35, "headers")
				if how > 17 {
					how -= 17
					sticky = how
				}
				if how > 0 {
					c.Logf("header answer %d is wrong in way %d (always: %v)", i, how, sticky >= 0)
					lied = true
				}
			}
			return mangle(how, ls, tip)
		}
		p.blocks = func(i int, ls []types.IBlock) ([]types.IBlock, error) {
			how := stickyB
			if how < 0 {
				how = c.Dev(21, "blocks")
				if how > 10 {
					how -= 10
					stickyB = how
				}
				if how > 0 {
					c.Logf("block answer %d is wrong in way %d (always: %v)", i, how, stickyB >= 0)
					lied = true
				}
			}
			switch how {
			case 1:
				return nil, errors.New("peer fails")
			case 2:
				ls = nil
			case 3:
				if len(ls) > 0 {
					ls = ls[1:]
				}
			case 4:
				for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
					ls[i], ls[j] = ls[j], ls[i]
				}
			case 5:
				for i := range ls {
					ls[i] = ls[0]
				}
			case 6, 7, 8, 9: // a block the node has, the block before the first, another fork's, a stranger's
				for i := range ls {
					var x types.IHeader
					num := int(ls[i].NumberU64())
					switch how {
					case 6:
						x = base.heads[0]
					case 7:
						if num == 0 {
							continue
						}
						x = pc.heads[(num-1)%len(pc.heads)]
					case 8:
						x = other.heads[num%len(other.heads)]
					case 9:
						x = strange.heads[num%len(strange.heads)]
					}
					ls[i] = c16Block(x)
				}
			case 10:
				ls = append(ls, c16Block(pc.tip()))
			}
			return ls, nil
		}
		c.Logf("root %v: common up to %d, peer has %d more of difficulty %d", root, f, k, diff)
		err, ended := c16Run(c, n, p)
		c.Check(ended, "endless", "synchronising does not end: the peer was asked %d times", p.requests)
		c.Check(n.wrong == "", "order", "%s", n.wrong)
		better := announced.NumberU64() > base.tip().NumberU64()
		if root {
			better = announced.GetTotalDifficulty().Cmp(base.tip().GetTotalDifficulty()) > 0
		}
		if !better {
			c.Check(p.requests == 0 && len(n.added) == 0, "worse", "a peer with no better chain: %d requests, %d blocks added", p.requests, len(n.added))
		} else if !lied && f >= 0 {
			c.Check(err == nil && n.has(pc.tip().Hash()), "fails", "synchronising fails: %v", err)
		} else if root && sticky == 14 && len(p.more) == 0 && p.hreqs == 1 {
			c.Check(len(n.added) == 0 && err != nil, "lower", "a peer whose tip is below what it announced: %d blocks added, %v", len(n.added), err)
		}
		if f < 0 && sticky != 10 && !lied {
			c.Check(len(n.added) == 0, "stranger", "%d blocks added from a peer with another genesis", len(n.added))
		}
		c.Outcome("err %v added %d", err != nil, len(n.added))
	})
}

// the queue of synchronisation tasks

type c16Job struct {
	id    int
	peer  string
	prio  int64
	start chan *c16Job
	gate  chan int
}

func (j *c16Job) SetSendFunc(func(value interface{}) int) {}
func (j *c16Job) Priority() *big.Int                      { return big.NewInt(j.prio) }
func (j *c16Job) PeerID() string                          { return j.peer }
func (j *c16Job) Run(blockchain) error {
	j.start <- j
	if <-j.gate == 1 {
		return errors.New("fails")
	}
	return nil
}

func c16Schedule(t *testing.T) {
	h := kit.New("C16", "schedule")
	defer h.Done()
	depth := kit.Tier(5, 7)
	h.Bound("queue operations", depth)
	h.Explore("queue", kit.Opt{MaxDev: -1}, func(c *kit.Case) {
		s := NewSynchronizer(c16NewNode(c16Get(true, 0)))
		start := make(chan *c16Job)
		var running *c16Job
		waiting := map[string]*c16Job{}
		id := 0
		finish := func(fails int) {
			c.Logf("task %d ends (fails %d)", running.id, fails)
			running.gate <- fails
			running = nil
			if len(waiting) == 0 {
				return
			}
			running = <-start
			w := waiting[running.peer]
			c.Check(w == running, "task", "task %d runs, it is not waiting", running.id)
			for _, o := range waiting {
				c.Check(o.prio <= running.prio, "priority", "task %d of priority %d runs before task %d of priority %d", running.id, running.prio, o.id, o.prio)
			}
			delete(waiting, running.peer)
		}
		for i := 0; i < depth; i++ {
			n := 6
			if running != nil {
				n = 8
			}
			op := c.Choose(n, "op")
			if op >= 6 {
				finish(op - 6)
				c.Step()
				continue
			}
			j := &c16Job{id: id, peer: []string{"a", "b", "c"}[op/2], prio: int64(op%2)*2 + int64(op/2), start: start, gate: make(chan int)}
			id++
			c.Logf("task %d of peer %s, priority %d", j.id, j.peer, j.prio)
			if err := s.AddTask(j); err != nil {
				c.Fail("refused", "%v", err)
			}
			if running == nil {
				running = <-start
				c.Check(running == j, "task", "task %d runs instead of %d", running.id, j.id)
			} else {
				waiting[j.peer] = j
			}
			c.Check(s.IsSyncing(), "syncing", "a task is running but the node says it is not synchronising")
			c.Step()
		}
		for running != nil {
			finish(0)
		}
		s.Close()
		c.Outcome("%d", id)
	})
}

// root blocks' minor blocks come first

type c16Slave struct {
	rpc.ISlaveConn
	branch uint32
	w      *c16MinorWorld
}

type c16MinorWorld struct {
	rpc.ConnManager
	mu      gosync.Mutex
	missing uint32
	fails   map[string]bool // branch, first hash
	got     map[string]int
	wrong   string
}

func c16Key(branch uint32, hashes []common.Hash) string { return fmt.Sprintf("%d %x", branch, hashes) }

func (w *c16MinorWorld) GetSlaveConnsById(id uint32) []rpc.ISlaveConn {
	if id == w.missing {
		return nil
	}
	return []rpc.ISlaveConn{c16Slave{branch: id, w: w}}
}
func (w *c16MinorWorld) GetOneSlaveConnById(id uint32) rpc.ISlaveConn {
	if l := w.GetSlaveConnsById(id); len(l) > 0 {
		return l[0]
	}
	return nil
}

func (s c16Slave) AddBlockListForSync(r *rpc.AddBlockListForSyncRequest) (*rpc.ShardStatus, error) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	k := c16Key(r.Branch, r.MinorBlockHashList)
	if r.Branch != s.branch || r.PeerId != "p" {
		s.w.wrong = fmt.Sprintf("shard %d is asked about shard %d of peer %s", s.branch, r.Branch, r.PeerId)
	}
	if s.w.fails[k] {
		return nil, errors.New("shard fails")
	}
	s.w.got[k]++
	return &rpc.ShardStatus{Branch: account.Branch{Value: s.branch}}, nil
}

type c16MinorNode struct {
	*c16Node
	w      *c16MinorWorld
	blocks map[common.Hash]*types.RootBlock
}

func c16ByShard(b *types.RootBlock) map[uint32][]common.Hash {
	m := map[uint32][]common.Hash{}
	for _, h := range b.MinorBlockHeaders() {
		m[h.Branch.Value] = append(m[h.Branch.Value], h.Hash())
	}
	return m
}

func (n *c16MinorNode) AddBlock(b types.IBlock) error {
	for id, l := range c16ByShard(n.blocks[b.Hash()]) {
		n.w.mu.Lock()
		if n.w.got[c16Key(id, l)] != 1 && n.wrong == "" {
			n.wrong = fmt.Sprintf("root block %d is added, shard %d has its %d blocks %d times", b.NumberU64(), id, len(l), n.w.got[c16Key(id, l)])
		}
		n.w.mu.Unlock()
	}
	return n.c16Node.AddBlock(b)
}

type c16MinorPeer struct {
	*c16Peer
	blocks map[common.Hash]*types.RootBlock
}

func (p *c16MinorPeer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error) {
	var r []*types.RootBlock
	for _, h := range hashes {
		r = append(r, p.blocks[h])
	}
	return r, nil
}

func c16Minor(t *testing.T) {
	h := kit.New("C16", "minor")
	defer h.Done()
	lists := [][]uint32{{}, {2}, {2, 2, 3}, {3, 2, 3, 2}, {2, 3, 5}}
	h.Explore("minor blocks first", kit.Opt{MaxDev: kit.Tier(2, 3)}, func(c *kit.Case) {
		base := c16Get(true, 0)
		w := &c16MinorWorld{fails: map[string]bool{}, got: map[string]int{}}
		blocks := map[common.Hash]*types.RootBlock{}
		pc := &c16Chain{root: true, at: map[common.Hash]int{base.tip().Hash(): 0}, heads: base.heads[:1:1]}
		var order []*types.RootBlock
		num, failAt := uint64(0), -1
		k := 1 + c.Choose(kit.Tier(3, 4), "blocks")
		if c.Dev(2, "no connection") == 1 {
			w.missing = 3
		}
		for i := 0; i < k; i++ {
			var hs []*types.MinorBlockHeader
			for _, id := range lists[c.Choose(len(lists), "list")] {
				num++
				hs = append(hs, &types.MinorBlockHeader{Number: num, Branch: account.Branch{Value: id}, Difficulty: big.NewInt(1), CoinbaseAmount: types.NewEmptyTokenBalances()})
			}
			b := types.NewRootBlock(c16Header(true, pc.tip(), uint64(i+1), 2, 1).(*types.RootBlockHeader), hs, nil)
			blocks[b.Hash()] = b
			order = append(order, b)
			pc.heads = append(pc.heads, b.Header())
			pc.at[b.Hash()] = i + 1
			by := c16ByShard(b)
			for _, id := range []uint32{2, 3, 5} {
				if l := by[id]; len(l) > 0 && (id == w.missing || c.Dev(2, "shard fails") == 1) {
					w.fails[c16Key(id, l)] = true
					if failAt < 0 {
						failAt = i
					}
				}
			}
			c.Logf("block %d: %v", i+1, by)
		}
		c.Logf("first failing block %d, missing %d", failAt+1, w.missing)
		n := &c16MinorNode{c16Node: c16NewNode(base), w: w, blocks: blocks}
		p := &c16MinorPeer{c16Peer: &c16Peer{c: pc, other: base, tip: pc.tip(), limit: 100}, blocks: blocks}
		stats := make(chan *rpc.ShardStatus, 1000)
		err := NewRootChainTask(p, pc.tip().(*types.RootBlockHeader), &BlockSychronizerStats{}, stats, w).Run(n)
		c.Step()
		c.Check(n.wrong == "" && w.wrong == "", "order", "%s %s", n.wrong, w.wrong)
		want := k
		if failAt >= 0 {
			want = failAt
		}
		c.Check((err == nil) == (failAt < 0), "verdict", "ends with %v", err)
		c.Check(len(n.added) == want, "added", "%d root blocks are added, should be %d", len(n.added), want)
		sent := 0
		for _, b := range order[:want] {
			sent += len(c16ByShard(b))
		}
		c.Check(len(stats) >= sent, "status", "%d shard states are passed on of %d", len(stats), sent)
		c.Outcome("%v", err == nil)
	})
}
