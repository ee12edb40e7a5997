// Package c34 checks the client of a node's JSON-RPC interface.
package c34

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"

	"github.com/keyfuse/tokucore/xrpc"
	zz "github.com/keyfuse/tokucore/zzverif"
)

var broken = errors.New("broken")

// node answers requests.
type node struct {
	answer  []byte
	step    int
	status  int
	err     error // instead of an answer
	end     error // at the end of the answer
	method  string
	params  []any
	n       int
	opened  int
	closed  int
	limited bool
	auth    bool
	post    bool
	path    string
}

func (s *node) RoundTrip(r *http.Request) (*http.Response, error) {
	s.n++
	_, s.limited = r.Context().Deadline()
	u, p, ok := r.BasicAuth()
	s.auth = ok && u == "user" && p == "secret"
	s.post = r.Method == "POST"
	s.path = r.URL.Scheme + "://" + r.URL.Host + r.URL.Path
	b, err := io.ReadAll(r.Body)
	r.Body.Close()
	var q struct {
		Method string `json:"method"`
		Params []any  `json:"params"`
	}
	if err != nil || json.Unmarshal(b, &q) != nil {
		return nil, broken
	}
	s.method, s.params = q.Method, q.Params
	if s.err != nil {
		return nil, s.err
	}
	s.opened++
	return &http.Response{StatusCode: s.status, Header: http.Header{}, Body: &body{s: s, b: s.answer}, Request: r}, nil
}

type body struct {
	s *node
	b []byte
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		return 0, b.s.end
	}
	n := b.s.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(b.b) {
		n = len(b.b)
	}
	copy(p, b.b[:n])
	b.b = b.b[n:]
	return n, nil
}
func (b *body) Close() error { b.s.closed++; return nil }

func newNode(result string) *node {
	s := &node{answer: []byte(`{"result":` + result + `,"error":null,"id":0}`), step: 1 << 20, status: 200, end: io.EOF}
	http.DefaultTransport = s
	return s
}

// asked checks the request.
func (s *node) asked(method string, params ...any) {
	zz.Assert(s.n == 1, "one request is sent")
	zz.Assert(s.post && s.path == "http://node:8332/", "to the node")
	zz.Assert(s.auth, "as the user")
	zz.Assert(s.limited, "for a limited time")
	zz.Assert(s.method == method, "for the method")
	zz.Assert(len(s.params) == len(params), "with its parameters")
	for i := range params {
		switch p := params[i].(type) {
		case int:
			f, ok := s.params[i].(float64)
			zz.Assert(ok && f == float64(p), "with its number")
		case string:
			g, ok := s.params[i].(string)
			zz.Assert(ok && zz.EqStr(g, p), "with its text")
		}
	}
	zz.Assert(s.closed >= s.opened, "the answer is closed")
}

func client() *xrpc.Client { return xrpc.NewClient("node:8332", "user", "secret") }

// text is some text without characters that have a meaning in JSON.
func text(name string, n int) string {
	b := zz.Bytes(name, n)
	for _, c := range b {
		zz.Assume(zz.Or(zz.And(c >= '0', c <= '9'), zz.And(c >= 'a', c <= 'z')))
	}
	return string(b)
}

// digits is a number of n digits, as text and as value.
func digits(name string, n int) (string, uint64) {
	b := zz.Bytes(name, n)
	v := uint64(0)
	for i, c := range b {
		zz.Assume(zz.And(c >= '0', c <= '9'))
		if i == 0 && n > 1 {
			zz.Assume(c != '0')
		}
		v = v*10 + uint64(c-'0')
	}
	return string(b), v
}

// ZZ_Count: the number of blocks is the one the node gives.
func ZZ_Count() {
	zz.Bound("every number of 1-18 digits, positive or negative, in pieces of 7 bytes or at once")
	d, v := digits("number", zz.Choose("digits", 1, 18))
	want := int64(v)
	if zz.Choose("sign", 0, 1) == 1 {
		d, want = "-"+d, -want
	}
	s := newNode(d)
	s.step = []int{7, 1 << 20}[zz.Choose("pieces", 0, 1)]
	n, err := client().GetBlockCount()
	s.asked("getblockcount")
	zz.Assert(err == nil && int64(n) == want, "the number of blocks is the one given")
	zz.Reach("count")
}

// ZZ_Hash: the hash of the block at a height is the one the node gives for this height.
func ZZ_Hash() {
	zz.Bound("eight heights, hashes of 0, 1 or 64 characters")
	h := []int{0, 1, 9, 10, 255, 65536, 7000000, 1<<31 - 1}[zz.Choose("height", 0, 7)]
	t := text("hash", []int{0, 1, 64}[zz.Choose("length", 0, 2)])
	s := newNode(`"` + t + `"`)
	g, err := client().GetBlockHash(h)
	s.asked("getblockhash", h)
	zz.Assert(err == nil && zz.EqStr(g, t), "the hash is the one given")
	zz.Reach("hash")
}

// ZZ_Header: every field of a header is the one the node gives.
func ZZ_Header() {
	zz.Bound("every field with any content: texts of 4 characters (hashes 64 in one case), numbers of 1 or 13 digits")
	n := []int{1, 13}[zz.Choose("digits", 0, 1)]
	q := text("question", 4)
	hash, prev, next, root := text("hash", 64), text("previous", 64), text("next", 64), text("root", 4)
	hex, bits, work := text("version", 4), text("bits", 4), text("work", 4)
	conf, vconf := digits("confirmations", n)
	height, vheight := digits("height", n)
	version, vversion := digits("version", n)
	tm, vtm := digits("time", n)
	med, vmed := digits("mediantime", n)
	nonce, vnonce := digits("nonce", n)
	doc := `{"hash":"` + hash + `","confirmations":` + conf + `,"height":` + height + `,"version":` + version + `,"versionHex":"` + hex +
		`","merkleroot":"` + root + `","time":` + tm + `,"mediantime":` + med + `,"nonce":` + nonce + `,"bits":"` + bits +
		`","difficulty":12.5,"chainwork":"` + work + `","nTx":3`
	ends := zz.Choose("ends", 0, 2)
	if ends != 1 {
		doc += `,"previousblockhash":"` + prev + `"`
	}
	if ends != 2 {
		doc += `,"nextblockhash":"` + next + `"`
	}
	s := newNode(doc + "}")
	r, err := client().GetBlockHeader(q)
	s.asked("getblockheader", q)
	zz.Assert(err == nil && r != nil, "a header is given")
	zz.Assert(zz.EqStr(r.Hash, hash), "with its hash")
	zz.Assert(zz.EqStr(r.MerkleRoot, root), "with its Merkle root")
	zz.Assert(zz.EqStr(r.VersionHex, hex), "with its version in hexadecimal")
	zz.Assert(zz.EqStr(r.Bits, bits), "with its bits")
	zz.Assert(zz.EqStr(r.ChainWork, work), "with its work")
	zz.Assert(r.Confirmations == int64(vconf), "with its confirmations")
	zz.Assert(r.Height == int64(vheight), "with its height")
	zz.Assert(r.Version == int64(vversion), "with its version")
	zz.Assert(r.Time == vtm, "with its time")
	zz.Assert(r.MedianTime == int64(vmed), "with its median time")
	zz.Assert(r.Nonce == int64(vnonce), "with its nonce")
	zz.Assert(r.Difficulty == 12.5, "with its difficulty")
	if ends == 1 {
		prev = ""
	}
	if ends == 2 {
		next = ""
	}
	zz.Assert(zz.EqStr(string(r.PreviousBlockHash), prev), "with the hash of the block before")
	zz.Assert(zz.EqStr(string(r.NextBlockHash), next), "with the hash of the block after")
	zz.Reach("header")
}

// ZZ_Block: every field of a block and of its transactions is the one the node gives.
func ZZ_Block() {
	zz.Bound("blocks of 0-2 transactions with one input and 1-2 outputs each; texts of 2 characters, numbers of 1 digit or of 10 digits (13 for times and confirmations), the last seven being arbitrary")
	n := zz.Choose("digits", 1, 2)
	q := text("question", 4)
	doc := "{"
	var checks []func(r *xrpc.BlockResult)
	first := true
	add := func(key, val string) {
		if !first {
			doc += ","
		}
		first = false
		doc += `"` + key + `":` + val
	}
	str := func(key string, f func(r *xrpc.BlockResult) string) {
		t := text(key, 2)
		add(key, `"`+t+`"`)
		checks = append(checks, func(r *xrpc.BlockResult) { zz.Assert(zz.EqStr(f(r), t), key) })
	}
	num := func(key string, bits int, f func(r *xrpc.BlockResult) uint64) {
		t, v := digits(key, 1)
		if n > 1 {
			// of the largest size
			head := map[int]uint64{31: 213, 32: 428, 40: 998765}[bits]
			t, v = digits(key, 7)
			t, v = []string{"213", "428", "998765"}[map[int]int{31: 0, 32: 1, 40: 2}[bits]]+t, head*10000000+v
		}
		add(key, t)
		checks = append(checks, func(r *xrpc.BlockResult) { zz.Assert(f(r) == v, key) })
	}
	str("hash", func(r *xrpc.BlockResult) string { return r.Hash })
	num("confirmations", 40, func(r *xrpc.BlockResult) uint64 { return r.Confirmations })
	num("strippedsize", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.StrippedSize) })
	num("size", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Size) })
	num("weight", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Weight) })
	num("height", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Height) })
	num("version", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Version) })
	str("versionHex", func(r *xrpc.BlockResult) string { return r.VersionHex })
	str("merkleroot", func(r *xrpc.BlockResult) string { return r.MerkleRoot })
	num("nTx", 32, func(r *xrpc.BlockResult) uint64 { return uint64(r.NTx) })
	num("time", 40, func(r *xrpc.BlockResult) uint64 { return uint64(r.Time) })
	num("nonce", 32, func(r *xrpc.BlockResult) uint64 { return uint64(r.Nonce) })
	str("bits", func(r *xrpc.BlockResult) string { return r.Bits })
	add("difficulty", "1.5")
	str("chainwork", func(r *xrpc.BlockResult) string { return r.ChainWork })
	str("previousblockhash", func(r *xrpc.BlockResult) string { return r.PreviousHash })
	if zz.Choose("last", 0, 1) == 1 {
		str("nextblockhash", func(r *xrpc.BlockResult) string { return r.NextHash })
	} else {
		checks = append(checks, func(r *xrpc.BlockResult) { zz.Assert(r.NextHash == "", "nextblockhash") })
	}
	txs := zz.Choose("transactions", 0, 2)
	outs := 0
	if txs > 0 {
		outs = zz.Choose("outputs", 1, 2)
	}
	add("tx", "[")
	for i := 0; i < txs; i++ {
		i := i
		if i > 0 {
			doc += ","
		}
		doc += "{"
		first = true
		str("hex", func(r *xrpc.BlockResult) string { return r.Tx[i].Hex })
		str("txid", func(r *xrpc.BlockResult) string { return r.Tx[i].Txid })
		num("version", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Version) })
		num("size", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Size) })
		num("vsize", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Vsize) })
		num("weight", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Weight) })
		num("locktime", 32, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].LockTime) })
		add("vin", "[{")
		first = true
		if i == 0 {
			str("coinbase", func(r *xrpc.BlockResult) string { return r.Tx[0].Vin[0].Coinbase })
		} else {
			str("txid", func(r *xrpc.BlockResult) string { return r.Tx[i].Vin[0].Txid })
			num("vout", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Vin[0].Vout) })
			add("scriptSig", "{")
			first = true
			str("asm", func(r *xrpc.BlockResult) string { return r.Tx[i].Vin[0].ScriptSig.Asm })
			str("hex", func(r *xrpc.BlockResult) string { return r.Tx[i].Vin[0].ScriptSig.Hex })
			doc += "}"
		}
		num("sequence", 32, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Vin[0].Sequence) })
		doc += "}]"
		add("vout", "[")
		for j := 0; j < outs; j++ {
			j := j
			if j > 0 {
				doc += ","
			}
			doc += "{"
			first = true
			add("value", "0.25")
			num("n", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Vout[j].N) })
			add("scriptPubKey", "{")
			first = true
			str("asm", func(r *xrpc.BlockResult) string { return r.Tx[i].Vout[j].ScriptPubKey.Asm })
			str("hex", func(r *xrpc.BlockResult) string { return r.Tx[i].Vout[j].ScriptPubKey.Hex })
			num("reqSigs", 31, func(r *xrpc.BlockResult) uint64 { return uint64(r.Tx[i].Vout[j].ScriptPubKey.ReqSigs) })
			str("type", func(r *xrpc.BlockResult) string { return r.Tx[i].Vout[j].ScriptPubKey.Type })
			a := text("address", 2)
			add("addresses", `["`+a+`","x"]`)
			checks = append(checks, func(r *xrpc.BlockResult) {
				l := r.Tx[i].Vout[j].ScriptPubKey.Addresses
				zz.Assert(len(l) == 2 && zz.EqStr(l[0], a) && l[1] == "x", "addresses")
				zz.Assert(r.Tx[i].Vout[j].Value == 0.25, "value")
			})
			doc += "}}"
		}
		doc += "]}"
		first = false
	}
	doc += "]}"
	s := newNode(doc)
	r, err := client().GetBlock(q)
	zz.Assert(s.method == "getblock" && len(s.params) == 2, "the method is asked for")
	g, ok := s.params[0].(string)
	zz.Assert(ok && zz.EqStr(g, q), "with the hash")
	v, ok := s.params[1].(float64)
	zz.Assert(ok && v >= 2, "with all the transactions")
	zz.Assert(err == nil && r != nil, "a block is given")
	zz.Assert(len(r.Tx) == txs, "every transaction")
	for i := range r.Tx {
		zz.Assert(len(r.Tx[i].Vin) == 1 && len(r.Tx[i].Vout) == outs, "every input and output")
	}
	zz.Assert(r.Difficulty == 1.5, "difficulty")
	for _, f := range checks {
		f(r)
	}
	zz.Assert(s.closed >= s.opened && s.limited && s.auth && s.post, "in one authorised request of limited time")
	zz.Reach("block")
}

// ask makes one of the four requests, and tells its error and whether there is a result.
func ask(k int) (err error, some bool) {
	c := client()
	switch k {
	case 0:
		n, e := c.GetBlockCount()
		return e, n != 0
	case 1:
		h, e := c.GetBlockHash(5)
		return e, h != ""
	case 2:
		r, e := c.GetBlockHeader("aa")
		return e, r != nil
	}
	r, e := c.GetBlock("aa")
	return e, r != nil
}

// ZZ_Fault: without a result of the node there is an error and no result, never a panic.
func ZZ_Fault() {
	zz.Bound("four requests; no connection, an answer cut anywhere by the end or an error, answers with an error, without a result, with a result of another type or a number too large, or that are no JSON; three statuses")
	k := zz.Choose("request", 0, 3)
	good := []string{"12", `"ab"`, `{"hash":"ab"}`, `{"hash":"ab","tx":[]}`}
	s := newNode(good[k])
	s.step = []int{3, 1 << 20}[zz.Choose("pieces", 0, 1)]
	switch zz.Choose("fault", 0, 5) {
	case 0:
		s.err = broken
	case 1:
		s.answer = s.answer[:zz.Choose("cut", 0, len(s.answer)-1)]
		if zz.Choose("end", 0, 1) == 1 {
			s.end = broken
		}
	case 2:
		code, _ := digits("code", 2)
		msg := text("message", 3)
		res := []string{"null", good[k]}[zz.Choose("result", 0, 1)]
		s.answer = []byte(`{"result":` + res + `,"error":{"code":-` + code + `,"message":"` + msg + `"},"id":0}`)
		s.status = []int{200, 404, 500}[zz.Choose("status", 0, 2)]
	case 3:
		s.answer = []byte([]string{`{"result":null,"error":null,"id":0}`, `{"error":null,"id":0}`, `{}`, `null`, ` {"id":1} `}[zz.Choose("empty", 0, 4)])
		s.status = []int{200, 500}[zz.Choose("status", 0, 1)]
	case 4:
		t := []string{"true", "[1]", `"x"`, "1", `{"hash":1}`, "99999999999999999999", "1.5"}[zz.Choose("type", 0, 6)]
		zz.Assume(!(t == `"x"` && k == 1) && !(t == "1" && k == 0))
		s.answer = []byte(`{"result":` + t + `,"error":null,"id":0}`)
	case 5:
		s.answer = []byte([]string{"oops", "", "<html>", "[]", "1", `"x"`}[zz.Choose("text", 0, 5)])
		s.status = []int{200, 405}[zz.Choose("status", 0, 1)]
	}
	err, some := ask(k)
	zz.Assert(err != nil, "without a result there is an error")
	zz.Assert(!some, "and no result")
	zz.Assert(s.closed >= s.opened, "the answer is closed")
	zz.Reach("fault")
}
