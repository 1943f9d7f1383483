// Package xnode is a stand-in for the node's REST interface: a RoundTripper that serves a given chain and can be told
// to misbehave or to hold answers back.
package xnode

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/zz_verif/btc"
)

// Fault is a way for one answer to go wrong.
type Fault int

const (
	None              Fault = iota
	Refused                 // no connection
	Status503               // the node is not ready
	Status404               // the node does not know it
	Reset                   // the connection breaks half-way through the body
	Short                   // the body ends half-way although the length said otherwise
	Garbage                 // not what was asked for
	CloseError              // the body is complete but closing it fails
	ResetAtOnce             // the connection breaks before the first byte of the body
	LateReset               // the connection breaks just before the last byte
	Status500WithBody       // an error status with the right body
	CutShort                // the body ends after Node.Cut bytes although the length said otherwise
	CutSilently             // the body ends after Node.Cut bytes and nothing else tells
	BadField                // another block's JSON with one field of the wrong type (binary: refused)
	NumFaults
)

func (f Fault) String() string {
	return [...]string{"none", "refused", "503", "404", "reset", "short", "garbage", "close error", "reset at once", "late reset", "500 with body", "cut short", "cut silently", "bad field"}[f]
}

// Request is one request the node saw.
type Request struct {
	Kind   string // headers or block
	Height int    // of the block (or first header) asked for; -1: unknown
	Seq    int    // how many of the kind were asked for before
	Nth    int    // how often that had been asked for before
	Count  int    // headers asked for
	Json   bool
}

type Node struct {
	Headers [][]byte // the chain's headers
	Hashes  []btc.Hash
	Bin     [][]byte // the blocks (may be shorter than the chain)
	Json    [][]byte
	Answer  func(Request) Fault // may be nil
	Gate    func(Request)       // called before answering; may block

	Cut int // for CutShort and CutSilently

	mu    sync.Mutex
	index map[btc.Hash]int
	asked map[string]int
	Log   []Request
	Open  atomic.Int64 // bodies not yet closed
}

// New is a node knowing the blocks; more headers follow them if next > 0.
func New(blocks []*btc.Block, next int) *Node {
	n := &Node{index: map[btc.Hash]int{}, asked: map[string]int{}}
	var times []uint32
	for i, b := range blocks {
		times = append(times, b.Time)
		n.Bin = append(n.Bin, b.Binary())
		n.Json = append(n.Json, b.JSON(i, b.Time))
		n.add(b)
	}
	last := blocks[len(blocks)-1]
	for i := 0; i < next; i++ {
		b := &btc.Block{Version: uint32(i), Prev: last.Hash(), Merkle: btc.Tagged("header", i), Time: last.Time + 600, NBits: 0x1d00ffff, Nonce: uint32(i) * 7}
		n.add(b)
		last = b
	}
	return n
}

func (n *Node) add(b *btc.Block) {
	h := b.Hash()
	n.index[h] = len(n.Headers)
	n.Headers = append(n.Headers, b.Header())
	n.Hashes = append(n.Hashes, h)
}

// Use makes the repository's client talk to the node.
func (n *Node) Use() { corereader2.TheOneAndOnlyClient = &http.Client{Transport: n} }

// Reset forgets what was asked.
func (n *Node) Reset() { n.asked, n.Log = map[string]int{}, nil }

var errRefused = errors.New("connect: connection refused")

type body struct {
	io.Reader
	end      error
	closeErr error
	n        *Node
	closed   bool
}

func (b *body) Read(p []byte) (int, error) {
	k, err := b.Reader.Read(p)
	if err == io.EOF && b.end != nil {
		err = b.end
	}
	return k, err
}

func (b *body) Close() error {
	if !b.closed {
		b.closed = true
		b.n.Open.Add(-1)
	}
	return b.closeErr
}

func (n *Node) RoundTrip(req *http.Request) (*http.Response, error) {
	r := Request{Height: -1}
	parts := strings.Split(strings.TrimPrefix(req.URL.Path, "/rest/"), "/")
	last := parts[len(parts)-1]
	dot := strings.IndexByte(last, '.')
	if req.Method != "GET" || !strings.HasPrefix(req.URL.Path, "/rest/") || dot < 0 {
		return nil, fmt.Errorf("the node was asked %s %s", req.Method, req.URL)
	}
	r.Kind, r.Json = parts[0], last[dot:] == ".json"
	if r.Kind == "headers" {
		r.Count = 5
		if len(parts) == 3 {
			r.Count, _ = strconv.Atoi(parts[1])
		} else if q := req.URL.Query().Get("count"); q != "" {
			r.Count, _ = strconv.Atoi(q)
		}
		r.Count = min(r.Count, 2000)
	}
	raw, err := hex.DecodeString(last[:dot])
	if err == nil && len(raw) == 32 {
		var h btc.Hash
		for i := range raw {
			h[31-i] = raw[i]
		}
		if i, ok := n.index[h]; ok {
			r.Height = i
		}
	}
	n.mu.Lock()
	key := fmt.Sprint(r.Kind, r.Height)
	r.Nth = n.asked[key]
	n.asked[key]++
	for _, l := range n.Log {
		if l.Kind == r.Kind {
			r.Seq++
		}
	}
	n.Log = append(n.Log, r)
	n.mu.Unlock()
	if n.Gate != nil {
		n.Gate(r)
	}
	var data []byte
	status := 200
	switch {
	case r.Height < 0:
		status = 404
	case r.Kind == "headers":
		for i := r.Height; i < len(n.Headers) && i < r.Height+r.Count; i++ {
			data = append(data, n.Headers[i]...)
		}
	case r.Kind == "block" && r.Height < len(n.Bin):
		data = n.Bin[r.Height]
		if r.Json {
			data = n.Json[r.Height]
		}
	default:
		status = 404
	}
	if status == 404 {
		data = []byte("not found\r\n")
	}
	length := int64(len(data))
	f := None
	if n.Answer != nil {
		f = n.Answer(r)
	}
	b := &body{n: n}
	switch f {
	case Refused:
		return nil, errRefused
	case Status503:
		status, data = 503, fmt.Appendf(nil, "%-80s", "Service temporarily unavailable: Loading block index...") // as long as a header
	case Status404:
		status, data = 404, []byte(`{"error":"not found"}`)
	case Status500WithBody:
		status = 500
	case Reset:
		data, b.end = data[:len(data)/2], errors.New("read: connection reset by peer")
	case ResetAtOnce:
		data, b.end = nil, errors.New("read: connection reset by peer")
	case LateReset:
		data, b.end = data[:len(data)-1], errors.New("read: connection reset by peer")
	case Short:
		data, b.end = data[:len(data)/2], io.ErrUnexpectedEOF
	case CutShort, CutSilently:
		data = data[:min(n.Cut, len(data)-1)]
		if f == CutShort {
			b.end = io.ErrUnexpectedEOF
		}
	case BadField:
		if !r.Json {
			return nil, errRefused
		}
		other := n.Json[(r.Height+1)%len(n.Json)]
		data = append(append([]byte(nil), other[:len(other)-2]...), `,"nonce":"lots"}`...)
	case Garbage:
		data = []byte("<html>proxy error</html>")
	case CloseError:
		b.closeErr = errors.New("close: broken pipe")
	}
	b.Reader = bytes.NewReader(data)
	n.Open.Add(1)
	return &http.Response{Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: b, ContentLength: length, Request: req}, nil
}
