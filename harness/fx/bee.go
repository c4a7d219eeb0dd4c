// Package fx holds the fixtures the monitors share: an in-memory Swarm node
// with fault, delay and crash-point injection, a scriptable vectorizer, the
// complete FaVe stack on top of them, and the evidence writer.
package fx

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethersphere/bee/pkg/cac"
	"github.com/ethersphere/bee/pkg/soc"
	"github.com/ethersphere/bee/pkg/swarm"
	"golang.org/x/crypto/sha3"
)

// OpKind names a storage operation, for fault and delay injection.
type OpKind int

const (
	OpSOC OpKind = iota
	OpChunk
	OpBlob
	OpReadChunk
	OpReadBlob
)

var errDownload = errors.New("error downloading data") // the text fairOS recognises as "not found"

// ErrInjected is what an injected fault reports.
var ErrInjected = errors.New("injected storage fault")

type rec struct {
	key  string
	data []byte
	del  bool
}

// Bee is an in-memory blockstore.Client. Every mutation is journalled, so a
// copy holding any prefix of the write history (a crash point) can be made.
type Bee struct {
	mu      sync.RWMutex
	data    map[string][]byte
	journal []rec
	noLog   bool

	// Hook, when set, runs before every operation; a non-nil error is
	// returned to the caller instead of performing it.
	hook atomic.Value // func(OpKind) error

	Reads, Writes int64
}

func NewBee() *Bee { return &Bee{data: map[string][]byte{}} }

// NewBeeNoJournal does not keep the journal (for large workloads).
func NewBeeNoJournal() *Bee { return &Bee{data: map[string][]byte{}, noLog: true} }

type hookBox struct{ f func(OpKind) error }

func (b *Bee) SetHook(f func(OpKind) error) { b.hook.Store(hookBox{f}) }

func (b *Bee) pre(k OpKind) error {
	if h, ok := b.hook.Load().(hookBox); ok && h.f != nil {
		return h.f(k)
	}
	return nil
}

// Len is the number of writes performed so far.
func (b *Bee) Len() int { b.mu.RLock(); defer b.mu.RUnlock(); return len(b.journal) }

// Prefix returns an independent store holding the first n writes.
func (b *Bee) Prefix(n int) *Bee {
	b.mu.RLock()
	defer b.mu.RUnlock()
	out := NewBee()
	for _, r := range b.journal[:n] {
		out.journal = append(out.journal, r)
		if r.del {
			delete(out.data, r.key)
		} else {
			out.data[r.key] = r.data
		}
	}
	return out
}

// Clone is a copy of the store as it is now.
func (b *Bee) Clone() *Bee {
	if b.noLog {
		b.mu.RLock()
		defer b.mu.RUnlock()
		out := NewBeeNoJournal()
		for k, v := range b.data {
			out.data[k] = v
		}
		return out
	}
	return b.Prefix(b.Len())
}

func (b *Bee) put(key string, data []byte) {
	b.mu.Lock()
	cp := append([]byte(nil), data...)
	b.data[key] = cp
	if !b.noLog {
		b.journal = append(b.journal, rec{key: key, data: cp})
	}
	b.mu.Unlock()
	atomic.AddInt64(&b.Writes, 1)
}

func (b *Bee) get(key string) ([]byte, bool) {
	b.mu.RLock()
	d, ok := b.data[key]
	b.mu.RUnlock()
	atomic.AddInt64(&b.Reads, 1)
	if !ok {
		return nil, false
	}
	return append([]byte(nil), d...), true
}

func (*Bee) CheckConnection() bool { return true }

func (b *Bee) UploadSOC(owner, id, signature string, data []byte) ([]byte, error) {
	if err := b.pre(OpSOC); err != nil {
		return nil, err
	}
	o, err := hex.DecodeString(owner)
	if err != nil {
		return nil, err
	}
	i, err := hex.DecodeString(id)
	if err != nil {
		return nil, err
	}
	s, err := hex.DecodeString(signature)
	if err != nil {
		return nil, err
	}
	ch, err := cac.NewWithDataSpan(data)
	if err != nil {
		return nil, err
	}
	so, err := soc.NewSigned(i, ch, o, s)
	if err != nil {
		return nil, err
	}
	sch, err := so.Chunk()
	if err != nil {
		return nil, err
	}
	key := "c" + sch.Address().ByteString()
	if _, ok := b.get(key); ok {
		return nil, errors.New("chunk already exists")
	}
	b.put(key, sch.Data())
	return sch.Address().Bytes(), nil
}

func (b *Bee) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	if err := b.pre(OpChunk); err != nil {
		return nil, err
	}
	b.put("c"+ch.Address().ByteString(), ch.Data())
	return ch.Address().Bytes(), nil
}

var blobSeq int64

func (b *Bee) UploadBlob(data []byte, _ uint32, encrypt bool) ([]byte, error) {
	if err := b.pre(OpBlob); err != nil {
		return nil, err
	}
	h := sha3.NewLegacyKeccak256()
	_, _ = h.Write(data)
	if encrypt { // encrypted references are unique and 64 bytes long
		n := atomic.AddInt64(&blobSeq, 1)
		_, _ = h.Write([]byte(fmt.Sprint(n)))
	}
	ref := h.Sum(nil)
	if encrypt {
		ref = append(ref, ref...)
	}
	b.put("b"+string(ref), data)
	return ref, nil
}

func (b *Bee) UploadBzz(data []byte, _ string) ([]byte, error) { return b.UploadBlob(data, 0, false) }

func (b *Bee) DownloadChunk(_ context.Context, address []byte) ([]byte, error) {
	if err := b.pre(OpReadChunk); err != nil {
		return nil, err
	}
	d, ok := b.get("c" + string(address))
	if !ok {
		return nil, errDownload
	}
	return d, nil
}

func (b *Bee) DownloadBlob(address []byte) ([]byte, int, error) {
	if err := b.pre(OpReadBlob); err != nil {
		return nil, 500, err
	}
	d, ok := b.get("b" + string(address))
	if !ok {
		return nil, 404, errDownload
	}
	return d, 200, nil
}

func (b *Bee) DownloadBzz(address []byte) ([]byte, int, error) { return b.DownloadBlob(address) }

func (b *Bee) DeleteReference(address []byte) error {
	// Unpinning: bee keeps serving a chunk it still holds, so nothing changes.
	_ = address
	return nil
}

func (*Bee) CreateTag([]byte) (uint32, error)           { return 1, nil }
func (*Bee) GetTag(uint32) (int64, int64, int64, error) { return 0, 0, 0, nil }

// Sleep is a tiny injected delay.
func Sleep(us int) { time.Sleep(time.Duration(us) * time.Microsecond) }

// Kinds is a letter per write: s for a feed update, b for data.
func (b *Bee) Kinds(from, to int) string {
	b.mu.RLock()
	defer b.mu.RUnlock()
	out := make([]byte, 0, to-from)
	for _, r := range b.journal[from:to] {
		out = append(out, r.key[0])
	}
	return string(out)
}
