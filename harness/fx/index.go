package fx

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairdatasociety/fairOS-dfs/pkg/account"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/utils"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wdist "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	"github.com/weaviate/weaviate/entities/schema"
)

// IndexEnv is the storage an hnsw index lives in: a fairOS key-value store over
// an in-memory Bee.
type IndexEnv struct {
	Bee  *Bee
	Pod  string
	fd   *feed.API
	acc  *account.Account
	user utils.Address
	KV   *collection.KeyValue
	pass string

	Log  string         // root of a commit log, "" for none
	Dist wdist.Provider // nil: cosine

	// Slow, when set, runs before every operation on the commit log, in the
	// places where an index reports what it is about to change.
	Slow func(op string)
}

// slowLog is a commit log that takes its time.
type slowLog struct {
	hnsw.CommitLogger
	slow func(op string)
}

func (l *slowLog) SetEntryPointWithMaxLayer(id uint64, level int) error {
	l.slow("entrypoint")
	return l.CommitLogger.SetEntryPointWithMaxLayer(id, level)
}

func (l *slowLog) AddLinkAtLevel(id uint64, level int, target uint64) error {
	l.slow("link")
	return l.CommitLogger.AddLinkAtLevel(id, level, target)
}

func (l *slowLog) ReplaceLinksAtLevel(id uint64, level int, targets []uint64) error {
	l.slow("links")
	return l.CommitLogger.ReplaceLinksAtLevel(id, level, targets)
}

// NewIndexEnv opens (creating it when needed) the table named class.
func NewIndexEnv(bee *Bee, acc *account.Account) (*IndexEnv, error) {
	l := logging.New(io.Discard, logrus.ErrorLevel)
	if acc == nil {
		acc = account.New(l)
		if _, _, err := acc.CreateUserAccount(""); err != nil {
			return nil, err
		}
	}
	e := &IndexEnv{Bee: bee, Pod: "pod1", acc: acc, pass: "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"}
	e.fd = feed.New(acc.GetUserAccountInfo(), bee, 10000, time.Hour, l)
	e.user = acc.GetAddress(account.UserAccountIndex)
	e.KV = collection.NewKeyValueStore(e.Pod, e.fd, acc.GetUserAccountInfo(), e.user, bee, l)
	return e, nil
}

// Open creates the table when absent, opens it.
func (e *IndexEnv) Open(class string) error {
	err := e.KV.CreateKVTable(class, e.pass, collection.StringIndex)
	if err != nil && err != collection.ErrKvTableAlreadyPresent {
		return err
	}
	return e.KV.OpenKVTable(class, e.pass)
}

// Commit writes the pooled feeds, as CommitPodFeeds does.
func (e *IndexEnv) Commit() { e.fd.CommitFeeds() }

// Reopen is a new process over the same store (or a given copy of it).
func (e *IndexEnv) Reopen(bee *Bee) (*IndexEnv, error) {
	if bee == nil {
		bee = e.Bee
	}
	n, err := NewIndexEnv(bee, e.acc)
	if err == nil {
		n.Log, n.Dist, n.Slow = e.Log, e.Dist, e.Slow
	}
	return n, err
}

// Index is what the harness uses of an hnsw index.
type Index interface {
	hnsw.VectorIndex
	Entrypoint() uint64
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
	ValidateBeforeInsert(vector []float32) error
	Drop(ctx context.Context) error
	UpdateUserConfig(updated schema.VectorIndexConfig, callback func()) error
}

// NewIndex builds an index as pkg/document does.
func (e *IndexEnv) NewIndex(class string, uc hnsw.UserConfig) (Index, error) {
	if uc.MaxConnections == 0 {
		uc.MaxConnections, uc.EFConstruction = 30, 60
	}
	mkLog := hnsw.MakeNoopCommitLogger
	if e.Log != "" {
		mkLog = func() (hnsw.CommitLogger, error) {
			l := logrus.New()
			l.SetOutput(io.Discard)
			return hnsw.NewCommitLogger(e.Log, "ix", l)
		}
	}
	var dist wdist.Provider = distancer.NewCosineDistanceProvider()
	if e.Dist != nil {
		dist = e.Dist
	}
	if e.Slow != nil {
		mk := mkLog
		mkLog = func() (hnsw.CommitLogger, error) {
			l, err := mk()
			if err != nil {
				return nil, err
			}
			return &slowLog{l, e.Slow}, nil
		}
	}
	return hnsw.New(hnsw.Config{
		RootPath:              "not-used",
		ID:                    "not-used",
		MakeCommitLoggerThunk: mkLog,
		DistanceProvider:      dist,
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) {
			return nil, fmt.Errorf("document not found")
		},
		ClassName: class,
	}, uc, e.KV)
}

// FullConfig is a complete configuration of an index.
func FullConfig(class string) hnsw.Config {
	return hnsw.Config{
		RootPath: "r", ID: "i", MakeCommitLoggerThunk: hnsw.MakeNoopCommitLogger,
		DistanceProvider: distancer.NewCosineDistanceProvider(),
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) { return nil, fmt.Errorf("document not found") },
		ClassName:        class,
	}
}
