package fx

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethersphere/bee/pkg/cac"
	"github.com/ethersphere/bee/pkg/swarm"
	"github.com/fairdatasociety/fairOS-dfs/pkg/contracts/ens"
	publicresolver "github.com/fairdatasociety/fairOS-dfs/pkg/contracts/public-resolver"
	ensmock "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	goens "github.com/wealdtech/go-ens/v3"
)

// BeeServer is a Bee as another process sees it: the HTTP API over the
// in-memory store. It notes the postage batch of every upload.
type BeeServer struct {
	*httptest.Server
	bee    *Bee
	mu     sync.Mutex
	stamps map[string]int
}

func NewBeeServer(b *Bee) *BeeServer {
	s := &BeeServer{bee: b, stamps: map[string]int{}}
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(s.serve))
	s.Server.Config.ErrorLog = quietLog
	s.Server.Config.SetKeepAlivesEnabled(false) // as for the Vectorizer
	s.Server.Start()
	return s
}

// Stamps is the uploads by postage batch, since the last call.
func (s *BeeServer) Stamps() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.stamps
	s.stamps = map[string]int{}
	return o
}

func (s *BeeServer) serve(w http.ResponseWriter, r *http.Request) {
	fail := func(code int, msg string) {
		w.WriteHeader(code)
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"code": code, "message": msg})
	}
	ok := func(code int, ref []byte) {
		w.WriteHeader(code)
		_ = json.NewEncoder(w).Encode(map[string]string{"reference": hex.EncodeToString(ref)})
	}
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return
	}
	if r.Method == http.MethodPost {
		s.mu.Lock()
		s.stamps[r.Header.Get("Swarm-Postage-Batch-Id")]++
		s.mu.Unlock()
	}
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	switch {
	case r.URL.Path == "/" || r.URL.Path == "":
		_, _ = io.WriteString(w, "Ethereum Swarm Bee\n")
	case parts[0] == "soc" && len(parts) == 3 && r.Method == http.MethodPost:
		ref, err := s.bee.UploadSOC(parts[1], parts[2], r.URL.Query().Get("sig"), body)
		if err != nil {
			fail(http.StatusConflict, err.Error())
			return
		}
		ok(http.StatusCreated, ref)
	case parts[0] == "chunks" && r.Method == http.MethodPost:
		ch, err := cac.NewWithDataSpan(body)
		var ref []byte
		if err == nil {
			ref, err = s.bee.UploadChunk(ch)
		}
		if err != nil {
			fail(http.StatusInternalServerError, err.Error())
			return
		}
		ok(http.StatusOK, ref)
	case parts[0] == "chunks" && len(parts) == 2:
		a, err := swarm.ParseHexAddress(parts[1])
		var d []byte
		if err == nil {
			d, err = s.bee.DownloadChunk(r.Context(), a.Bytes())
		}
		if err != nil {
			fail(http.StatusNotFound, err.Error())
			return
		}
		_, _ = w.Write(d)
	case parts[0] == "bytes" && r.Method == http.MethodPost:
		ref, err := s.bee.UploadBlob(body, 0, r.Header.Get("Swarm-Encrypt") == "true")
		if err != nil {
			fail(http.StatusInternalServerError, err.Error())
			return
		}
		ok(http.StatusCreated, ref)
	case parts[0] == "bytes" && len(parts) == 2 && r.Method == http.MethodGet:
		a, err := hex.DecodeString(parts[1])
		var d []byte
		if err == nil {
			d, _, err = s.bee.DownloadBlob(a)
		}
		if err != nil {
			fail(http.StatusNotFound, err.Error())
			return
		}
		_, _ = w.Write(d)
	case parts[0] == "tags" && r.Method == http.MethodPost:
		w.WriteHeader(http.StatusCreated)
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"uid": 1, "startedAt": time.Now()})
	case parts[0] == "tags":
		_ = json.NewEncoder(w).Encode(map[string]interface{}{"uid": 1, "total": 0, "processed": 0, "synced": 0})
	case parts[0] == "pins":
		_, _ = io.WriteString(w, "{}")
	default:
		fail(http.StatusNotFound, "no such endpoint")
	}
}

// NewEthServer is an Ethereum node that knows the names registered in the mock
// name service, on the given chain.
func NewEthServer(m *ensmock.NamespaceManager, chain int64, domain string, names ...string) (*httptest.Server, error) {
	reg, err := abi.JSON(strings.NewReader(ens.ENSRegistryMetaData.ABI))
	if err != nil {
		return nil, err
	}
	res, err := abi.JSON(strings.NewReader(publicresolver.PublicResolverMetaData.ABI))
	if err != nil {
		return nil, err
	}
	nodes := map[[32]byte]string{}
	for _, n := range names {
		h, err := goens.NameHash(n + "." + domain)
		if err != nil {
			return nil, err
		}
		nodes[h] = n
	}
	owner, getAll := reg.Methods["owner"], res.Methods["getAll"]
	call := func(data []byte) ([]byte, error) {
		if len(data) < 36 {
			return nil, fmt.Errorf("short call")
		}
		var node [32]byte
		copy(node[:], data[4:])
		name := nodes[node]
		switch string(data[:4]) {
		case string(owner.ID):
			if name == "" {
				return owner.Outputs.Pack(common.Address{})
			}
			a, err := m.GetOwner(name)
			if err != nil {
				return nil, err
			}
			return owner.Outputs.Pack(a)
		case string(getAll.ID):
			if name == "" {
				return nil, fmt.Errorf("no such name")
			}
			a, err := m.GetOwner(name)
			if err != nil {
				return nil, err
			}
			pub, _, err := m.GetInfo(name)
			if err != nil {
				return nil, err
			}
			var args []interface{}
			var x, y [32]byte
			pub.X.FillBytes(x[:])
			pub.Y.FillBytes(y[:])
			for _, o := range getAll.Outputs {
				switch {
				case o.Type.String() == "address":
					args = append(args, a)
				case o.Name == "x":
					args = append(args, x)
				case o.Name == "y":
					args = append(args, y)
				case o.Type.String() == "bytes32":
					args = append(args, [32]byte{})
				case o.Type.String() == "bytes":
					args = append(args, []byte{})
				default:
					args = append(args, "")
				}
			}
			return getAll.Outputs.Pack(args...)
		}
		return nil, fmt.Errorf("no such method")
	}
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			ID     json.RawMessage
			Method string
			Params []json.RawMessage
		}
		if json.NewDecoder(r.Body).Decode(&q) != nil {
			w.WriteHeader(400)
			return
		}
		out := map[string]interface{}{"jsonrpc": "2.0", "id": q.ID}
		switch q.Method {
		case "eth_chainId", "net_version":
			out["result"] = fmt.Sprintf("0x%x", chain)
		case "eth_call":
			var p struct{ Data, Input string }
			_ = json.Unmarshal(q.Params[0], &p)
			if p.Data == "" {
				p.Data = p.Input
			}
			b, err := hex.DecodeString(strings.TrimPrefix(p.Data, "0x"))
			if err == nil {
				b, err = call(b)
			}
			if err != nil {
				out["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
			} else {
				out["result"] = "0x" + hex.EncodeToString(b)
			}
		case "eth_getCode":
			out["result"] = "0x00"
		default:
			out["error"] = map[string]interface{}{"code": -32601, "message": "no such method " + q.Method}
		}
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(out)
	})), nil
}

// Proc is a running fave-server.
type Proc struct {
	URL  string // "" when it did not start
	cmd  *exec.Cmd
	done chan struct{}
	err  error
	mu   sync.Mutex
	log  []string
	dead atomic.Bool
}

// StartProc starts the server with the given environment and arguments, and
// returns when it serves or has ended.
func StartProc(bin string, env []string, args ...string) (*Proc, error) {
	p := &Proc{cmd: exec.Command(bin, args...), done: make(chan struct{})}
	p.cmd.Env = env
	p.cmd.Dir = os.TempDir()
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.Stdout, p.cmd.Stderr = pw, pw
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	_ = pw.Close()
	url := make(chan string, 8)
	rd := make(chan struct{})
	go func() {
		sc := bufio.NewScanner(pr)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			l := sc.Text()
			p.mu.Lock()
			if p.log = append(p.log, l); len(p.log) > 300 {
				p.log = p.log[100:]
			}
			p.mu.Unlock()
			if i := strings.Index(l, " at http://"); i >= 0 && strings.Contains(l, "Serving") {
				select {
				case url <- strings.TrimSpace(l[i+4:]):
				default:
				}
			}
		}
		_ = pr.Close()
		close(rd)
	}()
	go func() {
		<-rd
		p.err = p.cmd.Wait()
		p.dead.Store(true)
		close(p.done)
	}()
	select {
	case p.URL = <-url:
	case <-p.done:
	case <-time.After(5 * time.Minute): // hangs
		p.Kill()
		return p, fmt.Errorf("neither serves nor ends")
	}
	return p, nil
}

func (p *Proc) Dead() bool { return p.dead.Load() }

// Log is the end of what it wrote.
func (p *Proc) Log() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	return strings.Join(l, "\n")
}

// Kill ends it at once.
func (p *Proc) Kill() { _ = p.cmd.Process.Kill(); <-p.done }

// Term asks it to end, and returns its exit status, or -1 when it does not end.
func (p *Proc) Term() int {
	_ = p.cmd.Process.Signal(syscall.SIGTERM)
	return p.Wait()
}

// Wait is its exit status once it has ended.
func (p *Proc) Wait() int {
	select {
	case <-p.done:
	case <-time.After(3 * time.Minute):
		p.Kill()
		return -1
	}
	return p.cmd.ProcessState.ExitCode()
}
