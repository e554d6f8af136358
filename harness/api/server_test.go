// Package api checks the HTTP API of a real server that runs in a child process.
package api

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/Vivino/rankdb/api"
	"github.com/Vivino/rankdb/log"
	"github.com/Vivino/rankdb/log/loggoa"
	goalogrus "github.com/goadesign/goa/logging/logrus"
	shutdown "github.com/klauspost/shutdown2"
	"github.com/sirupsen/logrus"

	"verif/h"
)

func TestMain(mm *testing.M) {
	if os.Getenv("VERIF_SERVE") != "" {
		serve(os.Getenv("VERIF_SERVE"))
		return
	}
	h.Main(mm)
}

// serve is the child: it does what cmd/rankdb does, and ends when its parent does.
func serve(confPath string) {
	go func() {
		_, _ = io.Copy(ioutil.Discard, os.Stdin)
		os.Exit(9)
	}()
	conf, err := ioutil.ReadFile(confPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-SERVE:", err)
		os.Exit(8)
	}
	pid := os.Getpid()
	addr := fmt.Sprintf("127.%d.%d.%d:7711", 1+(pid>>16)&0x3f, (pid>>8)&255, pid&255)
	conf = bytes.Replace(conf, []byte("@ADDR@"), []byte(addr), 1)
	lr := logrus.New()
	lr.Formatter = &logrus.TextFormatter{DisableColors: true}
	lr.Out = os.Stderr
	logger := goalogrus.New(lr)
	ctx := log.WithLogger(context.Background(), loggoa.Wrap(logger))
	if err := api.StartServer(ctx, bytes.NewReader(conf), lr); err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-SERVE: start:", err)
		fmt.Println("FAILED", err)
		os.Exit(7)
	}
	shutdown.OnSignal(0, syscall.SIGTERM)
	shutdown.Logger = lr.WithField("service", "shutdown")
	fmt.Println("ADDR", addr)
	api.StartServices(logger, ctx, nil)
	// Serve returns when the listener is closed; the process ends by the signal handler.
	select {}
}

// Conf is one server configuration.
type Conf struct {
	Name                  string
	Storage               string
	Lazy                  bool
	LazyTime              string
	Cache                 int
	CacheType             string
	MaxUpdates            int
	Retry                 bool
	JwtDir                string
	SaveEvery, PruneEvery string
	BackupEvery           int
	FlushAt, Limit        int
	S3                    bool
	Prep                  func(dir string) error // called before the server starts
}

func (cf Conf) toml(dir string) string {
	if cf.SaveEvery == "" {
		cf.SaveEvery = "1h"
	}
	if cf.PruneEvery == "" {
		cf.PruneEvery = "1h"
	}
	if cf.LazyTime == "" {
		cf.LazyTime = "50ms"
	}
	if cf.Limit == 0 {
		cf.Limit, cf.FlushAt = 100, 90
	}
	bs := ""
	if cf.BackupEvery > 0 {
		bs = "Master"
	}
	s3 := ""
	if cf.S3 {
		s3 = fmt.Sprintf("[AWS]\nEnabled = true\nRegion = \"us-east-1\"\nS3Endpoint = \"http://%s\"\nAccessKey = \"verif\"\nSecretKey = \"verif\"\n", getS3().addr)
	}
	return fmt.Sprintf(`
ListenAddress = "@ADDR@"
MasterSet = "rankdb"
Storage = %q
CacheEntries = %d
CacheType = %q
SaveEvery = %q
PruneEvery = %q
ShutdownStageWait = "5m"
ShutdownRequestWait = "1m"
JwtKeyPath = %q
Debug = false
ColourLogs = false
TimestampLogs = true
LogInfo = false
ReadTimeout = "5m"
ReadHeaderTimeout = "1m"
WriteTimeout = "5m"
IdleTimeout = "10m"
MaxUpdates = %d
BackupStorage = %q
BackupSet = "rankdb-backup"
BackupEvery = %d
[Badger]
Path = %q
NoSync = true
[BoltDB]
FilePath = %q
NoSync = true
NoGrowSync = false
[LazySaver]
Enabled = %v
MaxTime = %q
FlushAtItems = %d
LimitItems = %d
Savers = 4
SaveTimeout = "1m"
[StorageRetry]
Enabled = %v
OpTimeout = "1m"
`, cf.Storage, cf.Cache, cf.CacheType, cf.SaveEvery, cf.PruneEvery, strings.Replace(cf.JwtDir, "@DIR@", dir, 1), cf.MaxUpdates, bs, cf.BackupEvery,
		filepath.Join(dir, "badger"), filepath.Join(dir, "bolt.db"), cf.Lazy, cf.LazyTime, cf.FlushAt, cf.Limit, cf.Retry) + s3
}

// Srv is a running server.
type Srv struct {
	Conf   Conf
	Dir    string
	Base   string
	Addr   string
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	exited chan struct{}
	code   int // exit status, once exited
	logs   *tail
	client *http.Client
	dirty  bool
}

// tail keeps the last part of what is written.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte(nil), t.b[len(t.b)-(1<<19):]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.b
	// A crash report starts early: show it rather than the end.
	for _, k := range []string{"\npanic: ", "\nfatal error: "} {
		if i := bytes.Index(b, []byte(k)); i >= 0 {
			b = b[i:]
			if len(b) > 6000 {
				b = b[:6000]
			}
			return string(b)
		}
	}
	if len(b) > 4000 {
		b = b[len(b)-4000:]
	}
	return string(b)
}

// start launches a server on dir.
func start(cf Conf, dir string) (*Srv, error) {
	s := &Srv{Conf: cf, Dir: dir, logs: &tail{}, exited: make(chan struct{})}
	confPath := filepath.Join(dir, "conf.toml")
	if err := ioutil.WriteFile(confPath, []byte(cf.toml(dir)), 0644); err != nil {
		return nil, err
	}
	if cf.Prep != nil {
		if err := cf.Prep(dir); err != nil {
			return nil, fmt.Errorf("VERIF-ERROR: %v", err)
		}
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	s.cmd = exec.Command(exe)
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "VERIF_SERVE="+confPath, "GOTRACEBACK=all", "VERIF_JOURNAL=", "VERIF_STATS=")
	s.cmd.Stderr = s.logs
	s.stdin, err = s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	addr := make(chan string, 1)
	go func() {
		sc := bufio.NewScanner(out)
		for sc.Scan() {
			if strings.HasPrefix(sc.Text(), "ADDR ") {
				select {
				case addr <- strings.TrimPrefix(sc.Text(), "ADDR "):
				default:
				}
			} else {
				fmt.Fprintln(s.logs, sc.Text())
			}
		}
		_ = s.cmd.Wait()
		s.code = s.cmd.ProcessState.ExitCode()
		close(s.exited)
	}()
	select {
	case a := <-addr:
		s.Addr = a
	case <-s.exited:
		return nil, fmt.Errorf("the server did not start: %s", s.logs)
	case <-time.After(2 * time.Minute):
		s.Kill()
		return nil, fmt.Errorf("the server did not start in time: %s", s.logs)
	}
	s.Base = "http://" + s.Addr
	s.client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16, DisableCompression: false}, Timeout: 2 * time.Minute,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for i := 0; ; i++ {
		cn, err := net.DialTimeout("tcp", s.Addr, time.Second)
		if err == nil {
			cn.Close()
			return s, nil
		}
		select {
		case <-s.exited:
			return nil, fmt.Errorf("the server did not start: %s", s.logs)
		default:
		}
		if i > 6000 {
			s.Kill()
			return nil, fmt.Errorf("the server did not listen: %v %s", err, s.logs)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// Alive tells whether the process still runs.
func (s *Srv) Alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

// Kill ends the process.
func (s *Srv) Kill() {
	if s == nil || s.cmd == nil || s.cmd.Process == nil {
		return
	}
	_ = s.cmd.Process.Kill()
	select {
	case <-s.exited:
	case <-time.After(30 * time.Second):
	}
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
}

// Stop asks for a graceful shutdown and waits for it.
func (s *Srv) Stop(timeout time.Duration) error {
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	defer s.client.CloseIdleConnections()
	select {
	case <-s.exited:
		return nil
	case <-time.After(timeout):
		_ = s.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(500 * time.Millisecond)
		s.Kill()
		return fmt.Errorf("the server did not stop within %v: %s", timeout, s.logs)
	}
}

// pool of servers by configuration name and number, kept across cases.
var pool = map[string]*Srv{}

// scratch is removed by the driver together with the shard's directory.
func scratch() string {
	d, err := ioutil.TempDir("", "rankdb-api-")
	if err != nil {
		panic("VERIF-ERROR: " + err.Error())
	}
	return d
}

// Get returns an empty running server of the configuration.
func Get(c *h.Case, cf Conf, n int) *Srv {
	key := fmt.Sprint(cf.Name, "/", n)
	s := pool[key]
	if s != nil && (s.dirty || !s.Alive()) {
		s.Kill()
		_ = os.RemoveAll(s.Dir)
		delete(pool, key)
		s = nil
	}
	if s == nil {
		var err error
		s, err = start(cf, scratch())
		if err != nil {
			c.Fatalf("server %s: %v", cf.Name, err)
		}
		pool[key] = s
	}
	s.dirty = true
	return s
}

var confs = []Conf{
	{Name: "mem", Storage: "Memory", Cache: 100, CacheType: "ARC", S3: true},
	{Name: "mem-lazy-lru5", Storage: "Memory", Cache: 5, CacheType: "LRU", Lazy: true},
	{Name: "bolt-lazy-2q", Storage: "BoltDB", Cache: 20, CacheType: "LRU2Q", Lazy: true, Retry: true},
	{Name: "bolt", Storage: "BoltDB", Cache: 3, CacheType: "LRU", MaxUpdates: 1, S3: true},
	{Name: "mem-nocache", Storage: "Memory", Cache: 0, MaxUpdates: 2, SaveEvery: "20ms", PruneEvery: "10ms", BackupEvery: 2},
	{Name: "badger", Storage: "Badger", Cache: 10, CacheType: "ARC", Lazy: true, Limit: 8, FlushAt: 4},
}
