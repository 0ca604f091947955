package nodep

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/verif/am"
	"github.com/fivebinaries/go-cardano-serialization/verif/hx"
	"github.com/fivebinaries/go-cardano-serialization/verif/jg"
	"github.com/fivebinaries/go-cardano-serialization/verif/ref"
	"github.com/fivebinaries/go-cardano-serialization/verif/txm"
	"pgregory.net/rapid"
)

// ---- a stand-in for the blockfrost servers ----
//
// A proxy on the loopback network terminates TLS for every host name with a
// certificate of its own authority, so that the real client code runs
// unchanged and what it sends, and to whom, is recorded.

type request struct {
	host, method, path string // host is the name in the CONNECT request
	query              map[string][]string
	header             http.Header
	body               []byte
	plain              bool // not over TLS
}

type answer struct {
	status  int
	body    string
	broken  string // "", "drop" (close without answering), "short" (body cut off)
	headers map[string]string
	delay   time.Duration
}

type frost struct {
	mu     sync.Mutex
	log    []request
	handle func(r request) answer
	ca     *x509.Certificate
	caKey  *ecdsa.PrivateKey
	certs  map[string]*tls.Certificate
	serial int64
	idle   []net.Conn // connections that served queries, oldest first
}

// maxIdle is how many connections of earlier clients are kept open. Each
// client keeps its own for 90 s, which would exhaust the file descriptors.
const maxIdle = 200

// reap remembers a connection and closes the oldest if there are too many. A
// connection in use now is never that old.
func (f *frost) reap(conn net.Conn) {
	f.mu.Lock()
	f.idle = append(f.idle, conn)
	var old net.Conn
	if len(f.idle) > maxIdle {
		old, f.idle = f.idle[0], f.idle[1:]
	}
	f.mu.Unlock()
	if old != nil {
		if t, ok := old.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		old.Close()
	}
}

var theFrost *frost

var scratchDir string // everything this package writes

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "nodep")
	must(err)
	scratchDir = dir
	theFrost = startFrost(dir)
	code := m.Run()
	os.RemoveAll(dir)
	os.Exit(code)
}

func startFrost(dir string) *frost {
	f := &frost{certs: map[string]*tls.Certificate{}, serial: 10}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	f.ca, err = x509.ParseCertificate(der)
	must(err)
	f.caKey = key
	ca := filepath.Join(dir, "ca.pem")
	must(os.WriteFile(ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	proxy := "http://" + l.Addr().String()
	for _, k := range []string{"HTTPS_PROXY", "https_proxy", "HTTP_PROXY", "http_proxy"} {
		os.Setenv(k, proxy)
	}
	for _, k := range []string{"NO_PROXY", "no_proxy", "ALL_PROXY", "REQUEST_METHOD", "BLOCKFROST_PROJECT_ID", "BLOCKFROST_IPFS_PROJECT_ID"} {
		os.Unsetenv(k)
	}
	os.Setenv("SSL_CERT_FILE", ca)
	os.Setenv("SSL_CERT_DIR", dir)
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				must(err) // no verdict without the stand-in
			}
			go f.serve(conn)
		}
	}()
	return f
}

func (f *frost) cert(host string) *tls.Certificate {
	f.mu.Lock()
	defer f.mu.Unlock()
	if c := f.certs[host]; c != nil {
		return c
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	f.serial++
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(f.serial), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, f.ca, &key.PublicKey, f.caKey)
	must(err)
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	f.certs[host] = c
	return c
}

func (f *frost) serve(conn net.Conn) {
	defer conn.Close()
	br := bufio.NewReader(conn)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	if req.Method != http.MethodConnect {
		f.answer(conn, br, req, req.URL.Hostname(), true)
		return
	}
	host, _, err := net.SplitHostPort(req.Host)
	if err != nil {
		host = req.Host
	}
	io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
	tc := tls.Server(conn, &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return f.cert(host), nil }, NextProtos: []string{"http/1.1"}})
	defer tc.Close()
	tr := bufio.NewReader(tc)
	for known := false; ; {
		r, err := http.ReadRequest(tr)
		if err != nil {
			return
		}
		if !f.answer(tc, tr, r, host, false) {
			return
		}
		if !known && r.Method == http.MethodGet { // a submission's connection may be used again much later
			known = true
			f.reap(conn)
		}
	}
}

func (f *frost) answer(w net.Conn, br *bufio.Reader, r *http.Request, host string, plain bool) bool {
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return false
	}
	rec := request{host: host, method: r.Method, path: r.URL.Path, query: r.URL.Query(), header: r.Header, body: body, plain: plain}
	f.mu.Lock()
	f.log = append(f.log, rec)
	handle := f.handle
	f.mu.Unlock()
	a := handle(rec)
	time.Sleep(a.delay)
	if a.broken == "drop" {
		return false
	}
	n := len(a.body)
	if a.broken == "short" {
		n += 7
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n", a.status, http.StatusText(a.status))
	for k, v := range a.headers {
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	// the answer is framed in one of the ways HTTP has
	framing := ref.CRC32([]byte(r.URL.String()+a.body)) % 5
	if a.broken != "" || a.body == "" || a.status == 204 || a.status == 304 {
		framing = 0
	}
	if framing == 3 && !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		framing = 2
	}
	switch framing {
	case 2: // in pieces
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		w.Write(b.Bytes())
		k := 1 + len(a.body)/3
		for i := 0; i < len(a.body); i += k {
			e := i + k
			if e > len(a.body) {
				e = len(a.body)
			}
			fmt.Fprintf(w, "%x\r\n%s\r\n", e-i, a.body[i:e])
		}
		io.WriteString(w, "0\r\n\r\n")
	case 3: // compressed
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write([]byte(a.body))
		zw.Close()
		fmt.Fprintf(&b, "Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len())
		w.Write(append(b.Bytes(), z.Bytes()...))
	case 4: // until the connection is closed
		b.WriteString("Connection: close\r\n\r\n" + a.body)
		w.Write(b.Bytes())
		return false
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", n)
		w.Write(append(b.Bytes(), a.body...))
	}
	return a.broken == ""
}

// expect sets the handler and forgets earlier requests.
func (f *frost) expect(h func(r request) answer) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.log = nil
	f.handle = h
}

func (f *frost) requests() []request {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]request(nil), f.log...)
}

func hostFor(n network.NetworkInfo) string {
	if n.NetworkId == 0 {
		return "cardano-testnet.blockfrost.io"
	}
	return "cardano-mainnet.blockfrost.io"
}

// common judges what every request must have.
func common(r request, n network.NetworkInfo, project, method, path string) error {
	if r.plain {
		return fmt.Errorf("a request was sent without TLS: %s %s", r.method, r.path)
	}
	if r.host != hostFor(n) {
		return fmt.Errorf("request for network %+v went to %s", n, r.host)
	}
	if r.method != method || r.path != "/api/v0/"+path {
		return fmt.Errorf("request %s %s, want %s /api/v0/%s", r.method, r.path, method, path)
	}
	if got := r.header.Values("project_id"); len(got) != 1 || got[0] != project {
		return fmt.Errorf("request has project_id %q, want %q", got, project)
	}
	return nil
}

func projectGen() *rapid.Generator[string] {
	return rapid.OneOf(rapid.StringMatching(`(mainnet|testnet)[A-Za-z0-9]{8,32}`), rapid.StringMatching(`(mainnet|testnet)[!-~]{1,40}`))
}

func frostNet() *rapid.Generator[network.NetworkInfo] {
	return rapid.Custom(func(t *rapid.T) network.NetworkInfo {
		switch rapid.IntRange(0, 4).Draw(t, "netMode") {
		case 0:
			return *network.MainNet()
		case 1:
			return *network.TestNet()
		case 4:
			return network.NetworkInfo{NetworkId: rapid.ByteRange(2, 255).Draw(t, "id"), ProtocolMagic: rapid.SampledFrom([]uint32{764824073, 1097911063, 0, 42}).Draw(t, "magic")}
		case 2:
			return network.NetworkInfo{NetworkId: 0, ProtocolMagic: uint32(hx.Uint64(1<<32-1).Draw(t, "magic"))}
		default:
			return network.NetworkInfo{NetworkId: 1, ProtocolMagic: uint32(hx.Uint64(1<<32-1).Draw(t, "magic"))}
		}
	})
}

type utxo struct {
	hash   []byte
	ix     uint16
	amount uint64
	extra  []jg.Member // unit -> quantity
	pos    int         // where lovelace stands among the amounts
	bad    string      // replaces the lovelace quantity
	badRef string      // replaces the output index, or the hash after "hash:"
}

func (u utxo) json() map[string]interface{} {
	q := strconv.FormatUint(u.amount, 10)
	if u.bad != "" {
		q = strings.TrimPrefix(u.bad, "=")
	}
	var am []map[string]string
	for i := 0; i <= len(u.extra); i++ {
		if i == u.pos {
			am = append(am, map[string]string{"unit": "lovelace", "quantity": q})
		}
		if i < len(u.extra) {
			am = append(am, map[string]string{"unit": u.extra[i].Name, "quantity": u.extra[i].Value})
		}
	}
	var ix interface{} = u.ix
	hash := hex.EncodeToString(u.hash)
	if bad, ok := strings.CutPrefix(u.badRef, "hash:"); ok {
		hash = bad
	} else if u.badRef != "" {
		ix = json.Number(u.badRef)
	}
	return map[string]interface{}{"tx_hash": hash, "tx_index": 9, "output_index": ix, "amount": am, "block": strings.Repeat("ab", 32), "data_hash": nil}
}

func utxoGen() *rapid.Generator[utxo] {
	return rapid.Custom(func(t *rapid.T) utxo {
		u := utxo{hash: hx.Bytes(32).Draw(t, "hash"), ix: uint16(hx.Uint64(65535).Draw(t, "ix")), amount: hx.Uint64(1<<63-1).Draw(t, "lovelace")}
		for i := rapid.IntRange(0, 3).Draw(t, "assets"); i > 0; i-- {
			u.extra = append(u.extra, jg.Member{Name: hex.EncodeToString(hx.Bytes(28).Draw(t, "policy")) + rapid.SampledFrom([]string{"", "746f6b656e", "6c6f76656c616365"}).Draw(t, "name"), Value: fmt.Sprint(hx.Uint64(1<<62).Draw(t, "qty"))})
		}
		u.pos = rapid.IntRange(0, len(u.extra)).Draw(t, "pos")
		return u
	})
}

// page answers like the real server: count (at most 100, default 100) and page (from 1).
func page(us []utxo, r request) answer {
	get := func(k string, d int) int {
		if v := r.query[k]; len(v) > 0 {
			n, err := strconv.Atoi(v[0])
			if err != nil {
				return -1
			}
			return n
		}
		return d
	}
	count, pg := get("count", 100), get("page", 1)
	if count < 1 || count > 100 || pg < 1 {
		return answer{status: 400, body: `{"status_code": 400, "error": "Bad Request", "message": "querystring"}`}
	}
	from := (pg - 1) * count
	out := []interface{}{}
	for i := from; i < from+count && i < len(us); i++ {
		out = append(out, us[i].json())
	}
	if v := r.query["order"]; len(v) > 0 && v[0] == "desc" {
		out = nil
		for i := from; i < from+count && i < len(us); i++ {
			out = append(out, us[len(us)-1-i].json())
		}
	}
	b, _ := json.Marshal(out)
	return answer{status: 200, body: string(b)}
}

var clientErrors = []int{400, 402, 403, 404, 418, 451}

func errBody(t *rapid.T, status int) string {
	return rapid.SampledFrom([]string{
		fmt.Sprintf(`{"status_code": %d, "error": "Error", "message": "refused"}`, status), "", "<html>refused</html>", `"0000"`, "[]", `{}`,
	}).Draw(t, "errBody")
}

var blockExtras = []jg.Member{
	{Name: "time", Value: "1641338934"}, {Name: "hash", Value: `"4ea1"`}, {Name: "epoch_slot", Value: "12"}, {Name: "slot_leader", Value: `"pool1"`},
	{Name: "size", Value: "3"}, {Name: "tx_count", Value: "1"}, {Name: "output", Value: `"128314491794"`}, {Name: "fees", Value: `"592661"`},
	{Name: "previous_block", Value: `"43eb"`}, {Name: "confirmations", Value: "4698"},
}

var paramExtras = []jg.Member{
	{Name: "epoch", Value: "225"}, {Name: "max_block_size", Value: "65536"}, {Name: "max_block_header_size", Value: "1100"}, {Name: "key_deposit", Value: `"2000000"`},
	{Name: "pool_deposit", Value: `"500000000"`}, {Name: "e_max", Value: "18"}, {Name: "n_opt", Value: "150"}, {Name: "a0", Value: "0.3"}, {Name: "rho", Value: "0.003"},
	{Name: "tau", Value: "0.2"}, {Name: "decentralisation_param", Value: "0.5"}, {Name: "extra_entropy", Value: "null"}, {Name: "min_pool_cost", Value: `"340000000"`}, {Name: "nonce", Value: `"1a3b"`},
}

// ---- C28 ----

func TestC28(t *testing.T) {
	f := theFrost
	h := hx.Start(t, "C28", "the real client against a TLS stand-in for both servers: 0-1201 outputs over several pages with native assets, tips and parameters, then HTTP errors (on any page), undecodable answers, and quantities, references and values that are malformed or out of range. Non-trivial: at least one output or value, or a failure")
	h.Check("utxos", 250, func(t *rapid.T, c *hx.C) {
		nets := rapid.SliceOfN(frostNet(), 1, 2).Draw(t, "networks")
		var nodes []node.Node
		var projects []string
		for i := range nets {
			n := nets[i]
			projects = append(projects, projectGen().Draw(t, "project"))
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "sameProject") == 0 {
				projects[i] = projects[0]
			}
			nodes = append(nodes, node.NewBlockfrostClient(projects[i], &n))
		}
		for k := rapid.IntRange(1, 3).Draw(t, "queries"); k > 0; k-- {
			i := rapid.IntRange(0, len(nets)-1).Draw(t, "on")
			a := am.Any().Draw(t, "address")
			us := utxos(t)
			c.Key("%v %s %d %v", nets[i], a.Key(), len(us), us[:min(len(us), 3)])
			c.Nontrivial(len(us) > 0)
			c.Class("several pages", len(us) > 100)
			c.Class("exactly full pages", len(us) > 0 && len(us)%100 == 0)
			c.Class("mainnet", nets[i].NetworkId == 1)
			f.expect(func(r request) answer { return page(us, r) })
			got, err := nodes[i].UTXOs(build(t, a))
			if err != nil {
				t.Fatalf("%d outputs: %v", len(us), err)
			}
			rs := f.requests()
			if len(rs) == 0 {
				t.Fatalf("no request was sent")
			}
			for _, r := range rs {
				if err := common(r, nets[i], projects[i], "GET", "addresses/"+a.Text()+"/utxos"); err != nil {
					t.Fatal(err)
				}
			}
			if len(got) != len(us) {
				t.Fatalf("%d outputs on the server, %d reported (%d requests)", len(us), len(got), len(rs))
			}
			for j, u := range us {
				if g := got[j]; !bytes.Equal(g.TxHash, u.hash) || g.Index != u.ix || uint64(g.Amount) != u.amount {
					t.Fatalf("output %d %v is reported as %x#%d %d", j, u.json(), g.TxHash, g.Index, g.Amount)
				}
			}
		}
	})
	h.Each("very many outputs", false, func(rec func(*hx.C)) error {
		a := am.Addr{Kind: am.Enterprise, Net: 0, Pay: hx.Expand(5, 28)}
		addr, err := a.Build()
		if err != nil {
			return err
		}
		all := make([]utxo, 10101)
		for i := range all {
			all[i] = utxo{hash: hx.Expand(uint64(i), 32), ix: uint16(i), amount: uint64(i) * 1000003}
		}
		for _, n := range []int{2000, 2500, 4999, 5000, 5001, 10000, 10101} {
			c := &hx.C{}
			c.Key("%d", n)
			c.Nontrivial(true)
			f.expect(func(r request) answer { return page(all[:n], r) })
			got, err := node.NewBlockfrostClient("testnetabcdefgh", network.TestNet()).UTXOs(addr)
			if err != nil {
				return fmt.Errorf("%d outputs: %v", n, err)
			}
			if len(got) != n {
				return fmt.Errorf("%d outputs on the server, %d reported", n, len(got))
			}
			for j, u := range all[:n] {
				if g := got[j]; !bytes.Equal(g.TxHash, u.hash) || g.Index != u.ix || uint64(g.Amount) != u.amount {
					return fmt.Errorf("output %d %v is reported as %x#%d %d", j, u.json(), g.TxHash, g.Index, g.Amount)
				}
			}
			rec(c)
		}
		return nil
	})
	h.Each("slow answers", false, func(rec func(*hx.C)) error {
		us := []utxo{{hash: hx.Expand(1, 32), ix: 7, amount: 1234567}, {hash: hx.Expand(2, 32), ix: 8, amount: 7654321}}
		f.expect(func(r request) answer {
			a := answer{status: 200, body: `{"slot": 51, "epoch": 62, "height": 73}`}
			switch {
			case strings.HasSuffix(r.path, "/utxos"):
				a = page(us, r)
			case strings.HasSuffix(r.path, "/parameters"):
				a.body = `{"min_fee_a": 44, "min_fee_b": 155381, "min_utxo": "1000000"}`
			}
			a.delay = slow()
			return a
		})
		nd := func() node.Node { return node.NewBlockfrostClient("testnetabcdefgh", network.TestNet()) }
		errs := make(chan error, 3)
		go func() {
			ins, err := nd().UTXOs(exampleAddr())
			if err != nil || len(ins) != 2 || ins[0].Amount != 1234567 || ins[1].Amount != 7654321 {
				err = fmt.Errorf("outputs reported after %v: %v (%v)", slow(), ins, err)
			}
			errs <- err
		}()
		go func() {
			tip, err := nd().QueryTip()
			if err != nil || tip.Slot != 51 || tip.Epoch != 62 || tip.Block != 73 {
				err = fmt.Errorf("tip reported after %v: %+v (%v)", slow(), tip, err)
			}
			errs <- err
		}()
		go func() {
			p, err := nd().ProtocolParameters()
			if err != nil || p.TxFeePerByte != 44 || p.TxFeeFixed != 155381 {
				err = fmt.Errorf("parameters reported after %v: %+v (%v)", slow(), p, err)
			}
			errs <- err
		}()
		var err error
		for i := 0; i < 3; i++ {
			if e := <-errs; e != nil {
				err = e
			}
			c := &hx.C{}
			c.Key("%d", i)
			c.Nontrivial(true)
			rec(c)
		}
		return err
	})
	h.Check("tip and parameters", 250, func(t *rapid.T, c *hx.C) {
		n := frostNet().Draw(t, "network")
		project := projectGen().Draw(t, "project")
		nd := node.NewBlockfrostClient(project, &n)
		u := func(l string) uint64 { return hx.Uint64(1<<63-1).Draw(t, l) }
		for k := rapid.IntRange(1, 3).Draw(t, "queries"); k > 0; k-- {
			if rapid.Bool().Draw(t, "tip") {
				s, e, b := u("slot"), u("epoch"), u("height")
				doc := jg.Object(t, append([]jg.Member{jg.Num("slot", s), jg.Num("epoch", e), jg.Num("height", b)}, jg.Others(t, blockExtras)...))
				c.Key("%v %s", n, doc)
				c.Nontrivial(true)
				f.expect(func(request) answer { return answer{status: 200, body: doc} })
				got, err := nd.QueryTip()
				if err != nil || uint64(got.Slot) != s || uint64(got.Epoch) != e || uint64(got.Block) != b {
					t.Fatalf("latest block %s is reported as %+v (%v)", doc, got, err)
				}
				for _, r := range f.requests() {
					if err := common(r, n, project, "GET", "blocks/latest"); err != nil {
						t.Fatal(err)
					}
				}
				continue
			}
			w := jg.Params{PerByte: u("a"), Fixed: u("b"), MaxTx: u("max"), MinUTXO: u("min"), Major: rapid.Byte().Draw(t, "major"), Minor: rapid.Byte().Draw(t, "minor")}
			doc := jg.Object(t, append([]jg.Member{jg.Num("min_fee_a", w.PerByte), jg.Num("min_fee_b", w.Fixed), jg.Num("max_tx_size", w.MaxTx), jg.Str("min_utxo", fmt.Sprint(w.MinUTXO)),
				jg.Num("protocol_major_ver", uint64(w.Major)), jg.Num("protocol_minor_ver", uint64(w.Minor))}, jg.Others(t, paramExtras)...))
			c.Key("%v %s", n, doc)
			c.Nontrivial(true)
			f.expect(func(request) answer { return answer{status: 200, body: doc} })
			p, err := nd.ProtocolParameters()
			if err != nil {
				t.Fatalf("parameters %s: %v", doc, err)
			}
			if uint64(p.TxFeePerByte) != w.PerByte || uint64(p.TxFeeFixed) != w.Fixed || uint64(p.MaxTxSize) != w.MaxTx || uint64(p.MinUTXOValue) != w.MinUTXO || p.ProtocolVersion.Major != w.Major || p.ProtocolVersion.Minor != w.Minor {
				t.Fatalf("parameters %s are reported as %+v", doc, p)
			}
			for _, r := range f.requests() {
				if err := common(r, n, project, "GET", "epochs/latest/parameters"); err != nil {
					t.Fatal(err)
				}
			}
		}
	})
	h.Check("failures", 500, func(t *rapid.T, c *hx.C) {
		n := frostNet().Draw(t, "network")
		nd := node.NewBlockfrostClient(projectGen().Draw(t, "project"), &n)
		q := rapid.SampledFrom([]string{"utxo", "utxo", "tip", "params"}).Draw(t, "query")
		kind := rapid.SampledFrom([]string{"status", "status", "undecodable", "value"}).Draw(t, "failure")
		status := rapid.SampledFrom(clientErrors).Draw(t, "status")
		body := errBody(t, status)
		bad := answer{status: status, body: body}
		if kind == "undecodable" {
			good := map[string]string{"utxo": `[{"tx_hash": "00", "output_index": 1, "amount": [{"unit": "lovelace", "quantity": "5"}]}]`, "tip": `{"slot": 5, "epoch": 6, "height": 7}`, "params": `{"min_fee_a": 44, "min_fee_b": 155381, "min_utxo": "1000000"}`}[q]
			bad = answer{status: 200, body: rapid.SampledFrom([]string{"<html></html>", "", "not json", `"text"`, "5", jg.Truncate(t, good)}).Draw(t, "body")}
		}
		us := utxos(t)
		pages := len(us)/100 + 1
		failAt := rapid.IntRange(1, pages).Draw(t, "failAt")
		if q == "utxo" && kind == "value" {
			if len(us) == 0 {
				us = []utxo{{hash: make([]byte, 32)}}
			}
			u := &us[rapid.IntRange(0, len(us)-1).Draw(t, "which")]
			if rapid.IntRange(0, 2).Draw(t, "badReference") == 0 {
				u.badRef = rapid.SampledFrom([]string{"65536", "65537", "-1", "4294967296", "1.5", "hash:", "hash:00", "hash:" + strings.Repeat("0g", 32), "hash:" + strings.Repeat("00", 31), "hash:" + strings.Repeat("00", 33), "hash:" + strings.Repeat("0", 63)}).Draw(t, "reference")
			} else {
				u.bad = rapid.SampledFrom([]string{"abc", "=", "1.5", "-5", " 5", "1e6", "0x10", "5 ", "99999999999999999999999", "null"}).Draw(t, "quantity")
			}
		}
		badTip := rapid.SampledFrom([]string{`{"slot": "x", "epoch": 6, "height": 7}`, `{"slot": -1, "epoch": 6, "height": 7}`, `{"slot": 5, "epoch": -6, "height": 7}`, `{"slot": 5, "epoch": 6, "height": -7}`, `{"slot": 1.5, "epoch": 6, "height": 7}`}).Draw(t, "tip")
		good := []jg.Member{jg.Num("min_fee_a", 44), jg.Num("min_fee_b", 155381), jg.Num("max_tx_size", 16384), jg.Str("min_utxo", "1000000"), jg.Num("protocol_major_ver", 5), jg.Num("protocol_minor_ver", 0)}
		which := rapid.IntRange(0, len(good)-1).Draw(t, "parameter")
		good[which].Value = rapid.SampledFrom([][]string{{"-44", `"x"`, "1.5"}, {"-1", "{}", "99999999999999999999"}, {"-1", `"16384"`}, {`"none"`, `"-5"`, `"1.5"`, `""`, `" 7"`}, {"-1", "256", "1000"}, {"-1", "256", "65536"}}[which]).Draw(t, "badParameter")
		badParams := jg.Object(t, good)
		if kind == "value" {
			bad.body = map[string]string{"tip": badTip, "params": badParams}[q]
			bad.status = 200
		}
		c.Key("%s %s %+v %d/%d", q, kind, bad, failAt, pages)
		c.Nontrivial(true)
		c.Class(q+" "+kind, true)
		c.Class("failure after a full page", q == "utxo" && kind != "value" && failAt > 1)
		f.expect(func(r request) answer {
			if kind == "value" {
				switch q {
				case "utxo":
					return page(us, r)
				case "tip":
					return answer{status: 200, body: badTip}
				default:
					return answer{status: 200, body: badParams}
				}
			}
			if q == "utxo" {
				if v := r.query["page"]; failAt > 1 && (len(v) == 0 || v[0] != strconv.Itoa(failAt)) {
					return page(us, r)
				}
			}
			return bad
		})
		var res interface{}
		var err error
		if p := hx.Try(func() {
			switch q {
			case "utxo":
				res, err = nd.UTXOs(exampleAddr())
			case "tip":
				res, err = nd.QueryTip()
			default:
				res, err = nd.ProtocolParameters()
			}
		}); p != nil {
			t.Fatalf("%s with %s failure %+v: %v", q, kind, bad, p)
		}
		if err == nil {
			t.Fatalf("%s with %s failure %+v (page %d of %d) reports %.300s and no error", q, kind, bad, failAt, pages, fmt.Sprint(res))
		}
	})
}

func exampleAddr() address.Address {
	a, err := am.OfKind(am.Base).Example(3).Build()
	must(err)
	return a
}

func utxos(t *rapid.T) []utxo {
	n := rapid.IntRange(0, 5).Draw(t, "n")
	if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
		n = rapid.SampledFrom([]int{99, 100, 101, 200, 201, 260, 300, 999, 1000, 1201}).Draw(t, "n")
	}
	var us []utxo
	for i := 0; i < n; i++ {
		if i > 0 && i < 5 && rapid.Bool().Draw(t, "related") {
			// another output of the transaction, or of one that looks like it
			u := us[rapid.IntRange(0, i-1).Draw(t, "to")]
			u.hash = append([]byte{}, u.hash...)
			if rapid.IntRange(0, 3).Draw(t, "hashDiffers") == 0 {
				u.hash[rapid.IntRange(0, 31).Draw(t, "hashAt")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "hashBit")
			} else {
				u.ix += rapid.SampledFrom([]uint16{1, 65535, 256, 10, 100, 32768}).Draw(t, "indexStep")
			}
			if rapid.Bool().Draw(t, "otherAmount") {
				u.amount = hx.Uint64(1<<63-1).Draw(t, "lovelace")
			}
			us = append(us, u)
			continue
		}
		if i < 5 {
			us = append(us, utxoGen().Draw(t, "utxo"))
			continue
		}
		p := us[i%5]
		p.hash, p.ix, p.amount = hx.Expand(uint64(i), 32), uint16(i), p.amount/uint64(i)
		us = append(us, p)
	}
	return us
}

// ---- C29 ----

func TestC29(t *testing.T) {
	f := theFrost
	h := hx.Start(t, "C29", "generated signed transactions submitted through the real client to a TLS stand-in that records the request and accepts, refuses (any status), drops the connection or cuts the answer. Non-trivial: every case")
	h.Check("submit", 500, func(t *rapid.T, c *hx.C) {
		n := frostNet().Draw(t, "network")
		project := projectGen().Draw(t, "project")
		nd := node.NewBlockfrostClient(project, &n)
		for k := rapid.IntRange(1, 2).Draw(t, "submissions"); k > 0; k-- {
			x, raw := smallTx(t)
			id := hex.EncodeToString(hx.Bytes(32).Draw(t, "id"))
			mode := rapid.SampledFrom([]string{"accept", "accept", "refuse", "drop", "short", "no id"}).Draw(t, "mode")
			a := answer{status: 200, body: `"` + id + `"` + rapid.SampledFrom([]string{"", "\n"}).Draw(t, "newline")}
			switch mode {
			case "refuse":
				a.status = rapid.OneOf(rapid.SampledFrom([]int{400, 402, 403, 404, 405, 415, 418, 425, 429, 500, 502, 503, 504, 201, 202, 203, 204, 206}),
					rapid.IntRange(201, 299), rapid.IntRange(300, 399), rapid.IntRange(400, 599)).Draw(t, "status")
				switch a.status {
				case 301, 302, 303, 307, 308: // a redirection to nowhere
				default:
					if a.status/100 == 3 && rapid.Bool().Draw(t, "location") {
						a.headers = map[string]string{"Location": "/elsewhere"}
					}
				}
				c.Class("3xx", a.status/100 == 3)
				if a.status != 204 && a.status != 304 {
					a.body = rapid.SampledFrom([]string{errBody(t, a.status), a.body}).Draw(t, "body")
				} else {
					a.body = ""
				}
			case "drop", "short":
				a.broken = mode
			case "no id": // a proxy's page, say
				a.body = rapid.SampledFrom([]string{"<html></html>", "", "OK", `{"id": "` + id + `"}`, `["` + id + `"]`, `"` + id, id[:31] + "g", "null", `""`, `"OK"`, `"` + id[:62] + `"`, `"` + id[:63] + `"`, `"` + id + `00"`, `"` + id[:63] + `g"`, `"` + id + ` "`}).Draw(t, "body")
			}
			c.Key("%v %x %s %d", n, raw, mode, a.status)
			c.Nontrivial(true)
			c.Class(mode, true)
			f.expect(func(request) answer { return a })
			var got string
			var err error
			if p := hx.Try(func() { got, err = nd.SubmitTx(x) }); p != nil {
				t.Fatalf("submit: %v", p)
			}
			rs := f.requests()
			if len(rs) != 1 {
				t.Fatalf("%d requests were sent (server: %s)", len(rs), mode)
			}
			r := rs[0]
			if err := common(r, n, project, "POST", "tx/submit"); err != nil {
				t.Fatal(err)
			}
			if ct := r.header.Get("Content-Type"); ct != "application/cbor" {
				t.Fatalf("content type %q", ct)
			}
			if !bytes.Equal(r.body, raw) {
				t.Fatalf("posted %x, the transaction is %x", r.body, raw)
			}
			if (err == nil) != (mode == "accept") {
				t.Fatalf("server answers %+v: submission returns %q, %v", a, got, err)
			}
			if err == nil && got != id {
				t.Fatalf("server reports id %s, submission returns %q", id, got)
			}
			if again, err := x.Bytes(); err != nil || !bytes.Equal(again, raw) {
				t.Fatalf("submission changed the transaction to %x (%v)", again, err)
			}
		}
	})
	h.Check("at once", 60, func(t *rapid.T, c *hx.C) {
		// submissions at the same time: each transaction is posted once, and each
		// caller gets the id of its own
		n := frostNet().Draw(t, "network")
		nd := node.NewBlockfrostClient(projectGen().Draw(t, "project"), &n)
		k := rapid.IntRange(2, 5).Draw(t, "n")
		var xs []tx.Tx
		var raws [][]byte
		for i := 0; i < k; i++ {
			x, raw := smallTx(t)
			xs, raws = append(xs, x), append(raws, raw)
			c.Key("%x", raw)
		}
		c.Nontrivial(true)
		idFor := func(b []byte) string { return hex.EncodeToString(ref.Blake2b(32, b)) }
		f.expect(func(r request) answer { return answer{status: 200, body: `"` + idFor(r.body) + `"`} })
		got, errs := make([]string, k), make([]error, k)
		var wg sync.WaitGroup
		for i := range xs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := hx.Try(func() { got[i], errs[i] = nd.SubmitTx(xs[i]) }); p != nil {
					errs[i] = p
				}
			}()
		}
		wg.Wait()
		for i := range xs {
			if errs[i] != nil || got[i] != idFor(raws[i]) {
				t.Fatalf("submission %d of %d at once returns %q, %v", i, k, got[i], errs[i])
			}
		}
		if rs := f.requests(); len(rs) != k {
			t.Fatalf("%d requests were sent for %d submissions at once", len(rs), k)
		}
	})
	h.Each("slow submission", false, func(rec func(*hx.C)) error {
		x := txm.ModelGen(1 << 40).Example(5).Tx()
		id := hex.EncodeToString(hx.Expand(9, 32))
		f.expect(func(request) answer { return answer{status: 200, body: `"` + id + `"`, delay: slow()} })
		got, err := node.NewBlockfrostClient("testnetabcdefgh", network.TestNet()).SubmitTx(*x)
		if n := len(f.requests()); err != nil || got != id || n != 1 {
			return fmt.Errorf("submission answered after %v with %s: %q, %v (%d requests)", slow(), id, got, err, n)
		}
		c := &hx.C{}
		c.Key("slow")
		c.Nontrivial(true)
		rec(c)
		return nil
	})
	h.Check("unserialisable", 100, func(t *rapid.T, c *hx.C) {
		x, _ := smallTx(t)
		what := rapid.SampledFrom([]string{"metadata", "input hash"}).Draw(t, "what")
		if what == "metadata" {
			x.Metadata = txm.UnencodableValue(txm.Unencodable().Draw(t, "value"))
		} else {
			x.AddInputs(tx.NewTxInput("00ff", 0, 1))
		}
		c.Key("%s", what)
		c.Nontrivial(true)
		f.expect(func(request) answer { return answer{status: 200, body: `"00"`} })
		nd := node.NewBlockfrostClient("testnet12345678", network.TestNet())
		if id, err := nd.SubmitTx(x); err == nil {
			t.Fatalf("submitting a transaction that cannot be serialised (%s) returns %q", what, id)
		}
		if rs := f.requests(); len(rs) != 0 {
			t.Fatalf("a transaction that cannot be serialised (%s) was sent: %x", what, rs[0].body)
		}
	})
}
