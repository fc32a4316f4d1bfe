package node

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"github.com/fivebinaries/go-cardano-serialization/zzverif/vh"
)

// ---------------------------------------------------------------- stand-in for cardano-cli
type fakeCli struct{ dir, path string }

var scratch string

func newCli() *fakeCli {
	d := filepath.Join(scratch, "cli")
	os.MkdirAll(d, 0o755)
	c := &fakeCli{d, filepath.Join(d, "cardano-cli")}
	s := "#!/bin/sh\nD='" + d + "'\nprintf 'CALL\\0' >> \"$D/log\"\nprintf '%s\\0' \"$@\" >> \"$D/log\"\np=\nfor a; do\n" +
		"if [ \"$p\" = --tx-file ]; then cat \"$a\" > \"$D/tx\" || exit 7; fi\np=$a\ndone\ncat \"$D/out\"\nread rc < \"$D/rc\"\nexit $rc\n"
	os.WriteFile(c.path, []byte(s), 0o755)
	return c
}

// set prepares what the command prints and its exit code.
func (c *fakeCli) set(out string, rc int) {
	os.Remove(filepath.Join(c.dir, "log"))
	os.Remove(filepath.Join(c.dir, "tx"))
	os.WriteFile(filepath.Join(c.dir, "out"), []byte(out), 0o644)
	os.WriteFile(filepath.Join(c.dir, "rc"), []byte(fmt.Sprintf("%d\n", rc)), 0o644)
}

func (c *fakeCli) calls() (r [][]string) {
	b, _ := os.ReadFile(filepath.Join(c.dir, "log"))
	for _, a := range strings.Split(strings.TrimSuffix(string(b), "\x00"), "\x00") {
		if a == "CALL" {
			r = append(r, []string{})
		} else if len(r) > 0 {
			r[len(r)-1] = append(r[len(r)-1], a)
		}
	}
	return
}

func (c *fakeCli) txFile() ([]byte, bool) {
	b, err := os.ReadFile(filepath.Join(c.dir, "tx"))
	return b, err == nil
}

// ---------------------------------------------------------------- stand-in for the Blockfrost servers
type request struct {
	host, method, path, query string
	header                    http.Header
	body                      []byte
}

type fakeNet struct {
	mu     sync.Mutex
	reqs   []request
	answer func(r request) (int, string)
	drop   bool
	cut    bool // declares more content than it sends
}

const (
	testHost = "cardano-testnet.blockfrost.io"
	mainHost = "cardano-mainnet.blockfrost.io"
)

func (f *fakeNet) reset(status int, body string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.reqs, f.drop, f.cut = nil, false, false
	f.answer = func(request) (int, string) { return status, body }
}

func (f *fakeNet) got() []request {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]request{}, f.reqs...)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// newNet starts a proxy that answers for every host under a certificate of its own; the environment of this process sends
// every request there.
func newNet() *fakeNet {
	f := &fakeNet{}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, DNSNames: []string{"*.blockfrost.io", "blockfrost.io"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	must(err)
	cf := filepath.Join(scratch, "ca.pem")
	must(os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	os.Setenv("SSL_CERT_FILE", cf)
	os.Setenv("SSL_CERT_DIR", scratch)
	for _, k := range []string{"HTTPS_PROXY", "https_proxy", "HTTP_PROXY", "http_proxy"} {
		os.Setenv(k, "http://"+l.Addr().String())
	}
	os.Unsetenv("NO_PROXY")
	os.Unsetenv("no_proxy")
	os.Unsetenv("REQUEST_METHOD")
	cfg := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c, cfg)
		}
	}()
	return f
}

func (f *fakeNet) serve(c net.Conn, cfg *tls.Config) {
	defer c.Close()
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	if r.Method != http.MethodConnect {
		f.handle(c, r, r.URL.Host)
		return
	}
	fmt.Fprintf(c, "HTTP/1.1 200 OK\r\n\r\n")
	host := strings.TrimSuffix(r.Host, ":443")
	t := tls.Server(c, cfg)
	defer t.Close()
	tr := bufio.NewReader(t)
	for {
		q, err := http.ReadRequest(tr)
		if err != nil || !f.handle(t, q, host) {
			return
		}
	}
}

func (f *fakeNet) handle(c net.Conn, q *http.Request, host string) bool {
	b, err := io.ReadAll(q.Body)
	if err != nil {
		return false
	}
	f.mu.Lock()
	r := request{host, q.Method, q.URL.Path, q.URL.RawQuery, q.Header, b}
	f.reqs = append(f.reqs, r)
	st, body := f.answer(r)
	drop, cut := f.drop, f.cut
	f.mu.Unlock()
	if drop {
		return false
	}
	n := len(body)
	if cut {
		n += 10
	}
	fmt.Fprintf(c, "HTTP/1.1 %d Status\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", st, n, body)
	return false
}

var (
	cli *fakeCli
	bf  *fakeNet
)

func TestMain(m *testing.M) {
	var err error
	scratch, err = os.MkdirTemp(os.Getenv("VERIF_TMP"), "node_")
	must(err)
	os.Setenv("TMPDIR", scratch)
	os.Unsetenv("BLOCKFROST_PROJECT_ID")
	cli, bf = newCli(), newNet()
	os.Setenv("PATH", cli.dir+":"+os.Getenv("PATH"))
	rc := m.Run()
	os.RemoveAll(scratch)
	os.Exit(rc)
}

// ---------------------------------------------------------------- generation
func nets(h *vh.H) *network.NetworkInfo {
	switch h.R.Intn(4) {
	case 0:
		return network.TestNet()
	case 1:
		return network.MainNet()
	case 2:
		return &network.NetworkInfo{NetworkId: 1, ProtocolMagic: uint32(h.Num())}
	}
	return &network.NetworkInfo{NetworkId: 0, ProtocolMagic: uint32(h.Num())}
}

func addr(h *vh.H) address.Address {
	n := network.MainNet()
	if h.R.Intn(2) == 0 {
		n = network.TestNet()
	}
	p, s := address.NewKeyStakeCredential(h.Bytes(28)), address.NewScriptStakeCredential(h.Bytes(28))
	switch h.R.Intn(3) {
	case 0:
		return address.NewEnterpriseAddress(n, p)
	case 1:
		return address.NewRewardAddress(n, s)
	}
	return address.NewBaseAddress(n, p, s)
}

func anyTx(h *vh.H) (tx.Tx, []byte, string) {
	t := tx.NewTx()
	ni, no := h.R.Intn(4), h.R.Intn(4)
	if h.R.Intn(8) == 0 {
		no = 300 + h.R.Intn(300)
	}
	for i := 0; i < ni; i++ {
		t.AddInputs(tx.NewTxInput(hex.EncodeToString(h.Bytes(32)), uint16(h.Num()), uint(h.Num())))
	}
	for i := 0; i < no; i++ {
		t.AddOutputs(tx.NewTxOutput(addr(h), uint(h.Num())))
	}
	t.SetFee(uint(h.Num()))
	t.Body.TTL = uint32(h.Num())
	if h.R.Intn(3) == 0 {
		t.Metadata, _ = h.Meta(2)
	}
	for i := h.R.Intn(3); i > 0; i-- {
		t.Witness.Keys = append(t.Witness.Keys, tx.NewVKeyWitness(h.Bytes(32), h.Bytes(64)))
	}
	b, err := t.Bytes()
	if err != nil {
		return anyTx(h)
	}
	return *t, b, fmt.Sprintf("transaction %s", short(hex.EncodeToString(b)))
}

func short(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s... (%d characters)", s[:400], len(s))
	}
	return s
}

func flag(n *network.NetworkInfo) []string {
	if n.NetworkId == 0 {
		return []string{"--testnet-magic", strconv.FormatUint(uint64(n.ProtocolMagic), 10)}
	}
	return []string{"--mainnet"}
}

func host(n *network.NetworkInfo) string {
	if n.NetworkId == 0 {
		return testHost
	}
	return mainHost
}

func cliNode(h *vh.H, n *network.NetworkInfo) node.Node {
	if h.R.Intn(3) == 0 {
		return node.NewCardanoCliNode(n)
	}
	return node.NewCardanoCliNode(n, cli.path)
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C24
func TestC24(t *testing.T) {
	h := vh.New(t, "C24")
	h.Case("TestNet, MainNet", func() {
		if n := network.TestNet(); n.NetworkId != 0 || n.ProtocolMagic != 1097911063 {
			h.Fail("TestNet is not the test network", fmt.Sprint(*n))
		}
		if n := network.MainNet(); n.NetworkId != 1 || n.ProtocolMagic != 764824073 {
			h.Fail("MainNet is not the main network", fmt.Sprint(*n))
		}
	})
	for k := 0; k < h.N(60) && !h.Done(); k++ {
		n := nets(h)
		for _, m := range h.HintUints("magic") {
			if k%7 == 0 {
				n.ProtocolMagic = uint32(m)
			}
		}
		c := cliNode(h, n)
		a := addr(h)
		x, _, _ := anyTx(h)
		cli.set("{}", 0)
		ops := []struct {
			name string
			run  func()
			args []string
		}{
			{"UTXOs", func() { c.UTXOs(a) }, []string{"query", "utxo", "--address", a.String()}},
			{"QueryTip", func() { c.QueryTip() }, []string{"query", "tip"}},
			{"ProtocolParameters", func() { c.ProtocolParameters() }, []string{"query", "protocol-parameters"}},
			{"SubmitTx", func() { c.SubmitTx(x) }, []string{"transaction", "submit", "--tx-file"}},
		}
		for _, o := range ops {
			cli.set("{}", h.R.Intn(2))
			id := fmt.Sprintf("cardano-cli %s on network id %d magic %d", o.name, n.NetworkId, n.ProtocolMagic)
			h.Case(id, func() {
				o.run()
				cs := cli.calls()
				if len(cs) == 0 {
					h.Fail("the command was not run", id)
				}
				for _, got := range cs {
					want := append([]string{}, o.args...)
					if o.name == "SubmitTx" && len(got) > 3 {
						want = append(want, got[3])
					}
					want = append(want, flag(n)...)
					if !eq(got, want) {
						h.Fail(fmt.Sprintf("arguments %q, expected %q", got, want), id)
					}
				}
			})
		}
	}
	for k := 0; k < h.N(12) && !h.Done(); k++ {
		n := nets(h)
		p := "project" + hex.EncodeToString(h.Bytes(4))
		b := node.NewBlockfrostClient(p, n)
		a := addr(h)
		x, _, _ := anyTx(h)
		ops := []struct {
			name, method, path string
			run                func()
		}{
			{"UTXOs", "GET", "/api/v0/addresses/" + a.String() + "/utxos", func() { b.UTXOs(a) }},
			{"QueryTip", "GET", "/api/v0/blocks/latest", func() { b.QueryTip() }},
			{"ProtocolParameters", "GET", "/api/v0/epochs/latest/parameters", func() { b.ProtocolParameters() }},
			{"SubmitTx", "POST", "/api/v0/tx/submit", func() { b.SubmitTx(x) }},
		}
		for _, o := range ops {
			bf.reset(200, "{}")
			id := fmt.Sprintf("Blockfrost %s on network id %d", o.name, n.NetworkId)
			h.Case(id, func() {
				o.run()
				rs := bf.got()
				if len(rs) == 0 {
					h.Fail("no request was made", id)
				}
				for _, r := range rs {
					if r.host != host(n) || r.method != o.method || r.path != o.path || r.header.Get("project_id") != p {
						h.Fail(fmt.Sprintf("request %s https://%s%s (project %q)", r.method, r.host, r.path, r.header.Get("project_id")), id)
					}
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C25
type utxo struct {
	hash []byte
	ix   uint64
	am   uint64
}

func randUtxos(h *vh.H) (r []utxo) {
	n := h.R.Intn(6)
	if h.R.Intn(6) == 0 {
		n = 40 + h.R.Intn(60)
	}
	for i := 0; i < n; i++ {
		ix := uint64(h.R.Intn(4))
		if h.R.Intn(3) == 0 {
			ix = uint64(uint16(h.Num()))
		}
		r = append(r, utxo{h.Bytes(32), ix, h.Num()})
		if i > 0 && h.R.Intn(6) == 0 { // the same transaction, or the same UTXO, again
			r[i].hash = r[i-1].hash
			if h.R.Intn(2) == 0 {
				r[i].ix = r[i-1].ix
			}
		}
	}
	return
}

const header = "                           TxHash                                 TxIx        Amount\n" +
	"--------------------------------------------------------------------------------------\n"

func line(h *vh.H, hash, ix, am string) string {
	s := fmt.Sprintf("%s     %s        %s lovelace", hash, ix, am)
	for i := h.R.Intn(3); i > 0; i-- {
		s += fmt.Sprintf(" + %d %s.%s", h.Num(), hex.EncodeToString(h.Bytes(28)), hex.EncodeToString(h.Bytes(1+h.R.Intn(5))))
	}
	switch h.R.Intn(5) {
	case 0, 1:
		s += " + TxOutDatumNone"
	case 2:
		s += fmt.Sprintf(" + TxOutDatumHash ScriptDataInBabbageEra \"%x\"", h.Bytes(32))
	case 3:
		s += fmt.Sprintf(" + %d", h.Num())
	}
	return s + "\n"
}

func checkList(h *vh.H, id string, got []tx.TxInput, err error, want []utxo) {
	if err != nil {
		h.Fail(fmt.Sprintf("error %v for a well-formed list", err), id)
		return
	}
	if len(got) != len(want) {
		h.Fail(fmt.Sprintf("%d inputs for %d UTXOs", len(got), len(want)), id)
		return
	}
	for i, u := range want {
		g := got[i]
		if !bytes.Equal(g.TxHash, u.hash) || uint64(g.Index) != u.ix || uint64(g.Amount) != u.am {
			h.Fail(fmt.Sprintf("input %d is %x#%d with %d, reported %x#%d with %d", i, g.TxHash, g.Index, g.Amount, u.hash, u.ix, u.am), id)
			return
		}
	}
}

type amount struct {
	Unit     string `json:"unit"`
	Quantity string `json:"quantity"`
}

type bfUtxo struct {
	TxHash string          `json:"tx_hash"`
	TxIx   json.RawMessage `json:"tx_index"`
	Ix     json.RawMessage `json:"output_index"`
	Amount []amount        `json:"amount"`
	Block  string          `json:"block"`
}

func bfList(h *vh.H, us []utxo) (r []bfUtxo) {
	r = []bfUtxo{}
	for _, u := range us {
		as := []amount{{"lovelace", strconv.FormatUint(u.am, 10)}}
		for i := h.R.Intn(4); i > 0; i-- {
			q := strconv.FormatUint(h.Num(), 10)
			if h.R.Intn(4) == 0 {
				q += "00000000000000000000000"
			}
			o := amount{hex.EncodeToString(h.Bytes(28 + h.R.Intn(5))), q}
			if h.R.Intn(2) == 0 {
				as = append(as, o)
			} else {
				as = append([]amount{o}, as...)
			}
		}
		r = append(r, bfUtxo{hex.EncodeToString(u.hash), json.RawMessage("7"), json.RawMessage(strconv.FormatUint(u.ix, 10)), as, "00"})
	}
	return
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

var badNums = []string{"", "-1", "x", "1x", "0x1", "1.5", "18446744073709551616", "99999999999999999999999", "1e3", "\u0661", "1_0"}

func TestC25(t *testing.T) {
	h := vh.New(t, "C25")
	for k := 0; k < h.N(120) && !h.Done(); k++ {
		n := nets(h)
		us := randUtxos(h)
		if k < 2 {
			us = []utxo{{h.Bytes(32), 65535, 1<<64 - 1}, {h.Bytes(32), 32768, 1 << 63}, {h.Bytes(32), 256, 1<<53 + 1}}[:1+2*k]
		}
		a := addr(h)
		out := header
		for _, u := range us {
			out += line(h, hex.EncodeToString(u.hash), strconv.FormatUint(u.ix, 10), strconv.FormatUint(u.am, 10))
		}
		id := "cardano-cli output " + short(out)
		h.Case(id, func() {
			cli.set(out, 0)
			got, err := cliNode(h, n).UTXOs(a)
			checkList(h, id, got, err, us)
			cs := cli.calls()
			if len(cs) != 1 || len(cs[0]) < 4 || !eq(cs[0][:4], []string{"query", "utxo", "--address", a.String()}) {
				h.Fail(fmt.Sprintf("asked %q for address %s", cs, a), id)
			}
			cli.set(out, 1+h.R.Intn(3))
			if _, err := cliNode(h, n).UTXOs(a); err == nil {
				h.Fail("no error from a failing command", id)
			}
		})
		// one malformed line
		if len(us) > 0 {
			b := h.R.Intn(len(us))
			out := header
			for i, u := range us {
				hs, ix, am := hex.EncodeToString(u.hash), strconv.FormatUint(u.ix, 10), strconv.FormatUint(u.am, 10)
				if i != b {
					out += line(h, hs, ix, am)
					continue
				}
				bad := badNums[1+h.R.Intn(len(badNums)-1)]
				switch h.R.Intn(5) {
				case 0:
					out += "\n"
				case 1:
					out += hs + "\n"
				case 2:
					out += hs + "   " + ix + "\n"
				case 3:
					if h.R.Intn(2) == 0 {
						bad = strconv.Itoa(65536 + h.R.Intn(3)*65536)
					}
					out += line(h, hs, bad, am)
				default:
					out += line(h, hs, ix, bad)
				}
			}
			id := "cardano-cli output " + short(out)
			h.Case(id, func() {
				cli.set(out, 0)
				if got, err := cliNode(h, n).UTXOs(a); err == nil {
					h.Fail(fmt.Sprintf("no error for a malformed line, %d inputs", len(got)), id)
				}
			})
		}
		for _, out := range []string{"", "\n", "\n\n", header, header[:20], " ", "a b c\nd e f\n"} {
			if k > 3 {
				break
			}
			id := fmt.Sprintf("cardano-cli output %q", out)
			h.Case(id, func() {
				cli.set(out, 0)
				if got, _ := cliNode(h, n).UTXOs(a); len(got) != 0 {
					h.Fail(fmt.Sprintf("%d inputs", len(got)), id)
				}
			})
		}
	}
	for k := 0; k < h.N(60) && !h.Done(); k++ {
		n := nets(h)
		us := randUtxos(h)
		if k < 2 {
			us = []utxo{{h.Bytes(32), 65535, 1<<64 - 1}, {h.Bytes(32), 32768, 1 << 63}, {h.Bytes(32), 256, 1<<53 + 1}}[:1+2*k]
		}
		a := addr(h)
		l := bfList(h, us)
		id := "Blockfrost answer " + short(js(l))
		h.Case(id, func() {
			bf.reset(200, js(l))
			got, err := node.NewBlockfrostClient("p", n).UTXOs(a)
			checkList(h, id, got, err, us)
			rs := bf.got()
			if len(rs) != 1 || rs[0].path != "/api/v0/addresses/"+a.String()+"/utxos" {
				h.Fail(fmt.Sprintf("asked %v for address %s", rs, a), id)
			}
		})
		if len(us) > 0 {
			b := h.R.Intn(len(us))
			bad := badNums[h.R.Intn(len(badNums))]
			if h.R.Intn(3) == 0 {
				l[b].Ix = json.RawMessage([]string{"-1", "65536", "131072", "-65535", "4294967296"}[h.R.Intn(5)])
			} else {
				for i := range l[b].Amount {
					if l[b].Amount[i].Unit == "lovelace" {
						l[b].Amount[i].Quantity = bad
					}
				}
			}
			id := "Blockfrost answer " + short(js(l))
			h.Case(id, func() {
				bf.reset(200, js(l))
				if got, err := node.NewBlockfrostClient("p", n).UTXOs(a); err == nil {
					h.Fail(fmt.Sprintf("no error for a malformed UTXO, %d inputs", len(got)), id)
				}
			})
		}
		if k < 8 {
			for _, x := range []struct {
				st   int
				body string
			}{{403, `{"status_code":403,"error":"Forbidden","message":"x"}`}, {404, js(l)}, {200, "["}, {200, "{}"}, {200, ""}, {418, "[]"}} {
				id := fmt.Sprintf("Blockfrost status %d, answer %s", x.st, short(x.body))
				h.Case(id, func() {
					bf.reset(x.st, x.body)
					if _, err := node.NewBlockfrostClient("p", n).UTXOs(a); err == nil {
						h.Fail("no error from a failing backend", id)
					}
				})
			}
		}
	}
}

// ---------------------------------------------------------------- C26
func TestC26(t *testing.T) {
	h := vh.New(t, "C26")
	for k := 0; k < h.N(120) && !h.Done(); k++ {
		n := nets(h)
		x, b, id := anyTx(h)
		h.Case("cardano-cli "+id, func() {
			cli.set("Transaction successfully submitted.\n", 0)
			if _, err := cliNode(h, n).SubmitTx(x); err != nil {
				h.Fail(fmt.Sprintf("cardano-cli: error %v", err), id)
			}
			f, ok := cli.txFile()
			if len(cli.calls()) != 1 || !ok {
				h.Fail(fmt.Sprintf("cardano-cli: calls %q, file readable %v", cli.calls(), ok), id)
				return
			}
			var d map[string]interface{}
			if err := json.Unmarshal(f, &d); err != nil || d["cborHex"] != hex.EncodeToString(b) {
				h.Fail("cardano-cli: the file given to the command is "+short(string(f)), id)
			}
			cli.set("x", 1+h.R.Intn(200))
			if _, err := cliNode(h, n).SubmitTx(x); err == nil {
				h.Fail("cardano-cli: no error from a failing command", id)
			}
			if c, _ := x.Bytes(); !bytes.Equal(b, c) {
				h.Fail("the transaction of the caller changed", id)
			}
		})
		h.Case("Blockfrost "+id, func() {
			bf.reset(200, `"`+strings.Repeat("ab", 32)+`"`)
			if _, err := node.NewBlockfrostClient("p", n).SubmitTx(x); err != nil {
				h.Fail(fmt.Sprintf("Blockfrost: error %v", err), id)
			}
			rs := bf.got()
			if len(rs) != 1 || rs[0].method != "POST" || rs[0].path != "/api/v0/tx/submit" || !bytes.Equal(rs[0].body, b) ||
				rs[0].header.Get("Content-Type") != "application/cbor" {
				h.Fail(fmt.Sprintf("Blockfrost: %d requests: %s", len(rs), short(fmt.Sprintf("%v", rs))), id)
			}
			st := []int{400, 401, 402, 403, 404, 405, 418, 425, 429, 500, 502, 503, 504, 201, 202, 204, 299, 300, 304, 199 + 7}[h.R.Intn(20)]
			body := []string{"", "error", `{"error":"x"}`, `"` + strings.Repeat("ab", 32) + `"`}[h.R.Intn(4)]
			if st == 204 || st == 304 {
				body = ""
			}
			bf.reset(st, body)
			if _, err := node.NewBlockfrostClient("p", n).SubmitTx(x); err == nil {
				h.Fail(fmt.Sprintf("Blockfrost: no error for status %d with answer %q", st, body), id)
			}
			if k%5 == 0 {
				bf.reset(200, "x")
				bf.drop = true
				if _, err := node.NewBlockfrostClient("p", n).SubmitTx(x); err == nil {
					h.Fail("Blockfrost: no error from a connection that breaks before the answer", id)
				}
				bf.reset(200, "x")
				bf.cut = true
				if _, err := node.NewBlockfrostClient("p", n).SubmitTx(x); err == nil {
					h.Fail("Blockfrost: no error from a connection that breaks within the answer", id)
				}
			}
		})
		if k%6 == 0 {
			x.Metadata = make(chan int)
			h.Case("not serializable "+id, func() {
				cli.set("ok", 0)
				bf.reset(200, "ok")
				if _, err := cliNode(h, n).SubmitTx(x); err == nil {
					h.Fail("cardano-cli: no error when the transaction cannot be serialized", id)
				}
				if _, err := node.NewBlockfrostClient("p", n).SubmitTx(x); err == nil {
					h.Fail("Blockfrost: no error when the transaction cannot be serialized", id)
				}
			})
		}
	}
	h.Case("command that does not exist", func() {
		x, _, id := anyTx(h)
		if _, err := node.NewCardanoCliNode(network.TestNet(), filepath.Join(scratch, "nothing")).SubmitTx(x); err == nil {
			h.Fail("no error when the command does not exist", id)
		}
	})
}

// ---------------------------------------------------------------- C27
func perm(h *vh.H, parts []string) string {
	h.R.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return "{" + strings.Join(parts, ",") + "}"
}

func TestC27(t *testing.T) {
	h := vh.New(t, "C27")
	file := filepath.Join(scratch, "protocol.json")
	for k := 0; k < h.N(80) && !h.Done(); k++ {
		n := nets(h)
		p := protocol.Protocol{TxFeePerByte: uint(h.Num()), TxFeeFixed: uint(h.Num()), MaxTxSize: uint(h.Num()), MinUTXOValue: uint(h.Num()),
			ProtocolVersion: protocol.ProtocolVersion{Major: uint8(h.R.Intn(256)), Minor: uint8(h.R.Intn(256))}}
		doc := perm(h, []string{fmt.Sprintf(`"txFeePerByte": %d`, p.TxFeePerByte), fmt.Sprintf(`"txFeeFixed":%d`, p.TxFeeFixed),
			fmt.Sprintf(`"maxTxSize":%d`, p.MaxTxSize), fmt.Sprintf(`"minUTxOValue":%d`, p.MinUTXOValue),
			`"protocolVersion":` + perm(h, []string{fmt.Sprintf(`"major":%d`, p.ProtocolVersion.Major), fmt.Sprintf(`"minor":%d`, p.ProtocolVersion.Minor)}),
			`"maxBlockBodySize":65536`, `"stakePoolDeposit":500000000`, `"maxBlockHeaderSize":1100`, `"monetaryExpansion":3.0e-3`, `"extraPraosEntropy":null`})
		id := "parameters " + doc
		h.Case(id, func() {
			os.WriteFile(file, []byte(doc), 0o644)
			q, err := protocol.LoadProtocol(file)
			if err != nil || q == nil || *q != p {
				h.Fail(fmt.Sprintf("LoadProtocol gives %+v, %v", q, err), id)
			}
			cli.set(doc+"\n", 0)
			r, err := cliNode(h, n).ProtocolParameters()
			if err != nil || r != p {
				h.Fail(fmt.Sprintf("cardano-cli gives %+v, %v", r, err), id)
			}
			cli.set(doc+"\n", 1)
			if _, err := cliNode(h, n).ProtocolParameters(); err == nil {
				h.Fail("no error from a failing command", id)
			}
		})
		// Blockfrost has signed numbers
		p.TxFeePerByte, p.TxFeeFixed, p.MaxTxSize = p.TxFeePerByte>>1, p.TxFeeFixed>>1, p.MaxTxSize>>1
		bd := perm(h, []string{fmt.Sprintf(`"min_fee_a":%d`, p.TxFeePerByte), fmt.Sprintf(`"min_fee_b":%d`, p.TxFeeFixed),
			fmt.Sprintf(`"max_tx_size":%d`, p.MaxTxSize), fmt.Sprintf(`"min_utxo":"%d"`, p.MinUTXOValue),
			fmt.Sprintf(`"protocol_major_ver":%d`, p.ProtocolVersion.Major), fmt.Sprintf(`"protocol_minor_ver":%d`, p.ProtocolVersion.Minor),
			`"epoch":225`, `"max_block_size":65536`, `"max_block_header_size":1100`, `"key_deposit":"2000000"`, `"pool_deposit":"500000000"`,
			`"min_pool_cost":"340000000"`, `"n_opt":150`, `"e_max":18`})
		bid := "Blockfrost parameters " + bd
		h.Case(bid, func() {
			bf.reset(200, bd)
			r, err := node.NewBlockfrostClient("p", n).ProtocolParameters()
			if err != nil || r != p {
				h.Fail(fmt.Sprintf("Blockfrost gives %+v, %v", r, err), bid)
			}
		})
		bad := badNums[h.R.Intn(len(badNums))]
		bid2 := "Blockfrost parameters with min_utxo " + bad
		h.Case(bid2, func() {
			bf.reset(200, strings.Replace(bd, fmt.Sprintf(`"min_utxo":"%d"`, p.MinUTXOValue), fmt.Sprintf(`"min_utxo":"%s"`, bad), 1))
			if r, err := node.NewBlockfrostClient("p", n).ProtocolParameters(); err == nil {
				h.Fail(fmt.Sprintf("no error: %+v", r), bid2)
			}
		})
		// tip
		tip := node.NetworkTip{Slot: uint(h.Num()), Epoch: uint(h.Num()), Block: uint(h.Num())}
		td := perm(h, []string{fmt.Sprintf(`"slot":%d`, tip.Slot), fmt.Sprintf(`"epoch":%d`, tip.Epoch), fmt.Sprintf(`"block":%d`, tip.Block),
			`"hash":"00ff"`, `"era":"Babbage"`, `"syncProgress":"100.00"`})
		tid := "tip " + td
		h.Case(tid, func() {
			cli.set(td, 0)
			r, err := cliNode(h, n).QueryTip()
			if err != nil || r != tip {
				h.Fail(fmt.Sprintf("cardano-cli gives %+v, %v", r, err), tid)
			}
			cli.set(td, 3)
			if _, err := cliNode(h, n).QueryTip(); err == nil {
				h.Fail("no error from a failing command", tid)
			}
			tip.Slot, tip.Epoch, tip.Block = tip.Slot>>1, tip.Epoch>>1, tip.Block>>1
			bf.reset(200, perm(h, []string{fmt.Sprintf(`"slot":%d`, tip.Slot), fmt.Sprintf(`"epoch":%d`, tip.Epoch), fmt.Sprintf(`"height":%d`, tip.Block),
				`"epoch_slot":12`, `"time":77`, `"size":3`, `"tx_count":5`, `"confirmations":9`}))
			r, err = node.NewBlockfrostClient("p", n).QueryTip()
			if err != nil || r != tip {
				h.Fail(fmt.Sprintf("Blockfrost gives %+v, %v", r, err), tid)
			}
		})
		if k < 3 {
			for _, d := range []string{"", "{", "[]", "x", `{"slot":-1,"txFeePerByte":-1}`, `{"slot":"a","txFeePerByte":"a"}`, `{"slot":1.5,"txFeePerByte":1.5}`,
				`{"slot":18446744073709551616,"txFeePerByte":18446744073709551616}`, "{} x", `{"slot":1,"txFeePerByte":1`} {
				id := fmt.Sprintf("malformed source %q", d)
				h.Case(id, func() {
					os.WriteFile(file, []byte(d), 0o644)
					if q, err := protocol.LoadProtocol(file); err == nil {
						h.Fail(fmt.Sprintf("LoadProtocol: no error, %+v", q), id)
					}
					cli.set(d, 0)
					if r, err := cliNode(h, n).ProtocolParameters(); err == nil {
						h.Fail(fmt.Sprintf("cardano-cli parameters: no error, %+v", r), id)
					}
					if r, err := cliNode(h, n).QueryTip(); err == nil {
						h.Fail(fmt.Sprintf("cardano-cli tip: no error, %+v", r), id)
					}
				})
			}
			for _, x := range []struct {
				st   int
				body string
			}{{403, `{"status_code":403}`}, {404, bd}, {200, "["}, {200, ""}, {200, `{"slot":"x","min_fee_a":"x"}`}} {
				id := fmt.Sprintf("Blockfrost status %d, answer %s", x.st, short(x.body))
				h.Case(id, func() {
					bf.reset(x.st, x.body)
					if _, err := node.NewBlockfrostClient("p", n).ProtocolParameters(); err == nil {
						h.Fail("parameters: no error from a failing backend", id)
					}
					if _, err := node.NewBlockfrostClient("p", n).QueryTip(); err == nil {
						h.Fail("tip: no error from a failing backend", id)
					}
				})
			}
		}
	}
	for _, f := range []string{filepath.Join(scratch, "missing.json"), scratch, ""} {
		h.Case("file "+f, func() {
			if _, err := protocol.LoadProtocol(f); err == nil {
				h.Fail("no error for a file that cannot be read", f)
			}
		})
	}
}
