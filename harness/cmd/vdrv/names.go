package main

// Names of spec/Names.tla presented to the real functions.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func init() { drivers["names"] = namesDriver }

func namesDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("names", flag.ExitOnError)
	text := fs.String("text", "", "")
	names := fs.String("names", "", "")
	sets := fs.String("sets", "", "")
	lib.Must(fs.Parse(args))
	rng := rand.New(rand.NewSource(lib.Seed()))
	label := map[string]string{}
	b, err := os.ReadFile(*text)
	lib.Must(err)
	lib.Must(json.Unmarshal(b, &label))
	str := func(n []string) string {
		s := make([]string, len(n))
		for i, l := range n {
			s[i] = label[l]
		}
		return strings.Join(s, ".")
	}
	all := func(ns [][]string) []string {
		s := []string{}
		for _, n := range ns {
			s = append(s, str(n))
		}
		return s
	}
	if *names != "" {
		lib.ReadLines(*names, func(line []byte) {
			var c struct {
				N     []string
				Valid bool
				Chain [][]string
			}
			lib.Must(json.Unmarshal(line, &c))
			n := str(c.N)
			res.Eval(2)
			res.Trace(1)
			key := "name"
			if n != strings.ToLower(n) {
				key = "case"
			}
			replay := map[string]any{"name": n, "valid": c.Valid, "chain": all(c.Chain)}
			safely(res, "panic", "deciding about the name "+fmt.Sprintf("%q", n), replay, func() {
				if got := domain.IsValidDomain(n); got != c.Valid {
					res.Violate(key+"-valid", fmt.Sprintf("name %q is accepted: %v, should be: %v", n, got, c.Valid), replay)
				}
				got, err := domain.ParseDomainName(n)
				if err != nil {
					got = []string{}
				} else if len(got) == 0 {
					res.Violate(key+"-chain", fmt.Sprintf("name %q has no domains and no error", n), replay)
				}
				if strings.Join(got, " ") != strings.Join(all(c.Chain), " ") {
					res.Violate(key+"-chain", fmt.Sprintf("name %q belongs to %q, should be: %q (error %v)", n, got, all(c.Chain), err), replay)
				}
			})
		})
	}
	if *sets != "" {
		lib.ReadLines(*sets, func(line []byte) {
			var c struct {
				Set      [][]string
				Affected [][]string
			}
			lib.Must(json.Unmarshal(line, &c))
			in := all(c.Set)
			for k := rng.Intn(3); k > 0; k-- {
				in = append(in, in[rng.Intn(len(in))])
			}
			rng.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
			want := all(c.Affected)
			sort.Strings(want)
			replay := map[string]any{"names": in, "affected": want}
			res.Eval(2)
			res.Trace(1)
			safely(res, "panic", fmt.Sprintf("affected names of %q", in), replay, func() {
				got := domain.ExtractAffectedDomains(append([]string{}, in...))
				sort.Strings(got)
				if strings.Join(got, " ") != strings.Join(want, " ") {
					res.Violate("affected", fmt.Sprintf("names %q affect %q, should be: %q", in, got, want), replay)
				}
				// the names of a certificate: each once, whether it is the subject or an alternative name, or both
				cut := rng.Intn(len(in) + 1)
				cert := &ctx509.Certificate{DNSNames: append([]string{}, in...)}
				if cut > 0 {
					cert = &ctx509.Certificate{Subject: pkix.Name{CommonName: in[0]}, DNSNames: append([]string{}, in[cut-1:]...)}
				}
				uniq := map[string]bool{}
				for _, x := range cert.DNSNames {
					uniq[x] = true
				}
				if cert.Subject.CommonName != "" {
					uniq[cert.Subject.CommonName] = true
				}
				wantN := []string{}
				for x := range uniq {
					wantN = append(wantN, x)
				}
				sort.Strings(wantN)
				gotN := util.ExtractCertDomains(cert)
				sort.Strings(gotN)
				if strings.Join(gotN, " ") != strings.Join(wantN, " ") {
					res.Violate("cert-names", fmt.Sprintf("a certificate with subject %q and alternative names %q has names %q", cert.Subject.CommonName, cert.DNSNames, gotN), replay)
				}
			})
		})
	}
}

// safely runs f; a panic is a violation.
func safely(res *lib.Result, key, what string, replay any, f func()) {
	defer func() {
		if p := recover(); p != nil {
			res.Violate(key, fmt.Sprintf("%s: panic: %v", what, p), replay)
		}
	}()
	f()
}
