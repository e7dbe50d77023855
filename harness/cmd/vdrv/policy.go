package main

// Decisions of spec/Constraints.tla and spec/Attributes.tla presented to the real functions.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
)

func init() {
	drivers["constraints"] = constraintsDriver
	drivers["attributes"] = attributesDriver
}

func labelTexts(file string) func(n []string) string {
	label := map[string]string{}
	b, err := os.ReadFile(file)
	lib.Must(err)
	lib.Must(json.Unmarshal(b, &label))
	return func(n []string) string {
		s := make([]string, len(n))
		for i, l := range n {
			s[i] = label[l]
		}
		return strings.Join(s, ".")
	}
}

func constraintsDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("constraints", flag.ExitOnError)
	text := fs.String("text", "", "")
	decisions := fs.String("decisions", "", "")
	lib.Must(fs.Parse(args))
	str := labelTexts(*text)
	rng := rand.New(rand.NewSource(lib.Seed()))
	type cert struct {
		Nb, Na int
		Dom    []string
	}
	// instants with increasing distances; the same instant may be written in any time zone
	steps := []time.Duration{0, 1, time.Microsecond, time.Second, 26 * time.Hour, 90 * 24 * time.Hour, 30 * 365 * 24 * time.Hour}
	mk := func(c cert, at func(int) time.Time) *common.PolicyCertificate {
		p := common.NewPolicyCertificate(0, rng.Intn(9), str(c.Dom), at(c.Nb), at(c.Na), rng.Intn(2) == 0, rng.Intn(2) == 0, nil, common.RSA, common.SHA256, at(1+rng.Intn(5)),
			common.PolicyAttributes{}, nil, nil, nil, nil, nil)
		return p
	}
	lib.ReadLines(*decisions, func(line []byte) {
		var d struct {
			I, C cert
			Ok   bool
		}
		lib.Must(json.Unmarshal(line, &d))
		off := 1 + rng.Intn(len(steps)-1)
		base := time.Date(2020+rng.Intn(20), 3, 1, 23, 59, 59, 999999999, time.UTC)
		at := func(tick int) time.Time {
			t := base
			for k := 1; k < tick; k++ {
				t = t.Add(steps[1+(off+k)%(len(steps)-1)])
			}
			return t.In(time.FixedZone("z", (rng.Intn(25)-12)*3600))
		}
		i, c := mk(d.I, at), mk(d.C, at)
		ci, cc := *i, *c
		replay := map[string]any{"issuer": i, "child": c, "accept": d.Ok}
		res.Eval(1)
		res.Trace(1)
		safely(res, "panic", "constraints", replay, func() {
			err := crypto.VerifyIssuerConstraints(i, c)
			if (err == nil) != d.Ok {
				res.Violate("decision", fmt.Sprintf("certificate for %q, valid %v to %v, under issuer for %q, valid %v to %v: accepted %v, should be %v (%v)", c.DomainField, c.NotBefore,
					c.NotAfter, i.DomainField, i.NotBefore, i.NotAfter, err == nil, d.Ok, err), replay)
			}
			if !reflect.DeepEqual(*i, ci) || !reflect.DeepEqual(*c, cc) {
				res.Violate("modified", "checking the constraints changed a certificate", replay)
			}
		})
	})
}

func attributesDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("attributes", flag.ExitOnError)
	text := fs.String("text", "", "")
	sets := fs.String("sets", "", "")
	lib.Must(fs.Parse(args))
	str := labelTexts(*text)
	rng := rand.New(rand.NewSource(lib.Seed()))
	verdicts := map[common.PolicyAttributeDomainValidityResult]string{
		common.PolicyAttributeDomainAllowed: "allowed", common.PolicyAttributeDomainDisallowed: "disallowed",
		common.PolicyAttributeDomainExcluded: "excluded", common.PolicyAttributeDomainNotApplicable: "inapplicable"}
	lib.ReadLines(*sets, func(line []byte) {
		var s struct {
			Allow, Deny, Excl, Cas []string
			Ok                     bool
			V                      []struct {
				N, D []string
				V    string
			}
		}
		lib.Must(json.Unmarshal(line, &s))
		list := func(l []string) []string {
			if len(l) == 0 && rng.Intn(2) == 0 {
				return nil
			}
			r := []string{}
			for _, x := range l {
				r = append(r, str([]string{x}))
			}
			return r
		}
		a := common.PolicyAttributes{AllowedCAs: append([]string{}, s.Cas...), AllowedSubdomains: list(s.Allow), DisallowedSubdomains: list(s.Deny), ExcludedSubdomains: list(s.Excl)}
		before, _ := json.Marshal(a)
		res.Trace(1)
		safely(res, "panic", fmt.Sprintf("attributes %s", before), a, func() {
			res.Eval(1)
			if err := a.ValidateAttributes(); (err == nil) != s.Ok {
				res.Violate("well-formed", fmt.Sprintf("attributes %s are accepted: %v, should be: %v", before, err == nil, s.Ok), a)
			}
			for _, q := range s.V {
				d, n := str(q.D), str(q.N)
				for k := 0; k < 2; k++ {
					if rng.Intn(3) == 0 {
						d += "."
					}
					if rng.Intn(3) == 0 {
						n += "."
					}
					res.Eval(1)
					if got := verdicts[a.CheckDomainValidity(d, n)]; got != q.V {
						res.Violate("verdict", fmt.Sprintf("name %q under a policy of %q with %s is %s, should be %s", n, d, before, got, q.V), map[string]any{"attributes": a, "domain": d, "name": n})
					}
					d, n = str(q.D), str(q.N)
				}
			}
			if after, _ := json.Marshal(a); string(after) != string(before) {
				res.Violate("modified", fmt.Sprintf("attributes %s became %s", before, after), a)
			}
		})
	})
}
