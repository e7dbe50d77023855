package main

// The work list of spec/Work.tla: names in partitions, coalesced in chunks and read in bundles, and the same with many names.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
)

func init() { drivers["work"] = workDriver }

// bundled is a connection that hands out at most so many names at once.
type bundled struct {
	db.Conn
	most uint64
}

func (b bundled) RetrieveDomainEntriesDirtyBundle(ctx context.Context, cur *db.DirtyDomainEntriesCursor, n uint64) ([]db.DomainEntryRecord, *db.DirtyDomainEntriesCursor, bool, error) {
	return b.Conn.RetrieveDomainEntriesDirtyBundle(ctx, cur, min(n, b.most))
}

type workWorld struct {
	*dbWorld
	res    *lib.Result
	parent map[common.SHA256Output]*common.SHA256Output // of certificates
	certs  map[common.SHA256Output]map[common.SHA256Output]bool
	pols   map[common.SHA256Output]map[common.SHA256Output]bool
	names  map[common.SHA256Output]string
	dirty  map[common.SHA256Output]bool
	n      int
}

const partBits = 5

// name returns a new name whose identifier lies in the given partition (any, if negative).
func (w *workWorld) name(part int) common.SHA256Output {
	for {
		w.n++
		s := fmt.Sprintf("w%d-%d.com", w.n, w.rng.Intn(1e6))
		id := common.SHA256Output(sha256.Sum256([]byte(s)))
		if part < 0 || int(id[0]>>(8-partBits)) == part {
			w.names[id] = s
			return id
		}
	}
}

func (w *workWorld) random() (r common.SHA256Output) {
	w.rng.Read(r[:])
	return
}

type workBatch struct {
	certs, ccNames, pols, pcNames []common.SHA256Output
	parents                       []*common.SHA256Output
	cc, pc                        []common.SHA256Output // certificates, policies associated with ccNames, pcNames
}

// insert stores the batch with bulk calls and marks the names given.
func (w *workWorld) insert(b *workBatch, mark []common.SHA256Output) error {
	blobs := func(ids []common.SHA256Output) (r [][]byte) {
		for _, id := range ids {
			r = append(r, append([]byte{}, id[:4]...))
		}
		return
	}
	times := make([]time.Time, len(b.certs))
	for i := range times {
		times[i] = instant(5)
	}
	c := w.conn
	if len(b.certs) > 0 {
		if err := c.UpdateCerts(bg, b.certs, b.parents, times, blobs(b.certs)); err != nil {
			return fmt.Errorf("certificates: %w", err)
		}
	}
	for i, id := range b.certs {
		w.parent[id] = b.parents[i]
	}
	if len(b.pols) > 0 {
		ts := make([]time.Time, len(b.pols))
		for i := range ts {
			ts[i] = instant(9)
		}
		if err := c.UpdatePolicies(bg, b.pols, make([]*common.SHA256Output, len(b.pols)), ts, blobs(b.pols)); err != nil {
			return fmt.Errorf("policies: %w", err)
		}
	}
	if len(mark) > 0 {
		if err := c.InsertDomainsIntoDirty(bg, mark); err != nil {
			return fmt.Errorf("marking: %w", err)
		}
		for _, id := range mark {
			w.dirty[id] = true
		}
	}
	texts := func(ids []common.SHA256Output) (r []string) {
		for _, id := range ids {
			r = append(r, w.names[id])
		}
		return
	}
	if len(b.cc) > 0 {
		if err := c.UpdateDomains(bg, b.ccNames, texts(b.ccNames)); err != nil {
			return fmt.Errorf("names: %w", err)
		}
		if err := c.UpdateDomainCerts(bg, b.ccNames, b.cc); err != nil {
			return fmt.Errorf("associations: %w", err)
		}
	}
	if len(b.pc) > 0 {
		if err := c.UpdateDomains(bg, b.pcNames, texts(b.pcNames)); err != nil {
			return fmt.Errorf("names: %w", err)
		}
		if err := c.UpdateDomainPolicies(bg, b.pcNames, b.pc); err != nil {
			return fmt.Errorf("policy associations: %w", err)
		}
	}
	add := func(m map[common.SHA256Output]map[common.SHA256Output]bool, n, x common.SHA256Output) {
		if m[n] == nil {
			m[n] = map[common.SHA256Output]bool{}
		}
		m[n][x] = true
	}
	for i, x := range b.cc {
		add(w.certs, b.ccNames[i], x)
	}
	for i, x := range b.pc {
		add(w.pols, b.pcNames[i], x)
	}
	return nil
}

// lists returns the specified lists of a name.
func (w *workWorld) lists(n common.SHA256Output) (cs, ps []byte) {
	var c, p [][]byte
	seen := map[common.SHA256Output]bool{}
	for x := range w.certs[n] {
		for q := &x; q != nil && !seen[*q]; q = w.parent[*q] {
			seen[*q] = true
			c = append(c, append([]byte{}, q[:]...))
		}
	}
	for x := range w.pols[n] {
		p = append(p, append([]byte{}, x[:]...))
	}
	return glue(c), glue(p)
}

// check compares lists and bundles with the specification, for all names given.
func (w *workWorld) checkLists(what string, rep any) bool {
	rows := map[string][2]string{}
	for _, r := range w.rows("SELECT domain_id,cert_ids,policy_ids,cert_ids_id,policy_ids_id FROM domain_payloads") {
		rows[r[0].String] = [2]string{r[1].String, r[2].String}
		for k := 1; k < 3; k++ {
			if len(r[k].String) > 0 && r[k+2].String != string(sha([]byte(r[k].String))) {
				w.res.Violate("work-list-id", what+": a list is kept under an identifier that is not its hash", rep)
				return false
			}
		}
	}
	for n := range w.names {
		cs, ps := w.lists(n)
		r := rows[string(n[:])]
		w.res.Eval(1)
		if r[0] != string(cs) || r[1] != string(ps) {
			w.res.Violate("work-lists", fmt.Sprintf("%s: %d of %d names: a list of %d certificates and %d policies is kept as one of %d and %d",
				what, len(rows), len(w.names), len(cs)/32, len(ps)/32, len(r[0])/32, len(r[1])/32), rep)
			return false
		}
	}
	return true
}

// read reads all bundles of at most max names.
func (w *workWorld) read(max uint64, rep any) bool {
	got := map[common.SHA256Output]bool{}
	bad := func(key, f string, a ...any) bool {
		w.res.Violate(key, fmt.Sprintf("reading %d names in bundles of %d: ", len(w.dirty), max)+fmt.Sprintf(f, a...), rep)
		return false
	}
	var cur *db.DirtyDomainEntriesCursor
	for k := 0; ; k++ {
		before := dump(cur)
		es, next, done, err := w.conn.RetrieveDomainEntriesDirtyBundle(bg, cur, max)
		if err != nil {
			return bad("bundle-error", "fails: %v", err)
		}
		if !bytes.Equal(before, dump(cur)) {
			return bad("bundle-cursor", "the cursor given is changed")
		}
		if uint64(len(es)) > max {
			return bad("bundle-size", "one has %d", len(es))
		}
		for _, e := range es {
			if got[e.DomainID] {
				return bad("bundle-twice", "a name is handed out twice")
			}
			if !w.dirty[e.DomainID] {
				return bad("bundle-foreign", "a name without work is handed out")
			}
			got[e.DomainID] = true
			cs, ps := w.lists(e.DomainID)
			if !bytes.Equal(e.Payload, glue(append(split32(cs), split32(ps)...))) {
				return bad("bundle-payload", "a name with %d certificates and %d policies comes with %d identifiers", len(cs)/32, len(ps)/32, len(e.Payload)/32)
			}
		}
		if done {
			if len(got) != len(w.dirty) {
				return bad("bundle-lost", "%d are handed out before the end is announced", len(got))
			}
			return true
		}
		if len(es) == 0 {
			if len(got) != len(w.dirty) {
				return bad("bundle-lost", "%d are handed out before an empty bundle", len(got))
			}
			return true
		}
		if k > 2*len(w.dirty)+3 {
			return bad("bundle-endless", "no end after %d bundles", k)
		}
		cur = next
	}
}

func dump(v any) []byte {
	b, err := json.Marshal(v)
	lib.Must(err)
	return b
}

func newWorkWorld(port int, name string, seed int64, res *lib.Result) *workWorld {
	w := &workWorld{dbWorld: newDBWorld(port, name, seed), res: res}
	w.clear()
	return w
}

func (w *workWorld) clear() {
	w.dbWorld.reset()
	w.parent, w.names = map[common.SHA256Output]*common.SHA256Output{}, map[common.SHA256Output]string{}
	w.certs, w.pols = map[common.SHA256Output]map[common.SHA256Output]bool{}, map[common.SHA256Output]map[common.SHA256Output]bool{}
	w.dirty = map[common.SHA256Output]bool{}
}

// some returns a batch with a few certificates and policies for every name given, chains included.
func (w *workWorld) some(names []common.SHA256Output, perName int) *workBatch {
	b := &workBatch{}
	for k := 0; k < 3+len(names)*perName/3; k++ {
		id := w.random()
		var p *common.SHA256Output
		if k > 2 && w.rng.Intn(4) > 0 {
			x := b.certs[w.rng.Intn(min(k, 3+k/2))]
			p = &x
		}
		b.certs, b.parents = append(b.certs, id), append(b.parents, p)
		if k%3 == 0 {
			b.pols = append(b.pols, w.random())
		}
	}
	for _, n := range names {
		for k := w.rng.Intn(perName + 1); k > 0; k-- {
			b.cc, b.ccNames = append(b.cc, b.certs[w.rng.Intn(len(b.certs))]), append(b.ccNames, n)
		}
		if w.rng.Intn(2) == 0 {
			b.pc, b.pcNames = append(b.pc, b.pols[w.rng.Intn(len(b.pols))]), append(b.pcNames, n)
		}
	}
	return b
}

func (w *workWorld) small(size []int, chunk int, max uint64, rep any) {
	w.clear()
	parts := w.rng.Perm(1 << partBits)
	var names []common.SHA256Output
	for k, n := range size {
		for ; n > 0; n-- {
			names = append(names, w.name(parts[k]))
		}
	}
	if err := w.insert(w.some(names, 3), names); err != nil {
		w.res.Violate("work-insert", err.Error(), rep)
		return
	}
	if w.rng.Intn(2) == 0 { // in the chunks of the case, partition by partition, by the procedure of the schema
		c, err := w.raw.Conn(bg)
		lib.Must(err)
		for p := 0; p < 1<<partBits; p++ {
			for n, k := int64(1), 0; n > 0; k++ {
				_, err := c.ExecContext(bg, "CALL calc_dirty_domains(?, ?, @n)", p, chunk)
				if err == nil {
					err = c.QueryRowContext(bg, "SELECT @n").Scan(&n)
				}
				if err != nil || k > len(names)+1 {
					w.res.Violate("work-chunk", fmt.Sprintf("coalescing in chunks of %d: %v (%d)", chunk, err, k), rep)
					c.Close()
					return
				}
			}
		}
		c.Close()
	} else if err := guardErr(func() error { return updater.CoalescePayloadsForDirtyDomains(bg, w.conn) }); err != nil {
		w.res.Violate("work-coalesce", err.Error(), rep)
		return
	}
	if len(names) > 0 && w.rng.Intn(2) == 0 { // more arrives for names that are done, before they are read
		again := names[:1+w.rng.Intn(len(names))]
		if !w.checkLists("coalescing", rep) {
			return
		}
		if err := w.insert(w.some(again, 2), again); err != nil {
			w.res.Violate("work-insert", err.Error(), rep)
			return
		}
		if err := guardErr(func() error { return updater.CoalescePayloadsForDirtyDomains(bg, w.conn) }); err != nil {
			w.res.Violate("work-coalesce", err.Error(), rep)
			return
		}
	}
	if left := len(w.rows("SELECT domain_id FROM dirty WHERE coalesced=FALSE")); left > 0 {
		w.res.Violate("work-left", fmt.Sprintf("%d names are not coalesced", left), rep)
		return
	}
	if w.checkLists("coalescing", rep) {
		w.read(max, rep)
	}
}

// large: more names in a partition than a chunk has, names with very long lists, and trees made of several bundles.
func (w *workWorld) large(round int) {
	rng := w.rng
	w.clear()
	parts := rng.Perm(1 << partBits)
	var names []common.SHA256Output
	for k, n := range []int{1024 + 1100*rng.Intn(2) + rng.Intn(40), 1023 + rng.Intn(4), 1 + rng.Intn(600)} {
		for ; n > 0; n-- {
			names = append(names, w.name(parts[k]))
		}
	}
	for k := 0; k < 200; k++ {
		names = append(names, w.name(-1))
	}
	rng.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	b := w.some(names, 2)
	heavy := []common.SHA256Output{names[0], names[1]}
	for k := 0; k < 2300; k++ { // lists of more than 64 KiB
		id, pid := w.random(), w.random()
		var p *common.SHA256Output
		if k%5 == 0 {
			p = &b.certs[rng.Intn(len(b.certs))]
		}
		b.certs, b.parents = append(b.certs, id), append(b.parents, p)
		b.cc, b.ccNames = append(b.cc, id), append(b.ccNames, heavy[0])
		b.pols = append(b.pols, pid)
		b.pc, b.pcNames = append(b.pc, pid), append(b.pcNames, heavy[1])
	}
	chain := &b.certs[len(b.certs)-1] // and a long chain
	for k := 0; k < 60; k++ {
		x := w.random()
		b.certs, b.parents = append(b.certs, x), append(b.parents, chain)
		chain = &x
	}
	b.cc, b.ccNames = append(b.cc, *chain), append(b.ccNames, names[2])
	rep := map[string]any{"round": round, "names": len(names), "seed": lib.Seed()}
	bad := func(key string, err error) bool {
		if err != nil {
			w.res.Violate(key, err.Error(), rep)
		}
		return err != nil
	}
	if bad("work-insert", guardErr(func() error { return w.insert(b, names) })) {
		return
	}
	for step := 0; step < 3; step++ {
		rep["step"] = step
		if bad("work-coalesce", guardErr(func() error { return updater.CoalescePayloadsForDirtyDomains(bg, w.conn) })) {
			return
		}
		if n, err := w.conn.DirtyCount(bg); err != nil || int(n) != len(w.dirty) {
			w.res.Violate("work-count", fmt.Sprintf("%d names are counted as having work of %d (%v)", n, len(w.dirty), err), rep)
			return
		}
		if n := len(w.rows("SELECT domain_id FROM dirty WHERE coalesced=FALSE")); n != 0 {
			w.res.Violate("work-left", fmt.Sprintf("%d names are not coalesced", n), rep)
			return
		}
		if !w.checkLists("coalescing many names", rep) || !w.read(uint64([]int{1 << 20, 1000, len(w.dirty), 1024, 700}[rng.Intn(5)]), rep) {
			return
		}
		most := uint64([]int{1 << 20, len(w.dirty), 1 + len(w.dirty)/2, 512, 300}[(step+round)%5])
		rep["bundle"] = most
		if bad("work-update", guardErr(func() error { return updater.UpdateSMT(bg, bundled{w.conn, most}) })) {
			return
		}
		kv := map[[32]byte][]byte{}
		for n := range w.names {
			if cs, ps := w.lists(n); len(cs)+len(ps) > 0 {
				kv[n] = sha(glue(append(split32(cs), split32(ps)...)))
			}
		}
		id, err := w.conn.LoadRoot(bg)
		if bad("work-root", err) {
			return
		}
		var root []byte
		if id != nil {
			root = id[:]
		}
		if !rootEq(root, canonicalRoot(kv)) {
			w.res.Violate("work-root", fmt.Sprintf("the root after updating %d names in bundles of %d is not that of the lists", len(w.dirty), most), rep)
			return
		}
		if bad("work-proof", guardErr(func() error {
			t, err := trie.NewTrie(root, common.SHA256Hash, w.conn)
			if err != nil {
				return err
			}
			for k := 0; k < 60; k++ {
				n := names[rng.Intn(len(names))]
				path, inc, pk, pv, err := t.MerkleProof(bg, n[:])
				if err != nil {
					return err
				}
				if v := kv[n]; v != nil && (!inc || !bytes.Equal(pv, v) || !trie.VerifyInclusion(root, path, n[:], pv)) ||
					v == nil && (inc || !trie.VerifyNonInclusion(root, path, n[:], pv, pk)) {
					return fmt.Errorf("a name is not proven with its lists")
				}
			}
			return nil
		})) {
			return
		}
		if bad("work-clean", w.conn.CleanupDirty(bg)) {
			return
		}
		w.dirty = map[common.SHA256Output]bool{}
		w.res.Trace(1)
		switch step {
		case 0: // more for some names
			some := names[rng.Intn(len(names)-50):]
			if bad("work-insert", guardErr(func() error { return w.insert(w.some(some, 1), some) })) {
				return
			}
		case 1: // all certificates expire, all that have some have work
			if bad("work-prune", w.conn.PruneCerts(bg, instant(6))) {
				return
			}
			for n := range w.certs {
				w.dirty[n] = true
			}
			w.certs = map[common.SHA256Output]map[common.SHA256Output]bool{}
		}
	}
}

func workDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	port := fs.Int("port", 0, "")
	file := fs.String("cases", "", "")
	rounds := fs.Int("rounds", 1, "")
	nw := fs.Int("worlds", 6, "")
	fs.Parse(args)
	defer quiet()()
	type wcase struct {
		Size       []int
		Chunk, Max int
	}
	var cases []wcase
	lib.ReadLines(*file, func(b []byte) {
		var c wcase
		lib.Must(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	rng := rand.New(rand.NewSource(lib.Seed()))
	rng.Shuffle(len(cases), func(a, b int) { cases[a], cases[b] = cases[b], cases[a] })
	jobs := make(chan func(w *workWorld))
	var wg sync.WaitGroup
	for i := 0; i < *nw; i++ {
		w := newWorkWorld(*port, fmt.Sprintf("verif_w%d", i), lib.Seed()*100+int64(i), res)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.close()
			for j := range jobs {
				if res.NumViolations() < 6 {
					j(w)
				}
			}
		}()
	}
	for r := 0; r < *rounds; r++ {
		jobs <- func(w *workWorld) { w.large(r) }
	}
	for _, c := range cases {
		jobs <- func(w *workWorld) { w.small(c.Size, c.Chunk, uint64(c.Max), c); res.Trace(1) }
	}
	close(jobs)
	wg.Wait()
}
