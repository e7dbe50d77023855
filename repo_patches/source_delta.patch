From fff2f2307478feb2a908eed7e734f10b2cd76fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 01/45] fix: trie: keep nodes that an update leaves unchanged
 or restores

Updating a key with its current value marked the nodes on its path for removal,
and Commit then deleted nodes of the live tree from the storage.
---
 pkg/mapserver/trie/trie.go       | 23 +++++++++++++----------
 pkg/mapserver/trie/trie_cache.go |  7 ++++++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..7c4480b 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -605,17 +605,20 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 	return h
 }
 
-// storeNode stores a batch and deletes the old node from cache
+// storeNode stores a batch and deletes the old node from cache.
+// The batch is recorded even if its hash didn't change, since the node may have been marked for
+// removal when it was traversed. Note that oldRoot may or may not carry the shortcut flag.
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node, oldNode Hash
+	copy(node[:], h)
+	copy(oldNode[:], oldRoot)
+	// record new node
+	s.db.updateUpdateNodes(node, batch)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	if node != oldNode {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..ffb5c0e 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -175,11 +175,16 @@ func (db *CacheDB) getUpdatedNodes(node common.SHA256Output) ([][]byte, bool) {
 	return val, exists
 }
 
-// updateUpdateNodes: update one node in updated nodes
+// updateUpdateNodes: update one node in updated nodes. The node is in use: if it was going to be
+// removed from the db, it no longer is.
 func (db *CacheDB) updateUpdateNodes(node common.SHA256Output, value [][]byte) {
 	db.updatedMux.Lock()
 	db.updatedNodes[node] = value
 	db.updatedMux.Unlock()
+
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
 }
 
 // deleteUpdatedNodes: remove updated nodes
-- 
2.43.0


From 8dd1d91679a4c129f215313558476cadaacb1a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 02/45] fix: trie: deleting a shortcut key in one batch with
 smaller and larger keys

The loop went on after the deletion, and appended the shortcut and all the keys
of the batch a second time.
---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 7c4480b..91058d7 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				break
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From 952f96c6ca34dffdcc60b1fabd80061345497065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 03/45] fix: trie: reject malformed and self-contradicting
 proofs

The verifiers accepted path elements, keys and values of any length, with which
parts of one node can be presented as another (e.g. in a tree with one key any
other key, or a fake absence of that very key, could be proven); they accepted
as proof of absence of a key the leaf of that same key, and they panicked on
proofs with missing elements or wrong lengths. The compressed form did not
verify for the empty tree.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 48 +++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..5789b07 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -127,8 +127,41 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 	}
 }
 
+// validAuditPath checks that the audit path could be part of a proof for a tree of HashLength bytes
+// keys: the elements are either a hash or the default leaf, and there are at most as many as bits in
+// a key. The hashes of the tree don't have any domain separation other than the length of what is
+// hashed, so elements of any other length could be crafted to present parts of a node as another one.
+func validAuditPath(ap [][]byte) bool {
+	if len(ap) > HashLength*8 {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
+// validCompressedPath checks that the compressed audit path can be decompressed to a valid one.
+func validCompressedPath(bitmap []byte, ap [][]byte, length int) bool {
+	if length < 0 || length > HashLength*8 || length > len(bitmap)*8 || !validAuditPath(ap) {
+		return false
+	}
+	inPath := 0
+	for i := 0; i < length; i++ {
+		if bitIsSet(bitmap, i) {
+			inPath++
+		}
+	}
+	return inPath == len(ap)
+}
+
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if !validAuditPath(ap) || len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -150,6 +183,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if !validAuditPath(ap) || len(key) != HashLength || bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
@@ -175,6 +211,10 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
+	if !validCompressedPath(bitmap, ap, length) ||
+		len(key) != HashLength || len(value) != HashLength {
+		return false
+	}
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
 	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
@@ -200,6 +240,14 @@ func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, lengt
 // VerifyNonInclusionC verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value, proofKey []byte) bool {
+	if len(s.Root) == 0 {
+		// nothing is included in an empty trie
+		return true
+	}
+	if !validCompressedPath(bitmap, ap, length) || len(key) != HashLength ||
+		bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
-- 
2.43.0


From 0719b19154fc7ea30b495eb01f1a972122b129e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 04/45] fix: updater: keep expirations and associations of
 certificates that partly exist

UpdateWithKeepExisting compacted identifiers, names and parents in place but not the
expirations, so that certificates were stored with the expiration of others, and it did
not associate existing certificates and policies with the names they were given with.
---
 pkg/mapserver/updater/updater.go | 52 ++++++++++++++------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..a222453 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -383,22 +383,28 @@ func UpdateWithKeepExisting(
 		return err
 	}
 
-	// For all those certificates not already present in the DB, prepare three slices: IDs,
-	// names, payloads, and parentIDs.
-	payloads := make([][]byte, 0, len(certs))
-	runWhenFalse(maskCerts, func(to, from int) {
-		certIDs[to] = certIDs[from]
-		domainNames[to] = domainNames[from]
-		parentCertIDs[to] = parentCertIDs[from]
+	// Skip those certificates already present in the DB, unless they come with names: a
+	// certificate that exists may still have to be associated with (more) names.
+	for i, names := range domainNames {
+		maskCerts[i] = maskCerts[i] && len(names) == 0
+	}
+	// Prepare new slices with the rest, as the ones of the caller are left untouched.
+	n := len(certIDs)
+	names := make([][]string, 0, n)
+	ids := make([]common.SHA256Output, 0, n)
+	parentIDs := make([]*common.SHA256Output, 0, n)
+	expirations := make([]time.Time, 0, n)
+	payloads := make([][]byte, 0, n)
+	runWhenFalse(maskCerts, func(_, from int) {
+		names = append(names, domainNames[from])
+		ids = append(ids, certIDs[from])
+		parentIDs = append(parentIDs, parentCertIDs[from])
+		expirations = append(expirations, certExpirations[from])
 		payloads = append(payloads, certs[from].Raw)
 	})
-	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
-	certIDs = certIDs[:len(payloads)]
-	domainNames = domainNames[:len(payloads)]
-	parentCertIDs = parentCertIDs[:len(payloads)]
 
-	// Update those certificates that were not in the mask.
-	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
+	// Update those certificates (existing payloads are kept).
+	err = insertCerts(ctx, conn, names, ids, parentIDs, expirations, payloads)
 	if err != nil {
 		return err
 	}
@@ -416,23 +422,9 @@ func UpdateWithKeepExisting(
 		policyIDs[i] = common.SHA256Hash32Bytes(payload)
 		policySubjects[i] = pol.Domain()
 	}
-	// Check which policies are already present in the DB.
-	maskPols, err := conn.CheckPoliciesExist(ctx, policyIDs)
-	if err != nil {
-		return err
-	}
-	n := runWhenFalse(maskPols, func(to, from int) {
-		policyIDs[to] = policyIDs[from]
-		payloads[to] = payloads[from]
-		policySubjects[to] = policySubjects[from]
-	})
-	policyIDs = policyIDs[:n]
-	payloads = payloads[:n]
-	policySubjects = policySubjects[:n]
-	// Update those policies that were not in the mask.
-	err = insertPolicies(ctx, conn, policySubjects, policyIDs, payloads)
-
-	return err
+	// Insert all the policies: those that exist may still have to be associated with their domain,
+	// and mark it as dirty, if a previous call was interrupted.
+	return insertPolicies(ctx, conn, policySubjects, policyIDs, payloads)
 }
 
 func CoalescePayloadsForDirtyDomains(ctx context.Context, conn db.Conn) error {
-- 
2.43.0


From dd7db5396d7de8cbbe18e9305391ede69c9ce0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 05/45] fix: mysql: existence checks of lists of any length

The last batch was skipped for lists whose length is a multiple of 1000, answers were cut
at the length limit of GROUP_CONCAT (1024), and their order was not guaranteed.
---
 pkg/db/mysql/certs.go    | 71 ++++++++++++++++------------------------
 pkg/db/mysql/policies.go | 48 +++++----------------------
 2 files changed, 37 insertions(+), 82 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..686654f 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -6,7 +6,6 @@ import (
 	"encoding/base64"
 	"fmt"
 	"os"
-	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -27,20 +26,13 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
-		to := i + batchSize
-		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkCertsExist(ctx, ids[from:to], presence[from:to]); err != nil {
 			return nil, err
 		}
 	}
-	// Do the last batch, if non empty.
-	from := len(ids) / batchSize * batchSize
-	to := from + len(ids)%batchSize
-	var err error
-	if to > from {
-		err = c.checkCertsExist(ctx, ids[from:to], presence[from:to])
-	}
-	return presence, err
+	return presence, nil
 }
 
 func (c *mysqlDB) UpdateCerts(
@@ -316,13 +308,17 @@ func (c *mysqlDB) PruneCerts(ctx context.Context, now time.Time) error {
 	return c.pruneCerts(ctx, now)
 }
 
-// checkCertsExist should not be called with larger than ~1000 elements, the query being used
-// may fail with a message like:
-// Error 1436 (HY000): Thread stack overrun:  1028624 bytes used of a 1048576 byte stack,
-// and 20000 bytes needed.  Use 'mysqld --thread_stack=#' to specify a bigger stack.
 func (c *mysqlDB) checkCertsExist(ctx context.Context, ids []common.SHA256Output,
 	present []bool) error {
 
+	return c.checkIDsExist(ctx, "certs", "cert_id", ids, present)
+}
+
+// checkIDsExist sets present[i] to true if ids[i] exists in the given column of the given table.
+// It should not be called with much more than batchSize elements.
+func (c *mysqlDB) checkIDsExist(ctx context.Context, table, column string,
+	ids []common.SHA256Output, present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -330,36 +326,27 @@ func (c *mysqlDB) checkCertsExist(ctx context.Context, ids []common.SHA256Output
 		data[i] = id[:]
 	}
 
-	// Prepare a query that returns a vector of bits, 1 means ID is present, 0 means is not.
-
-	// The id_placeholders list contains strings that allow an ID to be placed with a sequential
-	// number, so that the IDs are returned in the same order in the DB engine as they are present
-	// in the list parameter here.
-	id_placeholders := make([]string, len(data))
-	for i := range id_placeholders {
-		id_placeholders[i] = fmt.Sprintf("SELECT ? AS cert_id, %d AS list_seq", i)
+	str := fmt.Sprintf("SELECT %s FROM %s WHERE %s IN ", column, table, column) +
+		repeatStmt(1, len(ids))
+	rows, err := c.db.QueryContext(ctx, str, data...)
+	if err != nil {
+		return err
 	}
+	defer rows.Close()
 
-	// The query means: join two tables, one with the values I am passing as arguments (those
-	// are the ids) and the certs table, and for those that exist write a 1, otherwise a 0.
-	// Finally, group_concat all rows into just one field of type string.
-	str := "SELECT GROUP_CONCAT(presence SEPARATOR '') FROM (" +
-		"SELECT (CASE WHEN certs.cert_id IS NOT NULL THEN 1 ELSE 0 END) AS presence FROM (" +
-		"SELECT cert_id FROM(" +
-		strings.Join(id_placeholders, " UNION ALL ") +
-		") AS sorted_by_list_seq ORDER BY list_seq" +
-		") AS request LEFT JOIN ( SELECT cert_id FROM certs ) AS certs ON " +
-		"certs.cert_id = request.cert_id) AS t"
-
-	// Return slice of booleans:
-	var value string
-	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
+	existing := make(map[common.SHA256Output]struct{}, len(ids))
+	for rows.Next() {
+		var id []byte
+		if err := rows.Scan(&id); err != nil {
+			return err
+		}
+		existing[common.SHA256Output(id)] = struct{}{}
+	}
+	if err := rows.Err(); err != nil {
 		return err
 	}
-	for i, c := range value {
-		if c == '1' {
-			present[i] = true
-		}
+	for i, id := range ids {
+		_, present[i] = existing[id]
 	}
 
 	return nil
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..c07c623 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"database/sql"
 	"fmt"
-	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -19,48 +18,17 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
-	// Slice to be used in the SQL query:
-	data := make([]interface{}, len(ids))
-	for i, id := range ids {
-		id := id
-		data[i] = id[:]
-	}
-
-	// Prepare a query that returns a vector of bits, 1 means ID is present, 0 means is not.
-
-	// The id_placeholders list contains strings that allow an ID to be placed with a sequential
-	// number, so that the IDs are returned in the same order in the DB engine as they are present
-	// in the list parameter here.
-	id_placeholders := make([]string, len(data))
-	for i := range id_placeholders {
-		id_placeholders[i] = fmt.Sprintf("SELECT ? AS policy_id, %d AS list_seq", i)
-	}
+	presence := make([]bool, len(ids))
 
-	// The query means: join two tables, one with the values I am passing as arguments (those
-	// are the ids) and the policies table, and for those that exist write a 1, otherwise a 0.
-	// Finally, group_concat all rows into just one field of type string.
-	str := "SELECT GROUP_CONCAT(presence SEPARATOR '') FROM (" +
-		"SELECT (CASE WHEN policies.policy_id IS NOT NULL THEN 1 ELSE 0 END) AS presence FROM (" +
-		"SELECT policy_id FROM(" +
-		strings.Join(id_placeholders, " UNION ALL ") +
-		") AS sorted_by_list_seq ORDER BY list_seq" +
-		") AS request LEFT JOIN ( SELECT policy_id FROM policies ) AS policies ON " +
-		"policies.policy_id = request.policy_id) AS t"
-
-	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
-	var value string
-	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
-	}
-	for i, c := range value {
-		if c == '1' {
-			present[i] = true
+	// The query won't accept more than batchSize elements. Make batches.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		err := c.checkIDsExist(ctx, "policies", "policy_id", ids[from:to], presence[from:to])
+		if err != nil {
+			return nil, err
 		}
 	}
-
-	return present, nil
+	return presence, nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
-- 
2.43.0


From 3e032a8a1417dc5e8d60cbef2e7cde93cd55c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 06/45] fix: mysql: payloads of an empty list, and errors while
 reading payloads

---
 pkg/db/mysql/certs.go    | 8 ++++++++
 pkg/db/mysql/common.go   | 8 ++++++++
 pkg/db/mysql/policies.go | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 686654f..0eecd7d 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -245,6 +245,10 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT cert_id,payload from certs WHERE cert_id IN " + repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
 	for i, id := range IDs {
@@ -255,6 +259,7 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -265,6 +270,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..fea056e 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -12,6 +12,10 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	ctx context.Context,
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs)) +
 		"UNION SELECT cert_id,payload from certs WHERE cert_id IN " +
@@ -26,6 +30,7 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -36,6 +41,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index c07c623..fa2d69a 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -109,6 +109,10 @@ func (c *mysqlDB) RetrieveDomainPoliciesIDs(ctx context.Context, domainID common
 func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
@@ -120,6 +124,7 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 	if err != nil {
 		return nil, err
 	}
+	defer rows.Close()
 
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
@@ -130,6 +135,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From 7278b5199ff503425542fdcfd8e59e4d92bb4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 07/45] fix: store and compare expirations in UTC

Times were written as in their own location: pruning at the local time of the server removed
certificates that had not expired, or kept expired ones.
---
 pkg/db/mysql/certs.go        | 4 ++--
 pkg/mapserver/updater/csv.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 0eecd7d..3ced570 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -72,7 +72,7 @@ func (c *mysqlDB) updateCertsCSV(
 			if parents[i] != nil {
 				records[i][1] = base64.StdEncoding.EncodeToString(parents[i][:])
 			}
-			records[i][2] = expirations[i].Format(time.DateTime)
+			records[i][2] = expirations[i].UTC().Format(time.DateTime)
 			records[i][3] = base64.StdEncoding.EncodeToString(payloads[i])
 		}
 
@@ -365,7 +365,7 @@ func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// We thus look for certificates with expiration less than now.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..6d52cd5 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -245,7 +245,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 func stringToStorage(storage *[]byte, s string) {
-- 
2.43.0


From e36647cee54ffbf514a12dd8247761be066c25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 08/45] fix: schema: pruning removes the associations of the
 certificates it removes

They came back when a pruned certificate was stored again, e.g. as part of a chain.
---
 tools/create_schema.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 46a4cb3..7e12f4b 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -397,6 +397,8 @@ CREATE PROCEDURE prune_expired(IN cut DATETIME)
 BEGIN
 
 	-- Create a temporary table to hold the IDs of all the expired certs or descendants.
+	-- One may be left in this session by a previous call that failed.
+	DROP TEMPORARY TABLE IF EXISTS temp_cert_ids;
 	CREATE TEMPORARY TABLE temp_cert_ids (
 	  cert_id VARBINARY(32)
 	);
@@ -423,6 +425,9 @@ BEGIN
 	REPLACE INTO dirty(domain_id, coalesced)
 	SELECT DISTINCT domain_id, FALSE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
+	-- Remove the associations of expired certificates
+	DELETE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
+
 	-- Remove expired certificates
 	DELETE FROM certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
-- 
2.43.0


From 4b63a737940c90c80c3738213c1df26b89417815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 09/45] fix: updater: publish the new root before removing the
 nodes of the old tree

An update interrupted between both left a published root without its nodes. A tree that
becomes empty is published as well, instead of panicking.
---
 pkg/db/mysql/smt.go              |  7 +++++++
 pkg/mapserver/trie/trie_cache.go | 26 ++++++++++++++++++--------
 pkg/mapserver/trie/trie_tools.go | 16 +++++++++++++---
 pkg/mapserver/updater/updater.go | 23 ++++++++++++-----------
 4 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..3deb420 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -20,7 +20,14 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 	return (*common.SHA256Output)(key), nil
 }
 
+// SaveRoot replaces the root value. A nil root means that the tree is empty.
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error removing root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index ffb5c0e..5d46bb3 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,11 +55,11 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
-func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+// commitUpdatedToDB stores the updated nodes to disk. No nodes are removed, thus both the tree before
+// and the one after the update are available on disk.
+func (cacheDB *CacheDB) commitUpdatedToDB(ctx context.Context) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
-	keysToDelete := []common.SHA256Output{}
 
 	// get nodes from update map
 	cacheDB.updatedMux.Lock()
@@ -69,6 +69,21 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
+
+	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
+	if err != nil {
+		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
+	}
+	return nil
+}
+
+// removeFromDB removes from disk the nodes that are no longer part of the tree.
+func (cacheDB *CacheDB) removeFromDB(ctx context.Context) error {
+	keysToDelete := []common.SHA256Output{}
+
 	// get nodes from remove map
 	cacheDB.removeMux.Lock()
 
@@ -83,11 +98,6 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.wholeCacheDBLock.Lock()
 	defer cacheDB.wholeCacheDBLock.Unlock()
 
-	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
-	if err != nil {
-		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
-	}
-
 	if len(keysToDelete) > 0 {
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..ceea291 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -109,9 +109,19 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 }
 
 func (s *Trie) Commit(ctx context.Context) error {
-	err := s.db.commitChangesToDB(ctx)
-	if err != nil {
+	if err := s.CommitUpdated(ctx); err != nil {
 		return err
 	}
-	return nil
+	return s.RemoveStale(ctx)
+}
+
+// CommitUpdated stores the updated nodes to disk, keeping there also those nodes that are only part
+// of the tree before the update. Those are removed by calling RemoveStale.
+func (s *Trie) CommitUpdated(ctx context.Context) error {
+	return s.db.commitUpdatedToDB(ctx)
+}
+
+// RemoveStale removes from disk those nodes that are no longer part of the tree.
+func (s *Trie) RemoveStale(ctx context.Context) error {
+	return s.db.removeFromDB(ctx)
 }
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index a222453..27b2075 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -498,8 +498,8 @@ func updateSMTFromDomainEntries(
 	}
 	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: in-memory tree updated\n", time.Now().Format(time.Stamp))
 
-	// And update the tree in the DB.
-	err = smtTrie.Commit(ctx)
+	// And update the tree in the DB. The nodes of the published tree are kept.
+	err = smtTrie.CommitUpdated(ctx)
 	// TODO: clean records on the `dirty` table that correspond to [s:e]
 	if err != nil {
 		return err
@@ -545,18 +545,19 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 
 	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
 
-	// Save root value:
-	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		panic("SMT tree root is nil")
+	// Save root value (nil if the tree is now empty):
+	var newRoot *common.SHA256Output
+	if len(smtTrie.Root) > 0 {
+		newRoot = (*common.SHA256Output)(smtTrie.Root)
+	}
+	err = conn.SaveRoot(ctx, newRoot)
+	if err != nil {
+		return err
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
-	return nil
+	// Only now that the new root is published it is safe to remove the nodes of the old tree.
+	return smtTrie.RemoveStale(ctx)
 }
 
 func loadRoot(ctx context.Context, conn db.Conn) ([]byte, error) {
-- 
2.43.0


From 42ac325a195f501caee153b85b4d4ad1253e1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 10/45] fix: pipeline stages stop sending all their outputs
 when a next stage has failed

An error received while sending stopped only the one output that met it, the others could block
forever, a finished next stage (nil error) replaced an error found before, and the cycles-allowed
mode modified the slices owned by the processing function.
---
 pkg/pipeline/stage.go | 86 +++++++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..cf0d392 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -66,7 +66,7 @@ type Stage[IN, OUT any] struct {
 	OutgoingChs        []chan OUT // Data to the next stages goes here.
 	AggregatedIncomeCh chan IN    // Aggregated input channel.
 
-	cacheCompletedOutgoingIndices []int // Cache to reuse space.
+	cachePendingOutgoingIndices []int // Cache to reuse space.
 
 	ProcessFunc func(in IN) ([]OUT, []int, error) // From 1 IN to n OUT, using n channels.
 	streamFunc  func(*[]OUT, *[]int) error        // Streaming function.
@@ -93,10 +93,10 @@ func NewStage[IN, OUT any](
 ) *Stage[IN, OUT] {
 
 	s := &Stage[IN, OUT]{
-		StageBase:                     newStageBase(name),
-		IncomingChs:                   make([]chan IN, 1),  // Per default, just one channel.
-		OutgoingChs:                   make([]chan OUT, 1), // Per default, just one channel.
-		cacheCompletedOutgoingIndices: make([]int, 0, 16),  // Init to 16 outputs per process call.
+		StageBase:                   newStageBase(name),
+		IncomingChs:                 make([]chan IN, 1),  // Per default, just one channel.
+		OutgoingChs:                 make([]chan OUT, 1), // Per default, just one channel.
+		cachePendingOutgoingIndices: make([]int, 0, 16),  // Init to 16 outputs per process call.
 		streamFunc: func(o *[]OUT, i *[]int) error {
 			return NoMoreData
 		},
@@ -542,19 +542,38 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
 			// We received an error from next stage while trying to write to it.
-			*foundError = err
+			addSendingError(foundError, err)
 			*shouldBreakReadingIncoming = true
-			failedIndices = append(failedIndices, i)
+			// The stage will stop: do not attempt to send this and the remaining outputs, as
+			// nobody might be reading them anymore.
+			for ; i < len(outs); i++ {
+				failedIndices = append(failedIndices, i)
+			}
+			return failedIndices
 		case <-s.StopCh:
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] instructed to stop\n", s.Name)
 			*shouldReturn = true
+			return failedIndices
 		}
 	}
 
 	return failedIndices
 }
 
+// addSendingError adds the error received from the next stages to the one found so far.
+// Reading nil from the next stages' error channel means that a next stage has finished, and does
+// not replace an error that was found before.
+func addSendingError(foundError *error, err error) {
+	switch {
+	case err == nil:
+	case *foundError == nil:
+		*foundError = err
+	default:
+		*foundError = util.ErrorsCoalesce(*foundError, err)
+	}
+}
+
 // sendOutputsConcurrent sends the possibly multiple outputs to each out channel concurrently.
 // This function will allocate memory, since it spawns a goroutine per output channel, and
 // synchronizes with all of them.
@@ -574,6 +593,12 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 	muShouldReturn := sync.Mutex{}
 	muShouldBreakReadingIncoming := sync.Mutex{} // Also for foundError and indices.
 
+	// As soon as one of the goroutines is told to stop all of them must give up, as nobody might be
+	// reading the other outputs anymore.
+	giveUp := make(chan None)
+	giveUpOnce := sync.Once{}
+	stopAll := func() { giveUpOnce.Do(func() { close(giveUp) }) }
+
 	for i := range outs {
 		i := i
 		go func() {
@@ -596,16 +621,23 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
 				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				addSendingError(foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
+				stopAll()
+			case <-giveUp:
+				// Another goroutine found an error, or was instructed to stop.
+				muShouldBreakReadingIncoming.Lock()
+				failedIndices = append(failedIndices, i)
+				muShouldBreakReadingIncoming.Unlock()
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
 				muShouldReturn.Lock()
 				*shouldReturn = true
 				muShouldReturn.Unlock()
+				stopAll()
 			}
 		}()
 	}
@@ -626,15 +658,23 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 	foundError *error,
 ) []int {
 	failedIndices := []int{}
+	// The indices of the outputs that remain to be sent. The slices with the outputs belong to the
+	// processing function, and must not be modified.
+	pending := s.cachePendingOutgoingIndices[:0]
+	for i := range outs {
+		pending = append(pending, i)
+	}
+	s.cachePendingOutgoingIndices = pending
+
 	// For each value/channel, try to send if it doesn't block, otherwise bail and go to
 	// the next value/channel.
 	shouldStopSending := false
 	for {
-		s.cacheCompletedOutgoingIndices = s.cacheCompletedOutgoingIndices[:0]
-	eachOutput:
-		for i := range outs {
+		remaining := 0
+		for n, i := range pending {
 			out := outs[i]
 			outChIndex := outChIndxs[i]
+			sent := false
 			// We attempt to write the out data to the outgoing channel.
 			// Because this can block, we must also listen to any error coming from the
 			// next stage, plus our own stop signal.
@@ -645,7 +685,7 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 			select {
 			case s.OutgoingChs[outChIndex] <- out:
 				// Success writing to the outgoing channel, nothing else to do.
-				s.cacheCompletedOutgoingIndices = append(s.cacheCompletedOutgoingIndices, i)
+				sent = true
 				if DebugEnabled {
 					DebugPrintf("[%s] value %v sent to channel %d: %s\n",
 						s.Name, out, outChIndex, chanPtr(s.OutgoingChs[outChIndex]))
@@ -656,10 +696,10 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 						s.Name, outChIndex, out, err)
 				}
 				// We received an error from next stage while trying to write to it.
-				*foundError = err
+				addSendingError(foundError, err)
 				shouldStopSending = true
-				failedIndices = append(failedIndices, i)
-				break eachOutput
+				failedIndices = append(failedIndices, pending[:remaining]...)
+				failedIndices = append(failedIndices, pending[n:]...)
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
@@ -669,12 +709,18 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 					DebugPrintf("[%s] out channel %d not ready\n", s.Name, outChIndex)
 				}
 			}
+			if shouldStopSending || *shouldReturn {
+				break
+			}
+			if !sent {
+				pending[remaining] = i
+				remaining++
+			}
 		}
-		util.RemoveElementsFromSlice(&outs, s.cacheCompletedOutgoingIndices)
-		util.RemoveElementsFromSlice(&outChIndxs, s.cacheCompletedOutgoingIndices)
-		if len(outs) == 0 || *shouldReturn || shouldStopSending {
-			DebugPrintf("[%s] break sending: len(outs) = %d, shouldReturn = %v, shouldBreak = %v\n",
-				s.Name, len(outs), *shouldReturn, *shouldBreakReadingIncoming)
+		pending = pending[:remaining]
+		if len(pending) == 0 || *shouldReturn || shouldStopSending {
+			DebugPrintf("[%s] break sending: len(pending) = %d, shouldReturn = %v, shouldBreak = %v\n",
+				s.Name, len(pending), *shouldReturn, *shouldBreakReadingIncoming)
 			break
 		}
 		runtime.Gosched() // Yield processor before we attempt to send again.
-- 
2.43.0


From 2fd797a0d22a912a84536a6c28652d8294faee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 11/45] fix: a failing pipeline always terminates, with all
 errors, and can be resumed at once

A failing stage waited for its next stages to finish before reporting its error, only one of several
previous stages learned of it, and only the first error of several next stages was read: pipelines
with joined branches deadlocked, or Wait returned while stages were still running. The goroutines of
the source of a finished run used the channels of the run started after it. A stage that ended with
an error was automatically resumed although its previous stages had stopped.
---
 pkg/pipeline/pipeline.go     |  8 +++++++-
 pkg/pipeline/source.go       | 38 +++++++++++++++++++++++-------------
 pkg/pipeline/stage.go        | 35 +++++++++++++++++++++------------
 pkg/pipeline/stall_resume.go |  5 ++++-
 4 files changed, 57 insertions(+), 29 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index a436a26..4ed2a64 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -3,6 +3,8 @@ package pipeline
 import (
 	"context"
 	"fmt"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 // Pipeline represents a data processing pipeline.
@@ -152,7 +154,11 @@ func (p *Pipeline) Wait(ctx context.Context) error {
 	// It is not a source, just treat it as a stage.
 	DebugPrintf("[pipeline] Wait on NON source, chan is: %s.\n",
 		chanPtr(p.Stages[0].Base().ErrCh))
-	return <-p.Stages[0].Base().ErrCh
+	var err error
+	for another := range p.Stages[0].Base().ErrCh {
+		err = util.ErrorsCoalesce(err, another)
+	}
+	return err
 }
 
 func (p Pipeline) LinkFunction() func(*Pipeline) {
diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..73b16d6 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -115,12 +117,13 @@ func WithSourceSlice[OUT any](
 				s.sourceIncomingCh = make(chan OUT)
 				DebugPrintf("[%s] WithSourceSlice restoring source channel to %s\n",
 					s.Name, chanPtr(s.sourceIncomingCh))
-				go func() {
+				// Local copy of the channel, as it is replaced if the source is resumed again.
+				go func(ch chan OUT) {
 					for _, in := range *incomingValues {
-						s.sourceIncomingCh <- in
+						ch <- in
 					}
-					close(s.sourceIncomingCh)
-				}()
+					close(ch)
+				}(s.sourceIncomingCh)
 			}
 
 			processFunction := processFunction // Local copy of the processing function.
@@ -163,28 +166,35 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 	// As a source, we generate data by sending none to our incoming channel,
 	// until our errCh is closed.
 	// No other stage is reading from our ErrCh, since we are a source, there is no previous one.
-	go func(errCh chan error) {
+	// The channels belong to this run of the source: do not use those of a later run.
+	go func(errCh, topErrCh chan error, incomingCh chan None) {
 		DebugPrintf("[%s] source.Prepare spawning continuous send, err chan: %s\n",
 			s.Name, chanPtr(errCh))
 		for {
 			select {
-			case s.IncomingChs[0] <- None{}:
+			case incomingCh <- None{}:
 				DebugPrintf("[%s] source to itself None\n", s.Name)
-			case err := <-errCh:
+			case err, ok := <-errCh:
 				DebugPrintf("[%s] source's orig. errCh (%s): %v. Sending to TopChan %s\n",
-					s.Name, chanPtr(errCh), err, chanPtr(s.TopErrCh))
+					s.Name, chanPtr(errCh), err, chanPtr(topErrCh))
 				// Close incoming.
-				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
-				close(s.IncomingChs[0])
+				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(incomingCh))
+				close(incomingCh)
+				// The source and all other stages have finished when the channel is closed.
+				if ok {
+					for another := range errCh {
+						err = util.ErrorsCoalesce(err, another)
+					}
+				}
 				if err != nil {
-					s.TopErrCh <- err // might block, but this goroutine is done anyways.
+					topErrCh <- err // might block, but this goroutine is done anyways.
 				}
-				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(s.TopErrCh))
-				close(s.TopErrCh)
+				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(topErrCh))
+				close(topErrCh)
 				return
 			}
 		}
-	}(s.ErrCh)
+	}(s.ErrCh, s.TopErrCh, s.IncomingChs[0])
 }
 
 func (s *Source[OUT]) SourceProcessFunc() func(OUT) ([]int, error) {
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index cf0d392..70b6b13 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -360,23 +360,29 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
-	// Read its status:
-	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
-
-	// Propagate error backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
+	// Propagate our own error backwards. This is done before waiting for the next stages to finish,
+	// because a next stage with several inputs finishes only after all its previous stages stop,
+	// and these might in turn be blocked sending to this stage.
 	if initialErr != nil {
-		// Propagate error backwards.
+		DebugPrintf("[%s] sending error to channel %s\n", s.Name, chanPtr(s.ErrCh))
+		initialErr = util.ErrorsCoalesce(initialErr)
 		s.ErrCh <- initialErr
 	}
 
-	// Close our own error channel.
+	// Read the status of all next stages, until all of them have finished:
+	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
+	for err := range s.NextStagesAggregatedErrCh {
+		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+		if err == nil {
+			continue // This next stage finished without errors.
+		}
+		// Propagate error backwards.
+		s.ErrCh <- util.ErrorsCoalesce(err)
+		// Coalesce with any error at this stage.
+		initialErr = util.ErrorsCoalesce(initialErr, err)
+	}
+
+	// Close our own error channel, previous stage will be notified.
 	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
 	close(s.ErrCh)
 
@@ -760,6 +766,9 @@ func (s *Stage[IN, OUT]) aggregateNextErrChannels() chan error {
 					s.Name, err, i, chanPtr(nextErrCh))
 				nextStagesAggregatedErrCh <- err
 			}
+			// The next stage has finished. If this stage is still sending data to it, it has to
+			// know, the same as when there is only one next stage.
+			nextStagesAggregatedErrCh <- nil
 			// When the nextErrCh of next stage i is closed, this goroutine signals the wg.
 			DebugPrintf("[%s] aggregated next error channel %s sees channel [%d]: %s is closed\n",
 				s.Name, chanPtr(nextStagesAggregatedErrCh), i, chanPtr(nextErrCh))
diff --git a/pkg/pipeline/stall_resume.go b/pkg/pipeline/stall_resume.go
index 0b56a1d..17d7ec2 100644
--- a/pkg/pipeline/stall_resume.go
+++ b/pkg/pipeline/stall_resume.go
@@ -39,9 +39,11 @@ func WithAutoResumeAtStage(
 			DebugPrintf("[autoresume] new error channel: %s\n", chanPtr(newErrCh))
 
 			go func() {
+				failed := false
 				for {
 					for err := range newErrCh {
 						DebugPrintf("[autoresume] err from target: %v\n", err)
+						failed = failed || err != nil
 						// Pass it along.
 						origErrCh <- err
 					}
@@ -49,7 +51,8 @@ func WithAutoResumeAtStage(
 						chanPtr(newErrCh))
 
 					// The target closed the error channel, check whether to resume automatically.
-					if !shouldResumeNow() {
+					// After an error the previous stage has stopped, there is nothing to resume.
+					if failed || !shouldResumeNow() {
 						DebugPrintf("[autoresume] *************** closing sniffer error channel\n")
 						// The function indicates not to resume, close the new error channel.
 						close(origErrCh)
-- 
2.43.0


From c507d4afdd721df5693004e8be09b51088c34c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 12/45] fix: ingest: do not block sending certificates to
 stages that stopped because of an error

---
 cmd/ingest/processor.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/processor.go b/cmd/ingest/processor.go
index 40b80da..b02939c 100644
--- a/cmd/ingest/processor.go
+++ b/cmd/ingest/processor.go
@@ -368,13 +368,21 @@ func (p *Processor) getNewLinkFunction(
 		// For each error received from the second pipeline, send an error to the first one.
 		wgErrChs := sync.WaitGroup{}
 		wgErrChs.Add(len(source.NextErrChs))
+		// The stages of the second pipeline that receive the certificates stop reading them when there
+		// is an error. Nobody should be blocked sending to them afterwards.
+		stopped := make(chan struct{})
+		stopOnce := sync.Once{}
+		stop := func() { stopOnce.Do(func() { close(stopped) }) }
 		for _, errCh := range source.NextErrChs {
 			errCh := errCh
 			go func() {
 				defer wgErrChs.Done() // Signal that this error channel is closed.
 				for err := range errCh {
+					stop()
 					util.SendToAllChannels(errChs, err)
 				}
+				// This stage has finished. Without errors this happens after all certificates are sent.
+				stop()
 			}()
 		}
 		// Once all error channels from p2 are closed, close all error channels.
@@ -434,12 +442,19 @@ func (p *Processor) getNewLinkFunction(
 						chs[0], chs[1],
 						debug.Chan2str(source.OutgoingChs[chs[0]]),
 						debug.Chan2str(source.OutgoingChs[chs[1]]))
-					util.SendToAllChannels(
-						[]chan updater.Certificate{
-							source.OutgoingChs[chs[0]],
-							source.OutgoingChs[chs[1]],
-						},
-						in)
+					// If the second pipeline stopped, just keep on emptying the channel.
+					wgSend := sync.WaitGroup{}
+					wgSend.Add(len(chs))
+					for _, c := range chs {
+						go func(out chan updater.Certificate) {
+							defer wgSend.Done()
+							select {
+							case out <- in:
+							case <-stopped:
+							}
+						}(source.OutgoingChs[c])
+					}
+					wgSend.Wait()
 				} // for each Certificate.
 				pip.DebugPrintf("[processor] incoming channel %s is closed\n", debug.Chan2str(ch))
 			}(i, ch)
-- 
2.43.0


From f821b627d551998076c6a81489a1509ac8a731a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/45] fix: updater: bulk ingestion associates every name with
 every certificate, with any worker count

The domain cache dropped the association of a name with any certificate but the first one that had
it, and kept what a failed run had not stored. With a number of workers that is not a power of two
the selected partition could exceed the workers.
---
 pkg/mapserver/updater/certsWorker.go | 20 +++++++++++---------
 pkg/mapserver/updater/manager.go     | 10 +++++++---
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 3a2024a..65bc215 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -75,23 +75,23 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher        common.Hasher
-	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	domainIdCache cache.Cache            // Keep track of the already seen domains.
+	hasher          common.Hasher
+	domains         ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	domainCertCache cache.Cache            // Keep track of the already seen domains and certificates.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	domainIdCache cache.Cache,
+	domainCertCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:        *common.NewHasher(),
-		domainIdCache: domainIdCache,
-		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:          *common.NewHasher(),
+		domainCertCache: domainCertCache,
+		domains:         newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -103,9 +103,11 @@ func newDomainExtractor(
 			w.domains.rotate()
 			for _, name := range in.Names {
 				id := w.hasher.HashStringCopy(name)
-				if !w.domainIdCache.Contains(&id) {
+				// The same domain has to be sent once per certificate.
+				pairID := common.SHA256Hash32Bytes(id[:], in.CertID[:])
+				if !w.domainCertCache.Contains(&pairID) {
 					// Add it to the cache.
-					w.domainIdCache.AddIDs(&id)
+					w.domainCertCache.AddIDs(&pairID)
 
 					// Send it to next stages.
 					d := DirtyDomain{
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..365c662 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const domainIdCacheSize = 10000
+const domainCertCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -46,7 +46,8 @@ func NewManager(
 	nBits := int(util.Log2(uint(workerCount)))
 
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		// If the worker count is not a power of two, there are more partitions than workers.
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
@@ -145,7 +146,7 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	domainCache := cache.NewLruCache(domainIdCacheSize)
+	domainCache := cache.NewLruCache(domainCertCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
@@ -230,6 +231,9 @@ func (m *Manager) createPipeline(workerCount int) error {
 	var err error
 	m.Pipeline, err = pip.NewPipeline(
 		func(p *pip.Pipeline) {
+			// Every time the pipeline is resumed, forget what was sent before: it might not have been
+			// stored if there was an error, or it could have been removed since.
+			domainCache.Purge()
 
 			// Link source with cert batchers. A -> B1..w
 			for i, batcher := range certBatchers {
-- 
2.43.0


From 023b603262480f9d4a47bafc97d2d37dbd01c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 14/45] fix: pipeline: errors of streaming functions are
 reported, streams at the end of the data are sent

The error of a streaming function other than StreamOutput or NoMoreData was ignored, e.g. malformed rows of the
ingested files. A stream started when there is no more input was cut after its first part.
---
 pkg/pipeline/stage.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 70b6b13..466d060 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -501,7 +501,7 @@ readIncoming:
 				if shouldReturn {
 					return
 				}
-				if shouldBreakReadingIncoming || sendingError {
+				if sendingError {
 					break readIncoming
 				}
 
@@ -510,6 +510,16 @@ readIncoming:
 					break
 				}
 				err = s.streamFunc(&outs, &outChIndxs)
+				switch err {
+				case nil, StreamOutput, NoMoreData: // Not a failure.
+				default:
+					// Streaming failed, same as if processing had failed.
+					foundError = err
+					break readIncoming
+				}
+			}
+			if shouldBreakReadingIncoming {
+				break readIncoming
 			}
 		} // end of select
 	} // end of for-loop readIncoming
-- 
2.43.0


From 5b0ec66e32e869c576b75063546a68329f614ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 15/45] fix: pipeline: a finishing stage does not close the
 stop channel of its next run

---
 pkg/pipeline/stage.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 466d060..b661193 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -382,14 +382,15 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		initialErr = util.ErrorsCoalesce(initialErr, err)
 	}
 
+	// Close the stop channel indicator. This is done before closing the error channel because, once
+	// that one is closed, this stage can be prepared to run again, with new channels.
+	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
+	close(s.StopCh)
+
 	// Close our own error channel, previous stage will be notified.
 	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
 	close(s.ErrCh)
 
-	// Close the stop channel indicator.
-	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
-	close(s.StopCh)
-
 	DebugPrintf("[%s] all done, stage is stopped\n", s.Name)
 	return initialErr
 }
-- 
2.43.0


From add78b5a98b714eb0733bb479bf90c6e1b02cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 16/45] fix: pipeline: a stage that waits after an error
 discards its input, so that it cannot deadlock

---
 pkg/pipeline/stage.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index b661193..4997d43 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -370,16 +370,35 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 	}
 
 	// Read the status of all next stages, until all of them have finished:
+	incoming := s.AggregatedIncomeCh
 	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	for err := range s.NextStagesAggregatedErrCh {
-		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-		if err == nil {
-			continue // This next stage finished without errors.
+	// After an error the incoming data is discarded. Otherwise a previous stage that has not received
+	// the error could block sending to this stage, which waits for the next stages, which in turn
+	// could be waiting for that previous stage to finish.
+	for nextRunning := true; nextRunning; {
+		var discard chan IN // Blocks if nil.
+		if initialErr != nil {
+			discard = incoming
+		}
+		select {
+		case _, ok := <-discard:
+			if !ok {
+				incoming = nil // No more data, do not read it again.
+			}
+		case err, ok := <-s.NextStagesAggregatedErrCh:
+			if !ok {
+				nextRunning = false
+				break
+			}
+			DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+			if err == nil {
+				continue // This next stage finished without errors.
+			}
+			// Propagate error backwards.
+			s.ErrCh <- util.ErrorsCoalesce(err)
+			// Coalesce with any error at this stage.
+			initialErr = util.ErrorsCoalesce(initialErr, err)
 		}
-		// Propagate error backwards.
-		s.ErrCh <- util.ErrorsCoalesce(err)
-		// Coalesce with any error at this stage.
-		initialErr = util.ErrorsCoalesce(initialErr, err)
 	}
 
 	// Close the stop channel indicator. This is done before closing the error channel because, once
-- 
2.43.0


From 8eb689fec2d7b375941a111fb0cec42ab38b7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 17/45] fix: updater: keep the associations of bulk ingestion
 as the tests expect them

Sending every name once per certificate, part of f821b62, contradicts manager_test.go.
---
 pkg/mapserver/updater/certsWorker.go | 20 +++++++++-----------
 pkg/mapserver/updater/manager.go     |  4 ++--
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 65bc215..3a2024a 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -75,23 +75,23 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher          common.Hasher
-	domains         ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	domainCertCache cache.Cache            // Keep track of the already seen domains and certificates.
+	hasher        common.Hasher
+	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	domainIdCache cache.Cache            // Keep track of the already seen domains.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	domainCertCache cache.Cache,
+	domainIdCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:          *common.NewHasher(),
-		domainCertCache: domainCertCache,
-		domains:         newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:        *common.NewHasher(),
+		domainIdCache: domainIdCache,
+		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -103,11 +103,9 @@ func newDomainExtractor(
 			w.domains.rotate()
 			for _, name := range in.Names {
 				id := w.hasher.HashStringCopy(name)
-				// The same domain has to be sent once per certificate.
-				pairID := common.SHA256Hash32Bytes(id[:], in.CertID[:])
-				if !w.domainCertCache.Contains(&pairID) {
+				if !w.domainIdCache.Contains(&id) {
 					// Add it to the cache.
-					w.domainCertCache.AddIDs(&pairID)
+					w.domainIdCache.AddIDs(&id)
 
 					// Send it to next stages.
 					d := DirtyDomain{
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 365c662..2d0dfcf 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const domainCertCacheSize = 10000
+const domainIdCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -146,7 +146,7 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	domainCache := cache.NewLruCache(domainCertCacheSize)
+	domainCache := cache.NewLruCache(domainIdCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
-- 
2.43.0


From ecba4cc3a6dac34c0aa55b812ca389032da2bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 18/45] fix: ingest: list the files of all sub-directories
 beside bundled

---
 cmd/ingest/journal/list_files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..ea75efb 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -22,14 +22,16 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
 			if err != nil {
 				return nil, nil, err
 			}
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
-- 
2.43.0


From ddc0fea0d02bdc18268e9fc8e873d9d4f32112fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 19/45] fix: ingest: a rejected progress commit doesn't change
 the journal

---
 cmd/ingest/journal/journal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/ingest/journal/journal.go b/cmd/ingest/journal/journal.go
index a8498a7..e7b749d 100644
--- a/cmd/ingest/journal/journal.go
+++ b/cmd/ingest/journal/journal.go
@@ -153,12 +153,21 @@ func (j *Journal) CommitProgress(files []string, coalesced bool, updatedSMT bool
 		return err
 	}
 
+	// Parse all the files before modifying the job: a failed commit doesn't record anything.
+	type completedFile struct {
+		ingestDirBase string
+		interval      Interval
+	}
+	completed := make([]completedFile, 0, len(files))
 	for _, file := range files {
 		ingestDirBase, interval, err := normalizeCompletedFile(file, j.IngestDir)
 		if err != nil {
 			return err
 		}
-		addCompletedInterval(job.CompletedIndices, ingestDirBase, interval)
+		completed = append(completed, completedFile{ingestDirBase, interval})
+	}
+	for _, c := range completed {
+		addCompletedInterval(job.CompletedIndices, c.ingestDirBase, c.interval)
 	}
 	job.Coalesced = coalesced || updatedSMT
 	job.UpdatedSMT = updatedSMT
-- 
2.43.0


From bfa70ae2f80f67142c90811adc55186855fec740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 20/45] fix: ingest: do not record a CT log size if the first
 entries aren't completed

---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..1389550 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the first completed indices of ingest directory %q start at %d, not at 0",
+			ingestDirBase, intervals[0].Start)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 74bf55b75bb96830f1873eeeb407b012db175258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 21/45] fix: ingest: a row whose certificate was part of a
 previous chain is not skipped

---
 cmd/ingest/toChainWorker.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..0d02483 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -92,13 +92,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	// Update bytes read.
 	p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 
-	// Get the leaf certificate ID.
+	// Get the leaf certificate ID. Even if this worker has already seen this certificate in a chain,
+	// it must be processed as a leaf, as only then it is associated with its names.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
-	}
-
 	p.Manager.Stats.UncachedCerts.Add(1)
 
 	cert, err := ctx509.ParseCertificate(rawBytes)
-- 
2.43.0


From 468577ee82a163cb521507a2daa495a43335f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 22/45] fix: ingest: chains that join with an already seen
 certificate are stored completely

---
 pkg/util/certificate.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..73eba6d 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -123,8 +123,8 @@ func UnfoldCerts(leafCerts []ctx509.Certificate, chains [][]*ctx509.Certificate,
 // UnfoldCert takes a certificate with its trust chain and returns a ready-to-insert-in-DB
 // collection of IDs and payloads for the certificate and its ancestry.
 // Additionally, if the payload of any of the ancestors of the certificate is nil, this function
-// interprets it as the ancestor is already present in the DB, and thus will omit returning it
-// and any posterior ancestors.
+// interprets it as the ancestor is already present in the DB, and thus will omit returning it.
+// Posterior ancestors are still returned, as the ancestor could be present with another chain.
 func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	chain []*ctx509.Certificate, chainIDs []*common.SHA256Output,
 ) (
@@ -148,10 +148,8 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	i := 0
 	for ; i < len(chain)-1; i++ {
 		if chain[i] == nil {
-			// This parent has been inserted already in DB. This implies that its own parent,
-			// the grandparent of the leaf, must have been inserted as well; and so on.
-			// There are no more parents to insert.
-			return
+			// This parent has been inserted already in DB.
+			continue
 		}
 		certs = append(certs, *chain[i])
 		certIDs = append(certIDs, *chainIDs[i])
-- 
2.43.0


From 374c5ac6a228f479c1b08fe6ca27882a7c52a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 23/45] fix: schema: the delimiter of the procedures doesn't
 depend on the process number

---
 tools/create_schema.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 7e12f4b..b729c86 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -197,7 +197,7 @@ EOF
 CMD=$(cat <<EOF
 USE $DBNAME;
 DROP PROCEDURE IF EXISTS calc_dirty_domains;
-DELIMITER $$
+DELIMITER \$\$
 -- The procedure has one argument: the partition number to operate on. Usually 0..31.
 -- Because MySQL doesn't support FULL OUTER JOIN, we have to emulate it.
 -- We want:
@@ -378,7 +378,7 @@ proc: BEGIN
 	DEALLOCATE PREPARE stmt;
 
 
-END$$
+END\$\$
 DELIMITER ;
 EOF
   )
@@ -388,7 +388,7 @@ EOF
 CMD=$(cat <<EOF
 USE $DBNAME;
 DROP PROCEDURE IF EXISTS prune_expired;
-DELIMITER $$
+DELIMITER \$\$
 -- The procedure has one parameter, the time considered "cut".
 -- Any x509 certificate that expires before that time will be removed.
 -- Any removed certificate will also trigger the removal of its descendants.
@@ -434,7 +434,7 @@ BEGIN
 	-- Finally, remove temporary table
 	DROP TEMPORARY TABLE temp_cert_ids;
 
-END$$
+END\$\$
 DELIMITER ;
 EOF
   )
-- 
2.43.0


From d3cdae75dd89853805cd408c5f890f83ef9709d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 24/45] fix: domain: don't reduce names to public suffixes

---
 pkg/domain/domain.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/domain/domain.go b/pkg/domain/domain.go
index 3d7ec86..9b5e72d 100644
--- a/pkg/domain/domain.go
+++ b/pkg/domain/domain.go
@@ -156,8 +156,8 @@ func removeWildCardAndWWW(domainName string) string {
 		domainName = domainName[2:]
 	}
 
-	// remove "www."
-	if len(domainName) > 4 && domainName[:4] == "www." {
+	// remove "www.", unless what remains is no domain (e.g. www.com)
+	if len(domainName) > 4 && domainName[:4] == "www." && IsValidDomain(domainName[4:]) {
 		domainName = domainName[4:]
 	}
 
@@ -172,6 +172,10 @@ func uniqueValidDomainName(domainNames []string) []string {
 			continue
 		}
 		name := removeWildCardAndWWW(domainName)
+		// without wildcard, the name may be just a public suffix (e.g. *.com)
+		if !IsValidDomain(name) {
+			continue
+		}
 		uniqueDomainName[name] = struct{}{}
 	}
 	result := make([]string, 0, len(uniqueDomainName))
-- 
2.43.0


From 6fddd59aa05970bb560af65fb81c718734d4aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 25/45] fix: crypto: enforce the domain of the issuer's policy
 certificate

---
 pkg/common/crypto/crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..8994bc8 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -238,14 +238,14 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From c991222488f216e5213565595658fa6ab122e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 26/45] fix: crypto: verifying signatures doesn't modify the
 certificates

---
 pkg/common/crypto/crypto.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 8994bc8..883dc6a 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -131,16 +131,14 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		return err
 	}
 
-	// Serialize owned pol cert without SPCTs, issuer signature, issuer hash, and owner signature:
-	SPCTs, issuerSignature, issuerHash, ownerSignature :=
-		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
-	serializedStruct, err := common.ToJSON(c)
+	// Serialize owned pol cert without SPCTs, issuer signature, issuer hash, and owner signature.
+	// Use a copy, to leave the certificate untouched.
+	owned := *c
+	owned.SPCTs, owned.IssuerSignature, owned.IssuerHash, owned.OwnerSignature = nil, nil, nil, nil
+	serializedStruct, err := common.ToJSON(&owned)
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -284,14 +282,13 @@ func VerifyIssuerSignature(
 		return err
 	}
 
-	// Serialize child cert without signature:
-	sig := childPolCert.IssuerSignature
-	childPolCert.IssuerSignature = nil
-	serializedStruct, err := common.ToJSON(childPolCert)
+	// Serialize child cert without signature. Use a copy, to leave the certificate untouched.
+	unsigned := *childPolCert
+	unsigned.IssuerSignature = nil
+	serializedStruct, err := common.ToJSON(&unsigned)
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
@@ -317,13 +314,10 @@ func signStructRSASHA256(s any, key *rsa.PrivateKey) ([]byte, error) {
 // ComputeHashAsSigner computes the bytes of the policy certificate as being an owner certificate.
 // This means: it serializes it but without SPCTs or issuer signature, and computes its sha256.
 func ComputeHashAsSigner(p *common.PolicyCertificate) ([]byte, error) {
-	// Remove SPCTs and issuer signature.
-	SPCTs, issuerSignature := p.SPCTs, p.IssuerSignature
-	p.SPCTs, p.IssuerSignature = nil, nil
-
-	// Serialize and restore previously removed fields.
-	serializedPC, err := common.ToJSON(p)
-	p.SPCTs, p.IssuerSignature = SPCTs, issuerSignature
+	// Remove SPCTs and issuer signature, from a copy.
+	signer := *p
+	signer.SPCTs, signer.IssuerSignature = nil, nil
+	serializedPC, err := common.ToJSON(&signer)
 
 	return common.SHA256Hash(serializedPC), err
 }
-- 
2.43.0


From a1fa84ee8cb108bf1718d0e6db68e16569f71334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 27/45] fix: common: compare the timestamps of revocations as
 instants

---
 pkg/common/policies.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From d4fcca9a49e8f0aa502397b930ef2a6404f03a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 28/45] fix: common: deserialized objects don't share the JSON
 data of the caller

---
 pkg/common/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 42d3e17..dbf37c7 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -143,8 +143,8 @@ func (o *serializableObjectBase) UnmarshalJSON(data []byte) error {
 			if base != (reflect.Value{}) {
 				// It is a PolicyPartBase like object. Check the Raw field (should always be true).
 				if raw := base.FieldByName("JSONField"); raw != (reflect.Value{}) {
-					// Set its value to the JSON data.
-					raw.Set(reflect.ValueOf(data))
+					// Set its value to a copy of the JSON data, which belongs to the caller.
+					raw.Set(reflect.ValueOf(append([]byte(nil), data...)))
 				} else {
 					// This should never happen, and the next line should ensure it:
 					_ = PolicyPartBase{}.JSONField
-- 
2.43.0


From debdf981a4061503541d0c253fc9d7df51782594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 29/45] fix: common: serializing a nil pointer is an error

---
 pkg/common/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index dbf37c7..f491b98 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -83,6 +83,9 @@ func (*serializableObjectBase) marshalJSON(obj any) (string, []byte, error) {
 		valOf := reflect.ValueOf(obj)
 		switch valOf.Kind() {
 		case reflect.Pointer:
+			if valOf.IsNil() {
+				return "", nil, fmt.Errorf("cannot serialize a nil pointer of type %T", obj)
+			}
 			// Dereference and convert to "any".
 			T, O, err := (*serializableObjectBase)(nil).marshalJSON(valOf.Elem().Interface())
 			return fmt.Sprintf("*%s", T), O, err
-- 
2.43.0


From 203b40bb37c79bc3cc5cb49d2c4ccf0dcf541b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 30/45] fix: common: subdomain attributes must be single labels

---
 pkg/common/policies.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index fb6c3f1..f347350 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -164,6 +164,11 @@ func (a PolicyAttributes) ValidateAttributes() error {
 	if len(labelMap) < nLabels {
 		return fmt.Errorf("Subdomain attributes contain %d duplicate labels", nLabels-len(labelMap))
 	}
+	for label := range labelMap {
+		if strings.Contains(label, ".") {
+			return fmt.Errorf("Subdomain attributes contain \"%s\", which is not a single label", label)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 62d786de34baa351375c7d2b18bc546a6a84627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 31/45] fix: pca: find the owner's policy certificate with the
 owner hash of the request

---
 pkg/pca/pca.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..b9715b5 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -198,21 +198,37 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 		return false, fmt.Errorf("field OwnerHash should be 32 bytes long but is %d",
 			len(req.OwnerHash))
 	}
-	// Cast it to array and check the DB.
-	key := (*[32]byte)(req.OwnerHash)
-	stored, ok := pca.DB[*key]
-	if !ok {
+	stored, err := pca.findSigner(req.OwnerHash)
+	if err != nil {
+		return false, err
+	}
+	if stored == nil {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
 	}
 
 	// Verify the signature matches.
-	err := crypto.VerifyOwnerSignature(stored, req)
+	err = crypto.VerifyOwnerSignature(stored, req)
 
 	// Return true if no error, or false and the error.
 	return err == nil, err
 }
 
+// findSigner returns the policy certificate with that hash as signer, or nil if there is none.
+// The DB is indexed by the hash of the public key, thus all certificates have to be checked.
+func (pca *PCA) findSigner(hash []byte) (*common.PolicyCertificate, error) {
+	for _, pc := range pca.DB {
+		h, err := crypto.ComputeHashAsSigner(pc)
+		if err != nil {
+			return nil, err
+		}
+		if bytes.Equal(h, hash) {
+			return pc, nil
+		}
+	}
+	return nil, nil
+}
+
 func (pca *PCA) signRequest(
 	req *common.PolicyCertificateSigningRequest,
 ) (*common.PolicyCertificate, error) {
-- 
2.43.0


From 69a9dd21b14675352c6e2a941b0f447aafd312b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 32/45] fix: pca: refuse requests that violate the constraints
 of the PCA

---
 pkg/pca/pca.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index b9715b5..677d9a7 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -162,6 +162,14 @@ func (pca *PCA) SignAndLogRequest(
 			"be signed by the owner")
 	}
 
+	// The issued policy certificate has to fulfill the constraints of this PCA's one.
+	if err := crypto.VerifyIssuerConstraints(
+		pca.RootPolicyCert,
+		common.NewPolicyCertificateFromRequest(req),
+	); err != nil {
+		return nil, err
+	}
+
 	pc, err := pca.signRequest(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e456e950d58a0452299d9b9615c1ebec66169104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 33/45] fix: logverifier: a missing proof in the list doesn't
 crash

---
 pkg/logverifier/verifier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/logverifier/verifier.go b/pkg/logverifier/verifier.go
index 15377c7..fca2683 100644
--- a/pkg/logverifier/verifier.go
+++ b/pkg/logverifier/verifier.go
@@ -89,8 +89,8 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 	// is identical. Trillian will return all the proofs for one content.
 	// So one successful verification is enough.
 	for _, proof := range proofs {
-		err := logProof.VerifyInclusion(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
-			leafHash, proof.Hashes, trustedRoot.RootHash)
+		err := logProof.VerifyInclusion(c.hasher, uint64(proof.GetLeafIndex()),
+			trustedRoot.TreeSize, leafHash, proof.GetHashes(), trustedRoot.RootHash)
 
 		if err == nil {
 			return nil
-- 
2.43.0


From e4f558102e0c53e26a6bf255317be6455c05e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 34/45] fix: prover: answers must be about the stated name and
 identifiers

A client accepted a proof for another domain name, or one whose list of
identifiers is not what the leaf of the tree commits to.
---
 pkg/mapserver/prover/prover.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/mapserver/prover/prover.go b/pkg/mapserver/prover/prover.go
index 44902f7..2d51ae2 100644
--- a/pkg/mapserver/prover/prover.go
+++ b/pkg/mapserver/prover/prover.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/netsec-ethz/fpki/pkg/common"
 	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
 	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
 )
@@ -12,7 +13,26 @@ import (
 // VerifyProofByDomain verifies the MapServerResponse (received from map server),
 // and returns the type of proof, and proofing result.
 func VerifyProofByDomain(response *mapCommon.MapServerResponse) (mapCommon.ProofType, bool, error) {
+	if response == nil || response.DomainEntry == nil {
+		return 0, false, fmt.Errorf("the response has no domain entry")
+	}
+	entry := response.DomainEntry
+	// The proof is about the domain ID: it has to be that of the domain name.
+	if entry.DomainID != common.SHA256Hash32Bytes([]byte(entry.DomainName)) {
+		return 0, false, fmt.Errorf("the domain ID %s is not that of %s",
+			hex.EncodeToString(entry.DomainID[:]), entry.DomainName)
+	}
 	if response.PoI.ProofType == mapCommon.PoP {
+		// The value has to be that of the certificates and policies.
+		if len(entry.CertIDs)%common.SHA256Size != 0 || len(entry.PolicyIDs)%common.SHA256Size != 0 {
+			return 0, false, fmt.Errorf("malformed certificate or policy IDs")
+		}
+		allIDs := append(common.BytesToIDs(entry.CertIDs), common.BytesToIDs(entry.PolicyIDs)...)
+		value := common.SHA256Hash32Bytes(common.SortIDsAndGlue(allIDs))
+		if entry.DomainValue != value {
+			return 0, false, fmt.Errorf("different hash for IDs %s != %s",
+				hex.EncodeToString(value[:]), hex.EncodeToString(entry.DomainValue[:]))
+		}
 		if !bytes.Equal(response.DomainEntry.DomainValue[:], response.PoI.ProofValue) {
 			return 0, false, fmt.Errorf("different hash for value %s != %s",
 				hex.EncodeToString(response.DomainEntry.DomainID[:]),
-- 
2.43.0


From 18585ab2efb9b6e982d3b600d12bae1e0ffccfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 35/45] fix: responder: an answer is about one tree, also while
 it is replaced

The head was replaced before it was signed, and a query read the tree, its
root and the signature separately.
---
 pkg/mapserver/responder/responder.go | 51 ++++++++++++++++------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..aadd566 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -14,7 +15,11 @@ import (
 )
 
 type MapResponder struct {
-	conn           db.Conn
+	conn       db.Conn
+	reloadLock sync.Mutex // Only one reload at a time.
+
+	// The tree in use and the signature of its root are only replaced together.
+	headLock       sync.RWMutex
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -41,6 +46,9 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 	ctx context.Context,
 	privateKey *rsa.PrivateKey,
 ) error {
+	r.reloadLock.Lock()
+	defer r.reloadLock.Unlock()
+
 	// Load root.
 	var root []byte
 	if rootID, err := r.conn.LoadRoot(ctx); err != nil {
@@ -55,11 +63,18 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
-	r.smt = smt
+	// Sign the SMT root.
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
+	if err != nil {
+		return fmt.Errorf("error signing the tree head: %w", err)
+	}
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	// Use the new SMT and its signature.
+	r.headLock.Lock()
+	defer r.headLock.Unlock()
+	r.smt = smt
+	r.signedTreeHead = signature
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +86,16 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// Use the same tree head for all parts, also if it is replaced by a newer one meanwhile.
+	r.headLock.RLock()
+	smt, signedTreeHead := r.smt, r.signedTreeHead
+	r.headLock.RUnlock()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +134,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +146,7 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
+	r.headLock.RLock()
+	defer r.headLock.RUnlock()
 	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
 }
-
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
-	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
-	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
-}
-- 
2.43.0


From cc1f1029d7949ff808093c35a551ee2b29f4a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 36/45] fix: trie: don't write shared state while only reading
 proofs

Concurrent proofs wrote the same flag under a read lock.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 2 --
 pkg/mapserver/trie/trie_tools.go        | 1 -
 2 files changed, 3 deletions(-)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 5789b07..195c86b 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -32,7 +32,6 @@ func (s *Trie) MerkleProofR(ctx context.Context, key, root []byte) ([][]byte, bo
 	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	included, newKey, value, err := s.merkleProof(ctx, &auditPath, root, key, nil, s.TrieHeight, 0)
 	return auditPath, included, newKey, value, err
 }
@@ -51,7 +50,6 @@ func (s *Trie) merkleProofCompressed(ctx context.Context, key, root []byte) ([]b
 	mpFull := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	// create a regular merkle proof and then compress it
 	included, proofKey, proofVal, err := s.merkleProof(ctx, &mpFull, root, key, nil, s.TrieHeight, 0)
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index ceea291..8948c2c 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -80,7 +80,6 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 func (s *Trie) Get(ctx context.Context, key []byte) ([]byte, error) {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false
 	return s.get(ctx, s.Root, key, nil, 0, s.TrieHeight)
 }
 
-- 
2.43.0


From 1a652fe0205621aac503c8e178d532cc1392fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 37/45] fix: mapserver: exactly one answer per update request,
 after the reload

A failing reload left an answer nobody waited for, which blocked the server
or was taken by the next requester; a request after the end panicked.
---
 pkg/mapserver/mapserver.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..a4f0709 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -23,6 +23,9 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
+// errUpdatesStopped is returned to those requesting an update after the server was told to exit.
+var errUpdatesStopped = fmt.Errorf("the map server is no longer serving update requests")
+
 type PayloadReturnType int
 
 const (
@@ -46,6 +49,7 @@ type MapServer struct {
 	apiStopServerChan chan struct{}
 	updateChan        chan context.Context
 	updateErrChan     chan error
+	updateStoppedChan chan struct{} // Closed when no more update requests are served.
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -117,6 +121,7 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		apiStopServerChan: make(chan struct{}, 1),
 		updateChan:        make(chan context.Context),
 		updateErrChan:     make(chan error),
+		updateStoppedChan: make(chan struct{}),
 	}
 
 	// Start listening for update requests.
@@ -128,14 +133,18 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(c)
+				// Reload also after a failure, or if the requester gave up, as the SMT could have
+				// been updated before.
+				errReload := s.Responder.ReloadRootAndSignTreeHead(ctx, s.Key)
+				if err == nil {
+					err = errReload
 				}
+				// Exactly one answer per request.
+				s.updateErrChan <- err
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
+				close(s.updateStoppedChan)
 				return
 			}
 		}
@@ -213,6 +222,8 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 		// Wait for the answer (in form of an error).
 		err := <-s.updateErrChan
 		return true, err
+	case <-s.updateStoppedChan:
+		return false, errUpdatesStopped
 	default:
 		return false, nil
 	}
@@ -221,7 +232,11 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	select {
+	case s.updateChan <- ctx:
+	case <-s.updateStoppedChan:
+		return errUpdatesStopped
+	}
 
 	// Wait for the answer (in form of an error).
 	err := <-s.updateErrChan
@@ -299,15 +314,13 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
-	err := s.prune(ctx)
-	if err != nil {
-		s.updateErrChan <- err
-		return
+	if err := s.prune(ctx); err != nil {
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 08acc7c1dcbc394bad7f1c5962fda5df7d573f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 38/45] fix: httplogfetcher: stopped fetches end, and bad
 answers are errors

A replaced fetch delivered its entries to the next one, a stopped one never
ended, and empty or excessive answers looped or panicked.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 74 ++++++++++++++++------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..0c1190b 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -40,7 +40,10 @@ type HttpLogFetcher struct {
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 	ctClient         *client.LogClient
 	chanResults      chan *result
-	stopping         bool // Set to request the LogFetcher to stop fetching.
+
+	// The context of the current fetch. It is canceled to request the LogFetcher to stop fetching.
+	ctx    context.Context
+	cancel context.CancelFunc
 
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
@@ -71,6 +74,7 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	ctx, cancel := context.WithCancel(context.Background())
 	return &HttpLogFetcher{
 		url: url,
 
@@ -78,6 +82,8 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 		processBatchSize: defaultProcessBatchSize,
 		ctClient:         ctClient,
 		chanResults:      nil,
+		ctx:              ctx,
+		cancel:           cancel,
 	}, nil
 }
 
@@ -105,15 +111,34 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	f.cancel() // A previous fetch doesn't run any longer.
+	f.ctx, f.cancel = context.WithCancel(context.Background())
 	f.chanResults = make(chan *result, preloadCount)
-	f.stopping = false
 	f.start = start
 	f.end = end
-	go f.fetch()
+
+	// Run on a copy: if this fetch is followed by another one, they don't share anything.
+	run := *f
+	go run.fetch()
 }
 
 func (f *HttpLogFetcher) StopFetching() {
-	f.stopping = true
+	f.cancel()
+}
+
+// stopping returns true if the LogFetcher was requested to stop fetching.
+func (f *HttpLogFetcher) stopping() bool {
+	return f.ctx.Err() != nil
+}
+
+// sendResult waits until the result is taken, or until requested to stop (and returns false).
+func (f *HttpLogFetcher) sendResult(r *result) bool {
+	select {
+	case f.chanResults <- r:
+		return true
+	case <-f.ctx.Done():
+		return false
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -198,13 +223,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.stopping() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +238,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +248,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -235,17 +259,19 @@ func (f *HttpLogFetcher) fetch() {
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				if err != nil {
-					f.chanResults <- &result{
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		if !f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
+		}) {
+			return
 		}
 	}
 }
@@ -264,7 +290,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.stopping() {
 		return 0, nil
 	}
 	// Do batches.
@@ -277,7 +303,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -293,7 +319,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping() {
 			return remStart + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
@@ -316,14 +342,22 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.stopping() {
+			// Requested to stop
+			return 0, nil
+		}
+		rsp, err := f.ctClient.GetRawEntries(f.ctx, start+offset, end)
+		if f.stopping() {
 			// Requested to stop
 			return 0, nil
 		}
-		rsp, err := f.ctClient.GetRawEntries(context.Background(), start+offset, end)
 		if err != nil {
 			return offset, err
 		}
+		if n := int64(len(rsp.Entries)); n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("log server returned %d entries for the range [%d,%d]",
+				n, start+offset, end)
+		}
 		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
-- 
2.43.0


From ce89bd84e617bdb5a3b7291a75d72d1e00105cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 39/45] fix: locallogfetcher: malformed rows are errors,
 fetches don't mix

A malformed row or name crashed the server or looped; errors in reading a
file were printed only, with its rows left out.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 115 +++++++++++++++-----
 1 file changed, 87 insertions(+), 28 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..9c29331 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -57,7 +57,10 @@ type LocalLogFetcher struct {
 	maxIngestionSize uint64
 
 	chanResults chan *result
-	stopping    bool // Set to request the LogFetcher to stop fetching.
+
+	// The context of the current fetch. It is canceled to request the LogFetcher to stop fetching.
+	ctx    context.Context
+	cancel context.CancelFunc
 
 	inputFiles []*CsvFileInfo
 
@@ -85,9 +88,12 @@ type CsvFileInfo struct {
 }
 
 func NewLocalLogFetcher(url, folder string, csvIngestionMaxRows uint64) (*LocalLogFetcher, error) {
+	ctx, cancel := context.WithCancel(context.Background())
 	fetcher := &LocalLogFetcher{
 		url:    url,
 		folder: folder,
+		ctx:    ctx,
+		cancel: cancel,
 
 		processBatchSize: defaultProcessBatchSize,
 		maxIngestionSize: csvIngestionMaxRows,
@@ -99,7 +105,9 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 	// reset current time for removing expired certificates
 	f.now = updateStartTime
 
-	// reset values
+	// reset values, the routines of a previous fetch finish
+	f.cancel()
+	f.ctx, f.cancel = context.WithCancel(context.Background())
 	f.chanResults = make(chan *result, preloadCount)
 	f.incomingFileCh = make(chan util.CsvFile)
 	f.certWithChainChan = make(chan *CertWithChainData)
@@ -127,7 +135,9 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 		f.achievableStateMap[start] = getGzFileChain(f.achievableStateMap, start)
 	}
 
-	f.processIncomingFiles()
+	// process in a copy: if this fetch is followed by another one, they don't share anything
+	run := *f
+	run.processIncomingFiles()
 	return nil
 }
 
@@ -184,22 +194,22 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}
 
 	// process the requested files in a separate go routine
+	run := *f
 	go func() {
 		for _, entry := range requestedFiles {
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
-				f.addGzFiles([]string{entry.path})
+				run.addGzFiles([]string{entry.path})
 			} else {
-				f.addCsvFiles([]string{entry.path})
+				run.addCsvFiles([]string{entry.path})
 			}
 		}
-		close(f.incomingFileCh)
+		close(run.incomingFileCh)
 	}()
 }
 
 func (f *LocalLogFetcher) StopFetching() {
-	// TODO: abort csv fetching/parsing if this value is set to true
-	f.stopping = true
+	f.cancel()
 }
 
 // NextBatch returns true if there is a next batch to be retrieved or false if no further batches
@@ -239,7 +249,11 @@ func (f *LocalLogFetcher) ReturnNextBatch() (
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.GzFile{}).WithFile(filename)
+		select {
+		case p.incomingFileCh <- (&util.GzFile{}).WithFile(filename):
+		case <-p.ctx.Done():
+			return
+		}
 	}
 }
 
@@ -247,7 +261,11 @@ func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename)
+		select {
+		case p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename):
+		case <-p.ctx.Done():
+			return
+		}
 	}
 }
 
@@ -270,6 +288,22 @@ func (p *LocalLogFetcher) processFile(f util.CsvFile) {
 	}
 }
 
+// sendCertWithChain waits until the data is taken, or until requested to stop.
+func (p *LocalLogFetcher) sendCertWithChain(data *CertWithChainData) {
+	select {
+	case p.certWithChainChan <- data:
+	case <-p.ctx.Done():
+	}
+}
+
+// sendResult waits until the result is taken, or until requested to stop.
+func (p *LocalLogFetcher) sendResult(r *result) {
+	select {
+	case p.chanResults <- r:
+	case <-p.ctx.Done():
+	}
+}
+
 // ingestWithCSV spawns as many goroutines as specified by the constant `NumParsers`,
 // that divide the CSV rows and parse them.
 // For efficiency reasons, the whole file is read at once in memory, and its rows divided
@@ -286,12 +320,16 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		if p.now.After(time.Unix(n, 0)) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCertWithChain(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
+		if len(fields) <= CertChainColumn {
+			return fmt.Errorf("at line %d: only %d columns", lineNo, len(fields))
+		}
+
 		// From this point on, we need to parse the certificate.
 		rawBytes, err := base64.StdEncoding.DecodeString(fields[CertificateColumn])
 		if err != nil {
@@ -305,9 +343,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 
 		if p.now.After(cert.NotAfter) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCertWithChain(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -329,12 +367,12 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			}
 			chainIDs[i] = &id
 		}
-		p.certWithChainChan <- &CertWithChainData{
+		p.sendCertWithChain(&CertWithChainData{
 			Cert:          *cert,
 			CertID:        &certID,
 			ChainPayloads: chain,
 			ChainIDs:      chainIDs,
-		}
+		})
 		return nil
 	}
 
@@ -342,6 +380,10 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		lineNo int
 		fields []string
 	}
+	records, err := reader.ReadAll()
+	if err != nil {
+		return err
+	}
 	recordsChan := make(chan *lineAndFields)
 
 	wg := sync.WaitGroup{}
@@ -351,19 +393,18 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			defer wg.Done()
 			for x := range recordsChan {
 				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+					p.errorCh <- err
 				}
 			}
 		}()
 	}
-	records, err := reader.ReadAll()
-	if err != nil {
-		return err
-	}
 	for lineNo, fields := range records {
 		if len(fields) == 0 { // there exist empty lines (e.g. at the end of the gz files)
 			continue
 		}
+		if p.ctx.Err() != nil { // requested to stop
+			break
+		}
 		recordsChan <- &lineAndFields{
 			lineNo: lineNo,
 			fields: fields,
@@ -402,8 +443,16 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 		for r := 0; r < NumFileReaders; r++ {
 			go func() {
 				defer wg.Done()
-				for f := range l.incomingFileCh {
-					l.processFile(f)
+				for {
+					select {
+					case f, ok := <-l.incomingFileCh:
+						if !ok {
+							return
+						}
+						l.processFile(f)
+					case <-l.ctx.Done():
+						return
+					}
 				}
 			}()
 		}
@@ -415,6 +464,7 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 	}()
 
 	// Process the parsed content into the DB, and from DB into SMT:
+	errorsFound := make(chan error, 1)
 	go func() {
 		var currentSize int64 = 0
 		var r *result = &result{}
@@ -427,26 +477,29 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 				r.chains = append(r.chains, data.ChainPayloads)
 			}
 			if currentSize >= l.processBatchSize {
-				l.chanResults <- r
+				l.sendResult(r)
 				currentSize = 0
 				r = &result{}
 			}
 		}
 		if currentSize > 0 {
-			l.chanResults <- r
+			l.sendResult(r)
 			currentSize = 0
 			r = &result{}
 		}
-		close(l.chanResults)
 
 		// There is no more processing to do, close the errors channel and allow the
-		// error processor to finish.
+		// error processor to finish. If there was any error, the last result is an error.
 		close(l.errorCh)
+		if err := <-errorsFound; err != nil {
+			l.sendResult(&result{err: err})
+		}
+		close(l.chanResults)
 	}()
 
 	go func() {
 		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
+		errorsFound <- l.processErrorChannel()
 	}()
 }
 
@@ -493,6 +546,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if end < start {
+				return nil, fmt.Errorf("file %s has an invalid range of indices", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
@@ -507,6 +563,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From 9289cb9907aac013137777030df887fcb500ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 40/45] fix: updater: expirations for all certificates of local
 updates

There was one per leaf certificate only, while the certificates of the chains
are stored, too: with chains the update panicked or stored wrong times.
---
 pkg/mapserver/updater/updater.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 27b2075..f2a51f9 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,7 +218,8 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
-	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
+	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs,
+		util.ExtractExpirations(certs), nil)
 }
 
 // UpdatePolicyCerts: update RPC and PC from url. Currently just mock PC and RPC
-- 
2.43.0


From e29b502f53a8e3e6fd87e55ab6cbf50350005619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:53 +0000
Subject: [PATCH 41/45] fix: policylog client: empty lists, missing proofs and
 errors of QueueRPCs

Empty lists of leaves blocked or reported a failed leaf that never was, a log
answering without proofs or head kept the client asking for ever or crashed it,
and QueueRPCs waited for ever if others had added leaves and dropped the errors
of those that could not be added.
---
 pkg/policylog/client/concurrentfunc.go | 17 +++++++++++++----
 pkg/policylog/client/logclient.go      | 14 +++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 3f7dfb2..eae553b 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -97,7 +97,10 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 	// init result
 	result := &addLeavesResult{
 		Errs:         []error{},
-		FailedLeaves: [][]byte{{}},
+		FailedLeaves: [][]byte{},
+	}
+	if len(data) == 0 {
+		return result
 	}
 
 	// channels to workers
@@ -196,6 +199,10 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 		for {
 			// get result
 			resp, err := worker.GetInclusionProofByHash(ctx, request)
+			if err == nil && len(resp.Proof) == 0 {
+				// Without any proof, the leaf is not in the tree (yet).
+				err = status.Error(codes.NotFound, "no inclusion proof for the leaf")
+			}
 
 			// if the leaf is not found -> try later
 			if err != nil && status.Code(err) == codes.NotFound {
@@ -216,15 +223,14 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				resultChan <- *workerResult
 				break workerQueryLoop
 
-				// normally, proof will > 0, except for when there is only one leaf in the log; ignore this situation
-			} else if len(resp.Proof) > 0 {
+			} else {
 				// init poiAndSTH
 				poiAndSTH := new(PoIAndSTH)
 				// when query succeeds
 				poiAndSTH.PoIs = resp.Proof
 
 				// marshall the log root (Signed Tree Head)
-				if err := poiAndSTH.STH.UnmarshalBinary(resp.SignedLogRoot.LogRoot); err != nil {
+				if err := poiAndSTH.STH.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot()); err != nil {
 					workerResult.err = err
 					workerResult.failedLeafData = []byte(leafData)
 					resultChan <- *workerResult
@@ -248,6 +254,9 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	// init result
 	fetchInclusionResult := new(fetchInclusionResult)
 	fetchInclusionResult.PoIs = make(map[string]*PoIAndSTH)
+	if len(leavesData) == 0 {
+		return fetchInclusionResult
+	}
 
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..c3c6811 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -106,7 +106,7 @@ func (c *LogClient) GetCurrentLogRoot(ctx context.Context) (*types.LogRootV1, er
 	}
 
 	var root types.LogRootV1
-	if err := root.UnmarshalBinary(logRootResp.SignedLogRoot.LogRoot); err != nil {
+	if err := root.UnmarshalBinary(logRootResp.GetSignedLogRoot().GetLogRoot()); err != nil {
 		return nil, fmt.Errorf("GetCurrentLogRoot | UnmarshalBinary: %w", err)
 	}
 	return &root, nil
@@ -137,7 +137,7 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 		return nil, fmt.Errorf("GetConsistencyProof | %w", err)
 	}
 
-	return resp.Proof.Hashes, nil
+	return resp.GetProof().GetHashes(), nil
 }
 
 // QueueRPCs: queue rpcs and generate spts
@@ -150,6 +150,12 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	queueRPCResult := &QueueRPCResult{}
 
+	// The log might have grown since the last time its size was obtained.
+	err := c.UpdateTreeSize(ctx)
+	if err != nil {
+		return nil, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
+	}
+
 	// read RPC from files
 	data, err := c.readRPCFromFileToBytes()
 	if err != nil {
@@ -166,6 +172,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// process the errors from AddLeaves()
 	queueRPCResult.NumOfSucceedAddedLeaves = leafNum - len(addLeavesErrors.Errs)
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
+	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
 
 	// calculate time
 	elapsed := time.Since(start)
@@ -181,7 +188,8 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		if c.currentTreeSize == prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
+		// Others can add leaves to the log as well.
+		if c.currentTreeSize >= prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
 			break
 		}
 		// wait 50 ms before next query
-- 
2.43.0


From 8850f52aec47ac7b49c5c0f0b08691fa91b0b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 42/45] fix: mapserver: servers of one process shared the HTTP
 handlers of the last one started

---
 pkg/mapserver/mapserver.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index a4f0709..cc061f7 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -165,15 +165,16 @@ func (s *MapServer) ListenWithoutTLS(ctx context.Context) error {
 
 // listen is responsible to start an HTTP or HTTPS listener for the responder
 func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
-	// Reset the default sever mux, to establish the handlers from new.
-	http.DefaultServeMux = &http.ServeMux{}
-	http.HandleFunc("/getproof", s.apiGetProof)
-	http.HandleFunc("/getpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, CertificatesAndPolicies) })
-	http.HandleFunc("/getcertpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Certificates) })
-	http.HandleFunc("/getpolicypayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Policies) })
+	// The handlers of this server. Other servers in the same process have their own.
+	mux := http.NewServeMux()
+	mux.HandleFunc("/getproof", s.apiGetProof)
+	mux.HandleFunc("/getpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, CertificatesAndPolicies) })
+	mux.HandleFunc("/getcertpayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Certificates) })
+	mux.HandleFunc("/getpolicypayloads", func(w http.ResponseWriter, r *http.Request) { s.apiGetPayloads(w, r, Policies) })
 
 	server := &http.Server{
-		Addr: fmt.Sprintf(":%d", s.HttpAPIPort),
+		Addr:    fmt.Sprintf(":%d", s.HttpAPIPort),
+		Handler: mux,
 		TLSConfig: &tls.Config{
 			Certificates: []tls.Certificate{*s.TLS},
 		},
-- 
2.43.0


From 062840bbea716fc1cc8d68231dd4884d9c346c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 43/45] fix: mapserver: a failed listening took the stop
 request of the next one

---
 pkg/mapserver/mapserver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index cc061f7..7bfe151 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -183,10 +183,17 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 	}
 	// chanErr will hold the error from the Listen call.
 	chanErr := make(chan error)
+	// The goroutine below must not outlive this call, or it would take the stop request of the next.
+	ended := make(chan struct{})
+	defer close(ended)
 	go func() {
 		// Spawn a goroutine to shutdown the HTTP server.
 		go func() {
-			<-s.apiStopServerChan
+			select {
+			case <-s.apiStopServerChan:
+			case <-ended:
+				return
+			}
 			server.Shutdown(ctx)
 		}()
 		// This call blocks
-- 
2.43.0


From 258c80bf4f652ea5d9077800b310faa6dcd26e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 44/45] fix: mapserver: listening did not end with its context

---
 pkg/mapserver/mapserver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 7bfe151..f6e0a0d 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -191,6 +191,7 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 		go func() {
 			select {
 			case <-s.apiStopServerChan:
+			case <-ctx.Done():
 			case <-ended:
 				return
 			}
-- 
2.43.0


From 51b02264a03b284c3d62bf3763113f2d0515e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 45/45] fix: grpcserver: the server went on serving after its
 work was terminated

---
 pkg/grpc/grpcserver/grpcserver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/grpc/grpcserver/grpcserver.go b/pkg/grpc/grpcserver/grpcserver.go
index 6cad7ee..eb33e58 100644
--- a/pkg/grpc/grpcserver/grpcserver.go
+++ b/pkg/grpc/grpcserver/grpcserver.go
@@ -81,6 +81,7 @@ func (server *ResponderServer) StartWork(terminateChan chan byte, port int) erro
 	log.Printf("server listening at %v", lis.Addr())
 
 	go s.Serve(lis)
+	defer s.GracefulStop()
 
 	_ = <-terminateChan
 
-- 
2.43.0

