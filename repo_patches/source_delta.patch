From 1fd96a2a85e1229d62065fbcefba451b7923dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 01/47] fix: keep certificate file names inside their directory

A link on the certificate site whose name contained path separators made
fetch-certs write outside the output directory.
---
 tools/cmd/fetch-certs/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..1407a6e 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -917,7 +917,8 @@ func extractCertificateName(url string) string {
 	name = strings.TrimPrefix(name, "iot_doc/")
 	name = strings.TrimPrefix(name, "erca_of_doc/")
 
-	return name
+	// The name becomes a file name: links must not choose the directory.
+	return filepath.Base(name)
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-- 
2.43.0


From 9217be22a45b6a304722458187537b712e3c13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 02/47] fix: save and index certificates in the order they are
 listed

fetch-certs appended index entries in the order downloads completed and
sorted them unstably, so entries with equal country and expiry changed
places between runs. Two different certificates with the same holder
reference overwrote each other's file, leaving an index entry that
described bytes that were not there.
---
 tools/cmd/fetch-certs/main.go | 116 ++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 48 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 1407a6e..8246b15 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -18,7 +18,6 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
-	"sync"
 	"time"
 
 	"golang.org/x/net/html"
@@ -229,7 +228,7 @@ func downloadAndSaveRootCertificate(ctx context.Context, baseDir string) ([]byte
 
 // sortCertificates sorts certificate entries by country (ascending) and expiration date (descending).
 func sortCertificates(certs []CertificateEntry) {
-	sort.Slice(certs, func(i, j int) bool {
+	sort.SliceStable(certs, func(i, j int) bool {
 		// First, sort by country (ascending)
 		if certs[i].Country != certs[j].Country {
 			return certs[i].Country < certs[j].Country
@@ -256,6 +255,43 @@ func sortCertificates(certs []CertificateEntry) {
 	})
 }
 
+// downloadedCertificate is a certificate that has been downloaded but not yet saved.
+type downloadedCertificate struct {
+	data     []byte
+	filename string
+	entry    CertificateEntry
+}
+
+// saveCertificates writes certificates to a subdirectory in the order they are listed on the website
+// and returns the index entries of those that were saved. Certificates that could not be downloaded are nil.
+// Different certificates that share a filename are saved under different names.
+func saveCertificates(outputDir, subdir string, certs []*downloadedCertificate) []CertificateEntry {
+	var entries []CertificateEntry
+	saved := make(map[string][]byte)
+	for _, cert := range certs {
+		if cert == nil {
+			continue
+		}
+		filename := cert.filename
+		data, exists := saved[filename]
+		for n := 2; exists && !bytes.Equal(data, cert.data); n++ {
+			filename = fmt.Sprintf("%s-%d.bin", strings.TrimSuffix(cert.filename, ".bin"), n)
+			data, exists = saved[filename]
+		}
+		if !exists {
+			if err := os.WriteFile(filepath.Join(outputDir, subdir, filename), cert.data, 0o644); err != nil {
+				log.Printf("Warning: Failed to save %s: %v", filename, err)
+				continue
+			}
+			saved[filename] = cert.data
+		}
+		entry := cert.entry
+		entry.Path = filepath.Join(subdir, filename)
+		entries = append(entries, entry)
+	}
+	return entries
+}
+
 func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir string, concurrency int, ercaModulus, ercaExponent *big.Int) ([]CertificateEntry, error) {
 	url := baseURL + "/dtc_public_key_certificates_dt.php.html"
 
@@ -279,15 +315,14 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 	log.Printf("Found %d Gen1 certificate links", len(certMetadata))
 
 	// Process certificates concurrently
-	var mu sync.Mutex
-	var certificates []CertificateEntry
+	results := make([]*downloadedCertificate, len(certMetadata))
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
 	_ = gctx // Context is embedded in errgroup
 
-	for _, meta := range certMetadata {
-		meta := meta // capture loop variable
+	for i, meta := range certMetadata {
+		i, meta := i, meta // capture loop variables
 		g.Go(func() error {
 			certData, err := downloadCertificate(meta.downloadURL, 194)
 			if err != nil {
@@ -323,26 +358,18 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 				filename = chrStr + ".bin"
 			}
 
-			// Save certificate to g1/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g1", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
-				return nil
+			results[i] = &downloadedCertificate{
+				data:     certData,
+				filename: filename,
+				entry: CertificateEntry{
+					CAR:            carStr,
+					CHR:            chrStr,
+					Country:        meta.country,
+					URL:            meta.downloadURL,
+					ExpirationDate: eov,
+				},
 			}
 
-			entry := CertificateEntry{
-				CAR:            carStr,
-				CHR:            chrStr,
-				Country:        meta.country,
-				URL:            meta.downloadURL,
-				ExpirationDate: eov,
-				Path:           filepath.Join("g1", filename),
-			}
-
-			mu.Lock()
-			certificates = append(certificates, entry)
-			mu.Unlock()
-
 			if eov != "" {
 				log.Printf("  Downloaded: %s (%s, CAR: %s, CHR: %s, Expires: %s)", filename, meta.country, carStr, chrStr, eov)
 			} else {
@@ -356,7 +383,8 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 		return nil, err
 	}
 
-	return certificates, nil
+	// Save certificates to g1/<CHR>.bin
+	return saveCertificates(outputDir, "g1", results), nil
 }
 
 func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir string, concurrency int) ([]CertificateEntry, error) {
@@ -382,15 +410,14 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 	log.Printf("Found %d Gen2 certificate links", len(certMetadata))
 
 	// Process certificates concurrently
-	var mu sync.Mutex
-	var certificates []CertificateEntry
+	results := make([]*downloadedCertificate, len(certMetadata))
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
 	_ = gctx // Context is embedded in errgroup
 
-	for _, meta := range certMetadata {
-		meta := meta // capture loop variable
+	for i, meta := range certMetadata {
+		i, meta := i, meta // capture loop variables
 		g.Go(func() error {
 			certData, err := downloadCertificate(meta.downloadURL, 341)
 			if err != nil {
@@ -422,27 +449,19 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 				filename = chrStr + ".bin"
 			}
 
-			// Save certificate to g2/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g2", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
-				return nil
-			}
-
 			carStr := fmt.Sprintf("%d", car)
-			entry := CertificateEntry{
-				CAR:            carStr,
-				CHR:            chrStr,
-				Country:        meta.country,
-				URL:            meta.downloadURL,
-				ExpirationDate: meta.expirationDate,
-				Path:           filepath.Join("g2", filename),
+			results[i] = &downloadedCertificate{
+				data:     certData,
+				filename: filename,
+				entry: CertificateEntry{
+					CAR:            carStr,
+					CHR:            chrStr,
+					Country:        meta.country,
+					URL:            meta.downloadURL,
+					ExpirationDate: meta.expirationDate,
+				},
 			}
 
-			mu.Lock()
-			certificates = append(certificates, entry)
-			mu.Unlock()
-
 			if meta.expirationDate != "" {
 				log.Printf("  Downloaded: %s (%s, CAR: %s, CHR: %s, Expires: %s)", filename, meta.country, carStr, chrStr, meta.expirationDate)
 			} else {
@@ -456,7 +475,8 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 		return nil, err
 	}
 
-	return certificates, nil
+	// Save certificates to g2/<CHR>.bin
+	return saveCertificates(outputDir, "g2", results), nil
 }
 
 // extractGen1CAR extracts the Certificate Authority Reference from a Gen1 certificate.
-- 
2.43.0


From ae400db425f7d72d5051d2e97ab67f6202919398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 03/47] fix: never leave an index that describes missing or
 partial files

A refresh deleted the old certificate files while the old index was still
in place and wrote new files in place, so a crash or a full disk left
partial files or an index that did not match them.
---
 tools/cmd/fetch-certs/main.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 8246b15..a75a582 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -180,6 +180,11 @@ func main() {
 // createDirectoryStructure creates the required directory structure for certificates
 // and removes any existing .bin files to ensure a clean state.
 func createDirectoryStructure(baseDir string) error {
+	// Remove the old index first: it must not outlive the files it lists
+	if err := os.Remove(filepath.Join(baseDir, "index.json")); err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("failed to remove old index: %w", err)
+	}
+
 	dirs := []string{
 		filepath.Join(baseDir, "root"),
 		filepath.Join(baseDir, "g1"),
@@ -218,7 +223,7 @@ func downloadAndSaveRootCertificate(ctx context.Context, baseDir string) ([]byte
 
 	// Save to root/EC_PK.bin
 	certPath := filepath.Join(baseDir, "root", "EC_PK.bin")
-	if err := os.WriteFile(certPath, certData, 0o644); err != nil {
+	if err := writeFileAtomic(certPath, certData); err != nil {
 		return nil, fmt.Errorf("failed to write root certificate: %w", err)
 	}
 
@@ -279,7 +284,7 @@ func saveCertificates(outputDir, subdir string, certs []*downloadedCertificate)
 			data, exists = saved[filename]
 		}
 		if !exists {
-			if err := os.WriteFile(filepath.Join(outputDir, subdir, filename), cert.data, 0o644); err != nil {
+			if err := writeFileAtomic(filepath.Join(outputDir, subdir, filename), cert.data); err != nil {
 				log.Printf("Warning: Failed to save %s: %v", filename, err)
 				continue
 			}
@@ -979,9 +984,23 @@ func writeIndexFile(index *CertificateIndex, outputPath string) error {
 		return fmt.Errorf("failed to marshal index: %w", err)
 	}
 
-	if err := os.WriteFile(outputPath, data, 0o644); err != nil {
+	if err := writeFileAtomic(outputPath, data); err != nil {
 		return fmt.Errorf("failed to write file: %w", err)
 	}
 
 	return nil
 }
+
+// writeFileAtomic writes a file so that it is either complete or not there at all.
+func writeFileAtomic(path string, data []byte) error {
+	tmpPath := path + ".tmp"
+	if err := os.WriteFile(tmpPath, data, 0o644); err != nil {
+		_ = os.Remove(tmpPath)
+		return err
+	}
+	if err := os.Rename(tmpPath, path); err != nil {
+		_ = os.Remove(tmpPath)
+		return err
+	}
+	return nil
+}
-- 
2.43.0


From 81d47b5ea156d0daa08819f02212a7f3a053d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 04/47] fix: always finish fetching certificates

Requests for lists and certificates had no timeout and read without
limit, so one server that never answered kept fetch-certs running for
ever; a concurrency of 0 made it wait for ever too.
---
 tools/cmd/fetch-certs/main.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index a75a582..f1ce0f8 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -91,6 +91,9 @@ type CertificateEntry struct {
 	Path string `json:"path"`
 }
 
+// httpClient is used for all requests; its timeout also covers reading the response body.
+var httpClient = &http.Client{Timeout: 30 * time.Second}
+
 func main() {
 	var (
 		outputDir   = flag.String("dir", "certs", "Output directory for certificates and index")
@@ -99,6 +102,10 @@ func main() {
 	)
 	flag.Parse()
 
+	if *concurrency < 1 {
+		log.Fatalf("Invalid concurrency: %d", *concurrency)
+	}
+
 	log.Printf("Building certificate index from %s (concurrency: %d)", *baseURL, *concurrency)
 	log.Printf("Output directory: %s", *outputDir)
 
@@ -215,8 +222,7 @@ func createDirectoryStructure(baseDir string) error {
 
 // downloadAndSaveRootCertificate downloads the ERCA root certificate and saves it to disk.
 func downloadAndSaveRootCertificate(ctx context.Context, baseDir string) ([]byte, error) {
-	client := &http.Client{Timeout: 30 * time.Second}
-	certData, err := downloadERCA(ctx, client)
+	certData, err := downloadERCA(ctx, httpClient)
 	if err != nil {
 		return nil, err
 	}
@@ -300,7 +306,7 @@ func saveCertificates(outputDir, subdir string, certs []*downloadedCertificate)
 func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir string, concurrency int, ercaModulus, ercaExponent *big.Int) ([]CertificateEntry, error) {
 	url := baseURL + "/dtc_public_key_certificates_dt.php.html"
 
-	resp, err := http.Get(url)
+	resp, err := httpClient.Get(url)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch Gen1 certificate list: %w", err)
 	}
@@ -395,7 +401,7 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir string, concurrency int) ([]CertificateEntry, error) {
 	url := baseURL + "/dtc_public_key_certificates_st.php.html"
 
-	resp, err := http.Get(url)
+	resp, err := httpClient.Get(url)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch Gen2 certificate list: %w", err)
 	}
@@ -947,7 +953,7 @@ func extractCertificateName(url string) string {
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-	resp, err := http.Get(url)
+	resp, err := httpClient.Get(url)
 	if err != nil {
 		return nil, err
 	}
@@ -957,7 +963,7 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, fmt.Errorf("unexpected status code: %d", resp.StatusCode)
 	}
 
-	data, err := io.ReadAll(resp.Body)
+	data, err := io.ReadAll(io.LimitReader(resp.Body, int64(maxSize)+1))
 	if err != nil {
 		return nil, err
 	}
@@ -967,7 +973,7 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 	}
 
 	if len(data) > maxSize {
-		return nil, fmt.Errorf("certificate too large: %d bytes (max %d)", len(data), maxSize)
+		return nil, fmt.Errorf("certificate too large: more than %d bytes", maxSize)
 	}
 
 	return data, nil
-- 
2.43.0


From 595cc6d50fad06f54c141591187c19ccf31ed347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 05/47] fix: find embedded certificates in their directories

---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From f75cef7caf028135ba06b8ca909fb3fda3075580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 06/47] fix: do not hand out the memory of the embedded root
 key

---
 internal/security/root_certificate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/security/root_certificate.go b/internal/security/root_certificate.go
index 375ab63..af67e09 100644
--- a/internal/security/root_certificate.go
+++ b/internal/security/root_certificate.go
@@ -1,6 +1,7 @@
 package security
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -42,8 +43,8 @@ func UnmarshalRootCertificate(data []byte) (*securityv1.RootCertificate, error)
 	keyIDStr := fmt.Sprintf("%d", keyID)
 
 	// Extract RSA public key components
-	modulus := data[idxModulus : idxModulus+lenModulus]
-	exponent := data[idxExponent : idxExponent+lenExponent]
+	modulus := bytes.Clone(data[idxModulus : idxModulus+lenModulus])
+	exponent := bytes.Clone(data[idxExponent : idxExponent+lenExponent])
 
 	cert := &securityv1.RootCertificate{}
 	cert.SetKeyId(keyIDStr)
-- 
2.43.0


From fb4ca649efc9d40d37615531698b877ab9e24ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 07/47] fix: reset the validity mark before every verification

---
 internal/card/driver_card_file.go | 2 ++
 internal/security/ecc_verify.go   | 1 +
 internal/security/rsa_verify.go   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..b3645a1 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1082,6 +1082,7 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 	if cardCert == nil {
 		return fmt.Errorf("card certificate is missing")
 	}
+	cardCert.SetSignatureValid(false)
 
 	var caCert *securityv1.RsaCertificate
 	var err error
@@ -1134,6 +1135,7 @@ func (o VerifyOptions) verifyGen2Certificates(ctx context.Context, tachographG2
 	if cardSignCert == nil {
 		return fmt.Errorf("card sign certificate is missing")
 	}
+	cardSignCert.SetSignatureValid(false)
 
 	var caCert *securityv1.EccCertificate
 	var err error
diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..67cc871 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,7 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..94c4efa 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -91,6 +91,7 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	cert.SetSignatureValid(false)
 
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
-- 
2.43.0


From d3e7188dd81f92ae27afa710674762ec395a7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 08/47] fix: verify a copy of the CA certificate against the
 root in every call

---
 internal/card/driver_card_file.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index b3645a1..0002ec5 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1095,20 +1095,16 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 			return fmt.Errorf("failed to fetch CA certificate from resolver: %w", err)
 		}
 
-		// For RSA certificates, the public key is extracted during signature recovery.
-		// If the CA certificate doesn't have its public key yet, we need to verify it
-		// against the root CA first to populate it.
-		if len(caCert.GetRsaModulus()) == 0 || len(caCert.GetRsaExponent()) == 0 {
-			// Fetch the root CA certificate
-			rootCert, err := o.CertificateResolver.GetRootCertificate(ctx)
-			if err != nil {
-				return fmt.Errorf("failed to get root CA certificate: %w", err)
-			}
-
-			// Verify the CA certificate against the root CA to populate its public key
-			if err := security.VerifyRsaCertificateWithRoot(caCert, rootCert); err != nil {
-				return fmt.Errorf("CA certificate verification failed: %w", err)
-			}
+		// For RSA certificates, the public key is extracted during signature recovery,
+		// so the CA certificate is verified against the root CA. The certificate
+		// belongs to the resolver and may be shared, so a copy is verified.
+		rootCert, err := o.CertificateResolver.GetRootCertificate(ctx)
+		if err != nil {
+			return fmt.Errorf("failed to get root CA certificate: %w", err)
+		}
+		caCert = proto.CloneOf(caCert)
+		if err := security.VerifyRsaCertificateWithRoot(caCert, rootCert); err != nil {
+			return fmt.Errorf("CA certificate verification failed: %w", err)
 		}
 	} else {
 		// Fall back to embedded CA certificate from card file
-- 
2.43.0


From 602359b1534025699153ef91c767f7ddae47ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 09/47] fix: reject unusable CA public keys instead of
 computing with them

---
 internal/security/ecc_verify.go | 4 ++++
 internal/security/rsa_verify.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 67cc871..e9148c7 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -114,6 +114,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	if !curve.IsOnCurve(caX, caY) {
+		return fmt.Errorf("CA public key is not a point on its curve")
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 94c4efa..01ced36 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -129,6 +129,9 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	// Perform RSA signature recovery: signature^e mod n
 	sigInt := new(big.Int).SetBytes(signature)
 	modulus := new(big.Int).SetBytes(caModulus)
+	if modulus.Sign() == 0 {
+		return fmt.Errorf("CA public key modulus is zero")
+	}
 	exponent := new(big.Int).SetBytes(caExponent)
 
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
-- 
2.43.0


From 9a9f8e9bf2514a7212fa6803c0b25f9afa0a50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 10/47] fix: accept an ECC certificate only from the authority
 it names

---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index e9148c7..bd3ded5 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -48,6 +48,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 		return fmt.Errorf("invalid certificate length: got %d, want 204-341", len(rawData))
 	}
 
+	// The CA must be the authority that the certificate names.
+	if car, caCHR := cert.GetCertificateAuthorityReference(), caCert.GetCertificateHolderReference(); car != caCHR {
+		return fmt.Errorf("CAR mismatch: certificate references CAR %s, but CA has CHR %s", car, caCHR)
+	}
+
 	// Get CA's public key
 	caPubKey := caCert.GetPublicKey()
 	if caPubKey == nil {
-- 
2.43.0


From 41875010e61dec4a7e8bb7004185d73830f69fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 11/47] fix: bound how much of a certificate response is read

---
 internal/cert/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cert/client.go b/internal/cert/client.go
index 366c7de..6469d21 100644
--- a/internal/cert/client.go
+++ b/internal/cert/client.go
@@ -11,6 +11,10 @@ import (
 	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
 )
 
+// maxResponseLength bounds how much of a response is read. It is larger than any
+// certificate, so that a longer response fails to parse.
+const maxResponseLength = 4096
+
 // Client retrieves certificates from the Digital Tachograph Joint Research Centre.
 type Client struct {
 	httpClient *http.Client
@@ -59,7 +63,7 @@ func (c *Client) GetRsaCertificate(ctx context.Context, chr string) (*securityv1
 	if httpResponse.StatusCode != http.StatusOK {
 		return nil, fmt.Errorf("failed to download certificate: %s", httpResponse.Status)
 	}
-	body, err := io.ReadAll(httpResponse.Body)
+	body, err := io.ReadAll(io.LimitReader(httpResponse.Body, maxResponseLength))
 	if err != nil {
 		return nil, err
 	}
@@ -94,7 +98,7 @@ func (c *Client) GetEccCertificate(ctx context.Context, chr string) (*securityv1
 	if httpResponse.StatusCode != http.StatusOK {
 		return nil, fmt.Errorf("failed to download certificate: %s", httpResponse.Status)
 	}
-	body, err := io.ReadAll(httpResponse.Body)
+	body, err := io.ReadAll(io.LimitReader(httpResponse.Body, maxResponseLength))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 857d3e88c32a0918db3f53bd763e4be9b31b0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 12/47] fix: reject a downloaded ECC certificate of another
 holder

---
 internal/cert/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/cert/client.go b/internal/cert/client.go
index 6469d21..d37cb9b 100644
--- a/internal/cert/client.go
+++ b/internal/cert/client.go
@@ -102,5 +102,12 @@ func (c *Client) GetEccCertificate(ctx context.Context, chr string) (*securityv1
 	if err != nil {
 		return nil, err
 	}
-	return security.UnmarshalEccCertificate(body)
+	result, err := security.UnmarshalEccCertificate(body)
+	if err != nil {
+		return nil, err
+	}
+	if result.GetCertificateHolderReference() != chr {
+		return nil, fmt.Errorf("downloaded certificate has CHR %s, want %s", result.GetCertificateHolderReference(), chr)
+	}
+	return result, nil
 }
-- 
2.43.0


From fac0282dfc3b4415ba1b311614cc429e6f5c440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 13/47] fix: load the mutual authentication certificate of
 second-generation cards

---
 internal/card/driver_card_file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 0002ec5..9bf665c 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -77,7 +77,13 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 		}
 
-		switch record.GetFile() {
+		file := record.GetFile()
+		if file == cardv1.ElementaryFileType_EF_CARD_CERTIFICATE && efGeneration == ddv1.Generation_GENERATION_2 {
+			// File ID C100h is the mutual authentication certificate in the Gen2 DF.
+			file = cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE
+		}
+
+		switch file {
 		case cardv1.ElementaryFileType_EF_ICC:
 			icc, err := opts.unmarshalIcc(record.GetValue())
 			if err != nil {
-- 
2.43.0


From d0949a10bbb25e4b8abc83a4ab90abd7d204d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 14/47] fix: save signatures and all second-generation files of
 a driver card

Saving wrote zero bytes in place of the parsed signatures, added a signature
record where there was none, and left out eight elementary files of the
Tachograph_G2 application. Values too long for a TLV length field were
written with a wrapped length.
---
 internal/card/driver_card_file.go | 207 ++++++++++++++----------------
 internal/card/identification.go   |   9 ++
 2 files changed, 108 insertions(+), 108 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 9bf665c..30617ca 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -654,23 +655,10 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 		return nil, err
 	}
 
-	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	// 4. EF_IDENTIFICATION (0x0520)
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -728,6 +716,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -738,12 +751,27 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		dst, err = appendTlvUnsignedG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -832,16 +860,6 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
-}
-
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
 // Uses appendix 0x00 for Gen1 DF (Tachograph)
 func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certData []byte) ([]byte, error) {
@@ -882,52 +900,27 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	return dst, nil
 }
 
-// appendTlv is a generic helper for writing TLV records with zero value-allocation.
+// Appendix bytes of the TLV tag in the dedicated files.
+const (
+	appendixTachograph   = 0x00
+	appendixTachographG2 = 0x02
+	appendixSignature    = 0x01 // bit set in the tag of a signature record
+)
+
+// signedMessage is implemented by the messages of elementary files that are downloaded with a signature.
+type signedMessage interface {
+	HasSignature() bool
+	GetSignature() []byte
+}
+
+// appendTlv writes an EF of the Gen1 DF (appendix 0x00), followed by its signature (appendix 0x01) if it has one.
 func appendTlv[T proto.Message](
 	dst []byte,
 	fileType cardv1.ElementaryFileType,
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
-	// Use reflection to check if the message is nil
-	msgValue := reflect.ValueOf(msg)
-	if !msgValue.IsValid() || (msgValue.Kind() == reflect.Ptr && msgValue.IsNil()) {
-		return dst, nil // Don't write anything if the message is nil
-	}
-
-	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
-	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
-
-	// Write data tag (FID + appendix 0x00) first
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x00) // appendix for data
-
-	// Placeholder for length
-	lenPos := len(dst)
-	dst = binary.BigEndian.AppendUint16(dst, 0) // Will be updated later
-
-	valPos := len(dst)
-
-	var err error
-	dst, err = appenderFunc(dst, msg)
-	if err != nil {
-		return nil, err
-	}
-
-	valLen := len(dst) - valPos
-
-	// Update the length field
-	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	return appendEF(dst, fileType, appendixTachograph, true, msg, appenderFunc)
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -937,38 +930,7 @@ func appendTlvUnsigned[T proto.Message](
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
-	// Use reflection to check if the message is nil
-	msgValue := reflect.ValueOf(msg)
-	if !msgValue.IsValid() || (msgValue.Kind() == reflect.Ptr && msgValue.IsNil()) {
-		return dst, nil // Don't write anything if the message is nil
-	}
-
-	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
-	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
-
-	// Write data tag (FID + appendix 0x00) first
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x00) // appendix for data
-
-	// Placeholder for length
-	lenPos := len(dst)
-	dst = binary.BigEndian.AppendUint16(dst, 0) // Will be updated later
-
-	valPos := len(dst)
-
-	var err error
-	dst, err = appenderFunc(dst, msg)
-	if err != nil {
-		return nil, err
-	}
-
-	valLen := len(dst) - valPos
-
-	// Update the length field
-	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
-
-	// No signature block for unsigned EFs
-	return dst, nil
+	return appendEF(dst, fileType, appendixTachograph, false, msg, appenderFunc)
 }
 
 // appendTlvG2 is like appendTlv but uses Gen2 DF appendix (0x02/0x03 instead of 0x00/0x01)
@@ -977,6 +939,28 @@ func appendTlvG2[T proto.Message](
 	fileType cardv1.ElementaryFileType,
 	msg T,
 	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	return appendEF(dst, fileType, appendixTachographG2, true, msg, appenderFunc)
+}
+
+// appendTlvUnsignedG2 is like appendTlvG2 but doesn't add a signature block
+func appendTlvUnsignedG2[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	return appendEF(dst, fileType, appendixTachographG2, false, msg, appenderFunc)
+}
+
+// appendEF is a generic helper for writing TLV records with zero value-allocation.
+func appendEF[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	appendix byte,
+	signed bool,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
 ) ([]byte, error) {
 	// Use reflection to check if the message is nil
 	msgValue := reflect.ValueOf(msg)
@@ -987,9 +971,9 @@ func appendTlvG2[T proto.Message](
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
 
-	// Write data tag (FID + appendix 0x02) first - Gen2 DF
+	// Write data tag (FID + appendix) first
 	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x02) // appendix for Gen2 data
+	dst = append(dst, appendix)
 
 	// Placeholder for length
 	lenPos := len(dst)
@@ -1004,17 +988,24 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("%v is too long for a TLV record: %d bytes", fileType, valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add the signature block of signed EFs
+	if m, ok := any(msg).(signedMessage); ok && signed && m.HasSignature() {
+		signature := m.GetSignature()
+		if len(signature) > math.MaxUint16 {
+			return nil, fmt.Errorf("signature of %v is too long for a TLV record: %d bytes", fileType, len(signature))
+		}
+		dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
+		dst = append(dst, appendix|appendixSignature)
+		dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+		dst = append(dst, signature...)
+	}
 
 	return dst, nil
 }
diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..08c309f 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -277,6 +277,15 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// appendIdentification appends the binary representation of EF_Identification.
+func appendIdentification(dst []byte, id *cardv1.Identification) ([]byte, error) {
+	dst, err := appendCardIdentification(dst, id.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, id.GetDriverCardHolder())
+}
+
 // AppendCardIdentification appends the binary representation of CardIdentification to dst.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
-- 
2.43.0


From 382f8b9e6f0debf773e5e1c5f17d33aaaa617d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 15/47] fix: save the card number bytes that were read

The card number was rebuilt from trimmed strings, so that its padding and
missing indices changed when a parsed card was saved.
---
 internal/card/identification.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 08c309f..a4b8d9d 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -277,6 +277,14 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// copyRawIa5 overwrites a fixed-length field with the bytes the string was read from, if they are known.
+// They hold padding that the trimmed value does not.
+func copyRawIa5(field []byte, sv *ddv1.Ia5StringValue) {
+	if raw := sv.GetRawData(); len(raw) == len(field) {
+		copy(field, raw)
+	}
+}
+
 // appendIdentification appends the binary representation of EF_Identification.
 func appendIdentification(dst []byte, id *cardv1.Identification) ([]byte, error) {
 	dst, err := appendCardIdentification(dst, id.GetCard())
@@ -365,6 +373,9 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		} else {
 			cardNumberBytes[15] = '0' // Default renewal index
 		}
+		copyRawIa5(cardNumberBytes[0:14], identification)
+		copyRawIa5(cardNumberBytes[14:15], replacementIndex)
+		copyRawIa5(cardNumberBytes[15:16], renewalIndex)
 	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
 		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
 		identification := ownerID.GetOwnerIdentification()
@@ -404,6 +415,10 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 				cardNumberBytes[15] = renewalStr[0]
 			}
 		}
+		copyRawIa5(cardNumberBytes[0:13], identification)
+		copyRawIa5(cardNumberBytes[13:14], consecutive)
+		copyRawIa5(cardNumberBytes[14:15], replacement)
+		copyRawIa5(cardNumberBytes[15:16], renewal)
 	}
 	dst = append(dst, cardNumberBytes...)
 	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
-- 
2.43.0


From dc3466177ffef0b43c0456b2e912c691f71f7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 16/47] fix: save the code page of strings whose encoding is
 not recognised

It was replaced by 255, which reads as an empty string.
---
 internal/dd/string_value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..749019e 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -99,8 +99,11 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 		copy(canvas, raw)
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
-		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// The string data at offset 1+ is already correct in raw_data.
+		// Keep a code page that reads as the same encoding: several read as unrecognized.
+		if getEncodingFromCodePage(raw[0]) != sv.GetEncoding() {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
-- 
2.43.0


From 801a6ab997203484678414a47a4ab2866c0c87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 17/47] fix: save dates and versions that are not BCD as they
 were read

Their decoded values do not determine the bytes: a month and year that
cannot be decoded was saved as 0000, and digits above 9 were carried.
---
 internal/dd/card_structure_version.go | 6 ++++++
 internal/dd/date.go                   | 6 ++++++
 internal/dd/month_year.go             | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..6032005 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -57,6 +57,12 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 				len(csv.GetRawData()), lenCardStructureVersion,
 			)
 		}
+		// Bytes that are not BCD do not survive re-encoding; keep those that read as the same values.
+		var opts UnmarshalOptions
+		if parsed, err := opts.UnmarshalCardStructureVersion(csv.GetRawData()); err == nil &&
+			parsed.GetMajor() == csv.GetMajor() && parsed.GetMinor() == csv.GetMinor() {
+			return append(dst, csv.GetRawData()...), nil
+		}
 		copy(canvas[:], csv.GetRawData())
 	}
 	major := csv.GetMajor()
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..c0347e3 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -56,6 +56,12 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 				len(date.GetRawData()), lenDatef,
 			)
 		}
+		// Bytes that are not BCD do not survive re-encoding; keep those that read as the same values.
+		var opts UnmarshalOptions
+		if parsed, err := opts.UnmarshalDate(date.GetRawData()); err == nil &&
+			parsed.GetYear() == date.GetYear() && parsed.GetMonth() == date.GetMonth() && parsed.GetDay() == date.GetDay() {
+			return append(dst, date.GetRawData()...), nil
+		}
 		copy(canvas[:], date.GetRawData())
 	}
 	year := int(date.GetYear())
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..0a3161f 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -70,6 +70,12 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 		if len(rawData) != lenMonthYear {
 			return nil, fmt.Errorf("invalid raw_data length for MonthYear: got %d, want %d", len(rawData), lenMonthYear)
 		}
+		// Bytes that are not BCD have no month and year; keep those that read as the same values.
+		var opts UnmarshalOptions
+		if parsed, err := opts.UnmarshalMonthYear(rawData); err == nil &&
+			parsed.GetMonth() == monthYear.GetMonth() && parsed.GetYear() == monthYear.GetYear() {
+			return append(dst, rawData...), nil
+		}
 		copy(canvas[:], rawData)
 	}
 	// Otherwise canvas is zero-initialized (Go default)
-- 
2.43.0


From 1373dc55322a76a4ecfdf66d6aec5610cafd31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 18/47] fix: save the bytes after the last complete record of a
 file

A file whose length is not a whole number of records lost its raw data,
and with it the rest of the last record, when it was saved.
---
 internal/card/places.go              | 6 +++---
 internal/card/places_g2.go           | 6 +++---
 internal/card/specific_conditions.go | 6 +++---
 internal/card/vehicles_used.go       | 6 +++---
 internal/card/vehicles_used_g2.go    | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..134373e 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -87,10 +87,10 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 1 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..c73b5a5 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -88,10 +88,10 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..32ff947 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -71,10 +71,10 @@ func appendCardSpecificConditions(data []byte, conditions *cardv1.SpecificCondit
 	numRecords := len(conditions.GetRecords())
 	expectedSize := numRecords * recordSize
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := conditions.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint each record over canvas
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..cf3f6e4 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -84,10 +84,10 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..56e4317 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -84,10 +84,10 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-- 
2.43.0


From e79dddb9d7002dde08c4640545e403f557c4ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 19/47] fix: save a control activity as it was read

The unused low bits of the control type were dropped, and an empty record
longer than 46 bytes was replaced by zeros.
---
 internal/card/control_activity.go | 33 ++++---------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..0c9cafe 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -36,7 +36,7 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	controlTime := binary.BigEndian.Uint32(data[1:5])
 	if controlTime == 0 {
 		target.SetValid(false)
-		target.SetRawData(data)
+		target.SetRawData(data[:lenCardControlActivityDataRecord])
 		return &target, nil
 	}
 	target.SetValid(true)
@@ -161,35 +161,10 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
+	data, err := dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
 	}
-	data = append(data, controlTypeByte)
-
-	var err error
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
-- 
2.43.0


From 963616b9df46368b5d6d7d454fd7f7bf8d2c3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 20/47] fix: decode a vehicle identification number as valid
 text and save its padding

Bytes that are not UTF-8 made the whole file impossible to encode, and zero
padding was turned into spaces when the card was saved.
---
 internal/dd/card_vehicle_record_g2.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..40ee48c 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -81,9 +82,7 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 	record.SetVuDataBlockCounter(vuDataBlockCounter)
 
 	// Parse VIN (17 bytes IA5String)
-	vinBytes := data[idxVIN : idxVIN+17]
-	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
-	record.SetVehicleIdentificationNumber(vin)
+	record.SetVehicleIdentificationNumber(decodeVIN(data[idxVIN : idxVIN+17]))
 
 	return record, nil
 }
@@ -144,15 +143,23 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	}
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
-	// VIN (17 bytes IA5String)
+	// VIN (17 bytes IA5String); the bytes of raw_data stay if they hold this VIN, whatever their padding
 	vin := record.GetVehicleIdentificationNumber()
-	vinBytes := make([]byte, 17)
-	copy(vinBytes, []byte(vin))
-	// Pad with spaces if shorter than 17 bytes
-	for i := len(vin); i < 17; i++ {
-		vinBytes[i] = ' '
+	if !record.HasRawData() || decodeVIN(canvas[31:48]) != vin {
+		vinBytes := make([]byte, 17)
+		copy(vinBytes, []byte(vin))
+		// Pad with spaces if shorter than 17 bytes
+		for i := len(vin); i < 17; i++ {
+			vinBytes[i] = ' '
+		}
+		copy(canvas[31:48], vinBytes)
 	}
-	copy(canvas[31:48], vinBytes)
 
 	return append(dst, canvas[:]...), nil
 }
+
+// decodeVIN decodes a vehicle identification number (17 bytes IA5String).
+func decodeVIN(data []byte) string {
+	vin := strings.TrimRight(string(data), "\x00 ") // Trim null bytes and spaces
+	return strings.ToValidUTF8(vin, string(utf8.RuneError))
+}
-- 
2.43.0


From 3ea56e31e3cae82a7047e991778ec748d1c6121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 21/47] fix: keep records of large files apart when they are
 read

Empty event and fault records and the vehicle unit identifiers referred to
the scanner's buffer, which is overwritten after its first 4096 bytes, so
that they showed the bytes of later records.
---
 internal/card/events.go             | 2 +-
 internal/card/faults.go             | 2 +-
 internal/card/vehicle_units_used.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..2a551aa 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -57,7 +57,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 			// Non-valid record: preserve original bytes
 			rec := &cardv1.EventsData_Record{}
 			rec.SetValid(false)
-			rec.SetRawData(recordData)
+			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
 			records = append(records, rec)
 		} else {
 			// Valid record: parse semantic data
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..bac9432 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -59,7 +59,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		if faultBeginTime == 0 {
 			// Non-valid record: preserve original bytes
 			rec.SetValid(false)
-			rec.SetRawData(recordData)
+			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
 		} else {
 			// Valid record: parse semantic data
 			rec.SetValid(true)
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..62a5894 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -138,10 +138,10 @@ func unmarshalCardVehicleUnitRecord(data []byte, opts UnmarshalOptions) (*cardv1
 	record.SetManufacturerCode(int32(data[idxManufacturerCode]))
 
 	// Parse device ID (1 byte)
-	record.SetDeviceId(data[idxDeviceID : idxDeviceID+1])
+	record.SetDeviceId(bytes.Clone(data[idxDeviceID : idxDeviceID+1])) // the scanner reuses its buffer
 
 	// Parse VU software version (4 bytes, IA5String)
-	record.SetVuSoftwareVersion(data[idxVuSoftwareVersion : idxVuSoftwareVersion+4])
+	record.SetVuSoftwareVersion(bytes.Clone(data[idxVuSoftwareVersion : idxVuSoftwareVersion+4]))
 
 	return &record, nil
 }
-- 
2.43.0


From 85cb3fab3030606285674759f4be818d8ecee88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 22/47] fix: bound the activity records of a card by its
 storage

A record length beyond the storage, or overlapping records, made a small
file expand several hundred times; and a card with more than 366 short day
records could not be read at all.
---
 internal/card/activity.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..e607ea7 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -261,7 +261,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int // total length of the records so far
 	err         error
 
 	// Current record state
@@ -283,14 +283,9 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
 	if len(it.buffer) == 0 {
 		return false // No data to parse
 	}
@@ -309,6 +304,12 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// Records do not overlap, so that together they fit in the buffer. This also ends loops in the chain.
+	it.totalLength += currentRecordLength
+	if it.totalLength > len(it.buffer) {
+		it.err = fmt.Errorf("overlapping records: record of length %d at position %d", currentRecordLength, it.currentPos)
+		return false
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
@@ -317,7 +318,6 @@ func (it *cyclicRecordIterator) Next() bool {
 	for i := 0; i < currentRecordLength; i++ {
 		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
 	}
-	it.recordCount++
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
-- 
2.43.0


From a7ba90bf381bddecb7b7633aac7044c3a6b60e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:53 +0000
Subject: [PATCH 23/47] fix: read activity records whose header wraps around
 the storage

The reader took such a record for the end of the chain and silently
dropped it and every older day.
---
 internal/card/activity.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index e607ea7..7bca28c 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -290,12 +290,16 @@ func (it *cyclicRecordIterator) Next() bool {
 		return false // No data to parse
 	}
 	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
 		return false // Invalid position for header
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength), handling buffer wrap-around
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+	}
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
-- 
2.43.0


From 0b68c694cf73ef14216c2f571d8655227115b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 24/47] fix: report a driver at rest at the start of a day

The first activity of such a day is encoded as zero and was skipped as if
it were padding.
---
 internal/card/activity.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 7bca28c..ddc5543 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -178,9 +178,10 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
+		// Check for invalid entries before parsing (all zeros or all ones).
+		// As the first entry of the day, zero is a driver at rest at 00:00.
 		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		if (changeData == 0 && len(activityChanges) > 0) || changeData == 0xFFFF {
 			offset += 2
 			continue
 		}
-- 
2.43.0


From 24bb58650f0aa230af8684c608efc44574728974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 25/47] fix: reject a truncated vehicle unit download instead
 of panicking

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From ac02640b1b5d211271f531718b179e2247e5da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 26/47] fix: do not share memory between a vehicle unit
 download and its caller's data

---
 internal/vu/raw_vehicle_unit_file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index d52b1ec..f3d8221 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -1,6 +1,7 @@
 package vu
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -50,7 +51,7 @@ func unmarshalRawVehicleUnitFile(data []byte) (*vuv1.RawVehicleUnitFile, error)
 		if offset+valueSize > len(data) {
 			return nil, fmt.Errorf("insufficient data for %v value: need %d bytes, have %d", transferType, valueSize, len(data)-offset)
 		}
-		value := data[offset : offset+valueSize]
+		value := bytes.Clone(data[offset : offset+valueSize])
 		offset += valueSize
 
 		// Create record
-- 
2.43.0


From 25a5686d259a330274c3c9f3148f3e1454b449b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 27/47] fix: read every record array of a second-generation
 vehicle unit download

---
 internal/vu/activities_gen2_v1.go     |  6 ++++
 internal/vu/activities_gen2_v2.go     | 18 ++++++++++++
 internal/vu/events_faults.go          |  9 +-----
 internal/vu/events_faults_gen2_v1.go  |  4 +++
 internal/vu/events_faults_gen2_v2.go  |  4 +++
 internal/vu/technical_data.go         | 41 +++++++++++++++++++++++++--
 internal/vu/technical_data_gen2_v1.go | 14 ++++-----
 internal/vu/technical_data_gen2_v2.go | 14 ++++-----
 8 files changed, 85 insertions(+), 25 deletions(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..1516787 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -18,6 +18,7 @@ import (
 //	    vuCardIWRecordArray                   VuCardIWRecordArray,
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
@@ -70,6 +71,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..308a67c 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -18,7 +18,10 @@ import (
 //	    vuCardIWRecordArray                   VuCardIWRecordArray,
 //	    vuActivityDailyRecordArray            VuActivityDailyRecordArray,
 //	    vuPlaceDailyWorkPeriodRecordArray     VuPlaceDailyWorkPeriodRecordArray,
+//	    vuGNSSADRecordArray                   VuGNSSADRecordArray,
 //	    vuSpecificConditionRecordArray        VuSpecificConditionRecordArray,
+//	    vuBorderCrossingRecordArray           VuBorderCrossingRecordArray,
+//	    vuLoadUnloadRecordArray               VuLoadUnloadRecordArray,
 //	    signatureRecordArray                  SignatureRecordArray
 //	}
 //
@@ -70,11 +73,26 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
 	}
 
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..643d20f 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// The record arrays are those of Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
diff --git a/internal/vu/technical_data_gen2_v1.go b/internal/vu/technical_data_gen2_v1.go
index 441cf72..41006c4 100644
--- a/internal/vu/technical_data_gen2_v1.go
+++ b/internal/vu/technical_data_gen2_v1.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V1(value []byte) (*vuv1.TechnicalDataGen2V1, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("VuSensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("VuSensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
diff --git a/internal/vu/technical_data_gen2_v2.go b/internal/vu/technical_data_gen2_v2.go
index 72fc1d5..f37e943 100644
--- a/internal/vu/technical_data_gen2_v2.go
+++ b/internal/vu/technical_data_gen2_v2.go
@@ -27,25 +27,25 @@ func unmarshalTechnicalDataGen2V2(value []byte) (*vuv1.TechnicalDataGen2V2, erro
 	}
 
 	// Skip all record arrays
-	if err := skipRecordArray("VuApprovalNumber"); err != nil {
+	if err := skipRecordArray("VuIdentification"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSoftwareIdentification"); err != nil {
+	if err := skipRecordArray("VuSensorPaired"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerName"); err != nil {
+	if err := skipRecordArray("VuSensorExternalGNSSCoupled"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuManufacturerAddress"); err != nil {
+	if err := skipRecordArray("VuCalibration"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuPartNumber"); err != nil {
+	if err := skipRecordArray("VuCard"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("VuSerialNumber"); err != nil {
+	if err := skipRecordArray("VuITSConsent"); err != nil {
 		return nil, err
 	}
-	if err := skipRecordArray("SensorPaired"); err != nil {
+	if err := skipRecordArray("VuPowerSupplyInterruption"); err != nil {
 		return nil, err
 	}
 	if err := skipRecordArray("Signature"); err != nil {
-- 
2.43.0


From c810c621cc98aef15f054760fdcaef0ff70e1240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 28/47] fix: decode the cards in the slots of a vehicle unit

---
 internal/vu/overview_gen1.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..02eb78f 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType]((cardSlotsStatus >> 4) & 0x0F)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
-- 
2.43.0


From 7dc87b00894c48c331c2ae94fb2064f40f34a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 29/47] fix: report output the parse command could not write

---
 cmd/tachograph/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/tachograph/main.go b/cmd/tachograph/main.go
index 0c071e7..90d89a8 100644
--- a/cmd/tachograph/main.go
+++ b/cmd/tachograph/main.go
@@ -71,7 +71,13 @@ func newParseCommand() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error parsing file %s: %w", filename, err)
 			}
-			fmt.Println(protojson.Format(file))
+			output, err := protojson.MarshalOptions{Multiline: true}.Marshal(file)
+			if err != nil {
+				return fmt.Errorf("error formatting file %s: %w", filename, err)
+			}
+			if _, err := fmt.Println(string(output)); err != nil {
+				return fmt.Errorf("error writing output for file %s: %w", filename, err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 8888a652277b55cbe827ec83055a35a3e9f7ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 30/47] fix: report the member state that issued a card in a
 vehicle unit download

---
 internal/dd/full_card_number.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..681d647 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,8 +45,12 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1])
+	if err != nil {
+		// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+		issuingState = ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED
+	}
+	cardNumber.SetCardIssuingMemberState(issuingState)
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
@@ -106,7 +110,11 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingStateByte, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
+	}
+	dst = append(dst, issuingStateByte)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
-- 
2.43.0


From ca1317063232a53fd14fb2f39b4b375b46bfd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 31/47] fix: decode control cards in a vehicle unit download

---
 internal/dd/full_card_number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 681d647..822ce72 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -62,7 +62,7 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -131,7 +131,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -163,7 +163,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From f9f9acd8acf5230c07c6830dd504ff70db98fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 32/47] fix: keep the replacement and renewal index of driver
 cards in a vehicle unit download

---
 internal/dd/full_card_number.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 822ce72..24d401f 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -56,11 +56,21 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + 1 byte replacement index + 1 byte renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
@@ -120,13 +130,21 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by the two indices
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
-- 
2.43.0


From ad70e34ed1a146ad9af408e586ea6bf5246463b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 33/47] fix: read the download of a vehicle unit that was never
 downloaded before

---
 internal/dd/full_card_number.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 24d401f..ab6bd91 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -79,6 +79,8 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 			return nil, fmt.Errorf("failed to parse owner identification: %w", err)
 		}
 		cardNumber.SetOwnerIdentification(ownerID)
+	case ddv1.EquipmentType_RESERVED_MEMBER_STATE_OR_EUROPE:
+		// No card, e.g. the last download of a vehicle unit that was never downloaded
 	default:
 		return nil, fmt.Errorf("unsupported card type: %d", cardType)
 	}
-- 
2.43.0


From 7c8fcd0cfd5f38543b3b8158b76520f35e26a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 34/47] fix: recognise driver cards whose replacement or
 renewal index is a letter

---
 internal/card/identification.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index a4b8d9d..98763d5 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -83,15 +83,14 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	// Determine card type based on the data structure
 	// Driver cards have 14 bytes for identification, other cards have 13 bytes
 	// We can detect this by checking if the 14th byte is a valid IA5String character
-	// and if the 15th and 16th bytes are single digits (replacement/renewal indices)
+	// and if the 15th and 16th bytes are replacement/renewal indices
 
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
 	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
-		replacementByte := cardNumberData[14]
-		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		// Check if bytes 14 and 15 are indices (0-9, then A-Z)
+		isIndex := func(b byte) bool { return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' }
+		if isIndex(cardNumberData[14]) && isIndex(cardNumberData[15]) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
-- 
2.43.0


From 7f32d6888dfec8d00b4c34613674493bc86e2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 35/47] fix: read the two-byte counts of the second version's
 application identification

---
 .../card/application_identification_v2.go     | 68 ++++++++++++-------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..f03e8c9 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -15,14 +15,15 @@ import (
 // ASN.1 Definition:
 //
 //	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		lenEfApplicationIdentificationV2 = 10 // EF_ApplicationIdentificationV2 record size
 	)
 
 	if len(data) < lenEfApplicationIdentificationV2 {
@@ -34,29 +35,36 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
 
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
+	// Read length of following data (2 bytes)
+	var lengthOfFollowingData uint16
+	if err := binary.Read(r, binary.BigEndian, &lengthOfFollowingData); err != nil {
+		return nil, fmt.Errorf("failed to read length of following data: %w", err)
+	}
+	driver.SetLengthOfFollowingData(int32(lengthOfFollowingData))
+
+	// Read border crossing records count (2 bytes)
+	var borderCrossingCount uint16
 	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
 		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
 	}
 	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
 
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
+	// Read load/unload records count (2 bytes)
+	var loadUnloadCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
 		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
 	}
 	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
 
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
+	// Read load type entry records count (2 bytes)
+	var loadTypeCount uint16
 	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
 		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
 	}
 	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
 
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
+	// Read VU configuration length range (2 bytes)
+	var vuConfigRange uint16
 	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
 		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
 	}
@@ -76,10 +84,11 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 // ASN.1 Definition:
 //
 //	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
@@ -87,11 +96,12 @@ func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.Applicat
 	}
 
 	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
+	var lengthOfFollowingData, borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
 
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
 		if driver := appIdV2.GetDriver(); driver != nil {
+			lengthOfFollowingData = driver.GetLengthOfFollowingData()
 			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
 			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
 			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
@@ -99,6 +109,7 @@ func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.Applicat
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
 		if workshop := appIdV2.GetWorkshop(); workshop != nil {
+			lengthOfFollowingData = workshop.GetLengthOfFollowingData()
 			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
 			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
 			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
@@ -106,25 +117,30 @@ func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.Applicat
 		}
 	case cardv1.CardType_COMPANY_CARD:
 		if company := appIdV2.GetCompany(); company != nil {
+			lengthOfFollowingData = company.GetLengthOfFollowingData()
 			vuConfigLength = company.GetVuConfigurationLengthRange()
 		}
 	case cardv1.CardType_CONTROL_CARD:
 		if control := appIdV2.GetControl(); control != nil {
+			lengthOfFollowingData = control.GetLengthOfFollowingData()
 			vuConfigLength = control.GetVuConfigurationLengthRange()
 		}
 	}
 
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
+	// Length of following data (2 bytes)
+	data = binary.BigEndian.AppendUint16(data, uint16(lengthOfFollowingData))
+
+	// Border crossing records count (2 bytes)
+	data = binary.BigEndian.AppendUint16(data, uint16(borderCrossingRecords))
 
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
+	// Load/unload records count (2 bytes)
+	data = binary.BigEndian.AppendUint16(data, uint16(loadUnloadRecords))
 
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
+	// Load type entry records count (2 bytes)
+	data = binary.BigEndian.AppendUint16(data, uint16(loadTypeEntryRecords))
 
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
+	// VU configuration length range (2 bytes)
+	data = binary.BigEndian.AppendUint16(data, uint16(vuConfigLength))
 
 	return data, nil
 }
-- 
2.43.0


From d6b852e326212151415695d04d38e724d52e26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 36/47] fix: do not take company cards for driver cards

No driver or workshop card has EF Company_Activity_Data (Appendix 2, TCS_154
and TCS_158), so listing it among their files made every company card download
look like a driver card, and reading it fail.
---
 .../connect/tachograph/card/v1/card_type.pb.go   | 16 ++++++++--------
 .../connect/tachograph/card/v1/card_type.proto   |  8 --------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
index da2faa8..b370a23 100644
--- a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
+++ b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
@@ -119,15 +119,15 @@ var File_wayplatform_connect_tachograph_card_v1_card_type_proto protoreflect.Fil
 
 const file_wayplatform_connect_tachograph_card_v1_card_type_proto_rawDesc = "" +
 	"\n" +
-	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xde\b\n" +
+	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xd2\b\n" +
 	"\bCardType\x12\x19\n" +
-	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc6\x02\n" +
-	"\vDRIVER_CARD\x10\x01\x1a\xb4\x02\xf2\xc7\x18\xaf\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xae\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xdc\x02\n" +
-	"\rWORKSHOP_CARD\x10\x02\x1a\xc8\x02\xf2\xc7\x18\xc3\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xbc\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
+	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc0\x02\n" +
+	"\vDRIVER_CARD\x10\x01\x1a\xae\x02\xf2\xc7\x18\xa9\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xa8\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xd6\x02\n" +
+	"\rWORKSHOP_CARD\x10\x02\x1a\xc2\x02\xf2\xc7\x18\xbd\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xb6\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCONTROL_CARD\x10\x03\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCOMPANY_CARD\x10\x04\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12I\n" +
 	"\x13GNSS_SIMULATED_CARD\x10\x05\x1a0\xf2\xc7\x18,\b\x01\"\x04\b\x03\x10\x01\"\"\b\x02\x18\x03\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10'\"\x04\b\x03\x10(B\xda\x02\n" +
diff --git a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
index 890bcf7..229b344 100644
--- a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
+++ b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
@@ -199,10 +199,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
@@ -416,10 +412,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
-- 
2.43.0


From 777baa14ed4d46c5412579e069aadd19ae2452c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 37/47] fix: clean up certificate files in the output directory
 only

The name of the output directory was part of a glob pattern: names with
pattern characters made the refresh delete the certificates of other
directories, or fail.
---
 tools/cmd/fetch-certs/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index f1ce0f8..924874a 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -205,11 +205,15 @@ func createDirectoryStructure(baseDir string) error {
 		}
 
 		// Remove existing .bin files to ensure clean state
-		files, err := filepath.Glob(filepath.Join(dir, "*.bin"))
+		entries, err := os.ReadDir(dir)
 		if err != nil {
 			return fmt.Errorf("failed to list files in %s: %w", dir, err)
 		}
-		for _, file := range files {
+		for _, entry := range entries {
+			if filepath.Ext(entry.Name()) != ".bin" {
+				continue
+			}
+			file := filepath.Join(dir, entry.Name())
 			if err := os.Remove(file); err != nil {
 				return fmt.Errorf("failed to remove file %s: %w", file, err)
 			}
-- 
2.43.0


From 489b75297b0af940ee19a1bd825508df7d9079ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 38/47] fix: list a certificate once when its table lies in a
 row of another table

---
 tools/cmd/fetch-certs/main.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 924874a..12ae2cb 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -787,15 +787,17 @@ func parseCertificateTable(n *html.Node, baseURL string) []certificateMetadata {
 	// Find all table rows
 	var findRows func(*html.Node)
 	findRows = func(node *html.Node) {
-		if node.Type == html.ElementNode && node.Data == "tr" {
+		found := len(certs)
+		for c := node.FirstChild; c != nil; c = c.NextSibling {
+			findRows(c)
+		}
+		// A row around rows with certificates only lays out the page
+		if node.Type == html.ElementNode && node.Data == "tr" && len(certs) == found {
 			// Parse the row
 			if cert := parseTableRow(node, baseURL); cert != nil {
 				certs = append(certs, *cert)
 			}
 		}
-		for c := node.FirstChild; c != nil; c = c.NextSibling {
-			findRows(c)
-		}
 	}
 
 	findRows(n)
-- 
2.43.0


From 8fd14a708cfbd3a44cb47fbd8a218d31b0641291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 39/47] fix: do not panic on a card record of 65531 bytes or
 more

The end of the value was computed in 16 bits and wrapped around.
---
 internal/card/rawcardfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..df59bb3 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -87,7 +87,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From a4c59ba49bc28e19dfe38e44993462b01e60fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:56 +0000
Subject: [PATCH 40/47] fix: read card records of the full 65535 bytes their
 length can say

---
 internal/card/rawcardfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index df59bb3..7275ba5 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -14,6 +15,8 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// A record is a 5-byte header and a value of up to 65535 bytes.
+	sc.Buffer(nil, 5+math.MaxUint16)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
-- 
2.43.0


From 2e6915b0a6676b84834a44e4496b42c2064d7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 41/47] fix: save GNSS records with odometer values of a
 million kilometres and more

OdometerShort is three bytes with an operating range of 0 to 9,999,999 km
(Annex IC Appendix 1, section 2.113); a card with a larger value than
999,999 km could be read but not saved.
---
 internal/card/gnss_places.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..b550803 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -218,7 +218,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
-- 
2.43.0


From d40b6cd2ecf6c2b7a11cd8f62e48140d0e6978a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 42/47] fix: keep valid event and fault records out of the
 scanner's buffer

The vehicle registration of a valid record kept a slice of the scanner's
buffer, which the scanner overwrites once a file is longer than 4096 bytes.
---
 internal/card/events.go | 4 ++--
 internal/card/faults.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 2a551aa..7908806 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -57,7 +57,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 			// Non-valid record: preserve original bytes
 			rec := &cardv1.EventsData_Record{}
 			rec.SetValid(false)
-			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
+			rec.SetRawData(recordData)
 			records = append(records, rec)
 		} else {
 			// Valid record: parse semantic data
diff --git a/internal/card/faults.go b/internal/card/faults.go
index bac9432..fafe823 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes()) // the scanner reuses its buffer
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -59,7 +59,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		if faultBeginTime == 0 {
 			// Non-valid record: preserve original bytes
 			rec.SetValid(false)
-			rec.SetRawData(bytes.Clone(recordData)) // the scanner reuses its buffer
+			rec.SetRawData(recordData)
 		} else {
 			// Valid record: parse semantic data
 			rec.SetValid(true)
-- 
2.43.0


From 479e5bafc8f857e6f779b9aa0f8ee7ee8a8e2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 43/47] fix: read the control card number of a card's control
 activity

The 18 bytes of controlCardNumber (FullCardNumber, Annex IC Appendix 1,
sections 2.15 and 2.73) were reported as the identification of a driver
card, card type and issuing state included.
---
 internal/card/control_activity.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 0c9cafe..8cae366 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -65,29 +65,18 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
-	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
+	// Read control card number (18 bytes)
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
 		return nil, fmt.Errorf("failed to read control card number: %w", err)
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
+	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
 	// Default to Generation 1 for now - this should be determined from context
 	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
@@ -173,7 +162,7 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 924863c0f0bdfc004276f5f2f29a257a3176edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 44/47] fix: encode strings in the code page they declare

AppendStringValue wrote the UTF-8 bytes of a text under whatever code page the
value declared, so that a text with letters outside ASCII which was set by the
caller (no raw_data) was read back as other letters.
---
 internal/dd/string_value.go | 56 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 749019e..720f93d 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -182,25 +182,8 @@ func trimSpaceAndZeroBytes(b []byte) []byte {
 	return bytes.Trim(b, cutset)
 }
 
-// decodeWithCodePage decodes a byte slice with the given code page, returns the trimmed decoded string
-func decodeWithCodePage(codePage byte, data []byte) (string, error) {
-	if codePage == 255 {
-		// codepage 255 means empty/unassigned string
-		return "", nil
-	}
-
-	// Check if the data contains any valid characters
-	ok := false
-	for i := 0; i < len(data); i++ {
-		if data[i] > 0 && data[i] < 255 {
-			ok = true
-			break
-		}
-	}
-	if !ok {
-		return "", nil
-	}
-
+// charmapForCodePage returns the character map of a code page.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
 	// Map code page to character map
 	var cmap *charmap.Charmap
 	switch codePage {
@@ -233,8 +216,29 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		// For unrecognized code pages, fall back to ISO-8859-1
 		cmap = charmap.ISO8859_1
 	}
+	return cmap
+}
 
-	dec := cmap.NewDecoder()
+// decodeWithCodePage decodes a byte slice with the given code page, returns the trimmed decoded string
+func decodeWithCodePage(codePage byte, data []byte) (string, error) {
+	if codePage == 255 {
+		// codepage 255 means empty/unassigned string
+		return "", nil
+	}
+
+	// Check if the data contains any valid characters
+	ok := false
+	for i := 0; i < len(data); i++ {
+		if data[i] > 0 && data[i] < 255 {
+			ok = true
+			break
+		}
+	}
+	if !ok {
+		return "", nil
+	}
+
+	dec := charmapForCodePage(codePage).NewDecoder()
 	res, err := dec.String(string(data))
 	if err != nil {
 		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
@@ -294,13 +298,9 @@ func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 		return []byte{}, nil
 	}
 
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	encoded, err := charmapForCodePage(codePage).NewEncoder().String(s)
+	if err != nil {
+		return nil, fmt.Errorf("could not encode string for code page %d: %w", codePage, err)
 	}
-
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+	return []byte(encoded), nil
 }
-- 
2.43.0


From b46d8a9a2aa284befe775b82996927bc30db3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 45/47] fix: paint edited daily activity records when saving a
 card

The cyclic buffer of daily activities was written back as it was read, so
that edits of the daily records were silently lost. Paint the records over the
buffer at the positions they were read from, as the message documents.
---
 internal/card/activity.go | 90 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 2 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index ddc5543..0ffc49a 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -236,10 +236,14 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
 	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
 
-	// For perfect round-trip fidelity, use raw buffer directly when available.
+	// For perfect round-trip fidelity, paint the records over the raw buffer when available.
 	// This preserves all padding, reserved bits, and linked-list structure.
 	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 {
-		dst = append(dst, rawBuffer...)
+		buffer, err := paintCyclicBuffer(rawBuffer, activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
+		if err != nil {
+			return nil, fmt.Errorf("failed to paint cyclic buffer: %w", err)
+		}
+		dst = append(dst, buffer...)
 	} else {
 		// Fallback: Build cyclic buffer from scratch with proper linked-list structure
 		buffer, err := buildCyclicBufferFromRecords(activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
@@ -252,6 +256,88 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 	return dst, nil
 }
 
+// paintCyclicBuffer returns a copy of the cyclic buffer with the daily records painted
+// over it at their original positions.
+func paintCyclicBuffer(rawBuffer []byte, records []*cardv1.DriverActivityData_DailyRecord, newestRecordPos int) ([]byte, error) {
+	buffer := bytes.Clone(rawBuffer)
+	remaining := len(records)
+	iterator := NewCyclicRecordIterator(rawBuffer, newestRecordPos)
+	for iterator.Next() {
+		// The iterator goes from the newest record to the oldest
+		remaining--
+		if remaining < 0 {
+			break
+		}
+		rec := records[remaining]
+		if !rec.GetValid() {
+			continue
+		}
+		canvas, position, _ := iterator.Record()
+		if err := paintDailyRecord(canvas, rec); err != nil {
+			return nil, fmt.Errorf("failed to paint record %d: %w", remaining, err)
+		}
+		for i, b := range canvas {
+			buffer[(position+i)%len(buffer)] = b
+		}
+	}
+	if err := iterator.Err(); err != nil {
+		return nil, err
+	}
+	if remaining != 0 {
+		return nil, fmt.Errorf("number of daily records (%d) does not match raw_data", len(records))
+	}
+	return buffer, nil
+}
+
+// paintDailyRecord paints the values of a daily record over the bytes it was read from.
+func paintDailyRecord(canvas []byte, rec *cardv1.DriverActivityData_DailyRecord) error {
+	const (
+		idxDate     = 4
+		idxCounter  = 8
+		idxDistance = 10
+		idxChanges  = 12
+	)
+	if len(canvas) < idxChanges {
+		return fmt.Errorf("insufficient space for daily record, got %d bytes", len(canvas))
+	}
+
+	date, err := dd.AppendTimeReal(nil, rec.GetActivityRecordDate())
+	if err != nil {
+		return fmt.Errorf("failed to append activity record date: %w", err)
+	}
+	copy(canvas[idxDate:idxCounter], date)
+
+	counter, err := dd.AppendBcdString(nil, rec.GetActivityDailyPresenceCounter())
+	if err != nil {
+		return fmt.Errorf("failed to append activity daily presence counter: %w", err)
+	}
+	copy(canvas[idxCounter:idxDistance], counter)
+
+	binary.BigEndian.PutUint16(canvas[idxDistance:], uint16(rec.GetActivityDayDistance()))
+
+	changes := rec.GetActivityChangeInfo()
+	next := 0
+	for offset := idxChanges; offset+2 <= len(canvas); offset += 2 {
+		// Entries that are skipped when parsing are kept
+		changeData := binary.BigEndian.Uint16(canvas[offset:])
+		if (changeData == 0 && next > 0) || changeData == 0xFFFF {
+			continue
+		}
+		if next < len(changes) {
+			change, err := dd.AppendActivityChangeInfo(nil, changes[next])
+			if err != nil {
+				return fmt.Errorf("failed to append activity change info: %w", err)
+			}
+			copy(canvas[offset:offset+2], change)
+		}
+		next++
+	}
+	if next != len(changes) {
+		return fmt.Errorf("number of activity changes (%d) does not match raw_data", len(changes))
+	}
+	return nil
+}
+
 // cyclicRecordIterator provides a clean interface for traversing the cyclic buffer
 // of daily activity records, separating the complex pointer-following logic
 // from the parsing of individual records.
-- 
2.43.0


From af63ff5208d3cd4d4670c13eb0fb549b64f3e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:56 +0000
Subject: [PATCH 46/47] fix: clear control type flags that were edited away

AppendControlType only added flags to the byte that was read, so that a flag
set to false was silently set again when the card was saved.
---
 internal/dd/controltype.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..a0e4796 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -53,7 +53,8 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 				len(controlType.GetRawData()), lenControlType,
 			)
 		}
-		copy(canvas[:], controlType.GetRawData())
+		// The reserved bits are kept, the others painted.
+		canvas[0] = controlType.GetRawData()[0] & 0x07
 	}
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
-- 
2.43.0


From 4da0f1880489e9119ac7be9d285ae80c72bca038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 47/47] fix: drop removed second-generation specific conditions
 when saving

---
 internal/card/specific_conditions_g2.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..3916e8a 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -72,13 +72,14 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return data, nil
 	}
 
-	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
-		const (
-			lenPointer = 2
-			recordSize = 5
-		)
+	const (
+		lenPointer = 2
+		recordSize = 5
+	)
+	expectedSize := lenPointer + len(conditions.GetRecords())*recordSize
 
+	// Use raw_data as canvas if available and correct size; it may end in an incomplete record
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
 		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
@@ -89,10 +90,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		// Paint each record over canvas
 		offset := lenPointer
 		for _, record := range conditions.GetRecords() {
-			if offset+recordSize > len(canvas) {
-				// Canvas too small for all records, fall back to building from scratch
-				goto fallback
-			}
 			recordBytes, err := dd.AppendSpecificConditionRecord(nil, record)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append specific condition record: %w", err)
@@ -108,7 +105,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return append(data, canvas...), nil
 	}
 
-fallback:
 	// Fall back to building from scratch
 	pointerBytes := make([]byte, 2)
 	binary.BigEndian.PutUint16(pointerBytes, uint16(conditions.GetNewestRecordIndex()))
-- 
2.43.0

