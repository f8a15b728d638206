From d03c94e8e2b0b560918230c3ee7681a896b9db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:13 +0000
Subject: [PATCH 01/26] fix: reject AS numbers with a malformed 'AS' prefix in
 the ASN registry

parseASN stripped any run of 'a' and 's' characters (TrimLeft takes a cutset),
so 'ASAS5', 'SA5' or 'sss5' were looked up as AS5.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From 0d0e8b31e5a225d7872cf03aed0d1997c5c06705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:13 +0000
Subject: [PATCH 02/26] fix: look up service tags using the deprecated tilde
 separator

The documentation of Lookup states that ~TAG handles are still supported, but
only the '-' separator was recognised.
---
 bootstrap/service_provider_registry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bootstrap/service_provider_registry.go b/bootstrap/service_provider_registry.go
index 1bccfd0..81296be 100644
--- a/bootstrap/service_provider_registry.go
+++ b/bootstrap/service_provider_registry.go
@@ -48,8 +48,8 @@ func NewServiceProviderRegistry(json []byte) (*ServiceProviderRegistry, error) {
 func (s *ServiceProviderRegistry) Lookup(question *Question) (*Answer, error) {
 	input := question.Query
 
-	// Valid input looks like 12345-VRSN.
-	offset := strings.LastIndexByte(input, '-')
+	// Valid input looks like 12345-VRSN (or the deprecated 12345~VRSN).
+	offset := strings.LastIndexAny(input, "-~")
 
 	if offset == -1 || offset == len(input)-1 {
 		return &Answer{
-- 
2.43.0


From a21b48f97c05e4ee64449386aad83e15712b415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 03/26] fix: re-download expired registry files in Lookup

Once a registry was in memory, Lookup never downloaded it again: the Expired
cache state was not acted on, so a long lived bootstrap client used the same
file forever instead of refreshing it every 24 hours as documented.
---
 bootstrap/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..5288698 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -321,12 +321,18 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 		}
 	}
 
-	if c.registries[registry] == nil || forceDownload {
+	// Refresh an expired registry. If that fails (other than due to the caller's
+	// context), an existing in-memory registry is better than none.
+	expired := state == cache.Expired && c.registries[registry] != nil
+
+	if c.registries[registry] == nil || forceDownload || expired {
 		c.Verbose(fmt.Sprintf("  bootstrap: Downloading %s", registry.Filename()))
 
 		err := c.DownloadWithContext(question.Context(), registry)
-		if err != nil {
+		if err != nil && (!expired || question.Context().Err() != nil) {
 			return nil, err
+		} else if err != nil {
+			c.Verbose(fmt.Sprintf("  bootstrap: Download error (%s), using expired file", err))
 		}
 	} else {
 		c.Verbose("  bootstrap: Using cached Service Registry file")
-- 
2.43.0


From 74b1d7ec2c146252e4b7c998d0144ab42bc070f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:26 +0000
Subject: [PATCH 04/26] fix: keep the cached registry file when saving its
 replacement fails

DiskCache.Save truncated the existing file before writing, so running out of
space (or being killed) part way left a torn file and lost the old copy.
---
 bootstrap/cache/disk_cache.go | 40 ++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/bootstrap/cache/disk_cache.go b/bootstrap/cache/disk_cache.go
index d114f8a..feb6868 100644
--- a/bootstrap/cache/disk_cache.go
+++ b/bootstrap/cache/disk_cache.go
@@ -102,11 +102,7 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 		return err
 	}
 
-	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
-		return err
-	}
-
-	fileModTime, err := d.modTime(filename)
+	fileModTime, err := d.writeFile(d.cacheDirPath(filename), data)
 	if err != nil {
 		return fmt.Errorf("file %s failed to save correctly: %w", filename, err)
 	}
@@ -116,6 +112,40 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 	return nil
 }
 
+// writeFile replaces the file |path| with |data|, and returns its modification
+// time.
+//
+// The data is written to a temporary file, then renamed into place. If that
+// fails, the existing file (if any) is left as is.
+func (d *DiskCache) writeFile(path string, data []byte) (time.Time, error) {
+	f, err := os.CreateTemp(filepath.Dir(path), ".tmp-*")
+	if err != nil {
+		return time.Time{}, err
+	}
+
+	_, err = f.Write(data)
+
+	var fileInfo os.FileInfo
+	if err == nil {
+		fileInfo, err = f.Stat()
+	}
+
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return time.Time{}, err
+	}
+
+	return fileInfo.ModTime(), nil
+}
+
 // Load loads the file |filename| from disk.
 //
 // Since Service Registry files do not change much, the file is returned even
-- 
2.43.0


From dcb0033b2adc605cdbaadeba58a969d4b67c76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:53 +0000
Subject: [PATCH 05/26] fix: fetch registry files beneath base URLs with an
 escaped path

Appending the trailing slash to Path but not RawPath made the URL fall back to
the unescaped path, e.g. /a%2Fb was fetched as /a/b/.
---
 bootstrap/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 5288698..7cacd0c 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -218,6 +218,10 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 
 	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
 		baseURL.Path += "/"
+
+		if baseURL.RawPath != "" {
+			baseURL.RawPath += "/"
+		}
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From 6b9aaf1a2c3f5da68ec3b71dc1e211ec7c408146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:14 +0000
Subject: [PATCH 06/26] fix: cache custom bootstrap services under their full
 URL hash

Six hex digits collide after a few thousand services, and a client then loads
another service's registry file from a shared cache directory.
---
 bootstrap/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7cacd0c..fe2d2ab 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -420,9 +420,9 @@ func (c *Client) ServiceProvider() *ServiceProviderRegistry {
 // For the official IANA bootstrap service, this is the exact filename, e.g.
 // dns.json.
 //
-// For custom bootstrap services, a 6 character hash of the bootstrap service
-// URL is prepended to the filename (e.g. 012def_dns.json), to prevent mixing
-// them up.
+// For custom bootstrap services, a hash of the bootstrap service URL is
+// prepended to the filename (e.g. 012def..._dns.json), to prevent mixing them
+// up.
 func (c *Client) filenameFor(r RegistryType) string {
 	filename := r.Filename()
 
@@ -431,7 +431,7 @@ func (c *Client) filenameFor(r RegistryType) string {
 		hasher.Write([]byte(c.BaseURL.String()))
 		sha256Hash := hex.EncodeToString(hasher.Sum(nil))
 
-		filename = sha256Hash[0:6] + "_" + filename
+		filename = sha256Hash + "_" + filename
 	}
 
 	return filename
-- 
2.43.0


From 0fe73ccc947a6fad6868cd8a2787455020d72bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:18 +0000
Subject: [PATCH 07/26] fix: don't modify the Request's Server URL in
 Request.URL()

URL() cleared the query and fragment of the caller's (or the bootstrap
registry's) URL, which also dropped the server's query parameters from the
request.
---
 request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..d02e94e 100644
--- a/request.go
+++ b/request.go
@@ -263,9 +263,12 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		// Work on a copy, the caller's Server URL is not modified.
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
+		tempURL.RawFragment = ""
 		tempURLString := tempURL.String()
 
 		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
-- 
2.43.0


From 731bf5918a2013310877b53fd41717cba0c67900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:31 +0000
Subject: [PATCH 08/26] fix: escape the query text of IP requests

An IP query could add path segments, a query string or a fragment to the
request URL, or make it unparseable. A request whose URL cannot be constructed
is now an error instead of a nil pointer panic.
---
 client.go  | 14 ++++++++++++--
 request.go |  9 +++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 9c422af..4f6f456 100644
--- a/client.go
+++ b/client.go
@@ -243,10 +243,20 @@ func (c *Client) Do(req *Request) (*Response, error) {
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
 	// HTTPResponse stores the URL, http.Response, response body...
-	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
+	httpResponse := &HTTPResponse{}
+
+	u := rdapReq.URL()
+	if u == nil {
+		httpResponse.Error = &ClientError{
+			Type: InputError,
+			Text: fmt.Sprintf("Cannot construct the request URL for server '%s'", rdapReq.Server),
+		}
+
+		return httpResponse
 	}
 
+	httpResponse.URL = u.String()
+
 	start := time.Now()
 
 	// Set up the HTTP request. The request context carries the timeout.
diff --git a/request.go b/request.go
index d02e94e..d94eb13 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,13 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// IP networks are address/length.
+		ip, length, isNet := strings.Cut(r.Query, "/")
+
+		path = fmt.Sprintf("ip/%s", escapePath(ip))
+		if isNet {
+			path += "/" + escapePath(length)
+		}
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From 8dd357ff9b46291c3b087bc5863f3dcbf2f126f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:43 +0000
Subject: [PATCH 09/26] fix: quote the error code in errors from RDAP error
 responses

---
 client_error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..258220e 100644
--- a/client_error.go
+++ b/client_error.go
@@ -7,6 +7,7 @@ package rdap
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -46,10 +47,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	errorCode := "unknown"
+	if e.ErrorCode != nil {
+		errorCode = strconv.FormatUint(uint64(*e.ErrorCode), 10)
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
-		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+		Text: fmt.Sprintf("Server returned error code %s, title='%s', description='%s'",
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 174dbcab8573fc0cfed882c9333bacf77fe8a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:47 +0000
Subject: [PATCH 10/26] fix: send the plain AS number in QueryAutnum

---
 client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client.go b/client.go
index 4f6f456..cd65888 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 
@@ -337,6 +338,11 @@ func (c *Client) doQuickRequest(req *Request) (*Response, error) {
 //
 // Full contact information (where available) is provided. The timeout is 30s.
 func (c *Client) QueryAutnum(autnum string) (*Autnum, error) {
+	// Servers expect the plain AS number, without the optional "AS" prefix.
+	if asn, err := parseAutnum(autnum); err == nil {
+		autnum = strconv.FormatUint(uint64(asn), 10)
+	}
+
 	req := &Request{
 		Type:  AutnumRequest,
 		Query: autnum,
-- 
2.43.0


From 8af42cfdb79de00565b67e7fffc7cee78a736939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:44 +0000
Subject: [PATCH 11/26] fix: apply Request.Timeout

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index cd65888..5577051 100644
--- a/client.go
+++ b/client.go
@@ -105,6 +105,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		}
 	}
 
+	// The timeout (if any) covers the whole operation, bootstrapping included.
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	// Init HTTP client?
 	if c.HTTP == nil {
 		c.HTTP = &http.Client{}
-- 
2.43.0


From 65ab1172f3b92e54dc345151d0a8125d01a28d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:46 +0000
Subject: [PATCH 12/26] fix: don't try further servers once the request is
 cancelled

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 5577051..345d34d 100644
--- a/client.go
+++ b/client.go
@@ -203,7 +203,7 @@ func (c *Client) Do(req *Request) (*Response, error) {
 			c.Verbose(fmt.Sprintf("client: error: %s",
 				httpResponse.Error))
 
-			if r.Context().Err() == context.DeadlineExceeded {
+			if r.Context().Err() != nil {
 				return resp, httpResponse.Error
 			}
 
-- 
2.43.0


From 69bdd3cfd785091f65c6ea209ec73c97c5d57ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:50 +0000
Subject: [PATCH 13/26] fix: close the connections of a command line run

---
 cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli.go b/cli.go
index 86c0ae9..2cb5a71 100644
--- a/cli.go
+++ b/cli.go
@@ -466,6 +466,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		Proxy:           http.ProxyFromEnvironment,
 		TLSClientConfig: tlsConfig,
 	}
+	defer transport.CloseIdleConnections()
 
 	// Setup http.RoundTripper for http clients
 	bs.HTTP = &http.Client{
-- 
2.43.0


From 338d55824e90698646970df3da982b47112ddeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 14/26] fix: data race when loading sandbox files concurrently

---
 sandbox/file.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 0135ea1..285f431 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -10,9 +10,11 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sync"
 )
 
-var sandboxPath string
+// sandboxPath returns the sandbox directory. It is safe for concurrent use.
+var sandboxPath = sync.OnceValue(findPackagePath)
 
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
@@ -23,11 +25,7 @@ func LoadFile(filename string) ([]byte, error) {
 
 	var body []byte
 
-	if len(sandboxPath) == 0 {
-		sandboxPath = findPackagePath()
-	}
-
-	body, err := os.ReadFile(path.Join(sandboxPath, filename))
+	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From 1d6db88767623dc1eda50b8f3635fcb64d8a4bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 15/26] fix: leave pointer fields nil when their value can't be
 decoded

---
 decoder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..525b462 100644
--- a/decoder.go
+++ b/decoder.go
@@ -718,7 +718,7 @@ func getFieldName(sf reflect.StructField) (string, bool) {
 }
 
 // decodePtr decodes |src| into the ptr |dst|. The ptr is initialised to a new
-// value if nil.
+// value if nil, and the decode was successful.
 //
 // The parameters and return variables are as per decode().
 func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeData *DecodeData) (bool, error) {
@@ -735,12 +735,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// Leave the ptr nil if there's no value to point to.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From 4cfd36ebc477d054fbe1a5fc673213b781aa98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:19 +0000
Subject: [PATCH 16/26] fix: reject negative and too large numbers in unsigned
 integer fields

---
 decoder.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 525b462..ca76e77 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,14 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		// The conversion of an out of range float64 is undefined.
+		if src <= -1 || src >= 1<<64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
@@ -396,8 +402,14 @@ func (d *Decoder) decodeInt(keyName string, src any, dst reflect.Value, decodeDa
 
 		d.addDecodeNote(decodeData, keyName, "bool to int conversion")
 	case float64:
-		result = int64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		// The conversion of an out of range float64 is undefined.
+		if src < -1<<63 || src >= 1<<63 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = int64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From 94b454e1cd43a627872ae18cd2e139fcd8f4ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:02 +0000
Subject: [PATCH 17/26] fix: read each address component of a vCard from its
 own position

---
 vcard.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..d801fa9 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,18 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	// An address is normally a list of components, each of which may itself be
+	// a list (e.g. a multiline street address).
+	components, ok := adr.Value.([]any)
+	if !ok {
+		components = []any{adr.Value}
+	}
 
-	if index >= len(values) {
+	if index >= len(components) {
 		return ""
 	}
 
-	return values[index]
+	component := VCardProperty{Value: components[index]}
+
+	return strings.Join(component.Values(), " ")
 }
-- 
2.43.0


From dd192c9ec7f1ea67a81c2ed9e31594945906e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:50 +0000
Subject: [PATCH 18/26] fix: print the conformance of IP networks

---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index a8ba8fc..cd36c59 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput || p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From c7d6a1f0ab6bfdb7fa81ea636db252ad5b57c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:53 +0000
Subject: [PATCH 19/26] fix: omit notices and remarks when asked to

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index cd36c59..8900880 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -554,13 +554,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 03857f9920b104990a0ce05dc48af9311d539b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:11 +0000
Subject: [PATCH 20/26] fix: don't print carriage returns in WHOIS style output

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index 2cb5a71..0ca03c7 100644
--- a/cli.go
+++ b/cli.go
@@ -567,7 +567,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From 347d77e887e5ceb1b695bec7f1ff71a3964eef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:22 +0000
Subject: [PATCH 21/26] fix: print the answering server's response with --raw
 and --json

---
 cli.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 0ca03c7..7b85782 100644
--- a/cli.go
+++ b/cli.go
@@ -527,15 +527,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		printer.Print(resp.Object)
 	}
 
+	// The last server tried is the one which answered.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From 0b3ba75ef3417d31e98d978aeed2434fbb1fd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 22/26] fix: return an error when a sandbox file cannot be read

LoadFile panicked when the sandbox directory recorded at compile time was
not there at run time (a -trimpath build, or a binary moved to another
machine).
---
 sandbox/file.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 285f431..a2b36ce 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -17,20 +17,14 @@ import (
 var sandboxPath = sync.OnceValue(findPackagePath)
 
 // LoadFile reads the named sandboxed file and returns its contents. It returns
-// an error if the file is not one of the recognised sandbox files.
+// an error if the file is not one of the recognised sandbox files, or if it
+// cannot be read.
 func LoadFile(filename string) ([]byte, error) {
 	if !IsFileInSandbox(filename) {
 		return nil, errors.New("file not found in sandbox")
 	}
 
-	var body []byte
-
-	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
-	if err != nil {
-		log.Panic(err)
-	}
-
-	return body, nil
+	return os.ReadFile(path.Join(sandboxPath(), filename))
 }
 
 func findPackagePath() string {
-- 
2.43.0


From e42d2d6e41517fd5d7f2c969210afd571fc404ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:52 +0000
Subject: [PATCH 23/26] fix: don't read argument files in sandbox mode

The command line parser replaces @filename arguments with the lines of that
file, which let a sandboxed user read any file.
---
 cli.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cli.go b/cli.go
index 7b85782..7ee804a 100644
--- a/cli.go
+++ b/cli.go
@@ -166,6 +166,17 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// Command line query (any remaining non-option arguments).
 	queryArgs := app.Arg("", "").Strings()
 
+	// In sandbox mode, don't let the parser read arguments from files
+	// (@filename).
+	if options.Sandbox || hasSandboxExperiment(args) {
+		for _, arg := range args {
+			if strings.HasPrefix(arg, "@") {
+				printError(stderr, fmt.Sprintf("Error: argument '%s' can't be used (sandbox mode enabled)", arg))
+				return 1
+			}
+		}
+	}
+
 	// Parse command line arguments.
 	// The help messages for -h/--help are printed directly by app.Parse().
 	_, err := app.Parse(args)
@@ -565,6 +576,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	return 0
 }
 
+// hasSandboxExperiment reports whether the unparsed arguments |args| enable the
+// "sandbox" experiment.
+func hasSandboxExperiment(args []string) bool {
+	for i, arg := range args {
+		if arg == "--exp=sandbox" || (arg == "--exp" && i+1 < len(args) && args[i+1] == "sandbox") {
+			return true
+		}
+	}
+
+	return false
+}
+
 func safePrint(v string) string {
 	removeBadChars := func(r rune) rune {
 		switch r {
-- 
2.43.0


From 05b5c0c2ae349325bae841d6dc0367dacfbd1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:52 +0000
Subject: [PATCH 24/26] fix: give the same bootstrap answers for overlapping
 entries every time

Entries were sorted starting from Go's random map order, so AS ranges with the
same first number, or one network spelled in two ways, were answered with
either entry's URLs depending on the run.
---
 bootstrap/asn_registry.go | 10 +++++-----
 bootstrap/net_registry.go | 10 ++++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 186908f..61b02fa 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -7,7 +7,9 @@ package bootstrap
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"net/url"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -71,16 +73,14 @@ func NewASNRegistry(json []byte) (*ASNRegistry, error) {
 
 	a := make([]asnRange, 0, len(registry.Entries))
 
-	var asn string
-	var urls []*url.URL
-
-	for asn, urls = range registry.Entries {
+	// In a fixed order, so that entries which overlap always sort the same way.
+	for _, asn := range slices.Sorted(maps.Keys(registry.Entries)) {
 		minASN, maxASN, err := parseASNRange(asn)
 		if err != nil {
 			continue
 		}
 
-		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: urls})
+		a = append(a, asnRange{MinASN: minASN, MaxASN: maxASN, URLs: registry.Entries[asn]})
 	}
 
 	sort.Sort(asnRangeSorter(a))
diff --git a/bootstrap/net_registry.go b/bootstrap/net_registry.go
index f01f393..5ce66f6 100644
--- a/bootstrap/net_registry.go
+++ b/bootstrap/net_registry.go
@@ -8,8 +8,10 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"maps"
 	"net"
 	"net/url"
+	"slices"
 	"sort"
 	"strings"
 )
@@ -66,9 +68,9 @@ func NewNetRegistry(json []byte, ipVersion int) (*NetRegistry, error) {
 		file:       registry,
 	}
 
-	var cidr string
-	var urls []*url.URL
-	for cidr, urls = range registry.Entries {
+	// In a fixed order, so that several entries for one network always sort the
+	// same way.
+	for _, cidr := range slices.Sorted(maps.Keys(registry.Entries)) {
 		_, ipNet, err := net.ParseCIDR(cidr)
 
 		if err != nil {
@@ -78,7 +80,7 @@ func NewNetRegistry(json []byte, ipVersion int) (*NetRegistry, error) {
 		}
 
 		size, _ := ipNet.Mask.Size()
-		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: urls})
+		n.networks[size] = append(n.networks[size], netEntry{Net: ipNet, URLs: registry.Entries[cidr]})
 	}
 
 	for _, nets := range n.networks {
-- 
2.43.0


From 3558404d469d97785d6e6ed04df14cb743034520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:16 +0000
Subject: [PATCH 25/26] fix: fetch registry files beneath bootstrap URLs ending
 in an escaped slash

---
 bootstrap/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index fe2d2ab..c3714b5 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -216,7 +216,8 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 	baseURL := new(url.URL)
 	*baseURL = *c.BaseURL
 
-	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
+	// A path ending in an escaped slash ("%2F") still needs a trailing slash.
+	if path := baseURL.EscapedPath(); path != "" && path[len(path)-1] != '/' {
 		baseURL.Path += "/"
 
 		if baseURL.RawPath != "" {
-- 
2.43.0


From bba1b3edcf910531366924912f6f995d99410cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 26/26] fix: fail when the results cannot be written

---
 cli.go | 54 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/cli.go b/cli.go
index 7ee804a..5ef2784 100644
--- a/cli.go
+++ b/cli.go
@@ -188,10 +188,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		return 1
 	}
 
+	// Remember whether writing the results failed.
+	out := &outputWriter{w: stdout}
+
 	// Print version string?
 	if *versionFlag {
-		fmt.Fprintln(stdout, version)
-		return 0
+		fmt.Fprintln(out, version)
+		return out.exitCode(stderr)
 	}
 
 	var verbose func(text string)
@@ -531,7 +534,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// Print the response out in text format?
 	if *outputFormatText {
 		printer := &Printer{
-			Writer: stdout,
+			Writer: out,
 
 			BriefLinks: true,
 		}
@@ -543,21 +546,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", body)
+		fmt.Fprintf(out, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
-		var out bytes.Buffer
-		if err := json.Indent(&out, body, "", "  "); err != nil {
+		var pretty bytes.Buffer
+		if err := json.Indent(&pretty, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
 
-		if _, err := out.WriteTo(stdout); err != nil {
-			printError(stderr, fmt.Sprintf("Error writing output: %s", err))
-			return 1
-		}
+		fmt.Fprintf(out, "%s", pretty.Bytes())
 	}
 
 	// Print WHOIS style response out?
@@ -566,13 +566,45 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 		for _, key := range w.KeyDisplayOrder {
 			for _, value := range w.Data[key] {
-				fmt.Fprintf(stdout, "%s: %s\n", key, safePrint(value))
+				fmt.Fprintf(out, "%s: %s\n", key, safePrint(value))
 			}
 		}
 	}
 
 	_ = fetchRolesFlag
 
+	return out.exitCode(stderr)
+}
+
+// outputWriter writes to |w|, and remembers the first error.
+type outputWriter struct {
+	w   io.Writer
+	err error
+}
+
+// Write implements io.Writer. Nothing more is written after an error.
+func (o *outputWriter) Write(p []byte) (int, error) {
+	if o.err != nil {
+		return 0, o.err
+	}
+
+	n, err := o.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	o.err = err
+
+	return n, err
+}
+
+// exitCode returns the exit code for a run which got its results: 0 if they
+// were all written, otherwise the error is printed to |stderr|.
+func (o *outputWriter) exitCode(stderr io.Writer) int {
+	if o.err != nil {
+		printError(stderr, fmt.Sprintf("Error writing output: %s", o.err))
+		return 1
+	}
+
 	return 0
 }
 
-- 
2.43.0

