From 3f8ad06485126022d415ddaa49d8123328b85e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 01/24] fix: handle all time zone offsets when parsing and
 writing dates

Fractional offsets of negative and zero hours lost their sign or were
truncated by a minute, names of time zones could override the offset,
and offsets without a name were written in a form which couldn't be
parsed.
---
 types.go | 98 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 54 insertions(+), 44 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..64ab6de 100644
--- a/types.go
+++ b/types.go
@@ -104,7 +104,7 @@ var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -113,50 +113,22 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	value = strings.SplitN(value, "]", 2)[0]
 	value = strings.TrimSpace(value)
 
+	// Default to GMT if no time zone was specified
+	loc := gmt
+
 	// Split the time zone off, if any
 	split := strings.SplitN(value, "[", 2)
 	if len(split) == 2 {
-		value = split[0]
-		zoneFormat = " -0700"
-		zone = strings.TrimRight(split[1], "]")
-
-		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
-		if matches == nil {
-			return errors.New("Invalid OFX Date timezone format: " + zone)
-		}
-		var err error
-		var zonehours, zoneminutes int
-		zonehours, err = strconv.Atoi(matches[1])
+		value = strings.TrimSpace(split[0])
+		loc, err = parseDateZone(split[1])
 		if err != nil {
 			return err
 		}
-		if len(matches[3]) > 0 {
-			zoneminutes, err = strconv.Atoi(matches[3])
-			if err != nil {
-				return err
-			}
-			zoneminutes = zoneminutes * 60 / 100
-		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
-
-		// Get the time zone name if it's there, default to GMT if the offset
-		// is 0 and a name isn't supplied
-		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
-			zoneFormat = zoneFormat + " MST"
-		} else if zonehours == 0 && zoneminutes == 0 {
-			zone = zone + " GMT"
-			zoneFormat = zoneFormat + " MST"
-		}
-	} else {
-		// Default to GMT if no time zone was specified
-		zone = " +0000 GMT"
-		zoneFormat = " -0700 MST"
 	}
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
-		t, err := time.Parse(format+zoneFormat, value+zone)
+		t, err := time.ParseInLocation(format, value, loc)
 		if err == nil {
 			od.Time = t
 			return nil
@@ -165,23 +137,61 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return errors.New("OFX: Couldn't parse date:" + value)
 }
 
+// parseDateZone parses the contents of the brackets following an OFX date/time
+// value: the offset from GMT in hours, optionally followed by hundredths of an
+// hour and a time zone name
+func parseDateZone(zone string) (*time.Location, error) {
+	matches := ofxDateZoneRegex.FindStringSubmatch(zone)
+	if matches == nil {
+		return nil, errors.New("Invalid OFX Date timezone format: " + zone)
+	}
+	zonehours, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return nil, err
+	}
+	if zonehours < -24 || zonehours > 24 {
+		return nil, errors.New("Invalid OFX Date timezone offset: " + zone)
+	}
+	var zoneminutes int
+	if len(matches[3]) > 0 {
+		hundredths, err := strconv.Atoi(matches[3])
+		if err != nil {
+			return nil, err
+		}
+		// Round to the nearest minute
+		zoneminutes = (hundredths*60 + 50) / 100
+	}
+	// The sign applies to the fraction too, even if the hours are (-)0
+	if strings.HasPrefix(matches[1], "-") {
+		zoneminutes = -zoneminutes
+	}
+	zoneoffset := zonehours*3600 + zoneminutes*60
+
+	// Default to GMT if the offset is 0 and a name isn't supplied
+	if len(matches[5]) == 0 && zoneoffset == 0 {
+		return gmt, nil
+	}
+	return time.FixedZone(matches[5], zoneoffset), nil
+}
+
+var ofxDateZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
+
 // String returns a string representation of the Date abiding by the OFX spec
 func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	sign := ""
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
-	} else {
-		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
+		sign = "-"
+		zoneoffset = -zoneoffset
 	}
-	fractionaloffset := (zoneoffset % 3600) / 36
-	if fractionaloffset > 0 {
-		format += "." + fmt.Sprintf("%02d", fractionaloffset)
-	} else if fractionaloffset < 0 {
-		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
+	format += fmt.Sprintf("[%s%d", sign, zoneoffset/3600)
+	if fractionaloffset := (zoneoffset % 3600) / 36; fractionaloffset > 0 {
+		format += fmt.Sprintf(".%02d", fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	// Go uses abbreviations such as "-03" for time zones without a name
+	if ofxDateZoneNameRegex.MatchString(zonename) {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From d39af9c6c898e50ac0a08c85becab9fbb9cac15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 02/24] fix: accept transactions whose CorrectFiTID comes with
 a valid CorrectAction

The condition was inverted: it rejected valid corrections and accepted
those without a usable CORRECTACTION.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 630caf33ba9f7a9f2d4e3a7c5ae4770b183cec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 03/24] fix: name 401(k) loans LOANINFO

LoanInfo's XMLName claimed they were VESTINFO, so responses containing
LOANINFO failed to parse.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..dc7cea5 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From a0154408403ae5dbb519db436e10b346f83ae9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 04/24] fix: read and write 401(k) CONTRIBINFO and WITHDRAWALS
 under their OFX names

Misspelled element names meant that the data in these aggregates was
silently dropped when parsing responses.
---
 invstmt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/invstmt.go b/invstmt.go
index dc7cea5..33d39b2 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1430,7 +1430,7 @@ type Inv401KSummaryPeriod struct {
 	DtStart       Date                     `xml:"DTSTART"`
 	DtEnd         Date                     `xml:"DTEND"`
 	Contributions *Inv401KSummaryAggregate `xml:"CONTRIBUTIONS,omitempty"` // 401(k) contribution aggregate. Note: this includes loan payments.
-	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWLS,omitempty"`    // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
+	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWALS,omitempty"`   // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
 	Earnings      *Inv401KSummaryAggregate `xml:"EARNINGS,omitempty"`      // 401(k) earnings aggregate. This is the market value change. It includes dividends/interest, and capital gains - realized and unrealized.
 }
 
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From 9f6fb765372e32a4700b374aad8215e0d0179cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 05/24] fix: treat SUBACCTFUND as a leaf element when reading
 and writing SGML

Bank transactions in investment statements which leave SUBACCTFUND
unclosed, as SGML allows, failed to parse.
---
 leaf_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..a3a3ef4 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -284,6 +284,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
-- 
2.43.0


From b9c47387968166c88fb78e5730c7651509c0b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 06/24] fix: don't mistake large currency rates for zero

Int64() is undefined for numbers which don't fit, and is 0 for multiples
of 2^64.
---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From fc9773e48cdebebb8715edef6a1c99c169befeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 07/24] fix: return an error instead of marshalling OFX without
 a header

Requests and Responses with an invalid Version were marshalled without
any header since writeHeader()'s error was ignored.
---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From 105ab8976e73d00134c5a42203a51c9cd01eb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 08/24] fix: don't follow redirects of OFX requests to
 non-https URLs

Clients refuse to send OFX requests over anything but https since they
may contain passwords in plain text, but still followed redirects, which
may resend the request, to http URLs.
---
 basic_client.go    |  2 +-
 client.go          | 24 ++++++++++++++++++++++++
 vanguard_client.go |  2 +-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..73dda6b 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -86,7 +86,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := refuseInsecureRedirects(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client.go b/client.go
index a9d43dd..c8c8ba3 100644
--- a/client.go
+++ b/client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"errors"
 	"io"
 	"net/http"
 	"strings"
@@ -103,3 +104,26 @@ func clientRequest(c Client, r *Request) (*Response, error) {
 	}
 	return ofxresp, nil
 }
+
+// refuseInsecureRedirects returns a copy of the supplied http.Client which, in
+// addition to its existing policy, refuses to follow redirects to non-https
+// URLs
+func refuseInsecureRedirects(client *http.Client) *http.Client {
+	checkRedirect := client.CheckRedirect
+	secureClient := *client
+	secureClient.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if checkRedirect != nil {
+			if err := checkRedirect(req, via); err != nil {
+				return err
+			}
+		} else if len(via) >= 10 {
+			// The default policy of the http package
+			return errors.New("stopped after 10 redirects")
+		}
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request with possible plain-text password to non-https protocol")
+		}
+		return nil
+	}
+	return &secureClient
+}
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..adf5320 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -45,7 +45,7 @@ func vanguardHttpClient() *http.Client {
 			},
 		},
 	}
-	return client
+	return refuseInsecureRedirects(client)
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From 9d9843a4902dd1652975d35e69ca4fbcbb99f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 09/24] fix: close the bodies of HTTP responses which aren't
 returned

RequestNoParse() may return both a response and an error, in which case
Request() leaked the response. The Vanguard client leaked the initial
response when retrying with cookies.
---
 client.go          | 5 ++++-
 vanguard_client.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c8c8ba3..550f9c1 100644
--- a/client.go
+++ b/client.go
@@ -93,10 +93,13 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 // require fairly standard behavior
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
+	if response != nil {
+		// A response may be returned even if there was an error
+		defer response.Body.Close()
+	}
 	if err != nil {
 		return nil, err
 	}
-	defer response.Body.Close()
 
 	ofxresp, err := ParseResponse(response.Body)
 	if err != nil {
diff --git a/vanguard_client.go b/vanguard_client.go
index adf5320..fb341d9 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -124,6 +125,8 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
 	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e107eeb2dc38e3f081e53124d7714b815567efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 10/24] fix: send the configured User-Agent when the Vanguard
 client retries with cookies

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index fb341d9..80089ec 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie, userAgent string) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if userAgent != "" {
+		request.Header.Set("User-Agent", userAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies(), c.UserAgent)
 	}
 
 	return response, err
-- 
2.43.0


From 802563eb6756f642fc3f6718126c1ed5a2843365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 11/24] fix: close the Discover client's connections along with
 response bodies

They used to be leaked until finalized by the garbage collector.
---
 discovercard_client.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..5d40e56 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -61,8 +61,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
@@ -71,10 +69,22 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 	fmt.Fprint(conn, headers)
 	_, err = io.Copy(conn, buf)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	// The connection can't be closed until the body has been read
+	response.Body = struct {
+		io.Reader
+		io.Closer
+	}{response.Body, conn}
+	return response, nil
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -90,6 +100,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From 2a824b43ac4db2bc343f1b74fdb15b23d77a2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 12/24] fix: don't crash printing statements without
 transactions, balances, or payees

All of these are optional in responses.
---
 cmd/ofx/banktransactions.go | 3 +++
 cmd/ofx/cctransactions.go   | 5 ++++-
 cmd/ofx/invtransactions.go  | 6 ++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..817d17c 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,6 +74,9 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
 		}
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..89d3cdd 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,6 +63,9 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
 			if tran.Currency != nil {
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..eb6138a 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,10 +67,12 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.IsInt() && stmt.InvBal.AvailCash.Num().Int64() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
+		if stmt.InvTranList == nil {
+			return
+		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
 			for _, tran := range banktrans.Transactions {
-- 
2.43.0


From a60f20f5b8e5f8223c2c5999e8fd6dff78ed2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 13/24] fix: print investment cash balances which aren't
 integers

---
 cmd/ofx/invtransactions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index eb6138a..566bac3 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,7 +67,7 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		if stmt.InvBal != nil && stmt.InvBal.AvailCash.IsInt() && stmt.InvBal.AvailCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
 		if stmt.InvTranList == nil {
-- 
2.43.0


From 5553fa29160c7e691da151f55413a740517936c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 14/24] fix: print the error when requesting investment
 transactions fails

---
 cmd/ofx/invtransactions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 566bac3..0d4d59f 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0


From 52af4841554d43e0cb28f435b34b8fc820617075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 15/24] fix: don't write a <Name> element into marshalled
 message set profiles

MessageSet.Name is a copy of the enclosing element's name.
---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From be487cd9df03b4e58452ee0890372514f6cbda4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 16/24] fix: don't repeat Vanguard requests answered with
 content of unknown length

Chunked or compressed responses don't have a known length and were
mistaken for empty ones if they set cookies.
---
 vanguard_client.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 80089ec..8cc9844 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"bufio"
 	"crypto/tls"
 	"errors"
 	"io"
@@ -110,6 +111,23 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	return response, nil
 }
 
+// emptyBody returns whether the body of an HTTP response is empty, without
+// consuming any of it
+func emptyBody(response *http.Response) bool {
+	if response.ContentLength >= 0 {
+		return response.ContentLength == 0
+	}
+
+	// The length is unknown (the body may be chunked or compressed)
+	body := bufio.NewReader(response.Body)
+	_, err := body.Peek(1)
+	response.Body = struct {
+		io.Reader
+		io.Closer
+	}{body, response.Body}
+	return err == io.EOF
+}
+
 // RequestNoParse marshals a Request to XML, makes an HTTP request, and returns
 // the raw HTTP response
 func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
@@ -127,7 +145,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if response != nil && len(response.Cookies()) > 0 && emptyBody(response) {
 		response.Body.Close()
 
 		b, err = r.Marshal()
-- 
2.43.0


From 4d7526736de61e5fd350dd63af0762fb9ef1b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 17/24] fix: write dates at offsets of fractional minutes
 without changing the instant

---
 types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 64ab6de..f27fff3 100644
--- a/types.go
+++ b/types.go
@@ -178,8 +178,14 @@ var ofxDateZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
 
 // String returns a string representation of the Date abiding by the OFX spec
 func (od Date) String() string {
-	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	if zoneoffset%60 != 0 {
+		// OFX can't express this offset, so give the same instant at the
+		// closest one it can
+		zoneoffset -= zoneoffset % 60
+		od.Time = od.In(time.FixedZone(zonename, zoneoffset))
+	}
+	format := od.Format(ofxDateFormats[0])
 	sign := ""
 	if zoneoffset < 0 {
 		sign = "-"
-- 
2.43.0


From 5b07e4725ae6d14b5e4415fada60b0e4be29c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 18/24] fix: reject dates with single-digit hours

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index f27fff3..219db64 100644
--- a/types.go
+++ b/types.go
@@ -128,6 +128,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
+		if len(value) < len(format) {
+			// time.Parse would accept single-digit hours
+			continue
+		}
 		t, err := time.ParseInLocation(format, value, loc)
 		if err == nil {
 			od.Time = t
-- 
2.43.0


From f7bb29618ec4e1e447601a9bad62916b39d64742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 19/24] fix: reuse the connections of the Vanguard client
 instead of leaking them

---
 vanguard_client.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 8cc9844..306454a 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -23,9 +23,13 @@ func NewVanguardClient(bc *BasicClient) Client {
 	return &VanguardClient{bc}
 }
 
-// vanguardHttpClient returns an http.Client with the default supported
+// vanguardTransport is shared by all requests so that their connections are
+// reused, instead of each request leaving an idle one behind.
+var vanguardTransport = newVanguardTransport()
+
+// newVanguardTransport returns an http.Transport with the default supported
 // ciphers plus the insecure ciphers Vanguard still uses.
-func vanguardHttpClient() *http.Client {
+func newVanguardTransport() *http.Transport {
 	var clientCiphers []uint16
 
 	vanguardCiphers := []uint16{
@@ -39,14 +43,17 @@ func vanguardHttpClient() *http.Client {
 	}
 	clientCiphers = append(clientCiphers, vanguardCiphers...)
 
-	client := &http.Client{
-		Transport: &http.Transport{
-			TLSClientConfig: &tls.Config{
-				CipherSuites: clientCiphers,
-			},
+	return &http.Transport{
+		TLSClientConfig: &tls.Config{
+			CipherSuites: clientCiphers,
 		},
 	}
-	return refuseInsecureRedirects(client)
+}
+
+// vanguardHttpClient returns an http.Client with the default supported
+// ciphers plus the insecure ciphers Vanguard still uses.
+func vanguardHttpClient() *http.Client {
+	return refuseInsecureRedirects(&http.Client{Transport: vanguardTransport})
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From ae5b27da73d82b5b2600c81a2932da810e983ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 20/24] fix: keep the path of Discover requests escaped

---
 discovercard_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 5d40e56..db8a751 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,7 +42,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
+	path := url.EscapedPath()
 	if path == "" {
 		path = "/"
 	}
-- 
2.43.0


From 5c6cf5ab287c59606831185db01d4372f348d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 21/24] fix: don't take an end tag without an element for the
 end of the response

When reading SGML the decoder isn't strict: on an end tag of an element
which isn't open it invents the end of every open element, OFX included,
and fails only then. DecodeResponse took that for the end of the response
and silently dropped everything after the stray end tag.
---
 response.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/response.go b/response.go
index 888b1d0..cd60f89 100644
--- a/response.go
+++ b/response.go
@@ -279,6 +279,20 @@ func ParseResponse(reader io.Reader) (*Response, error) {
 	return resp, err
 }
 
+// stoppableReader is a bufio.Reader which doesn't read any further once stopped
+type stoppableReader struct {
+	*bufio.Reader
+	stopped bool
+}
+
+// ReadByte returns the next byte, or io.EOF if the reader was stopped
+func (s *stoppableReader) ReadByte() (byte, error) {
+	if s.stopped {
+		return 0, io.EOF
+	}
+	return s.Reader.ReadByte()
+}
+
 // DecodeResponse parses an OFX response in SGML or XML into a Response object
 // from the given io.Reader
 func DecodeResponse(reader io.Reader) (*Response, error) {
@@ -297,7 +311,8 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		}
 	}
 
-	decoder := xml.NewDecoder(r)
+	source := &stoppableReader{Reader: r}
+	decoder := xml.NewDecoder(source)
 	if !xmlVersion {
 		decoder.Strict = false
 		decoder.AutoCloseAfterCharData = ofxLeafElements
@@ -361,6 +376,14 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		if err != nil {
 			return nil, err
 		} else if ofxEnd, ok := tok.(xml.EndElement); ok && ofxEnd.Name.Local == "OFX" {
+			// When it isn't strict, the decoder invents end elements for
+			// everything still open (including OFX) if it comes across an
+			// end tag of an element which isn't open, and only then fails.
+			// Don't mistake that for the end of the response.
+			source.stopped = true
+			if _, err := decoder.Token(); err != nil && err != io.EOF {
+				return nil, err
+			}
 			return &or, nil // found closing XML element, so we're done
 		} else if start, ok := tok.(xml.StartElement); ok {
 			slice, ok := messageSlices[start.Name.Local]
-- 
2.43.0


From 71b75af832f184e6ebc8c8eabf0a217bd298c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 22/24] fix: refuse to marshal dates OFX can't express

Years before 0 or after 9999 and time zone offsets beyond a day were written
as dates which can't be parsed again.
---
 types.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 219db64..48200a3 100644
--- a/types.go
+++ b/types.go
@@ -207,9 +207,17 @@ func (od Date) String() string {
 	return format + "]"
 }
 
-// MarshalXML marshals a Date to XML
+// MarshalXML marshals a Date to XML. It returns an error if the Date's year or
+// time zone can't be expressed in OFX.
 func (od Date) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
-	return e.EncodeElement(od.String(), start)
+	value := od.String()
+	if strings.Index(value, "[") != len(ofxDateFormats[0]) {
+		return errors.New("Date's year doesn't have four digits: " + value)
+	}
+	if _, zoneoffset := od.Zone(); zoneoffset/3600 < -24 || zoneoffset/3600 > 24 {
+		return errors.New("Invalid Date timezone offset: " + value)
+	}
+	return e.EncodeElement(value, start)
 }
 
 // Equal returns true if the two Dates represent the same time (time zones are
-- 
2.43.0


From 98a51584adb760c1ffb9454a13afd0a28d0c76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 23/24] fix: refuse to marshal message sets whose name isn't an
 element name

It was written into the tags of the profile as it was, so that the document
couldn't be parsed.
---
 profile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profile.go b/profile.go
index 433113b..dabd764 100644
--- a/profile.go
+++ b/profile.go
@@ -3,6 +3,7 @@ package ofxgo
 import (
 	"errors"
 	"github.com/aclindsa/xml"
+	"regexp"
 	"strings"
 )
 
@@ -127,6 +128,8 @@ func (msl *MessageSetList) UnmarshalXML(d *xml.Decoder, start xml.StartElement)
 	}
 }
 
+var messageSetNameRegex = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9._-]*$`)
+
 // MarshalXML handles marshalling a MessageSetList element to an XML string
 func (msl *MessageSetList) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
 	messageSetListElement := xml.StartElement{Name: xml.Name{Local: "MSGSETLIST"}}
@@ -138,6 +141,9 @@ func (msl *MessageSetList) MarshalXML(e *xml.Encoder, start xml.StartElement) er
 			return errors.New("Expected MessageSet.Name to end with \"V1\"")
 		}
 		messageSetName := strings.TrimSuffix(messageset.Name, "V1")
+		if !messageSetNameRegex.MatchString(messageSetName) {
+			return errors.New("MessageSet.Name is not an element name: " + messageset.Name)
+		}
 		messageSetElement := xml.StartElement{Name: xml.Name{Local: messageSetName}}
 		if err := e.EncodeToken(messageSetElement); err != nil {
 			return err
-- 
2.43.0


From b016acd4b90d722c19a284f4f6d000f5bcd9efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 24/24] fix: refuse amounts with huge exponents

big.Rat accepts exponents of up to a million, so an amount of a dozen
characters such as 1e1000000 took tens of milliseconds to parse and a
hundred to marshal, into a megabyte. OFX amounts have no exponents at
all; keep accepting those somebody may really have written.
---
 types.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types.go b/types.go
index 48200a3..eddec48 100644
--- a/types.go
+++ b/types.go
@@ -48,6 +48,10 @@ type Amount struct {
 	big.Rat
 }
 
+// big.Rat accepts exponents of up to a million, whose values take far more time
+// and memory than their few characters. Those of genuine amounts are tiny.
+var hugeExponentRegex = regexp.MustCompile(`[eEpP][+-]?[0-9_]{4,}$`)
+
 // UnmarshalXML handles unmarshalling an Amount from an SGML/XML string.
 // Leading and trailing whitespace is ignored.
 func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
@@ -64,6 +68,9 @@ func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// by a comma, so fix that up before attempting to parse it into big.Rat
 	value = strings.Replace(value, ",", ".", 1)
 
+	if hugeExponentRegex.MatchString(value) {
+		return errors.New("OFX amount has too large an exponent")
+	}
 	if _, ok := a.SetString(value); !ok {
 		return errors.New("Failed to parse OFX amount")
 	}
-- 
2.43.0

