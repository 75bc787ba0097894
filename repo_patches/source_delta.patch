From 906a99ee00eaa24b26c1fff214af979bfdbb8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:54 +0000
Subject: [PATCH 01/25] fix: anchor both branches of the season pattern and
 stop its case-insensitivity leaking

Any string starting with YYYY-MM was treated as a season (for example
1985-04-XX, 2004-06~ or 1985-04/..), and lower-case x was accepted in level 1.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..5cd4659 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter)\s*,\s*(\d{4})))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From 52277f557ae2f11ceb25f5728adcb78c3ed26161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:24 +0000
Subject: [PATCH 02/25] fix: anchor the Level 2 pattern at the end of the
 string

Strings with a Level 2 prefix and trailing junk (2004garbage) were considered valid,
and the case-insensitivity of the exponential year pattern leaked in to the others.
---
 re/level2.go | 2 +-
 re/re.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
diff --git a/re/re.go b/re/re.go
index 5cd4659..b286e56 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 53a071c3955ec4f46f3853bb386995e55989e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:26 +0000
Subject: [PATCH 03/25] fix: level1.IsExtendedInterval reports false for
 strings which are not extended intervals

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From 07302977ce1d1ad6baba3d3a71fba12c50a14b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:28 +0000
Subject: [PATCH 04/25] fix: NotSet returns a NotSetError

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From 13361f6b723430889adf22301307f3cf289db4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:30 +0000
Subject: [PATCH 05/25] fix: a negative calendar year has exactly one minus
 sign (--1985 was valid)

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index b286e56..066ca2e 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `\-\d{4}`
 
 // Level 2
 
-- 
2.43.0


From 15bd852fc7794ebbaff6f1b638dad88238214af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:32 +0000
Subject: [PATCH 06/25] fix: refuse day 00 (2004-06-00 was parsed as
 2004-06-30)

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 066ca2e..98e9ce5 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:0[1-9X]|[12X][0-9X]|[3X][01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
-- 
2.43.0


From 4678751d59e824458f60cb5d7fe75080377b819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:16 +0000
Subject: [PATCH 07/25] fix: check the range of exponential years before
 converting them to integers

Y1E64 wrapped around to the year 0, Y1E999999999 panicked and Y1E9999999
allocated an integer with ten million digits.
---
 common/exponential.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..f59e18f 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -14,13 +14,19 @@ func ParseExponentialNotation(notation string) (int, error) {
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// Compare the value before converting it to an integer since the latter may
+	// be too big to be represented (or even allocated).
+
+	max := big.NewFloat(float64(edtf.MAX_YEARS))
+	min := big.NewFloat(float64(0 - edtf.MAX_YEARS))
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	if flt.IsInf() || flt.Cmp(max) > 0 || flt.Cmp(min) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
+	var i = new(big.Int)
+	yyyy, _ := flt.Int(i)
+
 	yyyy_i := int(yyyy.Int64())
 	return yyyy_i, nil
 }
-- 
2.43.0


From cd4955abaaa0f90366b86323ee0ecfddbc9ceef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:18 +0000
Subject: [PATCH 08/25] fix: parse exponential years with fewer than four
 digits (Y1E2, Y-5E2)

---
 common/year.go             | 11 +++++++++++
 level2/exponential_year.go |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..871056d 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
@@ -11,3 +12,13 @@ func FlipYear(yyyy int) int {
 func TimeToBCE(t time.Time) time.Time {
 	return t.AddDate(-2*t.Year(), 0, 0)
 }
+
+// YearString returns the four-digit (zero-padded) EDTF representation of 'yyyy'.
+func YearString(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
diff --git a/level2/exponential_year.go b/level2/exponential_year.go
index ea90b09..18b0f8e 100644
--- a/level2/exponential_year.go
+++ b/level2/exponential_year.go
@@ -4,7 +4,6 @@ import (
 	"github.com/sfomuseum/go-edtf"
 	"github.com/sfomuseum/go-edtf/common"
 	"github.com/sfomuseum/go-edtf/re"
-	"strconv"
 )
 
 /*
@@ -47,7 +46,7 @@ func ParseExponentialYear(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	str_yyyy := strconv.Itoa(yyyy)
+	str_yyyy := common.YearString(yyyy)
 
 	sp, err := common.DateSpanFromEDTF(str_yyyy)
 
-- 
2.43.0


From 18b93d2e1e8b2974605a2f7d9d5e9c53cf3f58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:19 +0000
Subject: [PATCH 09/25] fix: zero-pad years in seasons and sub-year groupings
 (-0400-21 and 0400-28 were refused)

---
 level1/season.go            | 2 +-
 level2/sub_year_grouping.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..b13cd21 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.YearString(start_yyyy), start_mm, start_dd, common.YearString(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..20a2897 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.YearString(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.YearString(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 29d7c3f052a3528cc4b0af2f03d90ddc365869fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:47 +0000
Subject: [PATCH 10/25] fix: significant digits of years with a sign, leading
 zeros or too many digits

1950S9 panicked, Y-1950S2 was unsupported and 0950S2 was refused.
---
 level2/significant_digits.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..93cfcd7 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,13 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		max_length := 4
+
+		if strings.HasPrefix(str_year, "-") {
+			max_length = 5
+		}
+
+		if len(str_year) > max_length {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
@@ -101,12 +107,14 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = common.YearString(yyyy)
+	prefix_len := len(str_yyyy) - digits
+
+	if prefix_len < strings.Count(str_yyyy, "-") {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
-	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
+	prefix_yyyy := str_yyyy[0:prefix_len]
 
 	first := strings.Repeat("0", digits)
 	last := strings.Repeat("9", digits)
-- 
2.43.0


From 0f9f26007faf3eaf07258e891c055dde6a9b710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:48 +0000
Subject: [PATCH 11/25] fix: apply the timeshift of BCE date and times after
 restoring the year

-1972-01-01T00:00:00+01:00 was off by two years.
---
 level0/date_and_time.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..9cac67c 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -63,18 +63,22 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		t_fmt = fmt.Sprintf("-%s", t_fmt)
 	}
 
-	t, err := time.Parse(t_fmt, edtf_str)
+	// Parse relative to UTC so that a timeshift never resolves to the host's own
+	// time zone (and its historical offsets) and adjust the (local) year before
+	// applying the timeshift since the latter may move the date to another year.
+
+	t, err := time.ParseInLocation(t_fmt, edtf_str, time.UTC)
 
 	if err != nil {
 		return nil, err
 	}
 
-	t = t.UTC()
-
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From 132ad2a4ae1ef6fdc20b7c92e750e4a81f5c8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:51 +0000
Subject: [PATCH 12/25] fix: After and Before are strict (a date and time was
 both before and after itself)

---
 edtf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..fcf3eef 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,11 +116,7 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
 // Before reports whether the EDTFDate instance `d` is after `u`.
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From c3776fa6a28bbd9fe65f3e635df10063adc81d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:52 +0000
Subject: [PATCH 13/25] fix: reject the promise of the WASM parser with the
 error rather than the length of its message

---
 cmd/parse-wasm/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/parse-wasm/main.go b/cmd/parse-wasm/main.go
index 94971fb..0ec06bf 100644
--- a/cmd/parse-wasm/main.go
+++ b/cmd/parse-wasm/main.go
@@ -24,14 +24,14 @@ func ParseFunc() js.Func {
 			edtf_d, err := parser.ParseString(edtf_str)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to parse '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to parse '%s', %v\n", edtf_str, err))
 				return nil
 			}
 
 			enc, err := json.Marshal(edtf_d)
 
 			if err != nil {
-				reject.Invoke(fmt.Printf("Failed to marshal result for '%s', %v\n", edtf_str, err))
+				reject.Invoke(fmt.Sprintf("Failed to marshal result for '%s', %v\n", edtf_str, err))
 				return nil
 			}
 
-- 
2.43.0


From cef222e971857fed5ce7456354e4bf663eb57fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:18 +0000
Subject: [PATCH 14/25] fix: YMDFromString handles negative years without a
 month or a day (-0400, -0400-05)

---
 common/ymd.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..44586a8 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -18,13 +18,16 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 	mm := ""
 	dd := ""
 
+	sign := ""
+
+	if strings.HasPrefix(str_ymd, "-") {
+		sign = "-"
+		str_ymd = strings.TrimPrefix(str_ymd, "-")
+	}
+
 	parts := strings.Split(str_ymd, "-")
 
 	switch len(parts) {
-	case 4:
-		yyyy = "-" + parts[1]
-		mm = parts[2]
-		dd = parts[3]
 	case 3:
 		yyyy = parts[0]
 		mm = parts[1]
@@ -38,6 +41,10 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 		return nil, errors.New("Invalid YMD string")
 	}
 
+	if yyyy != "" {
+		yyyy = sign + yyyy
+	}
+
 	return YMDFromStrings(yyyy, mm, dd)
 }
 
-- 
2.43.0


From 81bc993f3a41a0c1bf4c969705da4e65756b0c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:20 +0000
Subject: [PATCH 15/25] fix: IsValid is false for strings which can not be
 dates (2021-02-30, 2004-13)

---
 parser/parser.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2c36cd5..abded88 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -10,27 +10,17 @@ import (
 	_ "log"
 )
 
-// Return a boolean value indicating whether a string is a valid EDTF date.
+// Return a boolean value indicating whether a string is a valid EDTF date. This includes dates which are valid EDTF but which
+// can not be parsed because they are not supported, or not implemented, by this package.
 func IsValid(edtf_str string) bool {
 
-	if level0.IsLevel0(edtf_str) {
-		return true
-	}
+	_, err := ParseString(edtf_str)
 
-	if level1.IsLevel1(edtf_str) {
-		return true
+	if err != nil {
+		return edtf.IsUnsupported(err) || edtf.IsNotImplemented(err)
 	}
 
-	if level2.IsLevel2(edtf_str) {
-		return true
-	}
-
-	switch edtf_str {
-	case edtf.OPEN, edtf.UNKNOWN:
-		return true
-	default:
-		return false
-	}
+	return true
 }
 
 // Parse a string in to an edtf.EDTFDate instance.
-- 
2.43.0


From e8b3b9362499c57f8b9acb2cfe2e95117535d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:00 +0000
Subject: [PATCH 16/25] fix: derive the bounds of dates with unspecified digits
 from the dates they match

1984-0X was October to December, 1985-02-2X, 1985-04-0X, 19X5, 19XX-02-29 and
-19XX/2000 were refused.
---
 common/range.go | 194 +++++++++++++++++++++++++-----------------------
 1 file changed, 101 insertions(+), 93 deletions(-)

diff --git a/common/range.go b/common/range.go
index 14de55f..26448b9 100644
--- a/common/range.go
+++ b/common/range.go
@@ -258,96 +258,36 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	// fmt.Println("PRECISION 0", edtf_str, precision)
 
-	if !strings.HasSuffix(yyyy, "X") {
+	if !strings.Contains(yyyy, "X") {
 
 		precision = edtf.NONE
 		precision.AddFlag(edtf.YEAR)
 
 	} else {
 
-		start_m := int64(0)
-		end_m := int64(0)
+		digits := strings.TrimPrefix(yyyy, edtf.NEGATIVE)
 
-		start_c := int64(0)
-		end_c := int64(900)
-
-		start_d := int64(0)
-		end_d := int64(90)
-
-		start_y := int64(0)
-		end_y := int64(9)
-
-		if string(yyyy[0]) == "X" {
+		if string(digits[0]) == "X" {
 			return nil, edtf.NotImplemented("date", edtf_str)
 		} else {
-
-			m, err := strconv.ParseInt(string(yyyy[0]), 10, 32)
-
-			if err != nil {
-				return nil, err
-			}
-
-			start_m = m * 1000
-			end_m = start_m
-
 			precision = edtf.NONE
 			precision.AddFlag(edtf.MILLENIUM)
 		}
 
-		if string(yyyy[1]) != "X" {
-
-			c, err := strconv.ParseInt(string(yyyy[1]), 10, 32)
-
-			if err != nil {
-				return nil, err
-			}
-
-			start_c = c * 100
-			end_c = start_c
-
+		if string(digits[1]) != "X" {
 			precision = edtf.NONE
 			precision.AddFlag(edtf.CENTURY)
 		}
 
-		if string(yyyy[2]) != "X" {
-
-			d, err := strconv.ParseInt(string(yyyy[2]), 10, 32)
-
-			if err != nil {
-				return nil, err
-			}
-
-			start_d = d * 10
-			end_d = start_d
-
+		if string(digits[2]) != "X" {
 			precision = edtf.NONE
 			precision.AddFlag(edtf.DECADE)
 		}
 
-		if string(yyyy[3]) != "X" {
-
-			y, err := strconv.ParseInt(string(yyyy[3]), 10, 32)
-
-			if err != nil {
-				return nil, err
-			}
-
-			start_y = y * 1
-			end_y = start_y
-
+		if string(digits[3]) != "X" {
 			precision = edtf.NONE
 			precision.AddFlag(edtf.YEAR)
 		}
-
-		start_ymd := start_m + start_c + start_d + start_y
-		end_ymd := end_m + end_c + end_d + end_y
-
-		// fmt.Printf("OMG '%s' '%d' '%d' '%d' '%d' '%d'\n", yyyy, start_m, start_c, start_d, start_y, start_ymd)
-		// fmt.Printf("WTF '%s' '%d' '%d' '%d' '%d' '%d'\n", yyyy, end_m, end_c, end_d, end_y, end_ymd)
-
-		start_yyyy = strconv.FormatInt(start_ymd, 10)
-		end_yyyy = strconv.FormatInt(end_ymd, 10)
-
 	}
 
 	// fmt.Println("PRECISION 1", edtf_str, precision)
@@ -363,14 +303,7 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 		// this does not account for 1985-24, etc.
 
-		if strings.HasPrefix(mm, "X") {
-			start_mm = "01"
-			end_mm = "12"
-
-		} else {
-			start_mm = "10"
-			end_mm = "12"
-
+		if !strings.HasPrefix(mm, "X") {
 			precision = edtf.NONE
 			precision.AddFlag(edtf.MONTH)
 		}
@@ -384,25 +317,6 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			precision = edtf.NONE
 			precision.AddFlag(edtf.DAY)
 		}
-
-	} else {
-
-		switch string(dd[0]) {
-		case "X":
-			start_dd = "01"
-			end_dd = ""
-		case "1":
-			start_dd = "10"
-			end_dd = "19"
-		case "2":
-			start_dd = "20"
-			end_dd = "29"
-		case "3":
-			start_dd = "30"
-			end_dd = ""
-		default:
-			return nil, edtf.Invalid("date", edtf_str)
-		}
 	}
 
 	// the fact that I need to do this tells me that all of the precision
@@ -420,6 +334,19 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 
 	// fmt.Println("PRECISION 3", edtf_str, precision)
 
+	if strings.Contains(yyyy+mm+dd, "X") {
+
+		first := findMatchingDate(yyyy, mm, dd, false)
+		last := findMatchingDate(yyyy, mm, dd, true)
+
+		if first == nil || last == nil {
+			return nil, edtf.Invalid("date", edtf_str)
+		}
+
+		start_yyyy, start_mm, start_dd = first.Year, first.Month, first.Day
+		end_yyyy, end_mm, end_dd = last.Year, last.Month, last.Day
+	}
+
 	if start_mm == "" {
 		start_mm = "01"
 	}
@@ -469,6 +396,87 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 	return r, nil
 }
 
+// findMatchingDate returns the earliest, or the latest, calendar date matching a year, month and day any of whose
+// digits may be unspecified ("X"). A month or a day which is missing matches any value. It returns nil if there is
+// no such date.
+func findMatchingDate(yyyy string, mm string, dd string, latest bool) *StringDate {
+
+	digits := strings.TrimPrefix(yyyy, edtf.NEGATIVE)
+	is_bce := digits != yyyy
+
+	for i := 0; i <= edtf.MAX_YEARS; i++ {
+
+		y := i
+
+		if latest != is_bce {
+			y = edtf.MAX_YEARS - i
+		}
+
+		if !matchesDigits(digits, y) {
+			continue
+		}
+
+		for j := 1; j <= 12; j++ {
+
+			m := j
+
+			if latest {
+				m = 13 - j
+			}
+
+			if !matchesDigits(mm, m) {
+				continue
+			}
+
+			days, err := calendar.DaysInMonth(y, m)
+
+			if err != nil {
+				return nil
+			}
+
+			for k := 1; k <= days; k++ {
+
+				d := k
+
+				if latest {
+					d = days + 1 - k
+				}
+
+				if !matchesDigits(dd, d) {
+					continue
+				}
+
+				if is_bce {
+					y = FlipYear(y)
+				}
+
+				return &StringDate{
+					Year:  YearString(y),
+					Month: fmt.Sprintf("%02d", m),
+					Day:   fmt.Sprintf("%02d", d),
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
+// matchesDigits reports whether the digits of 'i' match 'digits' where "X" matches any digit. An empty string matches anything.
+func matchesDigits(digits string, i int) bool {
+
+	for pos := len(digits) - 1; pos >= 0; pos-- {
+
+		if digits[pos] != 'X' && int(digits[pos]-'0') != i%10 {
+			return false
+		}
+
+		i = i / 10
+	}
+
+	return true
+}
+
 func EmptyDateRange() *edtf.DateRange {
 
 	lower_d := &edtf.Date{}
-- 
2.43.0


From d2a262646818fca414539154b32abd1721ec03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:40 +0000
Subject: [PATCH 17/25] fix: refuse malformed sets ([1667}, {1960,}, {1960,..},
 {19601970})

---
 level2/set_representation.go |  6 +++---
 re/re.go                     | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..ce0bd23 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -69,12 +69,12 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	m := re.SetRepresentations.FindStringSubmatch(edtf_str)
 
-	if len(m) != 6 {
+	if len(m) != 5 {
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
-	class := m[1]
-	candidates := m[2]
+	class := m[1] + m[3]
+	candidates := m[2] + m[4]
 
 	start_ymd := ""
 	end_ymd := ""
diff --git a/re/re.go b/re/re.go
index 98e9ce5..b86f581 100644
--- a/re/re.go
+++ b/re/re.go
@@ -56,9 +56,15 @@ const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_L
 
 const PATTERN_SUB_YEAR_GROUPING string = `(\d{4})\-(1[0-2]|2[1-9]|3[0-9]|4[0-1])`
 
-// PLEASE FIX ME TO ENSURE CLOSING EL IS THE SAME AS OPENING EL : {}, (), []
+const PATTERN_SET_DATE string = `\-?\d{4}(?:-(?:0[1-9]|1[0-2])(?:-(?:0[1-9]|[12][0-9]|3[01]))?)?`
 
-const PATTERN_SET_REPRESENTATIONS string = `(\[|\{)((?:\.\.)?(?:(?:` + PATTERN_DATE + `(?:,|\.\.)?)+(?:\.\.)?))[\}\]]`
+const PATTERN_SET_MEMBER string = PATTERN_SET_DATE + `(?:\.\.` + PATTERN_SET_DATE + `)?`
+
+// Only the first member of a set may start with, and only the last member may end with, a double-dot.
+
+const PATTERN_SET_MEMBERS string = `(?:\.\.` + PATTERN_SET_DATE + `|` + PATTERN_SET_MEMBER + `)(?:,` + PATTERN_SET_MEMBER + `)*(?:,` + PATTERN_SET_DATE + `\.\.)?|` + PATTERN_SET_DATE + `\.\.`
+
+const PATTERN_SET_REPRESENTATIONS string = `(?:(\[)(` + PATTERN_SET_MEMBERS + `)\]|(\{)(` + PATTERN_SET_MEMBERS + `)\})`
 
 const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(\d{2})(%|~|\?)?(?:-(\d{2})(%|~|\?)?)?)?)`
 
-- 
2.43.0


From eb2d9a1b8b68fb3122f026ae0d58ee3d87c85a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:42 +0000
Subject: [PATCH 18/25] fix: order the members of a set by date rather than as
 strings ({-0100,-0500}, {1960,1960-01})

---
 level2/set_representation.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index ce0bd23..113f9da 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -150,8 +150,34 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		start_ymd = possible[0]
 		end_ymd = start_ymd
 	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+
+		// The order of the strings is not the order of the dates they represent, for example when
+		// they are BCE or have different precisions, so compare their spans.
+
+		var lower int64
+		var upper int64
+
+		for i, date := range possible {
+
+			sp, err := common.DateSpanFromEDTF(date)
+
+			if err != nil {
+				return nil, err
+			}
+
+			date_lower := sp.Start.Lower.Timestamp.Unix()
+			date_upper := sp.End.Upper.Timestamp.Unix()
+
+			if i == 0 || date_lower < lower {
+				start_ymd = date
+				lower = date_lower
+			}
+
+			if i == 0 || date_upper > upper {
+				end_ymd = date
+				upper = date_upper
+			}
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From 063d99f75e59c1522725744ee9b82d0039679cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:43 +0000
Subject: [PATCH 19/25] fix: the start and the end of a set which is open on
 both sides are both open ({..1960,1970..})

---
 level2/set_representation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 113f9da..31d1797 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -233,17 +233,17 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	if open_post_facto {
 
-		open_range := common.OpenDateRange()
+		start_range := sp.Start
+		end_range := sp.End
 
 		if start_open {
-			sp.End.Lower = sp.Start.Lower
-			sp.Start = open_range
+			end_range.Lower = start_range.Lower
+			sp.Start = common.OpenDateRange()
 		}
 
 		if end_open {
-
-			sp.Start.Upper = sp.End.Upper
-			sp.End = open_range
+			start_range.Upper = end_range.Upper
+			sp.End = common.OpenDateRange()
 		}
 	}
 
-- 
2.43.0


From 27d9682892813378ad82382ba885e977959e6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:21 +0000
Subject: [PATCH 20/25] fix: only the Level 1 forms of unspecified digits are
 Level 1

156X-12-25, 1XXX-12 and 1984-1X, which are documented as (and tested for) Level 2,
were reported as Level 1 "Unspecified digit(s) from the right".
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index b86f581..f022095 100644
--- a/re/re.go
+++ b/re/re.go
@@ -40,7 +40,7 @@ const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-const PATTERN_UNSPECIFIED_DIGITS string = `(?:([0-9X]{4})(?:-([0X][1-9X]|[1X][0-2X])(?:-([012X][1-9X]|[3X][01X]))?)?)`
+const PATTERN_UNSPECIFIED_DIGITS string = `(?:\d{3}X|\d{2}XX|\d{4}-XX|\d{4}-(?:0[1-9]|1[0-2])-XX|\d{4}-XX-XX)`
 
 const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
-- 
2.43.0


From 644cde7ff13335ef31a571b313fb81dc896fc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:37 +0000
Subject: [PATCH 21/25] fix: exponential years whose exponent overflows are
 unsupported (Y1E9999999999)

---
 common/exponential.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/exponential.go b/common/exponential.go
index f59e18f..3cb66ef 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"github.com/sfomuseum/go-edtf"
+	"github.com/sfomuseum/go-edtf/re"
 	"math/big"
 )
 
@@ -11,6 +12,13 @@ func ParseExponentialNotation(notation string) (int, error) {
 	flt, _, err := big.ParseFloat(notation, 10, 0, big.ToNearestEven)
 
 	if err != nil {
+
+		// The exponent of a well-formed notation is too big to be read
+
+		if re.ExponentialYear.MatchString("Y" + notation) {
+			return 0, edtf.Unsupported("exponential notation", notation)
+		}
+
 		return 0, err
 	}
 
-- 
2.43.0


From 2fe49bf7a09a844da6bc3953f62d8cb84d4f51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:25 +0000
Subject: [PATCH 22/25] fix: refuse months outside of 1..12 in
 calendar.DaysInMonth

---
 calendar/calendar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 75d3866..046bde7 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -46,6 +46,10 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 // Calculate the number of days in a month given a year and month in numeric form.
 func DaysInMonth(yyyy int, mm int) (int, error) {
 
+	if mm < 1 || mm > 12 {
+		return 0, fmt.Errorf("Invalid month '%d'", mm)
+	}
+
 	// Because Go can't parse dates < 0...
 
 	if yyyy < 0 {
-- 
2.43.0


From 6435bd2df77dbcf18b127787bf115921f2d2311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:27 +0000
Subject: [PATCH 23/25] fix: do not read YYYY-MM-DD as a negative year and
 month in calendar.DaysInMonthWithString

---
 calendar/calendar.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/calendar/calendar.go b/calendar/calendar.go
index 046bde7..9c29069 100644
--- a/calendar/calendar.go
+++ b/calendar/calendar.go
@@ -19,6 +19,11 @@ func DaysInMonthWithString(yyyymm string) (int, error) {
 
 	switch len(ym) {
 	case 3:
+
+		if ym[0] != "" {
+			return 0, errors.New("Invalid YYYYMM string")
+		}
+
 		str_yyyy = fmt.Sprintf("-%s", ym[1])
 		str_mm = ym[2]
 	case 2:
-- 
2.43.0


From 45cbb1df6006662abfd59e7aeaa3f1db1a61cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:29 +0000
Subject: [PATCH 24/25] fix: refuse negative days in common.YMDFromStrings

---
 common/ymd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ymd.go b/common/ymd.go
index 44586a8..f37cd51 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -141,7 +141,7 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
-		if dd > days {
+		if dd < 1 || dd > days {
 			return nil, errors.New("Invalid days for month")
 		}
 	}
-- 
2.43.0


From 6a8a00de3426b1e485f9f09d836e5783d02444e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:15 +0000
Subject: [PATCH 25/25] fix: let the demo server listen on an IPv6 host

The address was joined by hand, so that a host like '::1' was refused with
'too many colons in address'.
---
 cmd/server-wasm/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/server-wasm/main.go b/cmd/server-wasm/main.go
index 3473f60..24e4ae3 100644
--- a/cmd/server-wasm/main.go
+++ b/cmd/server-wasm/main.go
@@ -2,9 +2,11 @@ package main
 
 import (
 	"flag"
-	"fmt"
 	"log"
+	"net"
 	"net/http"
+	"strconv"
+	"strings"
 
 	"github.com/sfomuseum/go-edtf/app/server/www"
 	"github.com/sfomuseum/go-edtf/wasm"
@@ -31,7 +33,7 @@ func main() {
 	mux.Handle("/wasm/", http.StripPrefix("/wasm/", wasm_handler))
 	mux.Handle("/", www_handler)
 
-	addr := fmt.Sprintf("%s:%d", host, port)
+	addr := net.JoinHostPort(strings.Trim(host, "[]"), strconv.Itoa(port))
 	log.Printf("Listening for requests on %s", addr)
 	
 	err := http.ListenAndServe(addr, mux)
-- 
2.43.0

