From fd58db991760d9f9e6b10eaeede347970ea2504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 01/12] fix: DegreeToRal of a negative degree

Go's % truncates toward zero while x is floored, so for a negative degree the
30*x + y degrees came out up to 30 degrees too low. The days of the lunar year
before New Year's Day have a negative mean sun, so SuriyaDay.Init placed the
sun, and with it the moon, a whole rasi (30 degrees) too early on them.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..740e71a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -13,7 +13,7 @@ func DegreeToRal(degree float64) (x, y, z int) {
 	x = int(math.Floor(degree / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 8f3048a01c40459dc973655aa74159d8c4bf0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 02/12] fix: keep the moon's position within the circle

NormalizeDegree left negative degrees as they were, and the true moon was not
normalized at all, so near 0 degrees the moon was placed below 0 or above 360
and Raek fell outside of the 27 mansions.
---
 helpers.go    | 2 +-
 suriya_day.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 740e71a..f4cf889 100644
--- a/helpers.go
+++ b/helpers.go
@@ -35,7 +35,7 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
+	if deg >= 0 && deg <= 360 {
 		return deg
 	}
 	return deg - math.Floor(deg/360)*360
diff --git a/suriya_day.go b/suriya_day.go
index 9918355..64a0b5f 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -183,7 +183,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 
 	// step 17.
 
-	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
-- 
2.43.0


From 30c1f8ee175d44a67e16d2c54d7982df4de45d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 03/12] fix: cycle positions of early years

The absolute difference mirrored the 57 and the 19 year cycles before 1414 and
1794: the year before position 1 was given position 2, running backwards.
---
 suriya_year.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..447d969 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,12 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return ((su.Year-1984)%57+57)%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return ((su.Year-1984)%19+19)%19 + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From 866a651ff9900963e389e76de44d887d58b5890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 04/12] fix: a year without astro data must not hide the other
 years

GetAstroMoons returned as soon as one year of the range had no data file, so a
range starting before the first data file had no astro moons at all.
---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From 1d8a6786287d66095fca927aced3ddda84d4b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 05/12] fix: select the years of a date range in UTC

The moons and events are dated in UTC. Taking the first and last year from the
local time of fromDate and toDate missed the events around New Year when the
dates were given in an other time zone.
---
 astro_moon.go | 2 +-
 cal_day.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro_moon.go b/astro_moon.go
index fd09567..38fcc6b 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -45,7 +45,7 @@ func (m AstroMoon) IcalEvent() ical.VEvent {
 func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 	var err error
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 
 		// filenames are astro-YYYY.json
 
diff --git a/cal_day.go b/cal_day.go
index 2315290..ac33f77 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -164,7 +164,7 @@ func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 		cal_days = mergeIntoCalDays(cal_days, d)
 	}
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 		for _, d := range GenerateSolarYear(year) {
 			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
 				continue
-- 
2.43.0


From 672d788a9e2bf9051b41d18089697ba11c3c92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 06/12] fix: years-csv does not compile

The field is SuriyaYear.BE_Year.
---
 utils/years-csv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..57c8b86 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -39,7 +39,7 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From 7b46daec6eaa6f3a30b2e948767c977049f045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 07/12] fix: list the half moon of a late Kattika in the
 following year

---
 cal_day.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cal_day.go b/cal_day.go
index ac33f77..a2e578a 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -199,6 +199,16 @@ func GenerateSolarYear(solar_year int) []CalendarEvent {
 		LunarYear:   date.Year() + BEdiff,
 	}
 
+	// That Kattika is in the previous year, but its half moon may not be
+	kattika_half := HalfMoon{
+		Date:  date.AddDate(0, 0, 8),
+		Phase: "waning",
+	}
+
+	if kattika_half.GetDate().Year() == solar_year {
+		events = append(events, kattika_half)
+	}
+
 	for last_uposatha.Date.Year() <= solar_year {
 		var uposatha UposathaMoon
 		uposatha = last_uposatha.NextUposatha()
-- 
2.43.0


From cabf5164b852cff3461845e4b02e1fd91c9e9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 08/12] fix: FSByte must not hand out the library's own copy of
 a file

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 0306da8..ba65953 100644
--- a/data.go
+++ b/data.go
@@ -161,7 +161,8 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return f.data, nil
+	// A copy, the caller may change what it gets.
+	return append([]byte{}, f.data...), nil
 }
 
 // FSMustByte is the same as FSByte, but panics if name is not present.
-- 
2.43.0


From 3ada041584f1f2145c7311a0ceabf6ccd3490478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 09/12] fix: the name of an embedded file opened as file/. was
 "."

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index ba65953..12b3c4d 100644
--- a/data.go
+++ b/data.go
@@ -52,7 +52,7 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 	}
 	var err error
 	f.once.Do(func() {
-		f.name = path.Base(name)
+		f.name = path.Base(path.Clean(name))
 		if f.size == 0 {
 			return
 		}
-- 
2.43.0


From f851d291eb9ffcfbf8ce519c2d8315497bd3d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 10/12] fix: angles just below zero had 60 arcminutes or -1
 degrees

---
 helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f4cf889..0de0ed5 100644
--- a/helpers.go
+++ b/helpers.go
@@ -10,13 +10,17 @@ import (
 // in arcmins, so x and y are deg originally
 func DegreeToRal(degree float64) (x, y, z int) {
 	// how many times 30 degrees
-	x = int(math.Floor(degree / 30))
+	x = int(math.Floor(math.Floor(degree) / 30))
 
 	// the remainder degrees
 	y = int(math.Floor(degree)) - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
+	if z > 59 {
+		// just below zero, the rest is rounded up to a whole degree
+		z = 59
+	}
 
 	// TODO This is rasi, angsa, lipda
 	return x, y, z
-- 
2.43.0


From 1c0c5cb6d70652ab203ac9265bbae58251656bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 11/12] fix: AddHalfMoonDays must not write behind the list it
 is given

Appending to a part of a longer list put the half moons over the days of the
caller that follow it, and made concurrent calls on one list a data race.
---
 cal_day.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index a2e578a..fdc19a2 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -139,8 +139,9 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 		}
 	}
 
-	// add half-moons to the calendar days
-	cal_days = append(cal_days, half_moon_days...)
+	// add half-moons to the calendar days, not to the array behind them, which
+	// may hold other days of the caller
+	cal_days = append(cal_days[:len(cal_days):len(cal_days)], half_moon_days...)
 
 	return cal_days
 }
-- 
2.43.0


From 54130f16d648e45dbd2f3676b4f2065cab284469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 12/12] fix: FSByte must close the local file it reads

---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 12b3c4d..7b80fb7 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0

