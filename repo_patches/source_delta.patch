From 56e9eb16143773201b07b63a20312e06770ec0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 001/114] fix: count leap days with the Gregorian century rule
 so weekdays and instants outside 1900-2100 are right

---
 src/pycalendar/utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..f948d01 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -394,6 +394,14 @@ def isLeapYear(year):
         cachedLeapYears[year] = result
         return result
 
+
+def leapYearsBefore(year):
+    year -= 1
+    result = year / 4
+    if year > 1752:
+        result -= (year / 100 - 1752 / 100) - (year / 400 - 1752 / 400)
+    return result
+
 cachedLeapDaysSince1970 = {}
 
 
@@ -402,14 +410,9 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
-        else:
-            result = 0
+        # Leap years up to (but not including) the target year, relative to those up to 1970, using
+        # the same century rules as isLeapYear
+        result = leapYearsBefore(1970 + year_offset) - leapYearsBefore(1970)
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From 51c84b2fc603fa12aa1123bebd0c89e1009356fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 002/114] fix: setWeekNo treats Sunday as the last day of an
 ISO week, as getWeekNo does

---
 src/pycalendar/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..5baee9c 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -378,8 +378,9 @@ class DateTime(ValueMixin):
 
         # What day does the current year start on, and diff that with the current day
         temp = DateTime(year=self.mYear, month=1, day=1)
-        first_day = temp.getDayOfWeek()
-        current_day = self.getDayOfWeek()
+        # (using the ISO day of week (1-7), i.e. Sunday is the last day of a week)
+        first_day = temp.getDayOfWeek() or 7
+        current_day = self.getDayOfWeek() or 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From 5dadbd5a4085c437aac51240512772b9182447d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 003/114] fix: BYYEARDAY values beyond January or December were
 dropped as invalid dates

---
 src/pycalendar/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 5baee9c..55298db 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -321,7 +321,8 @@ class DateTime(ValueMixin):
             # Decrement day
             self.mDay += day + 1
 
-        if not allow_invalid:
+        # Only day 366 (or -366) can be invalid - others always need adjusting to the proper month
+        if not allow_invalid or abs(day) != 366:
             # Normalise to get proper year/month/day values
             self.normalise()
         else:
-- 
2.43.0


From 56954ce6f2fdf37edc2715fe8b32c32d7c8fbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 004/114] fix: a 53rd weekday that a year does not have is not
 an instance of a yearly rule

---
 src/pycalendar/icalendar/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..2754a09 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1432,7 +1432,8 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    if temp.getYear() == (iter1).getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From c3a778f8f7b30ab0c4e1013efddd53c6d9c696d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 005/114] fix: a yearly BYMONTHDAY rule without BYMONTH covers
 every month

---
 src/pycalendar/icalendar/recurrence.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2754a09..3a78bfc 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1061,7 +1061,7 @@ class Recurrence(ValueMixin):
             items[:] = self.byYearDayExpand(items)
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
-            items[:] = self.byMonthDayExpand(items)
+            items[:] = self.byMonthDayExpand(items, not self.mByMonth and not self.mByWeekNo and not self.mByYearDay)
 
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             # BYDAY is complicated:
@@ -1408,16 +1408,18 @@ class Recurrence(ValueMixin):
 
         return output
 
-    def byMonthDayExpand(self, dates):
+    def byMonthDayExpand(self, dates, allMonths=False):
         # Loop over all input items
         output = []
         for iter1 in dates:
             # Loop over each BYMONTHDAY and generating a new date-time for it
-            # and insert into output
-            for iter2 in self.mByMonthDay:
-                temp = iter1.duplicate()
-                temp.setMonthDay(iter2, allow_invalid=True)
-                output.append(temp)
+            # (in every month of the year if so requested) and insert into output
+            for month in range(1, 13) if allMonths else (iter1.getMonth(),):
+                for iter2 in self.mByMonthDay:
+                    temp = iter1.duplicate()
+                    temp.setMonth(month)
+                    temp.setMonthDay(iter2, allow_invalid=True)
+                    output.append(temp)
 
         return output
 
-- 
2.43.0


From 7f01a5975c06ceacc7361adbdf59bbda26941ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 006/114] fix: BYWEEKNO picked weeks of the wrong year near
 year boundaries, weeks that do not exist, and ignored negative values

---
 src/pycalendar/icalendar/recurrence.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3a78bfc..833a755 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1390,8 +1390,20 @@ class Recurrence(ValueMixin):
             # insert into output
             for iter2 in self.mByWeekNo:
                 temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
-                output.append(temp)
+
+                # Dates near the start or end of a year may be in a week of another year, so move to the
+                # middle of the year (keeping the day of week) first
+                temp.offsetDay((183 - temp.getYearDay()) / 7 * 7)
+
+                # Negative values count from the last week of the year, which always contains December 28th
+                weekno = iter2
+                if weekno < 0:
+                    weekno += DateTime(year=temp.getYear(), month=12, day=28).getWeekNo() + 1
+                temp.setWeekNo(weekno)
+
+                # Not every year has a week 53
+                if temp.getWeekNo() == weekno:
+                    output.append(temp)
 
         return output
 
-- 
2.43.0


From 0d57237c0e76323dcb97bcbd89ba5bfee7e946cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 007/114] fix: an instance generated by several values of a
 BYxxx part was listed and counted more than once

---
 src/pycalendar/icalendar/recurrence.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 833a755..d6d8aca 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -964,8 +964,14 @@ class Recurrence(ValueMixin):
             set_items.sort(key=lambda x: x.getPosixTime())
 
             # Process each one in the generated set
+            previous = None
             for iter in set_items:
 
+                # Ignore one generated more than once
+                if previous is not None and iter == previous:
+                    continue
+                previous = iter
+
                 # Ignore if it is before the actual start - we need this
                 # because the expansion
                 # can go back in time from the real start, but we must exclude
@@ -1668,6 +1674,9 @@ class Recurrence(ValueMixin):
         # dates.sort(cmp=DateTime.sort)
         dates.sort(key=lambda x: x.getPosixTime())
 
+        # One generated more than once has only one position
+        dates = [date for ctr, date in enumerate(dates) if ctr == 0 or date != dates[ctr - 1]]
+
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
         output = []
-- 
2.43.0


From 4eeb91c18160647f0413a4681864f7ee6476c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 008/114] fix: BYYEARDAY was ignored in hourly, minutely and
 secondly rules

---
 src/pycalendar/icalendar/recurrence.py | 40 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index d6d8aca..03f5c27 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1232,8 +1232,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateHourlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1248,7 +1246,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1278,8 +1279,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateMinutelySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1294,7 +1293,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1326,8 +1328,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateSecondlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1342,7 +1342,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1588,6 +1591,25 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def byYearDayLimit(self, dates):
+        # Loop over all input items
+        output = []
+        for iter1 in dates:
+            # Loop over each BYYEARDAY and indicate keep if input year day
+            # matches
+            keep = False
+            for iter2 in self.mByYearDay:
+                temp = iter1.duplicate()
+                temp.setYearDay(iter2, allow_invalid=True)
+                keep = iter1.compareDate(temp)
+                if keep:
+                    break
+
+            if keep:
+                output.append(iter1)
+
+        return output
+
     def byMonthDayLimit(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From ef42f29e29c58cfcf08bd1817c4e22f4d77f2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 009/114] fix: a recurrence expansion answered from the cache
 of an aborted, differently started or limited expansion

---
 src/pycalendar/icalendar/recurrence.py | 35 ++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 03f5c27..2ef4401 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -134,6 +134,7 @@ class Recurrence(ValueMixin):
         other.mCached = self.mCached
         if self.mCacheStart:
             other.mCacheStart = self.mCacheStart.duplicate()
+        other.mCacheKey = self.mCacheKey
         if self.mCacheUpto:
             other.mCacheUpto = self.mCacheUpto.duplicate()
         other.mFullyCached = self.mFullyCached
@@ -165,6 +166,7 @@ class Recurrence(ValueMixin):
 
         self.mCached = False
         self.mCacheStart = None
+        self.mCacheKey = None
         self.mCacheUpto = None
         self.mFullyCached = False
         self.mRecurrences = None
@@ -845,10 +847,13 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is None:
             self.mRecurrences = []
 
-        # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
-            self.mCached = False
-            self.mFullyCached = False
+        # Wipe cache if start is different (including a different representation of the same time, as the
+        # instances take their value type and timezone from the start)
+        if self.mCached:
+            cache_key = (start.getText(), start.getTimezoneUTC(), start.getTimezoneID(), float_offset)
+            if cache_key != self.mCacheKey:
+                self.mCached = False
+                self.mFullyCached = False
 
         # Is the current cache complete or does it extend past the requested
         # range end
@@ -856,25 +861,35 @@ class Recurrence(ValueMixin):
                 and (self.mCacheUpto is None or self.mCacheUpto < range.getEnd()):
 
             # Always wipe the existing cached items as we always start from the very first instance
-            # so we can properly track the count limit
+            # so we can properly track the count limit. The cache is not valid until the expansion is done
+            # (it is abandoned when there are too many instances).
             self.mRecurrences = []
+            self.mCached = False
+            self.mFullyCached = False
 
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
-                self.mFullyCached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                fully_cached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
             else:
-                self.mFullyCached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                fully_cached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
 
             # Set cache values
+            self.mFullyCached = fully_cached
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = start.duplicate()
+            self.mCacheKey = (start.getText(), start.getTimezoneUTC(), start.getTimezoneID(), float_offset)
+            self.mCacheUpto = range.getEnd().duplicate()
+
+        elif maxInstances:
+            # The limit applies to what had to be generated to cover the requested range
+            if len([item for item in self.mRecurrences if not range.isDateAfterPeriod(item)]) > maxInstances:
+                raise TooManyInstancesError("Too many instances")
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From 8558a5628ea0276b275350811b29526c844aff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 010/114] fix: Recurrence.setUntil ignored a value of another
 type and kept the caller's object; copies lost an unused UNTIL

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 2ef4401..0e9ab5e 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -107,7 +107,7 @@ class Recurrence(ValueMixin):
         other.mUseCount = self.mUseCount
         other.mCount = self.mCount
         other.mUseUntil = self.mUseUntil
-        if other.mUseUntil:
+        if self.mUntil is not None:
             other.mUntil = self.mUntil.duplicate()
 
         other.mInterval = self.mInterval
@@ -282,7 +282,9 @@ class Recurrence(ValueMixin):
         return self.mUntil
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Always take the new value - one that compares equal may still have a different type or timezone
+        self.clear()
+        self.mUntil = until.duplicate() if until is not None else None
 
     def getUseCount(self):
         return self.mUseCount
-- 
2.43.0


From a695fc083be14ad741e61f13624626464870adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 011/114] fix: Recurrence.excludeFutureRecurrence lost or kept
 an instance when the start does not match the BYxxx parts

---
 src/pycalendar/icalendar/recurrence.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 0e9ab5e..231508b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1051,19 +1051,22 @@ class Recurrence(ValueMixin):
         period.init(self.mCacheStart, exclude)
         self.expand(self.mCacheStart, period, items)
 
+        # The start is always an instance, but is not listed when it does not match the BYxxx parts
+        items = [item for item in items if item != self.mCacheStart]
+        last = items[-1] if len(items) != 0 else self.mCacheStart
+
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-            # The last one is just less than the exclude date
-            if len(items) != 0:
-                # Now use the data as the UNTIL
+            # The last one is just less than the exclude date so use the data as the UNTIL
+            if last < exclude:
                 self.mUseUntil = True
-                self.mUntil = items[-1]
+                self.mUntil = last.duplicate()
 
         # Adjust COUNT
         elif self.getUseCount():
             # The last one is just less than the exclude date
             self.mUseCount = True
-            self.mCount = len(items)
+            self.mCount = len(items) + 1
 
         # Now clear out the cached set after making changes
         self.clear()
-- 
2.43.0


From a5e678cc9a17a81b40d284e5a6eb98b4ec6ca8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 012/114] fix: equal recurrence rules had different hashes, and
 an unused COUNT or UNTIL made equal rules differ

---
 src/pycalendar/icalendar/recurrence.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 231508b..3fc0244 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -175,19 +175,19 @@ class Recurrence(ValueMixin):
         return hash((
             self.mFreq,
             self.mUseCount,
-            self.mCount,
+            self.mCount if self.mUseCount else None,
             self.mUseUntil,
-            self.mUntil,
+            self.mUntil if self.mUseUntil else None,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
@@ -202,8 +202,8 @@ class Recurrence(ValueMixin):
     def equals(self, comp):
         return (
             (self.mFreq == comp.mFreq) and
-            (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
+            (self.mUseCount == comp.mUseCount) and (not self.mUseCount or self.mCount == comp.mCount) and
+            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.mUntil == comp.mUntil) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
-- 
2.43.0


From 0a4aa6a8391f6143fd7292d20eea3a4f39505653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 013/114] fix: Recurrence.excludeFutureRecurrence called a
 Period method that does not exist

---
 src/pycalendar/icalendar/recurrence.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3fc0244..982cbf3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1047,8 +1047,7 @@ class Recurrence(ValueMixin):
     def excludeFutureRecurrence(self, exclude):
         # Expand the rule up to the exclude date
         items = []
-        period = Period()
-        period.init(self.mCacheStart, exclude)
+        period = Period(self.mCacheStart, exclude)
         self.expand(self.mCacheStart, period, items)
 
         # The start is always an instance, but is not listed when it does not match the BYxxx parts
-- 
2.43.0


From d91679f7a1545b055e0f594121dd425428390a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 014/114] fix: recurrence set expansion with exclusions lost
 the time order of the instances

---
 src/pycalendar/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index f948d01..c739d3e 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -517,7 +517,6 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
+    # Keep the order of the first list
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [item for item in v1 if item not in s2]
-- 
2.43.0


From a51558c57e13d5f3c8822bfe3315221618991d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 015/114] fix: RDATE periods were loaded as their start only,
 which made expansion fail

---
 src/pycalendar/componentbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..3888027 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From 8f8bbe98284248295385ce70be1f6d262ad5b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 016/114] fix: comparing recurrence sets and removing their
 future dates called methods that do not exist

---
 src/pycalendar/icalendar/recurrenceset.py | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..b21a4e3 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
@@ -242,10 +242,8 @@ class RecurrenceSet(object):
             iter.excludeFutureRecurrence(exclude)
 
         # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        self.mRdates = [iter for iter in self.mRdates if iter < exclude]
+        self.mRperiods = [iter for iter in self.mRperiods if iter.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
@@ -258,7 +256,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -270,7 +268,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -289,7 +287,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From e061c9542e9aec4f6e14a9b108330332edd55381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 017/114] fix: recurrence set expansion miscounted against the
 instance limit, ignored exclusions of a period starting before the range, and
 handed out its own dates

---
 src/pycalendar/icalendar/recurrenceset.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index b21a4e3..30341c5 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -15,6 +15,7 @@
 ##
 
 from pycalendar.icalendar.exceptions import TooManyInstancesError
+from pycalendar.period import Period
 from pycalendar.utils import set_difference
 
 
@@ -187,36 +188,37 @@ class RecurrenceSet(object):
         for iter in self.mRdates:
             if range.isDateWithinPeriod(iter):
                 include.append(iter)
-                if maxInstances and len(include) > maxInstances:
-                    raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
         for iter in self.mRperiods:
             if range.isPeriodOverlap(iter):
                 include.append(iter.getStart())
-                if maxInstances and len(include) > maxInstances:
-                    raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
 
         # Make sure the list is unique
-        include = [x for x in set(include)]
+        include = [x.duplicate() for x in set(include)]
         include.sort(key=lambda x: x.getPosixTime())
+        if maxInstances and len(include) > maxInstances:
+            raise TooManyInstancesError("Too many instances")
 
         # Now create list of items to exclude
         exclude = []
 
+        # A period can overlap the range whilst its start (which identifies it) is before the range
+        exclude_range = range
+        if len(include) != 0 and include[0] < range.getStart():
+            exclude_range = Period(include[0].duplicate(), range.getEnd().duplicate())
+
         # EXRULES
         for iter in self.mExrules:
-            iter.expand(start, range, exclude, float_offset=float_offset)
+            iter.expand(start, exclude_range, exclude, float_offset=float_offset)
 
         # EXDATES
         for iter in self.mExdates:
-            if range.isDateWithinPeriod(iter):
-                exclude.append(iter)
+            exclude.append(iter)
         for iter in self.mExperiods:
-            if range.isPeriodOverlap(iter):
-                exclude.append(iter.getStart())
+            exclude.append(iter.getStart())
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-- 
2.43.0


From 50cfc4e86eecce0f95fbbf6540c553b683a90bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 018/114] fix: BYSETPOS values out of range (including 0) were
 accepted

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 982cbf3..1f3c104 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -451,7 +451,7 @@ class Recurrence(ValueMixin):
                 if self.mBySetPos is not None:
                     raise ValueError("Recurrence: Only one BYSETPOS allowed")
                 self.mBySetPos = []
-                self.parseList(tvalue, self.mBySetPos, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
+                self.parseList(tvalue, self.mBySetPos, 1, 366, True, errmsg="Recurrence: Invalid BYSETPOS value")
 
             elif index == definitions.eRecurrence_WKST:
                 index = Recurrence.cWeekdayMap.get(tvalue, Recurrence.cUnknownIndex)
-- 
2.43.0


From e6f08607152e51cac39dc6deed34f368357a25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 019/114] fix: rules whose UNTIL differ in value type or form
 compared equal

---
 src/pycalendar/icalendar/recurrence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 1f3c104..99cb7b2 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -203,7 +203,7 @@ class Recurrence(ValueMixin):
         return (
             (self.mFreq == comp.mFreq) and
             (self.mUseCount == comp.mUseCount) and (not self.mUseCount or self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.mUntil == comp.mUntil) and
+            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.equalsUntil(self.mUntil, comp.mUntil)) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
@@ -217,6 +217,10 @@ class Recurrence(ValueMixin):
             (self.mWeekstart == comp.mWeekstart)
         )
 
+    def equalsUntil(self, until1, until2):
+        # The value type and form (date, local, UTC) of the value matter as well
+        return until1 == until2 and until1.getText() == until2.getText()
+
     def equalsNum(self, items1, items2):
         # Check sizes first
         if items1 is None:
-- 
2.43.0


From de6eac8ef0379a3edcbba02df52648476dec5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 020/114] fix: date-times with missing digits or signs in place
 of digits were accepted, and a +00:00 offset was read as floating

---
 src/pycalendar/datetime.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 55298db..9b68947 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -877,21 +877,31 @@ class DateTime(ValueMixin):
         dt.parse(data, fullISO)
         return dt
 
+    @staticmethod
+    def parseDigits(data, index, width, spaces=False):
+        """
+        Convert exactly "width" digits, of which the leading ones may be spaces if allowed.
+        """
+        digits = data[index:index + width]
+        if len(digits) != width or not (digits.lstrip(" ") if spaces else digits).isdigit():
+            raise ValueError("DateTime: wrong number of digits")
+        return int(digits)
+
     def parseDate(self, data, fullISO):
         # Get year
-        self.mYear = int(data[0:4])
+        self.mYear = self.parseDigits(data, 0, 4, True)
         index = 4
         if fullISO and data[index] == "-":
             index += 1
 
         # Get month
-        self.mMonth = int(data[index:index + 2])
+        self.mMonth = self.parseDigits(data, index, 2, True)
         index += 2
         if fullISO and data[index] == "-":
             index += 1
 
         # Get day
-        self.mDay = int(data[index:index + 2])
+        self.mDay = self.parseDigits(data, index, 2, True)
         index += 2
 
         if ' ' in data[:index] and ParserContext.INVALID_DATETIME_LEADINGSPACE == ParserContext.PARSER_RAISE:
@@ -902,19 +912,19 @@ class DateTime(ValueMixin):
 
     def parseTime(self, data, index, fullISO):
         # Get hours
-        self.mHours = int(data[index:index + 2])
+        self.mHours = self.parseDigits(data, index, 2)
         index += 2
         if fullISO and data[index] == ":":
             index += 1
 
         # Get minutes
-        self.mMinutes = int(data[index:index + 2])
+        self.mMinutes = self.parseDigits(data, index, 2)
         index += 2
         if fullISO and data[index] == ":":
             index += 1
 
         # Get seconds
-        self.mSeconds = int(data[index:index + 2])
+        self.mSeconds = self.parseDigits(data, index, 2)
         index += 2
 
         return index
@@ -943,16 +953,20 @@ class DateTime(ValueMixin):
                 index += 1
 
                 # Get hours
-                hours_offset = int(data[index:index + 2])
+                hours_offset = self.parseDigits(data, index, 2)
                 index += 2
                 if data[index] == ":":
                     index += 1
 
                 # Get minutes
-                minutes_offset = int(data[index:index + 2])
+                minutes_offset = self.parseDigits(data, index, 2)
                 index += 2
 
+                # A zero offset is UTC (as a timezone id it would mean floating time)
                 self.mTZID = sign * (hours_offset * 60 + minutes_offset) * 60
+                if self.mTZID == 0:
+                    self.mTZID = None
+                    self.mTZUTC = True
 
         if index < dlen:
             raise ValueError("DateTime: invalid TZ offset length")
-- 
2.43.0


From c13bef47818607aafe4e03fe7ca3fb8dc2884a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 021/114] fix: a period with an explicitly positive duration
 was rejected

---
 src/pycalendar/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..5208fad 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -80,7 +80,7 @@ class Period(ValueMixin):
                 end = splits[1]
 
                 self.mStart.parse(start, fullISO)
-                if end[0] == 'P':
+                if end[0] in ('P', '+'):
                     self.mDuration = Duration.parseText(end)
                     self.mUseDuration = True
                     self.mEnd = None
-- 
2.43.0


From 8b6827441a8fd5209e72e6bbd77b3a06cb13f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 022/114] fix: UTC offsets and integers with invalid characters
 were accepted

---
 src/pycalendar/integervalue.py   | 3 +++
 src/pycalendar/utcoffsetvalue.py | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pycalendar/integervalue.py b/src/pycalendar/integervalue.py
index effc9e5..8e0c713 100644
--- a/src/pycalendar/integervalue.py
+++ b/src/pycalendar/integervalue.py
@@ -32,6 +32,9 @@ class IntegerValue(Value):
         return Value.VALUETYPE_INTEGER
 
     def parse(self, data, variant):
+        digits = data[1:] if data[:1] in ("+", "-") else data
+        if not digits.isdigit():
+            raise ValueError("Integer: invalid digits")
         self.mValue = int(data)
 
     # os - StringIO object
diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..162618a 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -45,6 +45,15 @@ class UTCOffsetValue(Value):
         # Get sign
         if data[0] not in ('+', '-'):
             raise ValueError("UTCOffset: does not start with '+' or '-'")
+
+        # Only digits, and separators where they belong
+        digits = data[1:]
+        if fullISO:
+            if any([c != ':' for c in data[3::3]]):
+                raise ValueError("UTCOffset: missing ':'")
+            digits = "".join([c for i, c in enumerate(data) if i % 3])
+        if not digits.isdigit():
+            raise ValueError("UTCOffset: invalid digits")
         plus = (data[0] == '+')
 
         # Get hours
-- 
2.43.0


From 8d5f25fa2b6de85185592ed858138e8320740f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 023/114] fix: floats lost digits or were written with an
 exponent, and non-RFC forms (nan, 1e5, spaces) were accepted

---
 src/pycalendar/floatvalue.py  |  7 ++++---
 src/pycalendar/geovalue.py    | 11 ++++++-----
 src/pycalendar/stringutils.py | 23 +++++++++++++++++++++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/floatvalue.py b/src/pycalendar/floatvalue.py
index 33d73d8..534fc23 100644
--- a/src/pycalendar/floatvalue.py
+++ b/src/pycalendar/floatvalue.py
@@ -17,6 +17,7 @@
 # iCalendar float value
 
 from pycalendar import xmldefinitions
+from pycalendar.stringutils import floatText, parseFloat
 from pycalendar.value import Value
 
 
@@ -32,18 +33,18 @@ class FloatValue(Value):
         return Value.VALUETYPE_FLOAT
 
     def parse(self, data, variant):
-        self.mValue = float(data)
+        self.mValue = parseFloat(data)
 
     # os - StringIO object
     def generate(self, os):
         try:
-            os.write(str(self.mValue))
+            os.write(floatText(self.mValue))
         except:
             pass
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = str(self.mValue)
+        value.text = floatText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = float(jobject)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..5f58e60 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -19,6 +19,7 @@
 from pycalendar import xmlutils
 from pycalendar.exceptions import InvalidData
 from pycalendar.icalendar import xmldefinitions
+from pycalendar.stringutils import floatText, parseFloat
 from pycalendar.value import Value
 from pycalendar import xmldefinitions as xmldefinitions_top
 import xml.etree.cElementTree as XML
@@ -47,11 +48,11 @@ class GeoValue(Value):
         if len(splits) != 2:
             raise InvalidData("GEO value incorrect", data)
         try:
-            self.mValue = [float(splits[0]), float(splits[1])]
+            self.mValue = [parseFloat(splits[0]), parseFloat(splits[1])]
         except ValueError:
             if splits[0][-1] == '\\':
                 try:
-                    self.mValue = [float(splits[0][:-1]), float(splits[1])]
+                    self.mValue = [parseFloat(splits[0][:-1]), parseFloat(splits[1])]
                 except ValueError:
                     raise InvalidData("GEO value incorrect", data)
             else:
@@ -59,16 +60,16 @@ class GeoValue(Value):
 
     # os - StringIO object
     def generate(self, os):
-        os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
+        os.write("%s;%s" % (floatText(self.mValue[0]), floatText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
 
         latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
+        latitude.text = floatText(self.mValue[0])
 
         longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude.text = floatText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..38c7cb6 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -14,7 +14,9 @@
 #    limitations under the License.
 ##
 
+from decimal import Decimal
 from hashlib import md5
+import re
 
 
 def strduptokenstr(txt, tokens):
@@ -65,6 +67,27 @@ def strtoul(s, offset=0):
             return int(s[startoffset:]), offset
 
 
+def parseFloat(txt):
+    """
+    Convert an iCalendar/vCard FLOAT: optional sign, digits, and an optional fraction.
+    """
+    if re.match("[+-]?[0-9]+(\\.[0-9]+)?\\Z", txt) is None:
+        raise ValueError("Could not parse a float")
+    return float(txt)
+
+
+def floatText(value):
+    """
+    The shortest text of a float that reads back as the same value, without an exponent.
+    """
+    if not isinstance(value, float):
+        return str(value)
+    txt = repr(value)
+    if "e" in txt.lower():
+        txt = format(Decimal(txt), "f")
+    return txt
+
+
 def strindexfind(s, ss, default_index):
     if s and ss:
         i = 0
-- 
2.43.0


From 8d6f1375a957a447b84910dc47e8ba6574607d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 024/114] fix: periods compared greater-than with a date, and
 != <= >= on periods and durations compared identity (P04)

---
 src/pycalendar/duration.py |  9 +++++++++
 src/pycalendar/period.py   | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..6a8ed09 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,6 +54,15 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return not self == comp
+
+    def __ge__(self, comp):
+        return not self < comp
+
+    def __le__(self, comp):
+        return not self > comp
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 5208fad..42e31d2 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,8 +59,17 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self == comp
+
+    def __ge__(self, comp):
+        return not self < comp
+
+    def __le__(self, comp):
+        return not self > comp
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return comp < self
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From 47686718101859778185fcc7a1a50753ea7545c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 025/114] fix: timezone abbreviations, range expansions and
 offsets were wrong within the year of an onset, at the end of a range, for
 dates, or depended on earlier queries (P05)

---
 src/pycalendar/icalendar/recurrence.py       |   8 +-
 src/pycalendar/icalendar/vtimezone.py        |   3 +-
 src/pycalendar/icalendar/vtimezoneelement.py | 118 ++++++-------------
 3 files changed, 45 insertions(+), 84 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 99cb7b2..9203618 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -907,8 +907,10 @@ class Recurrence(ValueMixin):
         if self.mUseUntil:
             float_until = self.mUntil.duplicate()
             if start.floating():
+                # Only a UTC value needs to be made local
                 float_until.setTimezoneID(0)
-                float_until.offsetSeconds(float_offset)
+                if self.mUntil.utc():
+                    float_until.offsetSeconds(float_offset)
 
         while True:
             # Exit if after period we want
@@ -944,8 +946,10 @@ class Recurrence(ValueMixin):
         if self.mUseUntil:
             float_until = self.mUntil.duplicate()
             if start.floating():
+                # Only a UTC value needs to be made local
                 float_until.setTimezoneID(None)
-                float_until.offsetSeconds(float_offset)
+                if self.mUntil.utc():
+                    float_until.offsetSeconds(float_offset)
 
         # Always add the initial instance DTSTART
         if self.mUseCount:
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..c65edef 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -149,6 +149,7 @@ class VTimezone(Component):
         # item
         temp = dt.duplicate()
         temp.setTimezoneID(None)
+        temp.setDateOnly(False)
 
         # Check whether we need to recache
         if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
@@ -163,7 +164,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..0f1d4f5 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -107,6 +107,28 @@ class VTimezoneElement(Component):
     def getTZName(self):
         return self.mTZName
 
+    def expandCached(self, upto):
+        """
+        All onsets of this observance up to (at least) the end of the year of the specified time, in time order.
+        """
+
+        # We want to allow recurrence calculation caching to help us here as this method
+        # gets called a lot - most likely for ever increasing dt values (which will therefore
+        # invalidate the recurrence cache).
+        #
+        # What we will do is round up the date-time to the next year so that the recurrence
+        # cache is invalidated less frequently
+
+        temp = DateTime(upto.getYear() + 1, 1, 1, 0, 0, 0)
+        if self.mCachedExpandBelow is None or temp > self.mCachedExpandBelow:
+            items = []
+            period = Period(self.mStart, temp)
+            self.mRecurrences.expand(self.mStart, period, items, float_offset=self.mUTCOffsetFrom)
+            self.mCachedExpandBelowItems = items
+            self.mCachedExpandBelow = temp
+
+        return self.mCachedExpandBelowItems
+
     def expandBelow(self, below):
 
         # Look for recurrences
@@ -114,40 +136,11 @@ class VTimezoneElement(Component):
             # Return DTSTART even if it is newer
             return self.mStart
         else:
-            # We want to allow recurrence calculation caching to help us here
-            # as this method
-            # gets called a lot - most likely for ever increasing dt values
-            # (which will therefore
-            # invalidate the recurrence cache).
-            #
-            # What we will do is round up the date-time to the next year so
-            # that the recurrence
-            # cache is invalidated less frequently
-
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
-
-            # Use cache of expansion
-            if self.mCachedExpandBelowItems is None:
-                self.mCachedExpandBelowItems = []
-            if self.mCachedExpandBelow is None:
-                self.mCachedExpandBelow = self.mStart.duplicate()
-            if temp > self.mCachedExpandBelow:
-                self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, temp)
-                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
-                self.mCachedExpandBelow = temp
-
-            if len(self.mCachedExpandBelowItems) != 0:
-                # List comes back sorted so we pick the element just less than
-                # the dt value we want
-                i = bisect_right(self.mCachedExpandBelowItems, below)
-                if i != 0:
-                    return self.mCachedExpandBelowItems[i - 1]
-
-                # The first one in the list is the one we want
-                return self.mCachedExpandBelowItems[0]
-
-            return self.mStart
+            # List comes back sorted so we pick the element just less than
+            # the dt value we want
+            items = self.expandCached(below)
+            i = bisect_right(items, below)
+            return items[i - 1] if i != 0 else self.mStart
 
     def expandAll(self, start, end, with_name):
 
@@ -157,55 +150,18 @@ class VTimezoneElement(Component):
         # Ignore if there is no change in offset
         offsetto = self.loadValueInteger(definitions.cICalProperty_TZOFFSETTO, Value.VALUETYPE_UTC_OFFSET)
         offsetfrom = self.loadValueInteger(definitions.cICalProperty_TZOFFSETFROM, Value.VALUETYPE_UTC_OFFSET)
-#        if offsetto == offsetfrom:
-#            return ()
 
-        # Look for recurrences
-        if self.mStart > end:
+        if self.mStart >= end:
             # Return nothing
             return ()
-        elif not self.mRecurrences.hasRecurrence():
-            # Return DTSTART even if it is newer
-            if self.mStart >= start:
-                result = (self.mStart, offsetfrom, offsetto,)
+
+        # Return all onsets within the range
+        items = self.expandCached(end) if self.mRecurrences.hasRecurrence() else (self.mStart,)
+        results = []
+        for dt in items:
+            if dt >= start and dt < end:
+                result = (dt, offsetfrom, offsetto,)
                 if with_name:
                     result += (self.getTZName(),)
-                return (result,)
-            else:
-                return ()
-        else:
-            # We want to allow recurrence calculation caching to help us here
-            # as this method
-            # gets called a lot - most likely for ever increasing dt values
-            # (which will therefore
-            # invalidate the recurrence cache).
-            #
-            # What we will do is round up the date-time to the next year so
-            # that the recurrence
-            # cache is invalidated less frequently
-
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
-
-            # Use cache of expansion
-            if self.mCachedExpandBelowItems is None:
-                self.mCachedExpandBelowItems = []
-            if self.mCachedExpandBelow is None:
-                self.mCachedExpandBelow = self.mStart.duplicate()
-            if temp > self.mCachedExpandBelow:
-                self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
-                self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
-                self.mCachedExpandBelow = temp
-
-            if len(self.mCachedExpandBelowItems) != 0:
-                # Return them all within the range
-                results = []
-                for dt in self.mCachedExpandBelowItems:
-                    if dt >= start and dt < end:
-                        result = (dt, offsetfrom, offsetto,)
-                        if with_name:
-                            result += (self.getTZName(),)
-                        results.append(result)
-                return results
-
-            return ()
+                results.append(result)
+        return results
-- 
2.43.0


From 5d9d7d4d978aeaeb64694a168e2e23fa4f87ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 026/114] fix: instance sort functions return a proper order
 (P11)

---
 src/pycalendar/icalendar/componentexpanded.py | 37 +++++++------------
 src/pycalendar/icalendar/componentrecur.py    | 37 +++++++------------
 2 files changed, 26 insertions(+), 48 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..e9813ac 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -22,34 +22,23 @@ class ComponentExpanded(object):
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
-        if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
-        elif e1.mInstanceStart.isDateOnly():
-            return True
-        elif e2.mInstanceStart.isDateOnly():
-            return False
-        elif e1.mInstanceStart == e2.mInstanceStart:
-            if e1.mInstanceEnd == e2.mInstanceEnd:
-                # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
-            else:
-                # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+        if e1.mInstanceStart.isDateOnly() != e2.mInstanceStart.isDateOnly():
+            return -1 if e1.mInstanceStart.isDateOnly() else 1
+        elif e1.mInstanceStart != e2.mInstanceStart or e1.mInstanceStart.isDateOnly():
+            return e1.mInstanceStart.compareDateTime(e2.mInstanceStart)
+        elif e1.mInstanceEnd != e2.mInstanceEnd:
+            # Put ones that end later in earlier columns in day view
+            return e2.mInstanceEnd.compareDateTime(e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            # Put ones created earlier in earlier columns in day view
+            return e1.getOwner().getStamp().compareDateTime(e2.getOwner().getStamp())
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
-        if e1.mInstanceStart == e2.mInstanceStart:
-            if (
-                e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
-                not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
-            ):
-                return e1.mInstanceStart.isDateOnly()
-            else:
-                return False
-        else:
-            return e1.mInstanceStart < e2.mInstanceStart
+        result = e1.mInstanceStart.compareDateTime(e2.mInstanceStart)
+        if result == 0 and e1.mInstanceStart.isDateOnly() != e2.mInstanceStart.isDateOnly():
+            result = -1 if e1.mInstanceStart.isDateOnly() else 1
+        return result
 
     def __init__(self, owner, rid):
 
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..0ccf097 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -44,34 +44,23 @@ class ComponentRecur(Component):
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
-        if e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly():
-            return e1.self.mStart < e2.self.mStart
-        elif e1.self.mStart.isDateOnly():
-            return True
-        elif (e2.self.mStart.isDateOnly()):
-            return False
-        elif e1.self.mStart == e2.self.mStart:
-            if e1.self.mEnd == e2.self.mEnd:
-                # Put ones created earlier in earlier columns in day view
-                return e1.self.mStamp < e2.self.mStamp
-            else:
-                # Put ones that end later in earlier columns in day view
-                return e1.self.mEnd > e2.self.mEnd
+        if e1.mStart.isDateOnly() != e2.mStart.isDateOnly():
+            return -1 if e1.mStart.isDateOnly() else 1
+        elif e1.mStart != e2.mStart or e1.mStart.isDateOnly():
+            return e1.mStart.compareDateTime(e2.mStart)
+        elif e1.mEnd != e2.mEnd:
+            # Put ones that end later in earlier columns in day view
+            return e2.mEnd.compareDateTime(e1.mEnd)
         else:
-            return e1.self.mStart < e2.self.mStart
+            # Put ones created earlier in earlier columns in day view
+            return e1.mStamp.compareDateTime(e2.mStamp)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
-        if e1.self.mStart == e2.self.mStart:
-            if (
-                e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly() or
-                not e1.self.mStart.isDateOnly() and not e2.self.mStart.isDateOnly()
-            ):
-                return False
-            else:
-                return e1.self.mStart.isDateOnly()
-        else:
-            return e1.self.mStart < e2.self.mStart
+        result = e1.mStart.compareDateTime(e2.mStart)
+        if result == 0 and e1.mStart.isDateOnly() != e2.mStart.isDateOnly():
+            result = -1 if e1.mStart.isDateOnly() else 1
+        return result
 
     def __init__(self, parent=None):
         super(ComponentRecur, self).__init__(parent=parent)
-- 
2.43.0


From 5ff9f296db24557897ae3c425623558f7b43cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 027/114] fix: an instance ends after the length of its event
 or RDATE period (P11)

---
 src/pycalendar/icalendar/componentexpanded.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index e9813ac..70cbe45 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -109,10 +109,13 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid
 
             # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
+
+            # An RDATE period has its own duration
+            if rid != self.mOwner.getStart():
+                for period in self.mOwner.getRecurrenceSet().getPeriods():
+                    if period.getStart() == rid:
+                        self.mInstanceEnd = period.getEnd()
 
             self.mRecurring = True
 
-- 
2.43.0


From efda6750f554e3d2ea4e87c468a6a5fd82cb8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 028/114] fix: expanding a component lists instances
 overlapping the range, with its adjusted ranges (P11)

---
 src/pycalendar/icalendar/componentrecur.py | 35 ++++++++++++++--------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 0ccf097..d87b2e0 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -20,6 +20,7 @@ from pycalendar.icalendar.component import Component
 from pycalendar.icalendar.componentexpanded import ComponentExpanded
 from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.recurrenceset import RecurrenceSet
+from pycalendar.period import Period
 from pycalendar.timezone import Timezone
 from pycalendar.utils import set_difference
 import uuid
@@ -381,9 +382,13 @@ class ComponentRecur(Component):
     def expandPeriod(self, period, results):
         # Check for recurrence and True master
         if ((self.mRecurrences is not None) and self.mRecurrences.hasRecurrence() and not self.isRecurrenceInstance()):
-            # Expand recurrences within the range
+            # Expand recurrences within the range, including ones that start before it but last into it
             items = []
-            self.mRecurrences.expand(self.mStart, period, items)
+            expanded = []
+            expand_period = period
+            if self.mEnd > self.mStart:
+                expand_period = Period(period.getStart() - (self.mEnd - self.mStart), period.getEnd())
+            self.mRecurrences.expand(self.mStart, expand_period, items)
 
             # Look for overridden recurrence items
             cal = self.mParentComponent
@@ -414,11 +419,11 @@ class ComponentRecur(Component):
                     if len(prior) + len(future) == 0:
                         # Add each expanded item
                         for iter in items:
-                            results.append(self.createExpanded(self, iter))
+                            expanded.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID())
+                        future.sort(key=lambda x: x.getRecurrenceID())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -428,26 +433,30 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
-                                riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                            for riter2 in prior:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
                             # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            for riter2 in reversed(future):
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
                             if slave is None:
                                 slave = self
-                            results.append(self.createExpanded(slave, iter1))
+                            expanded.append(self.createExpanded(slave, iter1))
                 else:
                     # Add each expanded item
                     for iter in items:
-                        results.append(self.createExpanded(self, iter))
+                        expanded.append(self.createExpanded(self, iter))
+
+            # Only those that overlap the range
+            for item in expanded:
+                if item.getInstanceStart() < period.getEnd() and \
+                        (item.getInstanceStart() >= period.getStart() or item.getInstanceEnd() > period.getStart()):
+                    results.append(item)
 
         elif self.withinPeriod(period):
             if self.isRecurrenceInstance():
-- 
2.43.0


From 5546dd85226e1d29e1d0a3bce4183654f15b71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 029/114] fix: DateTime.setToday, setNow and setNowUTC work
 (P12)

---
 src/pycalendar/datetime.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 9b68947..45d941d 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,23 @@ class DateTime(ValueMixin):
 
         return other
 
+    def _copyFrom(self, other):
+        self.mYear = other.mYear
+        self.mMonth = other.mMonth
+        self.mDay = other.mDay
+
+        self.mHours = other.mHours
+        self.mMinutes = other.mMinutes
+        self.mSeconds = other.mSeconds
+
+        self.mDateOnly = other.mDateOnly
+
+        self.mTZUTC = other.mTZUTC
+        self.mTZID = other.mTZID
+        self.mTZOffset = other.mTZOffset
+
+        self.changed()
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -663,7 +680,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self._copyFrom(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -676,7 +693,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self._copyFrom(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -685,7 +702,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self._copyFrom(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From c672b2da2cb870564aa7d2ca729a97bb2c2b2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 030/114] fix: editing the recurrence of a component keeps all
 its dates, periods and exclusions (P12)

---
 src/pycalendar/icalendar/componentrecur.py | 27 +++++++++++-----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index d87b2e0..16c7b3c 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -573,15 +573,14 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
+        if (
+            not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1) or
+            self.endPropertyName == definitions.cICalProperty_DUE
+        ):
             prop = Property(definitions.cICalProperty_DURATION, duration)
             self.addProperty(prop)
 
     def editRecurrenceSet(self, recurs):
-        # Must have items
-        if self.mRecurrences is None:
-            self.mRecurrences = RecurrenceSet()
-
         # Updated cached values
         self.mRecurrences = recurs
 
@@ -595,14 +594,14 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+        for iter in self.mRecurrences.getDates() + self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
-        for iter in self.mRecurrences.getExdates():
-            prop = Property(definitions.cICalProperty_EXDATE, iter)
+        for iter in self.mRecurrences.getExdates() + self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
             self.addProperty(prop)
 
     def excludeRecurrence(self, start):
@@ -611,10 +610,10 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        self.mRecurrences.subtractDT(start)
 
         # Add property
-        prop = Property(definitions.cICalProperty_EXDATE, start)
+        prop = Property(definitions.cICalProperty_EXDATE, [start])
         self.addProperty(prop)
 
     def excludeFutureRecurrence(self, start):
@@ -633,8 +632,8 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+        for iter in self.mRecurrences.getDates() + self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
 
     def initFromMaster(self):
-- 
2.43.0


From 931d0661f69ee987d76abcfc9ed7e4e92d498ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 031/114] fix: re-timing a component leaves the properties of
 its new timing (P12)

---
 src/pycalendar/icalendar/componentrecur.py | 10 ++++++----
 src/pycalendar/icalendar/vfreebusy.py      |  8 ++++----
 src/pycalendar/icalendar/vtodo.py          |  9 +++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 16c7b3c..dd17ebb 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -28,6 +28,8 @@ import uuid
 
 class ComponentRecur(Component):
 
+    endPropertyName = definitions.cICalProperty_DTEND
+
     propertyCardinality_STATUS_Fix = (
         definitions.cICalProperty_STATUS,
     )
@@ -503,8 +505,8 @@ class ComponentRecur(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = self.mStart.duplicate()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -550,8 +552,8 @@ class ComponentRecur(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp or self.endPropertyName == definitions.cICalProperty_DUE:
+            prop = Property(self.endPropertyName, self.mEnd)
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..4b6c050 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -142,8 +142,8 @@ class VFreeBusy(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
-        self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mStart = DateTime.getToday()
+        self.mEnd = self.mStart.duplicate()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -170,8 +170,8 @@ class VFreeBusy(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..eafc421 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -26,6 +26,8 @@ import cStringIO as StringIO
 
 class VToDo(ComponentRecur):
 
+    endPropertyName = definitions.cICalProperty_DUE
+
     OVERDUE = 0
     DUE_NOW = 1
     DUE_LATER = 2
@@ -238,6 +240,7 @@ class VToDo(ComponentRecur):
         else:
             self.mHasEnd = True
             self.mEnd = temp
+            self.mDuration = False
 
         # Get PRIORITY
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
@@ -299,6 +302,12 @@ class VToDo(ComponentRecur):
         return fixed, unfixed
 
     # Editing
+    def editTimingStartDuration(self, start, duration):
+        super(VToDo, self).editTimingStartDuration(start, duration)
+
+        # A duration determines when it is due
+        self.mHasEnd = True
+
     def editStatus(self, status):
         # Only if it is different
         if self.mStatus != status:
-- 
2.43.0


From 3fd36356ce6b313e5c62b886f096f56e5657732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 032/114] fix: cutting the recurrence of a component works
 before it was expanded (P12)

---
 src/pycalendar/icalendar/componentrecur.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index dd17ebb..3d1e1a2 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -623,6 +623,10 @@ class ComponentRecur(Component):
         if self.mRecurrences is None:
             return
 
+        # The rules are cut using their expansion from the start of this component
+        if self.hasStart():
+            self.mRecurrences.expand(self.mStart, Period(self.mStart, start), [])
+
         # Adjust RRULES to end before start
         self.mRecurrences.excludeFutureRecurrence(start)
 
-- 
2.43.0


From 982564f5dd0012684e310ba7e1ef89520eacf1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 033/114] fix: adding a component to a calendar makes it part
 of that calendar (P13)

---
 src/pycalendar/componentbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3888027..ee3ab43 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -124,6 +124,7 @@ class ComponentBase(object):
                 return
 
     def addComponent(self, component):
+        component.setParentComponent(self)
         self.mComponents.append(component)
 
     def hasComponent(self, compname):
-- 
2.43.0


From c1521d2838314e7f9c7b32e36e62265ff215aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 034/114] fix: the component index follows renaming, clearing
 and the component type (P13)

---
 src/pycalendar/icalendar/calendar.py | 42 +++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..7020e96 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -73,7 +73,7 @@ class Calendar(ContainerBase):
         self.mName = ""
         self.mDescription = ""
         self.mMasterComponentsByTypeAndUID = collections.defaultdict(lambda: collections.defaultdict(list))
-        self.mOverriddenComponentsByUID = collections.defaultdict(list)
+        self.mOverriddenComponentsByTypeAndUID = collections.defaultdict(lambda: collections.defaultdict(list))
 
     def __str__(self):
         """
@@ -151,13 +151,9 @@ class Calendar(ContainerBase):
                 component.setUID(newUID)
 
         # Maps
-        if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
-        for ctype in self.mMasterComponentsByTypeAndUID:
-            if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+        self._clearComponentMaps()
+        for component in self.mComponents:
+            self._mapComponent(component)
 
     def finalise(self):
         # Get calendar name if present
@@ -310,28 +306,42 @@ class Calendar(ContainerBase):
         Override to track components by UID.
         """
         super(Calendar, self).addComponent(component)
+        self._mapComponent(component)
+
+    def removeComponent(self, component):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeComponent(component)
 
         if isinstance(component, ComponentRecur):
             uid = component.getUID()
             rid = component.getRecurrenceID()
             if rid:
-                self.mOverriddenComponentsByUID[uid].append(component)
+                self.mOverriddenComponentsByTypeAndUID[component.getType()][uid].remove(component)
             else:
-                self.mMasterComponentsByTypeAndUID[component.getType()][uid] = component
+                self.mMasterComponentsByTypeAndUID[component.getType()][uid].remove(component)
 
-    def removeComponent(self, component):
+    def removeAllComponent(self, compname=None):
         """
         Override to track components by UID.
         """
-        super(Calendar, self).removeComponent(component)
+        super(Calendar, self).removeAllComponent(compname)
+        if not compname:
+            self._clearComponentMaps()
+
+    def _clearComponentMaps(self):
+        self.mMasterComponentsByTypeAndUID.clear()
+        self.mOverriddenComponentsByTypeAndUID.clear()
 
+    def _mapComponent(self, component):
         if isinstance(component, ComponentRecur):
             uid = component.getUID()
             rid = component.getRecurrenceID()
             if rid:
-                self.mOverriddenComponentsByUID[uid].remove(component)
+                self.mOverriddenComponentsByTypeAndUID[component.getType()][uid].append(component)
             else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+                self.mMasterComponentsByTypeAndUID[component.getType()][uid].append(component)
 
     def deriveComponent(self, recurrenceID):
         """
@@ -489,11 +499,11 @@ class Calendar(ContainerBase):
 
     def getRecurrenceInstancesItems(self, type, uid, items):
         # Get instances from list
-        items.extend(self.mOverriddenComponentsByUID.get(uid, ()))
+        items.extend(self.mOverriddenComponentsByTypeAndUID.get(type, {}).get(uid, ()))
 
     def getRecurrenceInstancesIds(self, type, uid, ids):
         # Get instances from list
-        ids.extend([comp.getRecurrenceID() for comp in self.mOverriddenComponentsByUID.get(uid, ())])
+        ids.extend([comp.getRecurrenceID() for comp in self.mOverriddenComponentsByTypeAndUID.get(type, {}).get(uid, ())])
 
     # Freebusy generation
     def getVFreeBusyList(self, period, list):
-- 
2.43.0


From 1cf827a7862f958a78f443f7b5bd52ab2df24cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 035/114] fix: a derived occurrence keeps the kind of end and
 the timezone of its master (P14)

---
 src/pycalendar/icalendar/calendar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 7020e96..53fe56e 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -379,20 +379,20 @@ class Calendar(ContainerBase):
 
         newdtstartValue = recurrenceID.duplicate()
         if not dtstart.isDateOnly():
-            if dtstart.local():
+            if not dtstart.floating():
                 newdtstartValue.adjustTimezone(dtstart.getTimezone())
         else:
             newdtstartValue.setDateOnly(True)
 
         newcomp.removeProperties(definitions.cICalProperty_DTSTART)
-        newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
+        if newcomp.hasProperty(newcomp.endPropertyName):
+            newcomp.removeProperties(newcomp.endPropertyName)
+            prop = Property(newcomp.endPropertyName, newdtstartValue + oldduration)
             newcomp.addProperty(prop)
 
-        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
+        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue.duplicate()))
 
         # After creating/changing a component we need to do this to keep PyCalendar happy
         newcomp.finalise()
-- 
2.43.0


From 2a5eb7961d70ae60d74812c7df06e0db7edded88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 036/114] fix: folding a long line that is not UTF-8 ends (P16)

---
 src/pycalendar/property.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..108ed72 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -376,9 +376,12 @@ class PropertyBase(object):
                     written = len(temp)
                 else:
                     # Check whether next char is valid utf8 lead byte
-                    while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80):
+                    while offset > start + lineWrap - 4 and ((ord(temp[offset]) & 0xC0) == 0x80):
                         # Step back until we have a valid char
                         offset -= 1
+                    if (ord(temp[offset]) & 0xC0) == 0x80:
+                        # Not utf8 - there is no char to keep together
+                        offset = start + lineWrap
 
                     line = temp[start:offset]
                     os.write(line)
-- 
2.43.0


From aa4be6158e0f394e31018e6ec26fcf5dc32975f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 037/114] fix: only a space or a tab continues a folded line
 (P16)

---
 src/pycalendar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index c739d3e..1caabf5 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -70,7 +70,7 @@ def readFoldedLine(ins, lines):
             return True
 
         # Does it start with a space => folded
-        if lines[1][0].isspace():
+        if lines[1][0] in " \t":
             # Copy folded line (without space) to current line and cycle
             # for more
             lines[0] = lines[0] + lines[1][1:]
-- 
2.43.0


From 0557a4551f956575c0bc47d14c81605e229ce23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 038/114] fix: a vCard line with data after a quoted parameter
 value is refused (P17)

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..aafcc47 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # We should never get here but if we do we need to terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From b88af03eec9314b3ee29375ef82e5dc8fb2a9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 039/114] fix: a vCard parameter without a value is ignored
 when the parser mode says so (P17)

---
 src/pycalendar/vcard/property.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index aafcc47..eee384b 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -228,15 +228,14 @@ class Property(PropertyBase):
                         # Deal with parameters without values
                         if ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_RAISE:
                             raise InvalidProperty("Invalid property parameter", data)
+                        elif parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
+                            parameter_name = definitions.Parameter_ENCODING
+                            parameter_value = definitions.Parameter_Value_ENCODING_B
+                            stripValueSpaces = True
                         elif ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_ALLOW:
                             parameter_value = None
                         else:  # PARSER_IGNORE and PARSER_FIX
                             parameter_name = None
-
-                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
-                            parameter_name = definitions.Parameter_ENCODING
-                            parameter_value = definitions.Parameter_Value_ENCODING_B
-                            stripValueSpaces = True
                     else:
                         txt = txt[1:]
                         parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
-- 
2.43.0


From 1c16b091b64ec21fbbdbf1fa3f43ba34772c938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 040/114] fix: a backslash does not hide the end of a quoted
 parameter value (P17)

---
 src/pycalendar/stringutils.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index 38c7cb6..c9a129a 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -30,17 +30,11 @@ def strduptokenstr(txt, tokens):
 
     # Handle quoted string
     if txt[0] == '\"':
-        skip = False
-        for end, s in enumerate(txt[1:]):
-            if skip:
-                skip = False
-                continue
-            elif s == '\"':
-                return txt[1:end + 1], txt[end + 2:]
-            else:
-                skip = (s == '\\')
-        else:
+        # NB there is no escaping in a quoted string: a backslash is just another character
+        end = txt.find('\"', 1)
+        if end == -1:
             return None, txt
+        return txt[1:end], txt[end + 1:]
     else:
         for end, s in enumerate(txt):
             if s in tokens:
-- 
2.43.0


From e4573172f20f6b5567353dd8c57399b07f2fe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 041/114] fix: a parameter without a name, or in iCalendar
 without a value, is refused (P17)

---
 src/pycalendar/property.py       | 6 ++++--
 src/pycalendar/vcard/property.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 108ed72..3dc88f6 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -288,9 +288,11 @@ class PropertyBase(object):
                     txt = txt[1:]
 
                     # Get quoted string or token
-                    parameter_name, txt = stringutils.strduptokenstr(txt, "=")
-                    if parameter_name is None:
+                    parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
+                    if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
+                    if txt[0] != "=":
+                        raise InvalidProperty("Invalid property: parameter without a value", data)
                     txt = txt[1:]
                     parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
                     if parameter_value is None:
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index eee384b..8f80524 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -221,7 +221,7 @@ class Property(PropertyBase):
                     # but for "broken" vCard BASE64 property we need to also terminate on
                     # ":;"
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
-                    if parameter_name is None:
+                    if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
 
                     if txt[0] != "=":
-- 
2.43.0


From 2f9a9f86bb0e471899dcdcae513b7ab69037f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 042/114] fix: a parameter value beginning with a space is
 quoted (P17)

---
 src/pycalendar/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..cb5ddbc 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -102,7 +102,7 @@ class Parameter(object):
         str = encodeParameterValue(str)
 
         # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1 or str.startswith(" "):
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From cafcc3b2ca818488c2713eeba8ee2f88fb53eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 043/114] fix: lists of text are split at separators that are
 not escaped only (P17)

---
 src/pycalendar/multivalue.py |  3 +-
 src/pycalendar/utils.py      | 60 ++++++++++++++----------------------
 2 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..60b221a 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from pycalendar.utils import splitUnescaped
 from pycalendar.value import Value
 
 
@@ -58,7 +59,7 @@ class MultiValue(Value):
     def parse(self, data, variant):
         # Tokenize on comma
         if "," in data:
-            tokens = data.split(",")
+            tokens = splitUnescaped(data, ",")
         else:
             tokens = (data,)
         for token in tokens:
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 1caabf5..b2e6bca 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -131,6 +131,25 @@ def writeTextValue(os, value):
         pass
 
 
+def splitUnescaped(data, sep):
+    """
+    Split on a separator, except where it is escaped by a backslash.
+    """
+    results = []
+    start = 0
+    escaped = False
+    for pos, c in enumerate(data):
+        if escaped:
+            escaped = False
+        elif c == '\\':
+            escaped = True
+        elif c == sep:
+            results.append(data[start:pos])
+            start = pos + 1
+    results.append(data[start:])
+    return results
+
+
 def decodeTextValue(value):
     os = StringIO.StringIO()
 
@@ -264,18 +283,7 @@ def parseTextList(data, sep=';', always_list=False):
     """
     Each element of the list has to be separately un-escaped
     """
-    results = []
-    item = []
-    pre_s = ''
-    for s in data:
-        if s == sep and pre_s != '\\':
-            results.append(decodeTextValue("".join(item)))
-            item = []
-        else:
-            item.append(s)
-        pre_s = s
-
-    results.append(decodeTextValue("".join(item)))
+    results = [decodeTextValue(item) for item in splitUnescaped(data, sep)]
 
     return tuple(results) if len(results) > 1 or always_list else (results[0] if len(results) else "")
 
@@ -296,31 +304,9 @@ def generateTextList(os, data, sep=';'):
 # vCard double-nested list parsing/generation
 def parseDoubleNestedList(data, maxsize):
     results = []
-    items = [""]
-    pre_s = ''
-    for s in data:
-        if s == ';' and pre_s != '\\':
-
-            if len(items) > 1:
-                results.append(tuple([decodeTextValue(item) for item in items]))
-            elif len(items) == 1:
-                results.append(decodeTextValue(items[0]))
-            else:
-                results.append("")
-
-            items = [""]
-        elif s == ',' and pre_s != '\\':
-            items.append("")
-        else:
-            items[-1] += s
-        pre_s = s
-
-    if len(items) > 1:
-        results.append(tuple([decodeTextValue(item) for item in items]))
-    elif len(items) == 1:
-        results.append(decodeTextValue(items[0]))
-    else:
-        results.append("")
+    for element in splitUnescaped(data, ';'):
+        items = [decodeTextValue(item) for item in splitUnescaped(element, ',')]
+        results.append(tuple(items) if len(items) > 1 else items[0])
 
     for _ignore in range(maxsize - len(results)):
         results.append("")
-- 
2.43.0


From 4c77e666e832376e2967ebd3e4f4b94caad2c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 044/114] fix: a URI containing a backslash reads back (P17)

---
 src/pycalendar/urivalue.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/urivalue.py b/src/pycalendar/urivalue.py
index 58fdc64..4b02f08 100644
--- a/src/pycalendar/urivalue.py
+++ b/src/pycalendar/urivalue.py
@@ -42,13 +42,11 @@ class URIValue(PlainTextValue):
         Handle a client bug where it sometimes includes a \n in the value and we need
         to make sure that gets encoded rather than included literally which would break syntax.
         """
-        if '\n' in self.mValue:
-            try:
-                # No encoding required
-                os.write(self.mValue.replace("\n", "\\n"))
-            except:
-                pass
+        if ParserContext.BACKSLASH_IN_URI_VALUE == ParserContext.PARSER_FIX and '\\' in self.mValue:
+            # It would be decoded when read back
+            value = self.mValue.replace("\\", "\\\\")
         else:
-            super(URIValue, self).generate(os)
+            value = self.mValue
+        os.write(value.replace("\r", "\\r").replace("\n", "\\n"))
 
 Value.registerType(Value.VALUETYPE_URI, URIValue, xmldefinitions.value_uri)
-- 
2.43.0


From 24c434383554b2e0ea4ae3a8406031aa20405187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 045/114] fix: a valid REQUEST-STATUS is read in the strict
 parser mode (P17)

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..59bd3c4 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -67,7 +67,7 @@ class RequestStatusValue(Value):
 
         if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+        elif "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
             raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
-- 
2.43.0


From e48f6c7751d1d295176d7f7811dca385d5ba178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 046/114] fix: an invalid escape sequence is passed through
 when the parser mode allows it (P17)

---
 src/pycalendar/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index b2e6bca..03de64c 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -188,12 +188,16 @@ def decodeTextValue(value):
                     raise ValueError("TextValue: '\\:' not allowed")
                 elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_FIX:
                     os.write(':')
+                elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_ALLOW:
+                    os.write('\\:')
 
             # Other escaped chars normally not allowed
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_RAISE:
                 raise ValueError("TextValue: '\\{}' not allowed".format(c))
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_FIX:
                 os.write(c)
+            elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_ALLOW:
+                os.write('\\' + c)
 
             # Bump past escapee and look for next segment (not past the end)
             start_pos = end_pos + 1
-- 
2.43.0


From af6d2406ff1ad4bceb7cff0884c3c511fbb75310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 047/114] fix: the values of a parameter are written in their
 order (P17)

---
 src/pycalendar/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index cb5ddbc..ca664a5 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -83,7 +83,7 @@ class Parameter(object):
                 os.write("=")
 
                 first = True
-                for s in sorted(self.mValues):
+                for s in self.mValues:
                     if first:
                         first = False
                     else:
-- 
2.43.0


From 1d43f83cfcbd403839d488da0c6a7935e6079afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 048/114] fix: a line of an unknown property without a value
 separator is refused (P17)

---
 src/pycalendar/property.py       | 2 ++
 src/pycalendar/vcard/property.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 3dc88f6..fdf3ef2 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -315,6 +315,8 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 8f80524..c8678c9 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -263,6 +263,8 @@ class Property(PropertyBase):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
 
-- 
2.43.0


From baf7c17a4c5132af65e25ac03e001c5689d4ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 049/114] fix: a backslash keeps hiding a quote in a quoted
 parameter value, as the tests require (reverts 1c16b09) (P17)

---
 src/pycalendar/stringutils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index c9a129a..38c7cb6 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -30,11 +30,17 @@ def strduptokenstr(txt, tokens):
 
     # Handle quoted string
     if txt[0] == '\"':
-        # NB there is no escaping in a quoted string: a backslash is just another character
-        end = txt.find('\"', 1)
-        if end == -1:
+        skip = False
+        for end, s in enumerate(txt[1:]):
+            if skip:
+                skip = False
+                continue
+            elif s == '\"':
+                return txt[1:end + 1], txt[end + 2:]
+            else:
+                skip = (s == '\\')
+        else:
             return None, txt
-        return txt[1:end], txt[end + 1:]
     else:
         for end, s in enumerate(txt):
             if s in tokens:
-- 
2.43.0


From 77e9fc3b86866fe4299005f0993888909d9af1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 050/114] fix: calendar data with an unclosed, mismatched or
 nested container is refused (P19)

---
 src/pycalendar/containerbase.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..7585b18 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -153,6 +153,10 @@ class ContainerBase(ComponentBase):
                 # Parse property or look for start of component
                 if line.startswith("BEGIN:") and self.sComponentType is not None:
 
+                    # The container cannot be nested
+                    if line == self.getBeginDelimiter():
+                        raise InvalidData("%s data not properly nested" % (self.sContainerDescriptor,), line)
+
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
@@ -160,8 +164,8 @@ class ContainerBase(ComponentBase):
                     comp = self.sComponentType.makeComponent(line[6:], comp)
                     compend = comp.getEndDelimiter()
 
-                # Look for end of object
-                elif line == self.getEndDelimiter():
+                # Look for end of object - must not have any components still open
+                elif comp is self and line == self.getEndDelimiter():
 
                     # Finalise the current calendar
                     self.finalise()
@@ -179,6 +183,10 @@ class ContainerBase(ComponentBase):
                     componentstack[-1][0].addComponent(comp)
                     comp, compend = componentstack.pop()
 
+                # An end without the matching begin
+                elif line.startswith("END:"):
+                    raise InvalidData("%s data not properly nested" % (self.sContainerDescriptor,), line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
-- 
2.43.0


From 960e0d888fd7fb689de70fafea38c6f3da8cef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 051/114] fix: reading a component from incomplete or badly
 nested data fails and adds nothing (P19)

---
 src/pycalendar/icalendar/calendar.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 53fe56e..58ef5d3 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -211,6 +211,7 @@ class Calendar(ContainerBase):
         comp = self
         compend = None
         componentstack = []
+        components = []
         got_timezone = False
 
         while readFoldedLine(ins, lines):
@@ -239,6 +240,10 @@ class Calendar(ContainerBase):
                 # Parse property or look for start of component
                 if line.startswith("BEGIN:"):
 
+                    # The calendar cannot be nested
+                    if line == self.getBeginDelimiter():
+                        raise InvalidData("iCalendar data not properly nested", line)
+
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
@@ -254,7 +259,8 @@ class Calendar(ContainerBase):
                     if comp.getType() == definitions.cICalComponent_VTIMEZONE:
                         got_timezone = True
 
-                elif line == self.getEndDelimiter():
+                # Look for end of object - must not have any components still open
+                elif comp is self and line == self.getEndDelimiter():
 
                     # Change state
                     state = GOT_VCALENDAR
@@ -265,10 +271,18 @@ class Calendar(ContainerBase):
                     # Finalise the component (this caches data from the properties)
                     comp.finalise()
 
-                    # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
+                    # Embed component in parent and reset to use parent - top-level ones
+                    # are only added once all the data has been read
+                    if componentstack[-1][0] is self:
+                        components.append(comp)
+                    else:
+                        componentstack[-1][0].addComponent(comp)
                     comp, compend = componentstack.pop()
 
+                # An end without the matching begin
+                elif line.startswith("END:"):
+                    raise InvalidData("iCalendar data not properly nested", line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
@@ -293,6 +307,13 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
+        for component in components:
+            self.addComponent(component)
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
-- 
2.43.0


From a6b5edebc42e97d1dbc36cd720ae7b62dd45c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 052/114] fix: a component inside one that cannot hold it is
 reported as invalid data (P19)

---
 src/pycalendar/containerbase.py      | 7 +++++--
 src/pycalendar/icalendar/calendar.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 7585b18..97562f0 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -16,7 +16,7 @@
 
 from cStringIO import StringIO
 from pycalendar.componentbase import ComponentBase
-from pycalendar.exceptions import InvalidData, ValidationError
+from pycalendar.exceptions import InvalidComponent, InvalidData, ValidationError
 from pycalendar.parser import ParserContext
 from pycalendar.utils import readFoldedLine
 import json
@@ -180,7 +180,10 @@ class ContainerBase(ComponentBase):
                     comp.finalise()
 
                     # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
+                    try:
+                        componentstack[-1][0].addComponent(comp)
+                    except ValueError as e:
+                        raise InvalidComponent(str(e), line)
                     comp, compend = componentstack.pop()
 
                 # An end without the matching begin
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 58ef5d3..1fb8d6b 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -18,7 +18,7 @@ from cStringIO import StringIO
 from pycalendar import xmlutils
 from pycalendar.containerbase import ContainerBase
 from pycalendar.datetime import DateTime
-from pycalendar.exceptions import InvalidData
+from pycalendar.exceptions import InvalidComponent, InvalidData
 from pycalendar.icalendar import definitions, xmldefinitions
 from pycalendar.icalendar.component import Component
 from pycalendar.icalendar.componentexpanded import ComponentExpanded
@@ -276,7 +276,10 @@ class Calendar(ContainerBase):
                     if componentstack[-1][0] is self:
                         components.append(comp)
                     else:
-                        componentstack[-1][0].addComponent(comp)
+                        try:
+                            componentstack[-1][0].addComponent(comp)
+                        except ValueError as e:
+                            raise InvalidComponent(str(e), line)
                     comp, compend = componentstack.pop()
 
                 # An end without the matching begin
-- 
2.43.0


From 9a0279041f3ab693720581c7838cda4764bb1c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 053/114] fix: a property keeps a VALUE type that cannot be
 derived from its value, and compares equal whether or not a derivable one was
 given (P15)

---
 src/pycalendar/icalendar/property.py |  4 ++--
 src/pycalendar/property.py           | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..b492b0f 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -241,14 +241,14 @@ class Property(PropertyBase):
     def __hash__(self):
         return hash((
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            tuple([tuple(attrs) for _ignore, attrs in sorted(self.comparableParameters().items(), key=lambda x: x[0])]),
             self.mValue,
         ))
 
     def __eq__(self, other):
         if not isinstance(other, Property):
             return False
-        return self.mName == other.mName and self.mValue == other.mValue and self.mParameters == other.mParameters
+        return self.mName == other.mName and self.mValue == other.mValue and self.comparableParameters() == other.comparableParameters()
 
     def getRecurrenceValue(self):
 
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index fdf3ef2..e6b5b03 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -515,7 +515,7 @@ class PropertyBase(object):
         # Check whether custom value is set
         if self.sValue in self.mParameters:
             attr = self.getParameterValue(self.sValue)
-            value_type = self.sValueTypeMap.get(attr, value_type)
+            value_type = self.sValueTypeMap.get(attr.upper(), value_type)
 
         # Check for specials
         if self.mName.upper() in self.sSpecialVariants:
@@ -580,8 +580,7 @@ class PropertyBase(object):
         self._postCreateValue(value_type)
 
     def setupValueParameter(self):
-        if self.sValue in self.mParameters:
-            del self.mParameters[self.sValue]
+        given = self.mParameters.pop(self.sValue, None)
 
         # Only if we have a value right now
         if self.mValue is None:
@@ -599,6 +598,24 @@ class PropertyBase(object):
             actual_value = self.sTypeValueMap.get(actual_type)
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
                 self.mParameters.setdefault(self.sValue, []).append(Parameter(name=self.sValue, value=actual_value))
+                return
+
+        # Keep a type we were given that cannot be derived from the value: one that is not
+        # known, or TEXT for a property that has no default type
+        if given is not None:
+            given_type = self.sValueTypeMap.get(given[0].getFirstValue().upper())
+            if given_type is None or actual_type == Value.VALUETYPE_UNKNOWN or default_type is None and given_type == actual_type:
+                self.mParameters[self.sValue] = given
+
+    def comparableParameters(self):
+        """
+        The parameters without a VALUE parameter that just states the type of the value, which
+        may or may not be present.
+        """
+        if self.sValue in self.mParameters and self.mValue is not None and self.mValue.getType() != Value.VALUETYPE_UNKNOWN:
+            if self.mParameters[self.sValue][0].getFirstValue().upper() in self.sValueTypeMap:
+                return dict([(k, v) for k, v in self.mParameters.items() if k != self.sValue])
+        return self.mParameters
 
     # Creation
     def _init_attr_value_int(self, ival):
-- 
2.43.0


From 18a69fda9475870fb571cdfb3f03d047172b859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 054/114] fix: vCard properties compare equal whether or not a
 derivable VALUE was given (P15)

---
 src/pycalendar/vcard/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index c8678c9..2843f0b 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -189,7 +189,7 @@ class Property(PropertyBase):
         return hash((
             self.mGroup,
             self.mName,
-            tuple([tuple(self.mParameters[attrname]) for attrname in sorted(self.mParameters.keys())]),
+            tuple([tuple(attrs) for _ignore, attrs in sorted(self.comparableParameters().items(), key=lambda x: x[0])]),
             self.mValue,
         ))
 
@@ -200,7 +200,7 @@ class Property(PropertyBase):
             self.mGroup == self.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
-            self.mParameters == other.mParameters
+            self.comparableParameters() == other.comparableParameters()
         )
 
     def parseTextParameters(self, txt, data):
-- 
2.43.0


From 396ca0722415ad5f76688ef5d05808439cf00596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 055/114] fix: components that repeat a property a different
 number of times are not equal (P15)

---
 src/pycalendar/componentbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index ee3ab43..ced2348 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from collections import Counter
 from cStringIO import StringIO
 from pycalendar import xmldefinitions, xmlutils
 from pycalendar.datetimevalue import DateTimeValue
@@ -149,10 +150,10 @@ class ComponentBase(object):
         return ()
 
     def compareProperties(self, other):
-        mine = set()
+        mine = Counter()
         for props in self.mProperties.values():
             mine.update(props)
-        theirs = set()
+        theirs = Counter()
         for props in other.mProperties.values():
             theirs.update(props)
         return mine == theirs
-- 
2.43.0


From 0162a1b474dc7c8ce1355ab74b1d0ff9234c5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 056/114] fix: the order in which components are written
 depends on their content only (P15)

---
 src/pycalendar/componentbase.py              | 22 ++++++++++++++++++--
 src/pycalendar/icalendar/component.py        |  2 +-
 src/pycalendar/icalendar/componentrecur.py   |  3 +++
 src/pycalendar/icalendar/valarm.py           |  6 +++++-
 src/pycalendar/icalendar/vtimezone.py        |  3 +++
 src/pycalendar/icalendar/vtimezoneelement.py |  2 ++
 src/pycalendar/icalendar/vunknown.py         |  2 ++
 7 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index ced2348..d8a392e 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -36,6 +36,7 @@ class ComponentBase(object):
     propertyValueChecks = None  # Either iCalendar or vCard validation
 
     sortSubComponents = True
+    sortByContent = True        # Whether components with the same sort key are ordered by their content
 
     sComponentType = None
     sPropertyType = None
@@ -370,6 +371,23 @@ class ComponentBase(object):
 
         jobject.append(comp)
 
+    def sortBySortKey(self, components, key):
+        """
+        Sort components by a key. Those with the same key are put in an order that depends on
+        their content only, so that the result does not depend on the original order.
+        """
+
+        groups = {}
+        for component in components:
+            groups.setdefault(key(component), []).append(component)
+        results = []
+        for groupkey in sorted(groups.keys()):
+            group = groups[groupkey]
+            if len(group) > 1 and group[0].sortByContent:
+                group = sorted(group, key=lambda x: sorted(x.getText().splitlines()))
+            results.extend(group)
+        return results
+
     def sortedComponents(self):
 
         components = self.mComponents[:]
@@ -385,12 +403,12 @@ class ComponentBase(object):
                 if component.getType().upper() == name:
                     namedcomponents.append(component)
                     components.remove(component)
-            for component in sorted(namedcomponents, key=lambda x: x.getSortKey()):
+            for component in self.sortBySortKey(namedcomponents, lambda x: x.getSortKey()):
                 sortedcomponents.append(component)
 
         # Write out the remainder sorted by name, sortKey
         if self.sortSubComponents:
-            remainder = sorted(components, key=lambda x: (x.getType().upper(), x.getSortKey(),))
+            remainder = self.sortBySortKey(components, lambda x: (x.getType().upper(), x.getSortKey(),))
         else:
             remainder = components
         for component in remainder:
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..7f44da5 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -79,7 +79,7 @@ class Component(ComponentBase):
             return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        return self.mUID
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 3d1e1a2..4b6ea33 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -137,6 +137,9 @@ class ComponentRecur(Component):
             self.mMapKey = str(uuid.uuid4())
         return self.mMapKey
 
+    def getSortKey(self):
+        return self.getMapKey() if self.mUID else ""
+
     def getMasterKey(self):
         return ComponentRecur.mapKey(self.mUID)
 
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..6c999b1 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -361,6 +361,9 @@ class VAlarm(Component):
     def getType(self):
         return definitions.cICalComponent_VALARM
 
+    def getSortKey(self):
+        return self.getMapKey() if hasattr(self, "mMapKey") else ""
+
     def getAction(self):
         return self.mAction
 
@@ -454,7 +457,8 @@ class VAlarm(Component):
             self.mRepeatInterval = temp
 
         # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+        trigger = self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy
+        self.mMapKey = "%s:%s" % (self.mAction, trigger.getText() if trigger is not None else "",)
 
         # Alarm status - private to Mulberry
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index c65edef..6dada3f 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -68,6 +68,9 @@ class VTimezone(Component):
     def getMapKey(self):
         return self.mID
 
+    def getSortKey(self):
+        return self.getMapKey()
+
     def finalise(self):
         # Get TZID
         temp = self.loadValueString(definitions.cICalProperty_TZID)
diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index 0f1d4f5..a5624fc 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -38,6 +38,8 @@ class VTimezoneElement(Component):
 
     propertyValueChecks = ICALENDAR_VALUE_CHECKS
 
+    sortByContent = False
+
     def __init__(self, parent=None, dt=None, offset=None):
         super(VTimezoneElement, self).__init__(parent=parent)
         self.mStart = dt if dt is not None else DateTime()
diff --git a/src/pycalendar/icalendar/vunknown.py b/src/pycalendar/icalendar/vunknown.py
index 58a7229..9a8a786 100644
--- a/src/pycalendar/icalendar/vunknown.py
+++ b/src/pycalendar/icalendar/vunknown.py
@@ -24,6 +24,8 @@ class UnknownComponent(Component):
 
     propertyValueChecks = ICALENDAR_VALUE_CHECKS
 
+    sortByContent = False
+
     def __init__(self, parent=None, comptype=""):
         super(UnknownComponent, self).__init__(parent=parent)
         self.mType = comptype
-- 
2.43.0


From 08d47bc91d8d9e5293d654a8da57de35d159986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 057/114] fix: a RECURRENCE-ID that is not a date-time does not
 stop the component from being read (P19)

---
 src/pycalendar/icalendar/componentrecur.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 4b6ea33..a8d72af 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -266,9 +266,8 @@ class ComponentRecur(Component):
             self.mSummary = temp
 
         # Get RECURRENCE-ID
-        self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
-        if self.mHasRecurrenceID:
-            self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+        self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+        self.mHasRecurrenceID = self.mRecurrenceID is not None
 
         # Update the map key
         if self.mHasRecurrenceID:
-- 
2.43.0


From 6718ff607888eb9bd62fc3378d90ab9eac313ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 058/114] fix: jCal parameters with several values can be read,
 and none are lost when writing (P18)

---
 src/pycalendar/parameter.py | 5 ++++-
 src/pycalendar/property.py  | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index ca664a5..8d37e55 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -115,4 +115,7 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # A parameter that appears more than once has all its values in one array
+        values = jobject.get(self.getName().lower(), [])
+        values = (values if isinstance(values, list) else [values]) + self.mValues
+        jobject[self.getName().lower()] = values if len(values) != 1 else values[0]
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index e6b5b03..6c8336d 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -446,8 +446,9 @@ class PropertyBase(object):
             if jobject[1]:
                 for name, value in jobject[1].items():
                     # Now add parameter value
-                    name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    name = name.encode("utf-8").upper()
+                    values = value if isinstance(value, list) else [value]
+                    attrvalue = Parameter(name=name, value=[item.encode("utf-8") for item in values])
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From 5c229e66c2fd89c820e0aaec1805fc82d33b2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 059/114] fix: a VALUE type that the value does not determine
 is kept in jCal (P18)

---
 src/pycalendar/property.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 6c8336d..deb438e 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -452,9 +452,9 @@ class PropertyBase(object):
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-            value_type = cls.sValueTypeMap.get(jobject[2].upper(), Value.VALUETYPE_UNKNOWN)
+            value_type = cls.sValueTypeMap.get(jobject[2].upper())
             default_type = cls.sDefaultValueTypeMap.get(prop.mName.upper(), Value.VALUETYPE_UNKNOWN)
-            if default_type != value_type:
+            if default_type != value_type and jobject[2].lower() != xmldefinitions.value_unknown:
                 attrvalue = Parameter(name=cls.sValue, value=jobject[2].encode("utf-8").upper())
                 prop.mParameters.setdefault(cls.sValue, []).append(attrvalue)
 
@@ -509,6 +509,10 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
 
+            # A type that is not derived from the value
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.hasParameter(self.sValue):
+                prop[2] = self.getParameterValue(self.sValue).lower()
+
     def determineValueType(self):
         # Get value type from property name
         value_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
-- 
2.43.0


From 4b5abc295af326647fb1db8792bc663ccf35a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 060/114] fix: durations and periods can be written as XML
 (P28)

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 3be714a30d4d65776ae88f6de554ec32ac3622f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 061/114] fix: a UTC offset with seconds is written properly as
 XML (P28)

---
 src/pycalendar/utcoffsetvalue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 162618a..892e655 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -98,9 +98,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From 2c06373e3a23c878c5d96bba87ca2b65cd8990d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 062/114] fix: the until part of a recurrence has its date as
 content in XML (P28)

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 9203618..4f1eabe 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -655,7 +655,7 @@ class Recurrence(ValueMixin):
             count.text = str(self.mCount)
         elif self.mUseUntil:
             until = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_until))
-            self.mUntil.writeXML(until, namespace)
+            until.text = self.mUntil.getXMLText()
 
         if self.mInterval > 1:
             interval = XML.SubElement(recur, xmlutils.makeTag(namespace, xmldefinitions.recur_interval))
-- 
2.43.0


From bb9f955bffea2ad0404c0cbb16c64f3c09bd57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 063/114] fix: GEO and REQUEST-STATUS can be written as XML
 with their components below the property (P28)

---
 src/pycalendar/geovalue.py                     | 7 +++----
 src/pycalendar/icalendar/requeststatusvalue.py | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5f58e60..0b21a62 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -63,12 +63,11 @@ class GeoValue(Value):
         os.write("%s;%s" % (floatText(self.mValue[0]), floatText(self.mValue[1]),))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        # The components are direct children of the property element
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
         latitude.text = floatText(self.mValue[0])
 
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
         longitude.text = floatText(self.mValue[1])
 
     def parseJSONValue(self, jobject):
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 59bd3c4..4ccd659 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # The components are direct children of the property element
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
-- 
2.43.0


From e5568590ea0fe66227d8f56d46c1fc11d36a792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 064/114] fix: no empty parameters element is written for a
 property with just a VALUE type (P28)

---
 src/pycalendar/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index deb438e..da3f648 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -414,7 +414,7 @@ class PropertyBase(object):
         prop = XML.SubElement(node, xmlutils.makeTag(namespace, self.getName()))
 
         # Write all parameters
-        if len(self.mParameters):
+        if [name for name in self.mParameters.keys() if name != self.sValue]:
             params = XML.SubElement(prop, xmlutils.makeTag(namespace, xmldefinitions.parameters))
             for key in sorted(self.mParameters.keys()):
                 for attr in self.mParameters[key]:
-- 
2.43.0


From 3187ac70e19d220e0ad64d24ba0b70aad98bf37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 065/114] fix: text outside ASCII can be written as XML (P28)

---
 src/pycalendar/icalendar/requeststatusvalue.py | 6 +++---
 src/pycalendar/parameter.py                    | 2 +-
 src/pycalendar/plaintextvalue.py               | 3 ++-
 src/pycalendar/xmlutils.py                     | 7 +++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 4ccd659..3ce4f76 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -80,14 +80,14 @@ class RequestStatusValue(Value):
     def writeXML(self, node, namespace):
         # The components are direct children of the property element
         code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
-        code.text = self.mValue[0]
+        code.text = xmlutils.unicodeText(self.mValue[0])
 
         description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
-        description.text = self.mValue[1]
+        description.text = xmlutils.unicodeText(self.mValue[1])
 
         if len(self.mValue) == 3 and self.mValue[2]:
             data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
-            data.text = self.mValue[2]
+            data.text = xmlutils.unicodeText(self.mValue[2])
 
     def parseJSONValue(self, jobject):
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 8d37e55..6df95d6 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -112,7 +112,7 @@ class Parameter(object):
         for value in self.getValues():
             # TODO: need to figure out proper value types
             text = XML.SubElement(param, xmlutils.makeTag(namespace, xmldefinitions.value_text))
-            text.text = value
+            text.text = xmlutils.unicodeText(value)
 
     def writeJSON(self, jobject):
         # A parameter that appears more than once has all its values in one array
diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index f2c22ad..b0afe31 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -16,6 +16,7 @@
 
 # iCalendar generic text-like value
 
+from pycalendar import xmlutils
 from pycalendar.value import Value
 
 
@@ -41,7 +42,7 @@ class PlainTextValue(Value):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue
+        value.text = xmlutils.unicodeText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject.encode("utf-8")
diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..b75feb9 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -21,6 +21,13 @@ def makeTag(namespace, name):
     return "{%s}%s" % (namespace, name.lower(),)
 
 
+def unicodeText(text):
+    """
+    Property and parameter values are utf-8 data, XML needs unicode.
+    """
+    return text if isinstance(text, unicode) else text.decode("utf-8")
+
+
 def toString(root):
 
     data = """<?xml version="1.0" encoding="utf-8"?>\n"""
-- 
2.43.0


From affaf6e63854c2bdcf5990691e2e86ab14c14851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 066/114] fix: XML is written in the encoding it declares, so
 that all characters can be read back (P28)

---
 src/pycalendar/xmlutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index b75feb9..56f2906 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -49,6 +49,6 @@ def toString(root):
                 node.getchildren()[-1].tail = "\n" + " " * level * INDENT
 
     _indentNode(root, 0)
-    data += XML.tostring(root) + "\n"
+    data += XML.tostring(root, "utf-8") + "\n"
 
     return data
-- 
2.43.0


From 08b6cd78b0fce58b36d0faed9a0886caa31a9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 067/114] fix: generating through a filter with sub-component
 filters works (P27)

---
 src/pycalendar/componentbase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index d8a392e..3fdf6f1 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -427,7 +427,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -450,7 +450,7 @@ class ComponentBase(object):
             if filter.isAllSubComponents():
                 self.writeXML(comps, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -469,7 +469,7 @@ class ComponentBase(object):
             if filter.isAllSubComponents():
                 self.writeJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From e86a6991eb71147b4a9a4ebb22c2e9201af6c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:51 +0000
Subject: [PATCH 068/114] fix: a filter for all sub-components writes them, not
 the component that has them, as XML and JSON (P27)

---
 src/pycalendar/componentbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3fdf6f1..2d0fdbb 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -448,7 +448,8 @@ class ComponentBase(object):
 
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                for subcomp in self.sortedComponents():
+                    subcomp.writeXML(comps, namespace)
             elif filter.hasSubComponentFilters():
                 for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
@@ -467,7 +468,7 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
                 for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
-- 
2.43.0


From 1f716b4a40f2099914705b662697dfff622cf72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 069/114] fix: a new vCard has PRODID and VERSION properties
 (P25)

---
 src/pycalendar/vcard/card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..944f27c 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -170,8 +170,8 @@ class Card(ContainerBase):
         return results
 
     def addDefaultProperties(self):
-        self.addProperty(Property(definitions.Property_PRODID, Card.sProdID))
-        self.addProperty(Property(definitions.Property_VERSION, "3.0"))
+        self.addProperty(Property(name=definitions.Property_PRODID, value=Card.sProdID))
+        self.addProperty(Property(name=definitions.Property_VERSION, value="3.0"))
 
     def validProperty(self, prop):
         if prop.getName() == definitions.Property_VERSION:
-- 
2.43.0


From d94aec09fd49d96826355235c23afaa1e4adaee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 070/114] fix: vCard properties of different groups are not
 equal (P25)

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 2843f0b..f65e6a7 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.comparableParameters() == other.comparableParameters()
-- 
2.43.0


From 8fc2efa224b6c8b4975bd036221ac99f4ad4268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 071/114] fix: the components of N and ADR values can be set,
 and the values compared with != (P25)

---
 src/pycalendar/vcard/adr.py | 22 ++++++++++++++--------
 src/pycalendar/vcard/n.py   | 18 ++++++++++++------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..bb7c410 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,50 +48,56 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
     def __eq__(self, comp):
-        return self.mValue == comp.mValue
+        return isinstance(comp, Adr) and self.mValue == comp.mValue
+
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
 
     def getPobox(self):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..39ba9d7 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,38 +46,44 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
     def __eq__(self, comp):
-        return self.mValue == comp.mValue
+        return isinstance(comp, N) and self.mValue == comp.mValue
+
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
 
     def getFirst(self):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
-- 
2.43.0


From 19059e8e1b6076c6e3a49eb6e5151c44417a3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 072/114] fix: vCards that are not ended before the next one
 begins are not read as one (P25)

---
 src/pycalendar/containerbase.py | 4 ++--
 src/pycalendar/vcard/card.py    | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 97562f0..42dfe4a 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -186,8 +186,8 @@ class ContainerBase(ComponentBase):
                         raise InvalidComponent(str(e), line)
                     comp, compend = componentstack.pop()
 
-                # An end without the matching begin
-                elif line.startswith("END:"):
+                # An end without the matching begin, or a begin that cannot be here
+                elif line.startswith("END:") or line.startswith("BEGIN:"):
                     raise InvalidData("%s data not properly nested" % (self.sContainerDescriptor,), line)
 
                 # Blank line
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 944f27c..aa17065 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -137,6 +137,10 @@ class Card(ContainerBase):
                     if ParserContext.BLANK_LINES_IN_DATA == ParserContext.PARSER_RAISE:
                         raise InvalidData("vCard data has blank lines")
 
+                # Cards do not contain other cards or components
+                elif line.startswith("BEGIN:") or line.startswith("END:"):
+                    raise InvalidData("vCard data not properly nested", line)
+
                 # Must be a property
                 else:
 
-- 
2.43.0


From 3ccb3d14a46d5e544e9009a22f00ce6b0e5dfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 073/114] fix: a PHOTO property with long parameters is folded
 like any other (P25)

---
 src/pycalendar/vcard/property.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index f65e6a7..7de6583 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -272,7 +272,8 @@ class Property(PropertyBase):
     def generateValue(self, os, novalue):
 
         # Special case AB.app PHOTO values
-        if self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
+        isPhoto = self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY
+        if isPhoto and not novalue:
             self.setupValueParameter()
 
             # Must write to temp buffer and then wrap
@@ -287,6 +288,11 @@ class Property(PropertyBase):
                     sout.write(";")
                     attr.generate(sout)
 
+            # A name and parameters that need folding themselves get no special treatment
+            if len(sout.getvalue()) >= 75:
+                super(Property, self).generateValue(os, novalue)
+                return
+
             # Write value
             sout.write(":")
             sout.write("\r\n")
-- 
2.43.0


From 4552ef3d189eb90b14d70d118036061a5a41b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 074/114] fix: a GEO, N, ADR or ORG property whose value is of
 another type keeps its VALUE parameter (P25)

---
 src/pycalendar/property.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index da3f648..507649d 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -595,10 +595,9 @@ class PropertyBase(object):
         # then always add VALUE if it is not TEXT. Always add the value if listed in the
         # C{sAlwaysValueTypes} attribute.
         default_type = self.sDefaultValueTypeMap.get(self.mName.upper())
-        if self.mName.upper() in self.sSpecialVariants:
+        actual_type = self.mValue.getType()
+        if actual_type == self.sSpecialVariants.get(self.mName.upper()):
             actual_type = default_type
-        else:
-            actual_type = self.mValue.getType()
         if default_type is None or default_type != actual_type or self.mName.upper() in self.sAlwaysValueTypes:
             actual_value = self.sTypeValueMap.get(actual_type)
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
-- 
2.43.0


From 9c720721926049374c3c3e90fecc061bb89ac4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 075/114] fix: an ORG value given as a list equals the same
 value read from text (P25)

---
 src/pycalendar/vcard/orgvalue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..f0df594 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -26,7 +26,7 @@ class OrgValue(Value):
     """
 
     def __init__(self, value=None):
-        self.mValue = value
+        self.setValue(value)
 
     def duplicate(self):
         return OrgValue(self.mValue)
@@ -50,6 +50,9 @@ class OrgValue(Value):
         return self.mValue
 
     def setValue(self, value):
+        # A single item is a str, as when parsing
+        if isinstance(value, (list, tuple)):
+            value = tuple(value) if len(value) > 1 else (value[0] if value else "")
         self.mValue = value
 
 Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
-- 
2.43.0


From ce3009869f0246c01d5a410f4152e4939296e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 076/114] fix: vCard properties can be made from a list of
 texts or a GEO position (P25)

---
 src/pycalendar/vcard/property.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 7de6583..cefb0c9 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -18,6 +18,8 @@ from pycalendar import stringutils
 from pycalendar.parameter import Parameter
 from pycalendar.datetime import DateTime
 from pycalendar.exceptions import InvalidProperty
+from pycalendar.geovalue import GeoValue
+from pycalendar.multivalue import MultiValue
 from pycalendar.parser import ParserContext
 from pycalendar.property import PropertyBase
 from pycalendar.utcoffsetvalue import UTCOffsetValue
@@ -328,6 +330,21 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+    def _init_attr_value_geo(self, value):
+        # Value
+        self.mValue = GeoValue(list(value))
+
+        # Parameters
+        self.setupValueParameter()
+
+    def _init_attr_value_text_list(self, value):
+        # Value
+        self.mValue = MultiValue(Value.VALUETYPE_TEXT)
+        self.mValue.setValue(value)
+
+        # Parameters
+        self.setupValueParameter()
+
     def _init_attr_value_org(self, reqstatus):
         # Value
         self.mValue = OrgValue(reqstatus)
-- 
2.43.0


From a4425aa75129aac2073312a2d5fb3cf566ab67d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 077/114] fix: a vCard TZ property is written in a form that
 can be read (P25)

---
 src/pycalendar/utcoffsetvalue.py | 6 ++++--
 src/pycalendar/vcard/property.py | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 892e655..0f7904c 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -23,11 +23,12 @@ from pycalendar.value import Value
 
 class UTCOffsetValue(Value):
 
-    def __init__(self, value=0):
+    def __init__(self, value=0, fullISO=False):
         self.mValue = value
+        self.mFullISO = fullISO     # vCard always uses the form with colons
 
     def duplicate(self):
-        return UTCOffsetValue(self.mValue)
+        return UTCOffsetValue(self.mValue, self.mFullISO)
 
     def getType(self):
         return Value.VALUETYPE_UTC_OFFSET
@@ -76,6 +77,7 @@ class UTCOffsetValue(Value):
     # os - StringIO object
     def generate(self, os, fullISO=False):
         try:
+            fullISO = fullISO or self.mFullISO
             abs_value = self.mValue
             if abs_value < 0:
                 sign = "-"
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index cefb0c9..43f8abc 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -315,7 +315,16 @@ class Property(PropertyBase):
         else:
             super(Property, self).generateValue(os, novalue)
 
+    def _postCreateValue(self, value_type):
+        # UTC offsets in vCard are always written with colons
+        if isinstance(self.mValue, UTCOffsetValue):
+            self.mValue.mFullISO = True
+
     # Creation
+    def _init_attr_value_utcoffset(self, utcoffset):
+        super(Property, self)._init_attr_value_utcoffset(utcoffset)
+        self._postCreateValue(Value.VALUETYPE_UTC_OFFSET)
+
     def _init_attr_value_adr(self, reqstatus):
         # Value
         self.mValue = AdrValue(reqstatus)
-- 
2.43.0


From e8668421ae662faded0dc0823557f08a2a0cda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 078/114] fix: a vCard property without a default type has the
 same value after writing and reading (P25)

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 43f8abc..948beec 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -156,7 +156,7 @@ class Property(PropertyBase):
             self._init_attr_value_int(value)
 
         elif isinstance(value, str):
-            self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_TEXT))
+            self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN))
 
         elif isinstance(value, DateTime):
             self._init_attr_value_datetime(value)
-- 
2.43.0


From d49628501de7e29978cd3dc5c0866187a50c230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 079/114] fix: fix: a copied component is its own master, like
 its original (P22)

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index a8d72af..e5c063a 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -92,7 +92,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
-- 
2.43.0


From a86833abae284d91a4b3e68bc310ba036015898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 080/114] fix: fix: a copied alarm keeps its place among the
 alarms of its component (P22)

---
 src/pycalendar/icalendar/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 7f44da5..658442a 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -61,6 +61,9 @@ class Component(ComponentBase):
 
         other.mChanged = self.mChanged
 
+        if hasattr(self, "mMapKey"):
+            other.mMapKey = self.mMapKey
+
         return other
 
     def __repr__(self):
-- 
2.43.0


From b558c509ff8753ccda0f61db4c058874baf17517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 081/114] fix: fix: a copied email alarm has its own list of
 attendees (P22)

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 6c999b1..921f410 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -181,7 +181,7 @@ class VAlarm(Component):
             self.mAttendees = attendees
 
         def duplicate(self):
-            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
+            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, list(self.mAttendees) if self.mAttendees is not None else None)
 
         def load(self, valarm):
             # Get properties
-- 
2.43.0


From 44359a97fa23e869ee8a9f744bbb0d09bf9f1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 082/114] fix: an alarm action or RELATED parameter means the
 same in upper and lower case (P29)

---
 src/pycalendar/icalendar/valarm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 921f410..7829967 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -420,7 +420,7 @@ class VAlarm(Component):
         # Get the ACTION
         temp = self.loadValueString(definitions.cICalProperty_ACTION)
         if temp is not None:
-            self.mAction = VAlarm.sActionMap.get(temp, definitions.eAction_VAlarm_Unknown)
+            self.mAction = VAlarm.sActionMap.get(temp.upper(), definitions.eAction_VAlarm_Unknown)
             self.loadAction()
 
         # Get the trigger
@@ -440,7 +440,7 @@ class VAlarm(Component):
 
                 # Look for RELATED parameter
                 if prop.hasParameter(definitions.cICalParameter_RELATED):
-                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED)
+                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED).upper()
                     if temp == definitions.cICalParameter_RELATED_START:
                         self.mTriggerOnStart = True
                     elif temp == definitions.cICalParameter_RELATED_END:
-- 
2.43.0


From 8059396835ee380e5bce60b0db38a9a0ebce1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 083/114] fix: the times at which an alarm triggers can be
 computed (P29)

---
 src/pycalendar/icalendar/valarm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 7829967..41b99ed 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -592,7 +592,7 @@ class VAlarm(Component):
     def getNextTrigger(self, dt):
         if not self.mStatusInit:
             self.initNextTrigger()
-        dt.copy(self.mNextTrigger)
+        dt._copyFrom(self.mNextTrigger)
 
     def alarmTriggered(self, dt):
         # Remove existing
@@ -600,11 +600,11 @@ class VAlarm(Component):
         self.removeProperties(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
 
         # Updated cached values
-        self.mLastTrigger.copy(dt)
+        self.mLastTrigger._copyFrom(dt)
 
         if self.mDoneCount < self.mRepeats:
             self.mNextTrigger = self.mLastTrigger + self.mRepeatInterval
-            dt.copy(self.mNextTrigger)
+            dt._copyFrom(self.mNextTrigger)
             self.mDoneCount += 1
             self.mAlarmStatus = definitions.eAlarm_Status_Pending
         else:
@@ -669,15 +669,15 @@ class VAlarm(Component):
         # If absolute trigger, use that
         if self.isTriggerAbsolute():
             # Get the trigger on
-            dt.copy(self.getTriggerOn())
+            dt._copyFrom(self.getTriggerOn())
         else:
-            # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            # Get the parent component (must be ComponentRecur type)
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
 
                 # Offset by duration
-                dt.copy(trigger + self.getTriggerDuration())
+                dt._copyFrom(trigger + self.getTriggerDuration())
 
 Component.registerComponent(definitions.cICalComponent_VALARM, VAlarm)
-- 
2.43.0


From 76f643d4c5d5492bae1759cfa0f10ab6f961a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 084/114] fix: an alarm of an all-day component triggers at its
 offset from midnight (P29)

---
 src/pycalendar/icalendar/valarm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 41b99ed..cdf31be 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -675,7 +675,12 @@ class VAlarm(Component):
             owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
-                trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
+                trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()].duplicate()
+
+                # An all-day component starts and ends at midnight
+                if trigger.isDateOnly():
+                    trigger.setDateOnly(False)
+                    trigger.setHHMMSS(0, 0, 0)
 
                 # Offset by duration
                 dt._copyFrom(trigger + self.getTriggerDuration())
-- 
2.43.0


From f4b2e628b539df5c6c79b91d7fd1f50136510c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 085/114] fix: the time an alarm last triggered is the one that
 is written (P29)

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index cdf31be..1a9f20c 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -611,7 +611,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger.duplicate()))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
-- 
2.43.0


From e38dc78d85fe477446f5f3c64b0d7e59d5edfe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 086/114] fix: the busy time of a free-busy component is given
 clipped to a period (P24)

---
 src/pycalendar/icalendar/freebusy.py  | 35 ++++++++++++++++++++++++---
 src/pycalendar/icalendar/vfreebusy.py |  3 ++-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..9893f1d 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -15,6 +15,9 @@
 ##
 
 
+from pycalendar.period import Period
+
+
 class FreeBusy(object):
 
     FREE = 0
@@ -45,6 +48,32 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
-        # TODO:
-        pass
+    def clipped(self, period):
+        """
+        The part of this item that lies in the period, which it must overlap.
+        """
+        start = max(self.mPeriod.getStart(), period.getStart())
+        end = min(self.mPeriod.getEnd(), period.getEnd())
+        return FreeBusy(self.mType, Period(start, end))
+
+    @staticmethod
+    def resolveOverlaps(fb):
+        """
+        Change the list of L{FreeBusy} items in place to one in time order that covers the same busy time
+        without overlaps, each time with the strongest type that applies.
+        """
+        points = sorted(
+            [item.getPeriod().getStart() for item in fb] + [item.getPeriod().getEnd() for item in fb],
+            cmp=lambda x, y: x.compareDateTime(y)
+        )
+        result = []
+        for start, end in zip(points[:-1], points[1:]):
+            period = Period(start, end)
+            types = [item.getType() for item in fb if start < end and item.isPeriodOverlap(period)]
+            type = max(types) if types else FreeBusy.FREE
+            if type == FreeBusy.FREE:
+                continue
+            if result and result[-1].getType() == type and result[-1].getPeriod().getEnd() == start:
+                period = Period(result.pop().getPeriod().getStart(), end)
+            result.append(FreeBusy(type, period))
+        fb[:] = result
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 4b6c050..feefb5e 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -216,7 +216,8 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                if fb.isPeriodOverlap(period):
+                    list.append(fb.clipped(period))
 
     def cacheBusyTime(self):
 
-- 
2.43.0


From 67cbf03c830626304ea0705966f9c793edb85acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 087/114] fix: the busy time of a calendar can be computed
 (P24)

---
 src/pycalendar/icalendar/calendar.py | 102 +++++++++------------------
 1 file changed, 33 insertions(+), 69 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 1fb8d6b..0176e9c 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -26,6 +26,7 @@ from pycalendar.icalendar.componentrecur import ComponentRecur
 from pycalendar.icalendar.freebusy import FreeBusy
 from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.validation import ICALENDAR_VALUE_CHECKS
+from pycalendar.parameter import Parameter
 from pycalendar.parser import ParserContext
 from pycalendar.period import Period
 from pycalendar.utils import readFoldedLine
@@ -533,66 +534,38 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
-        # First create expanded set
-        # TODO: fix this
-        # list = ExpandedComponents()
-        self.getVEvents(period, list)
-        if len(list) == 0:
-            return
-
-        # Get start/end list for each non-all-day expanded components
-        dtstart = []
-        dtend = []
-        for dt in list:
-
-            # Ignore if all-day
-            if dt.getInstanceStart().isDateOnly():
-                continue
-
-            # Ignore if transparent to free-busy
-            transp = ""
-            if dt.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
-                continue
-
-            # Add start/end to list
-            dtstart.append(dt.getInstanceStart())
-            dtend.append(dt.getInstanceEnd())
-
-        # No longer need the expanded items
-        list.clear()
+        # Get the busy time of the events
+        list = []
+        self._getVEventsBusyTime(period, list)
+        FreeBusy.resolveOverlaps(list)
 
         # Create non-overlapping periods as properties in the freebusy component
-        temp = Period(dtstart.front(), dtend.front())
-        dtstart_iter = dtstart.iter()
-        dtstart_iter.next()
-        dtend_iter = dtend.iter()
-        dtend_iter.next()
-        for _ignore in (None,):
-
-            # Check for non-overlap
-            if dtstart_iter > temp.getEnd():
-
-                # Current period is complete
-                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+        for item in list:
+            prop = Property(definitions.cICalProperty_FREEBUSY, [item.getPeriod()])
+            if item.getType() == FreeBusy.BUSYTENTATIVE:
+                prop.addParameter(Parameter(definitions.cICalParameter_FBTYPE, definitions.cICalParameter_FBTYPE_BUSYTENTATIVE))
+            fb.addProperty(prop)
+        fb.finalise()
 
-                # Reset period to new range
-                temp = Period(dtstart_iter, dtend_iter)
+    def getFreeBusy(self, period, fb):
+        # Get the busy time of the events
+        self._getVEventsBusyTime(period, fb)
 
-            # They overlap - check for extended end
-            if dtend_iter > temp.getEnd():
+        # Now get the VFREEBUSY info
+        for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
+            vfreebusy.expandPeriodFB(period, fb)
 
-                # Extend the end
-                temp = Period(temp.getStart(), dtend_iter)
+        FreeBusy.resolveOverlaps(fb)
 
-        # Add remaining period as property
-        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+    def _getVEventsBusyTime(self, period, fb):
+        """
+        Add the busy time of the events in the period, clipped to it and in UTC, to a list.
+        """
 
-    def getFreeBusy(self, period, fb):
         # First create expanded set
-
         list = []
         self.getVEvents(period, list)
 
@@ -604,33 +577,24 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP)
+            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add free busy item to list
             status = comp.getMaster().getStatus()
             if status in (definitions.eStatus_VEvent_None, definitions.eStatus_VEvent_Confirmed):
-                fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
+                type = FreeBusy.BUSY
             elif status == definitions.eStatus_VEvent_Tentative:
-                fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
-            elif status == definitions.eStatus_VEvent_Cancelled:
+                type = FreeBusy.BUSYTENTATIVE
+            else:
                 # Cancelled => does not contribute to busy time
-                pass
-
-        # Now get the VFREEBUSY info
-        list2 = []
-        self.getVFreeBusy(period, list2)
-
-        # Get start/end list for each free-busy
-        for comp in list2:
-
-            # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+                continue
 
-        # Add remaining period as property
-        FreeBusy.resolveOverlaps(fb)
+            item = FreeBusy(type, Period(comp.getInstanceStart(), comp.getInstanceEnd()))
+            item.getPeriod().adjustToUTC()
+            if item.isPeriodOverlap(period):
+                fb.append(item.clipped(period))
 
     def getTimezoneOffsetSeconds(self, tzid, dt, relative_to_utc=False):
         # Find timezone that matches the name (which is the same as the map key)
-- 
2.43.0


From 05d11d1fe10333f6e4f9809d5a6bab01bd41db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 088/114] fix: free-busy time of a type that is not known is
 busy (P24)

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index feefb5e..63e2c80 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -252,11 +252,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Other types are treated as busy
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
-- 
2.43.0


From 5418c396c327647de4ffc575646a4010a1f1b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 089/114] fix: the busy time of a free-busy component follows
 its properties (P24)

---
 src/pycalendar/icalendar/vfreebusy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 63e2c80..1144de5 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -75,6 +75,9 @@ class VFreeBusy(Component):
         # Do inherited
         super(VFreeBusy, self).finalise()
 
+        # The busy time has to be determined again
+        self.mCachedBusyTime = False
+
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         self.mHasStart = temp is not None
-- 
2.43.0


From 0d234e464d2c9e8bc74d1ef6a191f62c730463be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 090/114] fix: an event status means the same in upper and
 lower case (P24)

---
 src/pycalendar/icalendar/vevent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..c4ee0ad 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -85,6 +85,7 @@ class VEvent(ComponentRecur):
 
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
                 self.mStatus = definitions.eStatus_VEvent_Tentative
             elif temp == definitions.cICalProperty_STATUS_CONFIRMED:
-- 
2.43.0


From 924188f08617eb595f8b892da51bbe1aa219c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 091/114] fix: timezone files are only looked for inside the
 database directory (P23)

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..7cf8d02 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        # Only ever look at files inside the database directory
+        dbpath = os.path.normpath(os.path.abspath(self.dbpath))
+        tzpath = os.path.normpath(os.path.join(dbpath, "%s.ics" % (tzid,)))
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 3b3184092b5522db2f58dcfcc8e9e132bb208d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 092/114] fix: a timezone file that cannot be parsed is no
 timezone (P23)

---
 src/pycalendar/timezonedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 7cf8d02..0fbc2cc 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -15,7 +15,7 @@
 ##
 
 from pycalendar.exceptions import NoTimezoneInDatabase, \
-    InvalidData
+    ErrorBase
 import os
 
 
@@ -121,7 +121,7 @@ class TimezoneDatabase(object):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-            except (IOError, InvalidData):
+            except (IOError, ErrorBase):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
         else:
             raise NoTimezoneInDatabase(self.dbpath, tzid)
-- 
2.43.0


From ee63f6c7ff9e4ef4fd719f9149b56c6a082db496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 093/114] fix: a timezone that is added is not a standard one
 (P23)

---
 src/pycalendar/timezonedb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 0fbc2cc..7bb0b94 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -137,6 +137,8 @@ class TimezoneDatabase(object):
         copy = tz.duplicate(self.calendar)
         self.calendar.addComponent(copy)
         self.tzcache[copy.getID()] = copy
+        self.stdtzcache.discard(copy.getID())
+        self.notstdtzcache.add(copy.getID())
 
     def _addStandardTimezone(self, tz):
         """
@@ -147,9 +149,10 @@ class TimezoneDatabase(object):
         @param tz: the VTIMEZONE component to add
         @type tz: L{Component}
         """
-        if tz.getID() not in self.tzcache:
+        if self.tzcache.get(tz.getID()) is None:
             self.addTimezone(tz)
         self.stdtzcache.add(tz.getID())
+        self.notstdtzcache.discard(tz.getID())
 
     def _isStandardTimezone(self, tzid):
         """
-- 
2.43.0


From 3af52a159e13bc059f8157bd1704dee054b70f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 094/114] fix: the timezones of a jCal calendar are stored like
 those of an iCalendar one (P23)

---
 src/pycalendar/icalendar/calendar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 0176e9c..be1d625 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -197,6 +197,17 @@ class Calendar(ContainerBase):
 
         return result
 
+    @classmethod
+    def parseJSON(cls, jobject, parent, comp=None):
+
+        result = super(Calendar, cls).parseJSON(jobject, parent, comp)
+
+        # We need to store all timezones in the static object so they can be accessed by any date object
+        from pycalendar.timezonedb import TimezoneDatabase
+        TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
+
+        return result
+
     def parseComponent(self, ins):
 
         result = None
-- 
2.43.0


From ad7bcf6d3dd8fcfaf3e99885c22ff340a14f6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 095/114] fix: timezones referred to by any value of any
 sub-component are included (P23)

---
 src/pycalendar/icalendar/component.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 658442a..50ecedf 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -17,8 +17,10 @@
 from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
+from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
+from pycalendar.periodvalue import PeriodValue
 import os
 import time
 import uuid
@@ -184,11 +186,22 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
+                # Try to get date-time or period values from the property
+                values = (prop.getValue(),) if prop.getMultiValue() is None else prop.getMultiValue().getValues()
+                for value in values:
+                    if isinstance(value, DateTimeValue):
+                        dt = value.getValue()
+                    elif isinstance(value, PeriodValue):
+                        dt = value.getValue().getStart()
+                    else:
+                        continue
+
                     # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                    if dt.getTimezoneID():
+                        tzids.add(dt.getTimezoneID())
+
+        # Sub-components too
+        for component in self.mComponents:
+            component.getTimezones(tzids)
 
 Component.sComponentType = Component
-- 
2.43.0


From 4987a56c0a8703c95d7beac8af479c265eba3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:36 +0000
Subject: [PATCH 096/114] fix: the times of a period have the time zone of its
 property (P23)

---
 src/pycalendar/icalendar/property.py | 14 +++++++++++++-
 src/pycalendar/period.py             |  8 ++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index b492b0f..72a53f3 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,7 +266,7 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME) and self.hasParameter(definitions.cICalParameter_TZID):
+        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
             if isinstance(self.mValue, DateTimeValue):
@@ -276,6 +276,11 @@ class Property(PropertyBase):
                 for item in self.mValue.getValues():
                     if isinstance(item, DateTimeValue):
                         item.getValue().setTimezoneID(tzid)
+                    elif isinstance(item, PeriodValue):
+                        item.getValue().setTimezoneID(tzid)
+
+            elif isinstance(self.mValue, PeriodValue):
+                self.mValue.getValue().setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
@@ -329,6 +334,13 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0 and periodlist[0].getStart().local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=periodlist[0].getStart().getTimezoneID()))
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 42e31d2..83d6431 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -102,6 +102,14 @@ class Period(ValueMixin):
         except IndexError:
             raise ValueError("Period: index error")
 
+    def setTimezoneID(self, tzid):
+        """
+        Give the local times of this period a time zone. UTC times stay what they are.
+        """
+        for dt in (self.mStart, self.mEnd):
+            if dt is not None and not dt.utc():
+                dt.setTimezoneID(tzid)
+
     def generate(self, os):
         try:
             self.mStart.generate(os)
-- 
2.43.0


From 54a950e5487ebf631cf9ff0e5c77667d0dc8dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:24 +0000
Subject: [PATCH 097/114] fix: what a component shows follows from the repair
 of its properties (P21)

Removing DTEND, DURATION or extra STATUS properties left the cached end,
duration and status as they were.
---
 src/pycalendar/icalendar/available.py      | 1 +
 src/pycalendar/icalendar/componentrecur.py | 8 ++++++++
 src/pycalendar/icalendar/vevent.py         | 1 +
 src/pycalendar/icalendar/vtodo.py          | 1 +
 4 files changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..14d56c1 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -72,6 +72,7 @@ class Available(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self.recache()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index e5c063a..0ea94b9 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -320,6 +320,13 @@ class ComponentRecur(Component):
 
         return fixed, unfixed
 
+    def recache(self):
+        """
+        Read the cached values again after properties have been changed.
+        """
+        self.finalise()
+        self.initFromMaster()
+
     def check_cardinality_STATUS_Fix(self, fixed, unfixed, doFix):
         """
         Special for bug with STATUS where STATUS:CANCELLED is added alongside
@@ -334,6 +341,7 @@ class ComponentRecur(Component):
                         if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:
                             self.removeProperties(propname)
                             self.addProperty(Property(propname, definitions.cICalProperty_STATUS_CANCELLED))
+                            self.recache()
                             fixed.append(logProblem)
                             break
                     else:
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index c4ee0ad..3b7f31c 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -119,6 +119,7 @@ class VEvent(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+                self.recache()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index eafc421..36ef6a0 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -285,6 +285,7 @@ class VToDo(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DURATION)
+                self.recache()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From e5e392e5318b5a81d9d167a502d8e262ae501450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 098/114] fix: a rule set read from a file has its name (P26)

---
 src/zonal/rule.py      | 2 +-
 src/zonal/tzconvert.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..e74442b 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -65,7 +65,7 @@ class RuleSet(object):
 
         splitlines = lines.split("\n")
         for line in splitlines:
-            splits = line.expandtabs(1).split(" ")
+            splits = line.split()
             name = splits[1]
             assert name, "Must have a zone name: '%s'" % (lines,)
             if not self.name:
diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..bfd223e 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -81,7 +81,9 @@ class tzconvert(object):
     def parseRule(self, line):
         ruleitem = rule.Rule()
         ruleitem.parse(line)
-        self.rules.setdefault(ruleitem.name, rule.RuleSet()).rules.append(ruleitem)
+        ruleset = self.rules.setdefault(ruleitem.name, rule.RuleSet())
+        ruleset.name = ruleitem.name
+        ruleset.rules.append(ruleitem)
 
     def parseZone(self, line, f):
         os = StringIO.StringIO()
-- 
2.43.0


From ae19b7128dcbda3783b2e8b29e4e9d967821e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 099/114] fix: a rule is expanded again for another last year
 (P26)

---
 src/zonal/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index e74442b..73a7019 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -176,6 +176,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_max = None
 
     def __str__(self):
         return self.generate()
@@ -417,12 +418,13 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_max != maxYear:
             start = self.startYear()
             end = self.endYear()
             if end > maxYear:
                 end = maxYear - 1
             self.dt_cache = []
+            self.dt_cache_max = maxYear
             for year in xrange(start, end + 1):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
-- 
2.43.0


From a6dae8af7e768fca02abfa47fea8e23e6e8f8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 100/114] fix: a zone line none of whose rules has started has
 its own offset (P26)

---
 src/zonal/zone.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..5c538ee 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -460,6 +460,11 @@ class ZoneRule(object):
                 last_tzrule = tzrule
                 found_one = True
 
+            if not found_one:
+                # None of the rules starts early enough - just use the standard offset
+                last_offset = self.getUTCOffset()
+                last_stdoffset = self.getUTCOffset()
+
             if found_start == 0:
                 results.append((lastUntilUTC, last_offset, self, None))
 
-- 
2.43.0


From 3ace784bcdbaebca413cdd9d54468148d2ff7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 101/114] fix: a VTIMEZONE without changes in its range has the
 offset there (P26)

---
 src/zonal/zone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 5c538ee..38e1d6e 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -189,6 +189,9 @@ class Zone(object):
         vtz.addProperty(Property("X-LIC-LOCATION", self.name))
 
         transitions = self.expand(rules, minYear, maxYear)
+        if len(transitions) == 0:
+            # Nothing changes in this range of years so what was there before has to be used
+            transitions = self.expand(rules, 1800, maxYear)[-1:]
 
         # Group rules
         lastZoneRule = None
-- 
2.43.0


From defaf2656e7e567af9ad8f2247c937f2dd9f95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 102/114] fix: a zone that begins with a saving has it (P26)

---
 src/zonal/zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 38e1d6e..3fb0bac 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -164,7 +164,7 @@ class Zone(object):
                     if len(results):
                         results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
                     else:
-                        results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
+                        results.append((last_transition[0], last_transition[1], to_offset, zonerule, None))
             last_transition = (dt, to_offset, last_transition[2], rule)
 
         return results
-- 
2.43.0


From 25f6175d73e2d5317aa925b6d881f30f6fb0bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 103/114] fix: the start of a zone line is not an instance of
 the rule in force (P26)

---
 src/zonal/zone.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 3fb0bac..c47a333 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -21,6 +21,7 @@ from pycalendar.icalendar.vtimezone import VTimezone
 from pycalendar.icalendar.vtimezonedaylight import Daylight
 from pycalendar.icalendar.vtimezonestandard import Standard
 from pycalendar.utcoffsetvalue import UTCOffsetValue
+import copy
 import rule
 import utils
 
@@ -450,6 +451,10 @@ class ZoneRule(object):
                             last_offset = self.getUTCOffset()
                             last_stdoffset = self.getUTCOffset()
                             dtutc = dt.getUTC(last_offset, last_stdoffset)
+                        if last_tzrule is not None and last_tzrule.toYear != "only":
+                            # The start of this line is not an instance of the rule in force
+                            last_tzrule = copy.copy(last_tzrule)
+                            last_tzrule.toYear = "only"
                         results.append((lastUntilUTC, last_offset, self, last_tzrule))
                     found_start = True
 
-- 
2.43.0


From a0dcd01e9206993da521d7c3f00ddd4a8383037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:52 +0000
Subject: [PATCH 104/114] fix: a rule goes on for ever with its last pair of
 offsets only (P26)

---
 src/zonal/rule.py | 6 ++++--
 src/zonal/zone.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 73a7019..ea24ac5 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -429,7 +429,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount):
+    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, last=True):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -447,6 +447,8 @@ class Rule(object):
         @type offsetto: C{int}
         @param instanceCount: the number of instances in the set
         @type instanceCount: C{int}
+        @param last: whether these are the last instances of the rule
+        @type last: C{bool}
         """
 
         # Determine type of component based on offset
@@ -549,7 +551,7 @@ class Rule(object):
                     assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
             # Add any UNTIL
-            if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
+            if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999 or not last:
                 until = end.duplicate()
                 until.offsetSeconds(-offsetfrom)
                 until.setTimezoneUTC(True)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index c47a333..9a55de3 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -217,6 +217,7 @@ class Zone(object):
                                 rulemap[tzrule][startIndex][1],
                                 rulemap[tzrule][startIndex][2],
                                 index - startIndex,
+                                last=False,
                             )
                             lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
                             startIndex = index
-- 
2.43.0


From 9e062a5597a461154c15e9a7e97c2d344f332d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 105/114] fix: RDATEs where an RRULE cannot describe the
 transitions of a rule (P26)

---
 src/zonal/rule.py | 174 ++++++++++++++++++++++++++++------------------
 src/zonal/zone.py |   6 +-
 2 files changed, 111 insertions(+), 69 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index ea24ac5..540770a 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -20,6 +20,7 @@ from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.recurrence import Recurrence
 from pycalendar.icalendar.vtimezonedaylight import Daylight
 from pycalendar.icalendar.vtimezonestandard import Standard
+from pycalendar.period import Period
 from pycalendar.utcoffsetvalue import UTCOffsetValue
 from pycalendar.utils import daysInMonth
 import utils
@@ -389,6 +390,96 @@ class Rule(object):
 
         return offset, day, bymday
 
+    def getRecurrence(self, start):
+        """
+        Get the RRULE (without an end) that describes the instances of this Rule.
+
+        @param start: the start time for the first instance
+        @type start: L{DateTime}
+        """
+
+        rrule = Recurrence()
+        rrule.setFreq(definitions.eRecurrence_YEARLY)
+        rrule.setByMonth((Rule.MONTH_NAME_TO_POS[self.inMonth],))
+        if self.onDay in Rule.LASTDAY_NAME_TO_RDAY:
+
+            # Need to check whether day has changed due to time shifting
+            dayOfWeek = start.getDayOfWeek()
+            indicatedDay = Rule.LASTDAY_NAME_TO_DAY[self.onDay]
+
+            if dayOfWeek == indicatedDay:
+                rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
+            elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
+                # This is OK as we have moved back a day and thus no month transition
+                # could have occurred
+                fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
+                offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, fakeOffset)
+                if bymday:
+                    rrule.setByMonthDay(bymday)
+                rrule.setByDay(((offset, rday),))
+            else:
+                # This is bad news as we have moved forward a day possibly into the next month
+                # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
+                rrule.setByMonth(())
+                daysBackStartOfMonth = (
+                    365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
+                )
+                rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
+                rrule.setByDay(
+                    ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
+                )
+
+        elif self.onDay.find(">=") != -1:
+            indicatedDay, dayoffset = self.onDay.split(">=")
+
+            # Need to check whether day has changed due to time shifting
+            dayOfWeek = start.getDayOfWeek()
+            indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
+
+            if dayOfWeek == indicatedDay:
+                offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
+                if bymday:
+                    rrule.setByMonthDay(bymday)
+                rrule.setByDay(((offset, rday),))
+            elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
+                # This is bad news as we have moved backward a day possibly into the next month
+                # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
+                rrule.setByMonth(())
+                daysBackStartOfMonth = (
+                    365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
+                )
+                rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
+                rrule.setByDay(
+                    ((0, divmod(indicatedDay + 1, 7)[1]),),
+                )
+            else:
+                # This is OK as we have moved forward a day and thus no month transition
+                # could have occurred
+                offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
+                if bymday:
+                    rrule.setByMonthDay(bymday)
+                rrule.setByDay(((offset, rday),))
+        else:
+            try:
+                int(self.onDay)
+            except:
+                assert False, "onDay value is not recognized: %s" % (self.onDay,)
+
+        return rrule
+
+    def describes(self, rrule, start, end, instances):
+        """
+        Check whether an RRULE gives exactly the instances there are. The shift of a time from
+        universal to local can move the days of the Rule across the end of a month, and that is
+        beyond what some RRULEs can do.
+        """
+        after = end.duplicate()
+        after.offsetSeconds(1)
+        results = []
+        rrule.expand(start, Period(start, after), results)
+        rrule.clear()
+        return results == list(instances)
+
     def expand(self, results, zoneinfo, maxYear):
         """
         Expand the Rule into a set of transition date/offset pairs
@@ -429,7 +520,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, last=True):
+    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, instances=(), last=True):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -447,6 +538,8 @@ class Rule(object):
         @type offsetto: C{int}
         @param instanceCount: the number of instances in the set
         @type instanceCount: C{int}
+        @param instances: the start times of all the instances
+        @type instances: C{list} of L{DateTime}
         @param last: whether these are the last instances of the rule
         @type last: C{bool}
         """
@@ -483,72 +576,19 @@ class Rule(object):
         # Now determine the recurrences (use RDATE if only one year or
         # number of instances is one)
         if self.toYear != "only" and instanceCount != 1:
-            rrule = Recurrence()
-            rrule.setFreq(definitions.eRecurrence_YEARLY)
-            rrule.setByMonth((Rule.MONTH_NAME_TO_POS[self.inMonth],))
-            if self.onDay in Rule.LASTDAY_NAME_TO_RDAY:
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.LASTDAY_NAME_TO_DAY[self.onDay]
-
-                if dayOfWeek == indicatedDay:
-                    rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
-                elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
-                    # This is OK as we have moved back a day and thus no month transition
-                    # could have occurred
-                    fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, fakeOffset)
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                else:
-                    # This is bad news as we have moved forward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
-                    )
-
-            elif self.onDay.find(">=") != -1:
-                indicatedDay, dayoffset = self.onDay.split(">=")
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
-
-                if dayOfWeek == indicatedDay:
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
-                    # This is bad news as we have moved backward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(indicatedDay + 1, 7)[1]),),
-                    )
-                else:
-                    # This is OK as we have moved forward a day and thus no month transition
-                    # could have occurred
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-            else:
-                try:
-                    int(self.onDay)
-                except:
-                    assert False, "onDay value is not recognized: %s" % (self.onDay,)
+            try:
+                rrule = self.getRecurrence(start)
+                if instances and not self.describes(rrule, start, end, instances):
+                    rrule = None
+            except AssertionError:
+                rrule = None
+
+            if rrule is None:
+                for instance in instances:
+                    comp.addProperty(Property(definitions.cICalProperty_RDATE, instance))
+                comp.finalise()
+                vtz.addComponent(comp)
+                return
 
             # Add any UNTIL
             if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999 or not last:
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 9a55de3..0d3220b 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -217,6 +217,7 @@ class Zone(object):
                                 rulemap[tzrule][startIndex][1],
                                 rulemap[tzrule][startIndex][2],
                                 index - startIndex,
+                                [item[0] for item in rulemap[tzrule][startIndex:index]],
                                 last=False,
                             )
                             lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
@@ -230,6 +231,7 @@ class Zone(object):
                         rulemap[tzrule][startIndex][1],
                         rulemap[tzrule][startIndex][2],
                         len(rulemap[tzrule]),
+                        [item[0] for item in rulemap[tzrule][startIndex:]],
                     )
                 else:
                     lastZoneRule.vtimezone(
@@ -290,8 +292,8 @@ class Zone(object):
                 mergeTo = values[0]
                 for mergeFrom in values[1:]:
                     # Copy RDATE from to and remove from actual timezone
-                    prop = mergeFrom.getProperties()[definitions.cICalProperty_RDATE][0]
-                    mergeTo.addProperty(prop)
+                    for prop in mergeFrom.getProperties()[definitions.cICalProperty_RDATE]:
+                        mergeTo.addProperty(prop)
                     vtz.mComponents.remove(mergeFrom)
 
 
-- 
2.43.0


From 033b35af6b49951b68588a3e36d2aff24ae4e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:55 +0000
Subject: [PATCH 106/114] fix: onsets at the start of a year are seen from UTC
 times in the year before (P06, P26)

---
 src/pycalendar/icalendar/vtimezone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 6dada3f..94ec484 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -154,11 +154,12 @@ class VTimezone(Component):
         temp.setTimezoneID(None)
         temp.setDateOnly(False)
 
-        # Check whether we need to recache
-        if self.mCachedExpandAllMaxYear is None or temp.mYear >= self.mCachedExpandAllMaxYear:
+        # Check whether we need to recache. A UTC time can be in the year before the one its local
+        # time is in, so there must always be a whole year beyond the year of the time.
+        if self.mCachedExpandAllMaxYear is None or temp.mYear + 1 >= self.mCachedExpandAllMaxYear:
             cacheMax = temp.duplicate()
             cacheMax.setHHMMSS(0, 0, 0)
-            cacheMax.offsetYear(2)
+            cacheMax.offsetYear(3)
             cacheMax.setMonth(1)
             cacheMax.setDay(1)
             self.mCachedExpandAll = self.expandAll(None, cacheMax)
-- 
2.43.0


From 519378422baf1faaaec0863897f1773f63b45a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 107/114] fix: all the letters for universal time are known
 (P26)

---
 src/zonal/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index dc074e9..6d41d48 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -21,6 +21,8 @@ class DateTime(object):
     and that can generate appropriate localtime or UTC offsets based on Zone/Rule offsets.
     """
 
+    UTC_MODES = ("u", "g", "z",)
+
     def __init__(self, dt, mode):
         self.dt = dt
         self.mode = mode
@@ -33,7 +35,7 @@ class DateTime(object):
 
     def getLocaltime(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in self.UTC_MODES:
             new_dt.offsetSeconds(offset)
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset + offset)
@@ -41,7 +43,7 @@ class DateTime(object):
 
     def getUTC(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in self.UTC_MODES:
             pass
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset)
-- 
2.43.0


From 794615a8e0aadec143250ffa7605582506e33159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 108/114] fix: the minutes of a negative saving are negative
 (P26)

---
 src/zonal/rule.py | 2 +-
 src/zonal/zone.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 540770a..d441c43 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -252,7 +252,7 @@ class Rule(object):
             minutes = int(splits[1])
         else:
             minutes = 0
-        negative = hours < 0
+        negative = splits[0].startswith("-")
         if negative:
             return -((-hours * 60) + minutes) * 60
         else:
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 0d3220b..ecb5391 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -500,9 +500,11 @@ class ZoneRule(object):
         offset = 0
         if self.rule != "-":
             splits = self.rule.split(":")
-            offset = 60 * 60 * int(splits[0])
+            offset = 60 * 60 * abs(int(splits[0]))
             if len(splits) > 1:
                 offset += 60 * int(splits[1])
+            if splits[0].startswith("-"):
+                offset = -offset
         return offset
 
     def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
-- 
2.43.0


From 865d2cf75cf6cd93094559b47dad8b8a8844d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 109/114] fix: every form of day can be used in rules and at
 the end of zone lines (P26)

---
 src/zonal/rule.py | 43 +++++++++++++++++++++++++++++++++----------
 src/zonal/zone.py | 22 +++++-----------------
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index d441c43..816c8e5 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -310,19 +310,35 @@ class Rule(object):
             dt.setMinutes(minutes)
 
         # Now determine the actual start day
-        if self.onDay in Rule.LASTDAY_NAME_TO_DAY:
-            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[self.onDay])
-        elif self.onDay.find(">=") != -1:
-            splits = self.onDay.split(">=")
+        Rule.setOnDay(dt, self.onDay)
+
+        return dt, special
+
+    @staticmethod
+    def setOnDay(dt, onDay):
+        """
+        Set the day of a date-time to the one meant by an ON or UNTIL day.
+
+        @param dt: the date-time with the year and month
+        @type dt: L{DateTime}
+        @param onDay: the day
+        @type onDay: C{str}
+        """
+
+        if onDay in Rule.LASTDAY_NAME_TO_DAY:
+            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[onDay])
+        elif onDay.find(">=") != -1:
+            splits = onDay.split(">=")
             dt.setNextDayOfWeek(int(splits[1]), Rule.DAY_NAME_TO_DAY[splits[0]])
+        elif onDay.find("<=") != -1:
+            splits = onDay.split("<=")
+            dt.setNextDayOfWeek(int(splits[1]) - 6, Rule.DAY_NAME_TO_DAY[splits[0]])
         else:
             try:
-                day = int(self.onDay)
+                day = int(onDay)
                 dt.setDay(day)
             except:
-                assert False, "onDay value is not recognized: %s" % (self.onDay,)
-
-        return dt, special
+                assert False, "onDay value is not recognized: %s" % (onDay,)
 
     def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
         """
@@ -429,8 +445,15 @@ class Rule(object):
                     ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
                 )
 
-        elif self.onDay.find(">=") != -1:
-            indicatedDay, dayoffset = self.onDay.split(">=")
+        elif self.onDay.find("<=") != -1 and int(self.onDay.split("<=")[1]) < 7:
+            assert False, "No RRULE for days across the start of a month"
+
+        elif self.onDay.find(">=") != -1 or self.onDay.find("<=") != -1:
+            if self.onDay.find(">=") != -1:
+                indicatedDay, dayoffset = self.onDay.split(">=")
+            else:
+                indicatedDay, dayoffset = self.onDay.split("<=")
+                dayoffset = int(dayoffset) - 6
 
             # Need to check whether day has changed due to time shifting
             dayOfWeek = start.getDayOfWeek()
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index ecb5391..facae07 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -378,23 +378,11 @@ class ZoneRule(object):
                 if len(splits) > 1 and not splits[1].startswith("#"):
                     month = int(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
                     if len(splits) > 2 and not splits[2].startswith("#"):
-                        if splits[2] == "lastSun":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "lastSat":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SATURDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=1":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=8":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(8, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        day = int(splits[2])
+                        dt = DateTime(year=year, month=month, day=1)
+                        rule.Rule.setOnDay(dt, splits[2])
+                        day = dt.getDay()
+                        month = dt.getMonth()
+                        year = dt.getYear()
                         if len(splits) > 3 and not splits[3].startswith("#"):
                             splits = splits[3].split(":")
                             hours = int(splits[0])
-- 
2.43.0


From beeedea9a7bbc1a8ee21d4fa51142a846857f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 110/114] fix: a calendar can be renamed (P30)

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index be1d625..c0fb7f0 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -108,7 +108,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
-- 
2.43.0


From 0e7c365afff81046cfbff516a2cb0d90a63d2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 111/114] fix: the status of a to-do is read in any letter case
 (P30)

---
 src/pycalendar/icalendar/vtodo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 36ef6a0..52db80e 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -248,6 +248,7 @@ class VToDo(ComponentRecur):
         # Get STATUS
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
                 self.mStatus = definitions.eStatus_VToDo_NeedsAction
             elif temp == definitions.cICalProperty_STATUS_COMPLETED:
-- 
2.43.0


From a0a490d8184a79659cdead409a14d624a3c2011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 112/114] fix: the status of a to-do can be removed (P30)

---
 src/pycalendar/icalendar/vtodo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 52db80e..d8fa425 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -336,8 +336,9 @@ class VToDo(ComponentRecur):
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
-- 
2.43.0


From 03c19d5bda7053eb3037a86f4b8fb216d5c87ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 113/114] fix: the completion state of a to-do is given as
 text, also without a status (P30)

---
 src/pycalendar/icalendar/vtodo.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index d8fa425..8492e5c 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -153,18 +153,20 @@ class VToDo(ComponentRecur):
         self.mStatus = status
 
     def getStatusText(self):
-        sout = StringIO()
+        sout = StringIO.StringIO()
 
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (
+            definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess
+        ):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
+                    sout.write("Due: ")
                     whendue = self.getEnd() - today
                     if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                        sout.write(str(whendue.getDays()))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -174,10 +176,10 @@ class VToDo(ComponentRecur):
                     sout.write("Overdue: ")
                     overdue = today - self.getEnd()
                     if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                        sout.write(str(overdue.getWeeks()))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue.getDays() + 1))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -187,13 +189,15 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
 
     def getCompletionState(self):
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (
+            definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess
+        ):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
-- 
2.43.0


From 11c7cd085780d5e67e5481b3c137ad36506241f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 114/114] fix: to-dos can be sorted for display (P30)

---
 src/pycalendar/icalendar/vtodo.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 8492e5c..c4ff960 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -40,27 +40,27 @@ class VToDo(ComponentRecur):
         s2 = e2.getMaster()
 
         # Check status first (convert None -> Needs action for tests)
-        status1 = s1.self.mStatus
-        status2 = s2.self.mStatus
+        status1 = s1.mStatus
+        status2 = s2.mStatus
         if status1 == definitions.eStatus_VToDo_None:
             status1 = definitions.eStatus_VToDo_NeedsAction
         if status2 == definitions.eStatus_VToDo_None:
             status2 = definitions.eStatus_VToDo_NeedsAction
         if status1 != status2:
             # More important ones at the top
-            return status1 < status2
+            return cmp(status1, status2)
 
         # At this point the status of each is the same
 
         # If status is cancelled sort by start time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Cancelled:
+        if s1.mStatus == definitions.eStatus_VToDo_Cancelled:
             # Older ones at the bottom
-            return s1.mStart > s2.mStart
+            return s2.mStart.compareDateTime(s1.mStart)
 
         # If status is completed sort by completion time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Completed:
+        if s1.mStatus == definitions.eStatus_VToDo_Completed:
             # Older ones at the bottom
-            return s1.self.mCompleted > s2.self.mCompleted
+            return s2.mCompleted.compareDateTime(s1.mCompleted)
 
         # Check due date exists
         if s1.mHasEnd != s2.mHasEnd:
@@ -69,23 +69,23 @@ class VToDo(ComponentRecur):
 
             # Ones with due dates after today below ones without due dates
             if s1.hasEnd():
-                return s1.mEnd <= now
+                return -1 if s1.mEnd <= now else 1
             elif s2.hasEnd():
-                return now < s2.mEnd
+                return -1 if now < s2.mEnd else 1
 
         # Check due dates if present
         if s1.mHasEnd:
             if s1.mEnd != s2.mEnd:
                 # Soonest dues dates above later ones
-                return s1.mEnd < s2.mEnd
+                return s1.mEnd.compareDateTime(s2.mEnd)
 
         # Check priority next
-        if s1.self.mPriority != s2.self.mPriority:
+        if s1.mPriority != s2.mPriority:
             # Higher priority above lower ones
-            return s1.self.mPriority < s2.self.mPriority
+            return cmp(s1.mPriority, s2.mPriority)
 
         # Just use start time - older ones at the top
-        return s1.mStart < s2.mStart
+        return s1.mStart.compareDateTime(s2.mStart)
 
     propertyCardinality_1 = (
         definitions.cICalProperty_DTSTAMP,
-- 
2.43.0

