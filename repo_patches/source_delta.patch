From ec0ca424820d21d38bc13989cc721f8bf1090ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 01/17] fix: calendar conversions of leap-year ends, dates
 before 1968, impossible dates/times and zone offsets

---
 src/utils.cpp | 74 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 16663f1..de4e870 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -424,6 +424,13 @@ const int LEAP_MONTH_OFFSET[12] = {
 
 const int MAX_DAY = 0xffffffff/(24*60*60);
 
+static int DaysInMonth(int month,bool is_leap_year)
+{
+    if (month == 12) return 31;
+    if (is_leap_year) return LEAP_MONTH_OFFSET[month] - LEAP_MONTH_OFFSET[month-1];
+    return MONTH_OFFSET[month] - MONTH_OFFSET[month-1];
+}
+
 bool ScanUnixTime(const char *&p,uint32_t &value)
 {
     value = 0;
@@ -438,9 +445,9 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     if (*(p++) != '-') return false;
     if (!ScanInt(p,day)) return false;    
 
-    if (year < 1970) 
+    if (year < 1970 || year > 2106) 
     { 
-        fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970.",year);
+        fprintf(stderr,"Unsupported year %d! Unix epoch starts at 1970, 32 bit time ends in 2106.",year);
         return false;
     }
 
@@ -454,6 +461,7 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
         value += LEAP_MONTH_OFFSET[month-1];
     else
         value += MONTH_OFFSET[month-1];
+    if (day < 1 || day > DaysInMonth(month,is_leap_year)) return false;
     value += day - 1;
 
     if (value > (uint32_t)MAX_DAY)
@@ -463,22 +471,28 @@ bool ScanUnixTime(const char *&p,uint32_t &value)
     }
 
     value *= 24*60*60;
+    const uint32_t midnight = value;
 
     if (*p == '\0') return true; // end of string
     if (*p != ' ' && *p != 'T') return false;
     p++;
     
     if (!ScanInt(p,hour)) return false;    
+    if (hour < 0 || hour > 23) return false;
     value += hour*3600;
+    if (value < midnight) return false; // over 32 bits
     if (*p == '\0') return true; // end of string
     if (*(p++) != ':') return false;
 
     if (!ScanInt(p,minute)) return false;    
+    if (minute < 0 || minute > 59) return false;
     value += minute*60;
     if (*(p++) != ':') return false;
 
     if (!ScanInt(p,second)) return false;    
+    if (second < 0 || second > 59) return false;
     value += second;
+    if (value < midnight) return false; // over 32 bits
     return true;
 }
 
@@ -490,11 +504,13 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
     const char *start = p;
 
     if (!ScanUnixTime(p,tm32)) return false;
-    if (*(p++) != '.') 
+    int64_t tm64 = tm32;
+    if (*p != '.') 
     {
-        value = (int64_t)tm32*1000; // whole seconds only
+        value = tm64*1000; // whole seconds only
         return true;  // OK
     }
+    p++;
 
     if (*p < '0' || *p > '9') return false;
     int v000 = 100 * (*(p++) - '0');
@@ -512,22 +528,28 @@ bool ScanUnixTime64msec(const char *&p,int64_t &value)
         {
             char sign = *(p++);
             int hour,min;
-            if (ScanInt(p,hour) && *(p++) == ':' && ScanInt(p,min))
-            {
-                if (sign == '+')
-                    tm32 -= hour*3600 + min*60; 
-                else
-                    tm32 += hour*3600 + min*60; 
-            }
+            if (!ScanInt(p,hour) || hour < 0 || hour > 23) return false;
+            if (*p != ':') return false;
+            p++;
+            if (!ScanInt(p,min) || min < 0 || min > 59) return false;
+            if (sign == '+')
+                tm64 -= hour*3600 + min*60; 
+            else
+                tm64 += hour*3600 + min*60; 
         }
             
     }
 
-    value = v000 + (int64_t)tm32 * 1000;
+    value = v000 + tm64 * 1000;
 
     return true;
 }
 
+static int FloorDiv(int a,int b) // b > 0, rounds to -infinity, years before 1969 need it
+{
+    return a >= 0 ? a / b : -((b - 1 - a) / b);
+}
+
 bool ScanUnixDate(const char *&p,int32_t &value)
 {
     int year,month,day;
@@ -548,15 +570,16 @@ bool ScanUnixDate(const char *&p,int32_t &value)
     }
 
     value = (year - 1970) * 365;
-    value += (year - 1968 - 1) / 4;   // -1 don't add 1 day for this year now
-    value -= (year - 1900 - 1) / 100;
-    value += (year - 1600 - 1) / 400;
+    value += FloorDiv(year - 1968 - 1,4);   // -1 don't add 1 day for this year now
+    value -= FloorDiv(year - 1900 - 1,100);
+    value += FloorDiv(year - 1600 - 1,400);
 
     bool is_leap_year = (((year % 4) == 0) && ((year % 100) != 0)) || ((year % 400) == 0);
     if (is_leap_year)   
         value += LEAP_MONTH_OFFSET[month-1];
     else
         value += MONTH_OFFSET[month-1];
+    if (day < 1 || day > DaysInMonth(month,is_leap_year)) return false;
     value += day - 1;
 
     return true;
@@ -600,9 +623,12 @@ char *UnixDate2Str(int32_t value,char *dst)
     int year = 2000;
 
     int y400 = value / YEARS400_TO_DAYS;
-    if (value < 0) y400--; // 1999 -> 1600..1999
     value -= y400 * YEARS400_TO_DAYS;
-
+    if (value < 0) // 1999 -> 1600..1999, but 1600-01-01 itself is exact multiple
+    {
+        y400--;
+        value += YEARS400_TO_DAYS;
+    }
 
     year += y400*400;
 
@@ -644,13 +670,13 @@ char *UnixDate2Str(int32_t value,char *dst)
     int month,day;
     if (is_leap)
     {
-        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 365);
+        ASSERT_NO_RET_NULL(2023,value >= 0 && value < 366);
         month = DAY2MONTH_LEAP[value];
         day = 1+value - LEAP_MONTH_OFFSET[month-1];
     }
     else
     {
-        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 366);
+        ASSERT_NO_RET_NULL(2024,value >= 0 && value < 365);
         month = DAY2MONTH[value];
         day = 1+value - MONTH_OFFSET[month-1];
     }
@@ -661,9 +687,15 @@ char *UnixDate2Str(int32_t value,char *dst)
 
 char *UnixTime642Str(int64_t value,char *dst)
 {
-    char *p = UnixDate2Str(value / (1000 * 60*60*24),dst);
-    p += strlen(p);
+    int64_t days = value / (1000 * 60*60*24);
     value %= 1000 * 60*60*24;
+    if (value < 0) // before 1970
+    {
+        value += 1000 * 60*60*24;
+        days--;
+    }
+    char *p = UnixDate2Str(days,dst);
+    p += strlen(p);
     sprintf(p," %02d:%02d:%02d.%03d",
         (int)((value / (1000 * 60 * 60)) % 24),
         (int)((value / (1000 * 60)) % 60),
-- 
2.43.0


From 1089ee833441487a08b92a00afbc0c5412c3f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 02/17] fix: UNIX_TIME64_MSEC is stored 8-aligned as it is
 read, and printed with zero padded hour

---
 src/bin_xml_types.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 66550ea..f25db25 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -622,7 +622,7 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             }
         case XBT_UNIX_TIME64_MSEC:
             {
-                AA(*_wp);
+                AA8(*_wp);
                 int64_t tm0;
                 if (!ScanUnixTime64msec(src,tm0))
                 {
@@ -1002,11 +1002,17 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
                 int64_t value = *reinterpret_cast<const int64_t*>(data);
                 time_t tm0 = (time_t)(value/1000);
+                int msec = (int)(value % 1000);
+                if (msec < 0) // before 1970
+                {
+                    msec += 1000;
+                    tm0--;
+                }
                 struct tm tm1;
                 memset(dst,0,dst_size);
 
                 gmtime_r(&tm0,&tm1);
-                snprintf(dst,dst_size,"%04d-%02d-%02d %2d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,(int)(value % 1000));
+                snprintf(dst,dst_size,"%04d-%02d-%02d %02d:%02d:%02d.%03d",1900+tm1.tm_year,1+tm1.tm_mon,tm1.tm_mday,tm1.tm_hour,tm1.tm_min,tm1.tm_sec,msec);
                 return strlen(dst);
             }
         case XBT_BLOB:
-- 
2.43.0


From c4f4abfc99d24a3b310d15942e46d23556ccbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 03/17] fix: UNIX_DATE is a 4 byte in-place value, as it is
 stored by the creator

---
 include/binary_xml/bin_xml_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/binary_xml/bin_xml_types.h b/include/binary_xml/bin_xml_types.h
index 7e82969..cca9b38 100644
--- a/include/binary_xml/bin_xml_types.h
+++ b/include/binary_xml/bin_xml_types.h
@@ -64,7 +64,7 @@ enum XML_Binary_Type
 #endif
 };
 
-#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_IPv4 || (type) == XBT_UINT32)
+#define XBT_IS_4(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO || (type) == XBT_FLOAT || (type) == XBT_UNIX_TIME || (type) == XBT_UNIX_DATE || (type) == XBT_IPv4 || (type) == XBT_UINT32)
 #define XBT_IS_8(type) ((type) == XBT_INT64 || (type) == XBT_DOUBLE || ((type) == XBT_UNIX_TIME64_MSEC) || ((type) == XBT_UINT64))
 
 #define XBT_IS_INT32(type) ((type) == XBT_INT32 || (type) == XBT_INT32_DECI || (type) == XBT_INT32_CENTI || (type) == XBT_INT32_MILI || (type) == XBT_INT32_MICRO || (type) == XBT_INT32_NANO)
-- 
2.43.0


From 92e3472bca29f3e4064f8459b82c61865dee82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 04/17] fix: printed fixed point values keep their sign, 64-bit
 integers print INT64_MIN and end their text

---
 src/bin_xml_types.cpp | 33 ++++++++++++++++-----------------
 src/utils.cpp         |  8 ++++----
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f25db25..6fcf5dc 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -797,6 +797,11 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
     return nullptr;
 }
 
+static uint32_t UAbs(int32_t value)
+{
+    return value < 0 ? -static_cast<uint32_t>(value) : value;
+}
+
 int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *dst,int dst_size)
 {
     ASSERT_NO_RET_N1(1203,dst != nullptr);
@@ -854,7 +859,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%d",V / 10,ABS(V) % 10);
+                snprintf(dst,dst_size,"%s%u.%u",V < 0 ? "-" : "",UAbs(V) / 10,UAbs(V) % 10);
                 return strlen(dst);
             }
         case XBT_INT32_CENTI:     
@@ -863,7 +868,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%02d",V / 100,ABS(V) % 100);
+                snprintf(dst,dst_size,"%s%u.%02u",V < 0 ? "-" : "",UAbs(V) / 100,UAbs(V) % 100);
                 return strlen(dst);
             }
         case XBT_INT32_MILI:     
@@ -872,7 +877,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%03d",V / 1000,ABS(V) % 1000);
+                snprintf(dst,dst_size,"%s%u.%03u",V < 0 ? "-" : "",UAbs(V) / 1000,UAbs(V) % 1000);
                 return strlen(dst);
             }
         case XBT_INT32_MICRO:     
@@ -881,7 +886,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%06d",V / 1000000,ABS(V) % 1000000);
+                snprintf(dst,dst_size,"%s%u.%06u",V < 0 ? "-" : "",UAbs(V) / 1000000,UAbs(V) % 1000000);
                 return strlen(dst);
             }
         case XBT_INT32_NANO:     
@@ -890,7 +895,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 offset += sizeof(int32_t);
                 int32_t V = *reinterpret_cast<const int32_t*>(data);
 
-                snprintf(dst,dst_size,"%d.%09d",V / 1000000000,ABS(V) % 1000000000);
+                snprintf(dst,dst_size,"%s%u.%09u",V < 0 ? "-" : "",UAbs(V) / 1000000000,UAbs(V) % 1000000000);
                 return strlen(dst);
             }
 
@@ -922,24 +927,18 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     strcpy(dst,"0");
                     return 1;
                 }
-                if (value == -576460752303423488) 
-                {
-                    strcpy(dst,"9223372036854775808");
-                    return strlen(dst);
-                }
-                //if (value == -0x8000000000000000) return "9223372036854775808";
                 char *d = dst+dst_size;
                 *(--d) = '\0';
                 bool neg = (value < 0);
-                if (neg) value = -value;
-                while (value > 0)
+                uint64_t rest = neg ? -static_cast<uint64_t>(value) : value; // also for INT64_MIN
+                while (rest > 0)
                 {
-                    *(--d) = '0'+(value % 10);
-                    value /= 10;
+                    *(--d) = '0'+(rest % 10);
+                    rest /= 10;
                 }
                 if (neg) *(--d) = '-';
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1); // with terminating zero
                 return len;
             }
         case XBT_UINT64:
@@ -961,7 +960,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                     value /= 10;
                 }
                 int len = (dst+dst_size) - d - 1;
-                memmove(dst,d,len);
+                memmove(dst,d,len+1); // with terminating zero
                 return len;
             }
         case XBT_FLOAT:
diff --git a/src/utils.cpp b/src/utils.cpp
index de4e870..3c11b48 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1219,17 +1219,17 @@ const char *Int64ToStr(int64_t value,char40_t buffer)
     if (buffer == nullptr) return nullptr;
 
     bool neg = (value < 0);
-    if (neg) value = -value;
+    uint64_t rest = neg ? -static_cast<uint64_t>(value) : value; // also for INT64_MIN
 
     char *p = buffer + sizeof(char40_t);
     *(--p) = '\0'; // terminating symbol;
     if (value == 0)
         *(--p) = '0'; // zero
     else 
-        while (value > 0)
+        while (rest > 0)
         {
-            *(--p) = '0' + (value % 10);
-            value /= 10;
+            *(--p) = '0' + (rest % 10);
+            rest /= 10;
         }
 
     if (neg) 
-- 
2.43.0


From db4525ca7a130db868160207aaebb5ea313b5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 05/17] fix: detected UINT32 and DOUBLE values can be converted
 and printed, IPv4 too by XBT_ToString

---
 src/bin_xml_types.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index 6fcf5dc..d2bf906 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -556,6 +556,19 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
                 //bool ScanIPv4(const char *&p,uint32_t &value)
             }
 
+        case XBT_UINT32:
+            {
+                uint64_t v;
+                if (!ScanUInt64(src,v) || v > 0xffffffff)
+                {
+                    fprintf(stderr,"UINT32: Conversion of value '%s' to binary representation failed!" ANSI_RESET_LF,src);
+                    return false;
+                }
+                AA(*_wp);
+                *reinterpret_cast<uint32_t*>(*_wp) = static_cast<uint32_t>(v);
+                *_wp += sizeof(uint32_t);
+                return true;
+            }
         case XBT_INT64:
             {
                 int64_t v;
@@ -607,6 +620,11 @@ bool XBT_FromString(const char *src,XML_Binary_Type type,char **_wp,char *limit)
             *reinterpret_cast<float*>(*_wp) = atof(src);
             *_wp += sizeof(float);
             return true;
+        case XBT_DOUBLE:
+            AA8(*_wp);
+            *reinterpret_cast<double*>(*_wp) = atof(src);
+            *_wp += sizeof(double);
+            return true;
         case XBT_UNIX_TIME:
             {
                 AA(*_wp);
@@ -731,6 +749,8 @@ const char *XBT_ToString(XML_Binary_Type type,const char *data)
         case XBT_INT64:
         case XBT_UINT64:
         case XBT_FLOAT:
+        case XBT_DOUBLE:
+        case XBT_IPv4:
         case XBT_UNIX_TIME:
         case XBT_UNIX_DATE:
         case XBT_UNIX_TIME64_MSEC:
@@ -969,6 +989,12 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
 
             snprintf(dst,dst_size,"%f",*reinterpret_cast<const float*>(data));
             return strlen(dst);
+        case XBT_DOUBLE:
+            if (offset > 0) return 0;
+            offset += sizeof(double);
+
+            snprintf(dst,dst_size,"%.17g",*reinterpret_cast<const double*>(data)); // 17 digits identify any double
+            return strlen(dst);
         case XBT_UNIX_TIME:
             {
                 if (offset > 0) return 0;
-- 
2.43.0


From 54eb49b312891ea952244977aced39273b1eca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 06/17] fix: a chunk of HEX text does not contain its
 terminating zero, and its lines can be read back

---
 src/bin_xml_types.cpp | 2 +-
 src/utils.cpp         | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index d2bf906..f69e3cd 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1082,7 +1082,7 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
                 dst[hex_len]   = '\n';
                 dst[hex_len+1] = '\0';
                 offset += size;
-                return hex_len+2;
+                return hex_len+1; // terminating zero is not a part of text
             }
         case XBT_GUID:
             {
diff --git a/src/utils.cpp b/src/utils.cpp
index 3c11b48..9b51bc7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -798,6 +798,7 @@ int ScanHex(const char *&p,uint8_t *dst,int dst_size)
     {
         if (p[0] == '-') p++;
         else if (p[0] == ' ') p++;
+        else if (p[0] == '\n') p++; // XBT_HEX is printed in lines of 16 bytes
 
         int value = 0;
         if (p[0] >= '0' && p[0] <= '9')
-- 
2.43.0


From 02d2217c03df7308eb84af77e8e9c5134f5e2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 07/17] fix: GUID is printed with its dashes by
 XBT_ToStringChunk, as by XBT_ToString, so it is detected as GUID again

---
 src/bin_xml_types.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bin_xml_types.cpp b/src/bin_xml_types.cpp
index f69e3cd..3eb3b01 100644
--- a/src/bin_xml_types.cpp
+++ b/src/bin_xml_types.cpp
@@ -1086,16 +1086,10 @@ int XBT_ToStringChunk(XML_Binary_Type type,const char *data,int &offset,char *ds
             }
         case XBT_GUID:
             {
-                if (offset >= 16+4) return 0;
-                char guid_str[32+4+1];
-                GUID2Str(data,guid_str);
-                
-                Hex2Str(data+offset,16-offset,dst);
-                int ret = 2*(16-offset);
+                if (offset > 0) return 0;
                 offset = 16;
-                // 8-4-4-4-12
-                // TODO: here should be some - inserted on positions"5f5b7603-6d55-45e6-8c60-07aa5fc6c945">
-                return ret;
+                GUID2Str(data,dst); // 8-4-4-4-12
+                return strlen(dst);
             }
         case XBT_SHA1:
             {
-- 
2.43.0


From b428b60ecda8ca59150f17f259466fe34f659bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 08/17] fix: integer content stored as text is converted on
 every call of XML_Item::getIntPtr, not only on the first one

---
 src/bin_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_xml.cpp b/src/bin_xml.cpp
index a287516..777f356 100644
--- a/src/bin_xml.cpp
+++ b/src/bin_xml.cpp
@@ -440,7 +440,8 @@ const int32_t *XML_Item::getIntPtr() const
     else if (t == XBT_STRING)
     {
         if (p == nullptr) return nullptr;
-        static int32_t p_result = atoi(p);
+        static int32_t p_result;
+        p_result = atoi(p); // initializer would be used only once
         return &p_result;
     }
     return nullptr;
-- 
2.43.0


From 884d5f2c259d9574569340f75fc3c44c18155051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 09/17] fix: BW_element::replace of an only child keeps the new
 element's own circle instead of linking it to the removed one

---
 src/bin_write_plugin.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 2faeee8..c4226ff 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -170,11 +170,14 @@ BW_element* BW_element::replace(BW_element *old_value,BW_element *new_value)
     ASSERT_NO_RET_NULL(2017,new_value->prev == new_value->offset);
     ASSERT_NO_RET_NULL(2018,new_value->getPool() == old_value->getPool());
 
-    new_value->next = old_value->next;
-    new_value->prev = old_value->prev;
+    if (old_value->next != old_value->offset) // otherwise it is alone - new_value keeps its own circle
+    {
+        new_value->next = old_value->next;
+        new_value->prev = old_value->prev;
 
-    BWE(new_value->next)->prev = new_value->offset;
-    BWE(new_value->prev)->next = new_value->offset;
+        BWE(new_value->next)->prev = new_value->offset;
+        BWE(new_value->prev)->next = new_value->offset;
+    }
     
     old_value->flags |= BIN_DELETED;
     old_value->next = old_value->prev = old_value->offset;
-- 
2.43.0


From c088b771c9143b02691df3adf864b704252acc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 10/17] fix: pool allocation keeps the allocator on failure and
 does not overflow for sizes near INT_MAX

---
 src/bin_write_plugin.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index c4226ff..7a4d518 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1633,9 +1633,9 @@ const char *BW_pool::getDocTypeName()
 char*  BW_pool::allocate(int size)
 {
     if (size <= 0) return 0;
-    ROUND32UP(size);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1080,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1080,size <= ((allocator_limit - allocator) >> 2 << 2)); // rounded size will fit and cannot overflow
+    ROUND32UP(size);
 
     BW_offset_t offset = allocator;
     allocator += size;
@@ -1649,13 +1649,13 @@ char*  BW_pool::allocate(int size)
 char*           BW_pool::allocate8(int size)        // 64 bit aligned value
 {
     if (size <= 0) return 0;
-    ROUND64UP(allocator);
-    ROUND64UP(size);
+    BW_offset_t offset = allocator; // allocator must not be changed on failure
+    ROUND64UP(offset);
 // memory must be prepared in allocator_limit before allocation - in BW_pool is fd inaccessible
-    ASSERT_NO_RET_0(1942,allocator + size <= allocator_limit);
+    ASSERT_NO_RET_0(1942,size <= ((allocator_limit - offset) >> 3 << 3)); // rounded size will fit and cannot overflow
+    ROUND64UP(size);
 
-    BW_offset_t offset = allocator;
-    allocator += size;
+    allocator = offset + size;
 
     //MAXIMIZE(size,allocator);BUG!!
     memset(THIS+offset,0,size);
@@ -1990,6 +1990,7 @@ bool BW_plugin::CheckExistingFile(int file_size)
 
 bool BW_plugin::makeSpace(int size)
 {
+    ASSERT_NO_RET_FALSE(2151,size >= 0 && size <= (int)pool->mmap_size - pool->allocator); // sum cannot overflow
     int new_size = ((pool->allocator+4095+size) >> 12 << 12); // I want rounded file size
     ASSERT_NO_RET_FALSE(1143,new_size <= (int)pool->mmap_size);
     if (new_size <= (int)pool->file_size) return true; // no grow - ok
-- 
2.43.0


From c681919a2b32aaa9516cff90f737548f4945def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 11/17] fix: new_element asks for the space which the 8-byte
 alignment of the pool allocator can consume

---
 src/bin_write_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 7a4d518..ec620ed 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1678,7 +1678,7 @@ BW_element*     BW_pool::new_element(XML_Binary_Type type,int size)
     {
         BW_plugin *plugin = plugins.getPlugin(this);
         ASSERT_NO_RET_NULL(2012,plugin != nullptr);
-        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2));
+        ASSERT_NO_RET_NULL(2013,plugin->makeSpace(sizeof(BW_element)+size2+(align == 8 ? 4 : 0))); // + alignment of allocator
         result = reinterpret_cast<BW_element*>(align == 8 ? allocate8(sizeof(BW_element)+size2) : allocate(sizeof(BW_element)+size2));
         ASSERT_NO_RET_NULL(2091,result != nullptr);
         if (result == nullptr) return nullptr; // error message already shown in allocate
-- 
2.43.0


From ab7b43cb805aa5f8ddd6d738e56f35e1016cd121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 12/17] fix: unregisterPlugin moves whole pointers, other
 plugins stay registered

---
 src/bin_write_plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index ec620ed..d6de518 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2962,7 +2962,8 @@ bool BW_plugins::unregisterPlugin(BW_plugin *plugin)
     for(int i = 0;i < plugins_count;i++)
         if (plugins[i] == plugin)
         {   
-            memmove(plugins+i,plugins+i+1,--plugins_count - i);
+            plugins_count--;
+            memmove(plugins+i,plugins+i+1,(plugins_count - i)*sizeof(plugins[0]));
             return true;
         }
     return false;
-- 
2.43.0


From 31a735eb88155b020de251bb861ffc305c5168d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 13/17] fix: jsmn: an unmatched closing bracket after a colon
 was accepted

---
 src/jsmn/jsmn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jsmn/jsmn.c b/src/jsmn/jsmn.c
index e399c06..d8388f9 100644
--- a/src/jsmn/jsmn.c
+++ b/src/jsmn/jsmn.c
@@ -198,10 +198,8 @@ int jsmn_parse(jsmn_parser *parser, const char *js, size_t len,
 						break;
 					}
 					if (token->parent == -1) {
-						if(token->type != type || parser->toksuper == -1) {
-							return JSMN_ERROR_INVAL;
-						}
-						break;
+						/* nothing is open: unmatched closing bracket */
+						return JSMN_ERROR_INVAL;
 					}
 					token = &tokens[token->parent];
 				}
-- 
2.43.0


From 462b53ce654d3882ec084510e12c05e27694dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 14/17] fix: an empty symbol table could not be opened, so no
 tag or attribute could be registered by id

---
 src/bin_write_plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d6de518..9c1b09a 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1441,6 +1441,12 @@ bool BW_symbol_table_16B::Open(BW_pool *pool)
     ASSERT_NO_RET_FALSE(2100,pool != nullptr);
     int size = getNamesSize(pool);
     if (index == 0 && names_offset + size == pool->allocator) return true; // no index means - it is opened
+    if (size == 0) // nothing to copy - names will start at the end of pool
+    {
+        index = 0;
+        names_offset = pool->allocator;
+        return true;
+    }
 // prepare new copy of symbol tables with open end
     LOG("%s(%s/%s) - opening symbol table (max_id=%d,size=%d,offset.old=%d,allocator=%d (should be %d)",
                 __FUNCTION__,pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,
-- 
2.43.0


From 0c5488b3e0bf47cc8dd3e99f3b12f8ca3d862c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 15/17] fix: registering by id: successful registration of a
 tag was reported as failure, failed one changed max_id

---
 src/bin_write_plugin.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 9c1b09a..d4a8d44 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -2041,13 +2041,15 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->tags.names_offset == 0) // empty
         pool->tags.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->tags.max_id,id);
     int len = strlen(name);
 
 // allocation
     int size = sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1;
     char *dst = pool->allocate(size); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1121,dst != 0);
+    ROUND32UP(size);
+    ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
+    MAXIMIZE(pool->tags.max_id,id); // after successful allocation only
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
@@ -2056,8 +2058,6 @@ bool BW_plugin::registerTag(int16_t id,const char *name,XML_Binary_Type type)
     dst += sizeof(XML_Binary_Type_Stored);
 // name
     strcpy(dst,name);
-    ROUND32UP(size);
-    ASSERT_NO_RET_FALSE(2115,dst+size == reinterpret_cast<char*>(pool)+pool->allocator);
     return true;
 }
 
@@ -2090,12 +2090,12 @@ bool BW_plugin::registerAttr(int16_t id,const char *name,XML_Binary_Type type)
     if (pool->params.names_offset == 0)
         pool->params.names_offset = pool->allocator;
 
-    MAXIMIZE(pool->params.max_id,id);
     int len = strlen(name);
 
 // allocation
     char *dst = pool->allocate(sizeof(int16_t)+sizeof(XML_Binary_Type_Stored)+len+1); // ID:word|Type:byte|string|NUL:byte
     ASSERT_NO_RET_FALSE(1122,dst != 0);
+    MAXIMIZE(pool->params.max_id,id); // after successful allocation only
 // id
     *reinterpret_cast<int16_t*>(dst) = id;
     dst += sizeof(int16_t);
-- 
2.43.0


From 69c2837c74b205e1da15c4e7abcf091086bb2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 16/17] fix: symbol ids of 128 and more were read back wrong
 (signed char)

---
 src/bin_write_plugin.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index d4a8d44..5ba0511 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1249,8 +1249,8 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
         { 
             const char *n = name;
             const char *start = p;
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = static_cast<uint8_t>(*(p++));
+            id |= static_cast<uint8_t>(*(p++)) << 8;
     
             XML_Binary_Type element_type = static_cast<XML_Binary_Type>(*(p++));
 
@@ -1321,7 +1321,7 @@ const char *BW_symbol_table_16B::getName(BW_pool *pool,int search_id)
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (static_cast<uint8_t>(p[1]) << 8);
 
             p += 3;
             if (id == search_id) return p; // found
@@ -1359,7 +1359,7 @@ XML_Binary_Type_Stored *BW_symbol_table_16B::getType(BW_pool *pool,int search_id
         while (id <= max_id)
         { 
             //const char *start = p;
-            id = p[0] | (p[1] << 8);
+            id = static_cast<uint8_t>(p[0]) | (static_cast<uint8_t>(p[1]) << 8);
 
             //XML_Binary_Type element_type = static_cast<XML_Binary_Type>(p[2]);
 
@@ -1403,8 +1403,8 @@ int32_t BW_symbol_table_16B::getNamesSize(BW_pool *pool)
     int prev_id = -1;
     while (id <= max_id)
     {
-            id = *(p++);
-            id |= *(p++) << 8;
+            id = static_cast<uint8_t>(*(p++));
+            id |= static_cast<uint8_t>(*(p++)) << 8;
             if (id != prev_id+1) // don't go to other table
             {
                 LOG_ERROR("%s/%s correcting max_id: %d --> %d",pool->getDocTypeName(),(&pool->tags == this ? "tags" : "params"),max_id,prev_id);
-- 
2.43.0


From fa3e97fa5c0a5198373fd449bbb432cd58a88155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 17/17] fix: looking up an empty symbol name found the padding
 of another one

---
 src/bin_write_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin_write_plugin.cpp b/src/bin_write_plugin.cpp
index 5ba0511..ba1e4c5 100644
--- a/src/bin_write_plugin.cpp
+++ b/src/bin_write_plugin.cpp
@@ -1270,6 +1270,7 @@ int16_t BW_symbol_table_16B::getByName(BW_pool *pool,const char *name,BW_offset_
             // skip rest of identifier
             while(p < p_limit && *p != '\0') p++; // find end of string
             if (p >= p_limit) return -1; // not found
+            p++; // skip ASCII.NUL
 
             AA(p); // round 4B
             // next id
-- 
2.43.0

