From 95f2a8d1001048b3c35b41c3b1b00967118a10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 001/103] fix: recognise integers beyond 32 bits in IsInt,
 whose result is vint

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index d612483..c732b83 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -249,14 +249,14 @@ wstring atow(const string& astr) {
 
 vint IsInt(const string& num_str, bool& success) {
     char* endptr = nullptr;
-    int result = CVT_INT(strtol(num_str.c_str(), &endptr, 10));
+    vint result = CVT_VINT(strtol(num_str.c_str(), &endptr, 10));
     success = endptr == num_str.c_str() + num_str.length() && itoa(result) == num_str;
     return result;
 }
 
 vint IsInt(const wstring& num_str, bool& success) {
     wchar_t* endptr = nullptr;
-    int result = CVT_INT(wcstol(num_str.c_str(), &endptr, 10));
+    vint result = CVT_VINT(wcstol(num_str.c_str(), &endptr, 10));
     success = endptr == num_str.c_str() + num_str.length() && itow(result) == num_str;
     return result;
 }
-- 
2.43.0


From 92c6139cf54644491a5f80f8bde5f1c97e485484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 002/103] fix: an empty string is not a number

---
 src/utils_string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index c732b83..967fcc5 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -306,14 +306,14 @@ vuint64_t IsUInt64(const wstring& num_str, bool& success) {
 double IsDouble(const string& num_str, bool& success) {
     char* endptr = 0;
     double result = strtod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 
 double IsDouble(const wstring& num_str, bool& success) {
     wchar_t* endptr = 0;
     double result = wcstod(num_str.c_str(), &endptr);
-    success = endptr == num_str.c_str() + num_str.length();
+    success = !num_str.empty() && endptr == num_str.c_str() + num_str.length();
     return result;
 }
 } /* namespace: utils_string */
-- 
2.43.0


From c81ef2510410df7e631bb59c0c1dd3f3d1ea6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 003/103] fix: SplitString by blanks no longer repeats the last
 token or returns an empty one

---
 src/utils_string.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index 967fcc5..1c1fff1 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -49,12 +49,9 @@ vector<string> SplitString(const string& item) {
     std::istringstream iss(item);
     vector<string> tokens;
     string field;
-    iss >> field;
-    while (!iss.eof()) {
+    while (iss >> field) {
         tokens.emplace_back(field);
-        iss >> field;
     }
-    tokens.emplace_back(field);
     return tokens;
 }
 
-- 
2.43.0


From 05614014819e457edd4ddf22214664c0560b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 004/103] fix: wtoa and atow overran their buffer on text the
 locale cannot convert

---
 src/utils_string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils_string.cpp b/src/utils_string.cpp
index 1c1fff1..a2d2053 100644
--- a/src/utils_string.cpp
+++ b/src/utils_string.cpp
@@ -218,6 +218,7 @@ vint _wtoa(const wchar_t* w, char* a, vint chars) {
 
 string wtoa(const wstring& wstr) {
     vint len = _wtoa(wstr.c_str(), 0, 0);
+    if (len <= 0) { return string(); } // not convertible in current locale
     char* buffer = new char[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _wtoa(wstr.c_str(), buffer, int(len));
@@ -236,6 +237,7 @@ vint _atow(const char* a, wchar_t* w, vint chars) {
 
 wstring atow(const string& astr) {
     vint len = _atow(astr.c_str(), 0, 0);
+    if (len <= 0) { return wstring(); } // not convertible in current locale
     wchar_t* buffer = new wchar_t[len];
     memset(buffer, 0, len * sizeof(*buffer));
     _atow(astr.c_str(), buffer, int(len));
-- 
2.43.0


From 15e68078644b20d3840a207087fb5c06f88437fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 005/103] fix: IsIpAddress accepted trailing text and octets
 that overflow int

---
 src/basic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic.cpp b/src/basic.cpp
index e416444..b973a32 100644
--- a/src/basic.cpp
+++ b/src/basic.cpp
@@ -51,8 +51,9 @@ bool IsIpAddress(const char* ip) {
     bool rv = true;
     int tmp1, tmp2, tmp3, tmp4;
     while (true) {
-        int i = stringscanf(ip, "%d.%d.%d.%d", &tmp1, &tmp2, &tmp3, &tmp4);
-        if (i != 4) {
+        int len = 0;
+        int i = stringscanf(ip, "%3d.%3d.%3d.%3d%n", &tmp1, &tmp2, &tmp3, &tmp4, &len);
+        if (i != 4 || ip[len] != 0) {
             rv = false;
             //cout << "IP Address format is not correct!" << endl;
             break;
-- 
2.43.0


From bcf1ca3b77a433d72556c922d4cf8478654f41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 006/103] fix: dates in the first hour of a daylight saving day
 were a day late or had invalid months

---
 src/utils_time.cpp | 74 +++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 57 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index bbc6692..1370ef2 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -27,12 +27,23 @@ double TimeCounting() {
 #endif /* WINDOWS */
 }
 
+/*!
+ * \brief Change local time in daylight saving to standard time, across day, month, and year
+ */
+static void RemoveDaylightSaving(struct tm* date_info) {
+    if (date_info->tm_isdst <= 0) { return; }
+#ifdef WINDOWS
+    time_t std_time = _mkgmtime(date_info) - 3600;
+#else
+    time_t std_time = timegm(date_info) - 3600;
+#endif
+    UTCTime(std_time, date_info);
+}
+
 string ConvertToString(const time_t date, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    RemoveDaylightSaving(date_info);
     char date_string[11];
     strftime(date_string, 11, "%Y-%m-%d", date_info);
     delete date_info;
@@ -40,32 +51,9 @@ string ConvertToString(const time_t date, const bool utc_time /* = true */) {
 }
 
 string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
-    static int month_days[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
     struct tm* date_info = new tm();
     GetDateTime(date, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        if (date_info->tm_hour != 0) {
-            date_info->tm_hour -= 1;
-        } else {
-            date_info->tm_hour = 23;
-            date_info->tm_mday -= 1;
-            if (date_info->tm_mday == 0) {
-                date_info->tm_mon -= 1;
-
-                if (date_info->tm_mon == 0) {
-                    date_info->tm_year -= 1;
-                    date_info->tm_mon = 12;
-                    date_info->tm_mday = 31;
-                } else {
-                    if (IsLeapYear(date_info->tm_year)) {
-                        date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-                    } else {
-                        date_info->tm_mday = month_days[date_info->tm_mon];
-                    }
-                }
-            }
-        }
-    }
+    RemoveDaylightSaving(date_info);
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
     string s(date_string);
@@ -74,35 +62,9 @@ string ConvertToString2(const time_t date, const bool utc_time /* = true */) {
 }
 /// format: 2022_11_17_092000
 string ConvertToString3(const time_t date, const bool utc_time /* = true */) {
-	static int month_days[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
 	struct tm* date_info = new tm();
 	GetDateTime(date, date_info, utc_time);
-	if (date_info->tm_isdst > 0) {
-		if (date_info->tm_hour != 0) {
-			date_info->tm_hour -= 1;
-		}
-		else {
-			date_info->tm_hour = 23;
-			date_info->tm_mday -= 1;
-			if (date_info->tm_mday == 0) {
-				date_info->tm_mon -= 1;
-
-				if (date_info->tm_mon == 0) {
-					date_info->tm_year -= 1;
-					date_info->tm_mon = 12;
-					date_info->tm_mday = 31;
-				}
-				else {
-					if (IsLeapYear(date_info->tm_year)) {
-						date_info->tm_mday = month_days[date_info->tm_mon] + 1;
-					}
-					else {
-						date_info->tm_mday = month_days[date_info->tm_mon];
-					}
-				}
-			}
-		}
-	}
+	RemoveDaylightSaving(date_info);
 	char date_string[30];
 	strftime(date_string, 30, "%Y_%m_%d_%H%M%S", date_info);
 	string s(date_string);
@@ -182,9 +144,7 @@ time_t ConvertYMDToTime(int& year, int& month, int& day, const bool utc_time /*
 int GetDateInfoFromTimet(const time_t t, int* year, int* month, int* day, const bool utc_time /* = true */) {
     struct tm* date_info = new tm();
     GetDateTime(t, date_info, utc_time);
-    if (date_info->tm_isdst > 0) {
-        date_info->tm_hour -= 1;
-    }
+    RemoveDaylightSaving(date_info);
 
     char date_string[30];
     strftime(date_string, 30, "%Y-%m-%d %X", date_info);
-- 
2.43.0


From 3ae60b23d70355c767d9785938081487d763335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 007/103] fix: DateTime::Forward and Backward ignored the given
 delta

---
 src/utils_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 1370ef2..d125593 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -447,17 +447,17 @@ DateTime DateTime::ToUTCTime() {
 
 DateTime DateTime::Forward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime + milliseconds * 10000);
+    return FromFileTime(filetime + CVT_VINT(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime + milliseconds);
+    return FromFileTime(filetime + imilliseconds);
 #endif
 }
 
 DateTime DateTime::Backward(const int imilliseconds) {
 #if defined CPP_MSVC
-    return FromFileTime(filetime - milliseconds * 10000);
+    return FromFileTime(filetime - CVT_VINT(imilliseconds) * 10000);
 #elif (defined CPP_GCC) || (defined CPP_ICC)
-    return FromFileTime(filetime - milliseconds);
+    return FromFileTime(filetime - imilliseconds);
 #endif
 }
 
-- 
2.43.0


From 10c5af53276eee15cf372efe000ebecb9a837e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 008/103] fix: 2D arrays without rows were allocated and then
 released out of bounds; arrays were left allocated when initial data is
 missing

---
 src/utils_array.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index f0027af..15b73e6 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -360,16 +360,20 @@ bool Initialize1DArray(const int row, T*& data, INI_T* const init_data) {
         cout << "The input 1D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
-    data = new(nothrow) T[row];
-    if (nullptr == data) {
-        delete[] data;
-        cout << "Bad memory allocated during 1D array initialization!" << endl;
+    if (row <= 0) {
+        cout << "The data length MUST be greater than 0!" << endl;
         return false;
     }
     if (nullptr == init_data) {
         cout << "The input parameter init_data MUST NOT be nullptr!" << endl;
         return false;
     }
+    data = new(nothrow) T[row];
+    if (nullptr == data) {
+        delete[] data;
+        cout << "Bad memory allocated during 1D array initialization!" << endl;
+        return false;
+    }
 #pragma omp parallel for
     for (int i = 0; i < row; i++) {
         data[i] = static_cast<T>(init_data[i]);
@@ -384,6 +388,10 @@ bool Initialize2DArray(const int row, const int col, T**& data,
         cout << "The input 2D array pointer is not nullptr. No initialization performed!" << endl;
         return false;
     }
+    if (row <= 0 || col <= 0) { // Release2DArray() relies on the first row
+        cout << "The row and column numbers MUST be greater than 0!" << endl;
+        return false;
+    }
     data = new(nothrow) T*[row];
     if (nullptr == data) {
         delete[] data;
@@ -413,6 +421,7 @@ bool Initialize2DArray(const int row, const int col, T**& data,
 template <typename T, typename INI_T>
 bool Initialize2DArray(const int row, const int col, T**& data,
                        INI_T** const init_data) {
+    if (row <= 0 || col <= 0 || nullptr == init_data) { return false; }
     bool flag = Initialize2DArray(row, col, data, init_data[0][0]);
     if (!flag) { return false; }
 #pragma omp parallel for
-- 
2.43.0


From ec2c8864bb30ad903e46337becef48a7b90277ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 009/103] fix: copying an empty or moved-from Array2D
 dereferenced a null pointer

---
 src/utils_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 15b73e6..48831ce 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -279,7 +279,10 @@ public:
         }
     }
 
-    Array2D(const Array2D& rhs) : m_rows(rhs.m_rows), m_cols(rhs.m_cols) {
+    Array2D(const Array2D& rhs) : data_ptr(nullptr), m_rows(0), m_cols(0) {
+        if (nullptr == rhs.data_ptr) { return; } // empty or moved from
+        m_rows = rhs.m_rows;
+        m_cols = rhs.m_cols;
         data_ptr = create2DArray(m_rows, m_cols);
         std::copy(&rhs.data_ptr[0][0], &rhs.data_ptr[m_rows - 1][m_cols], &data_ptr[0][0]);
     }
-- 
2.43.0


From 925211f46c1d3412eaa7dfefbe9b4ea11d08d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 010/103] fix: dots in directory names were taken for the start
 of a file suffix

---
 src/utils_filesystem.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index abb769a..7d157c7 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -302,7 +302,7 @@ string GetCoreFileName(string const& full_filename) {
         start += 1;
     }
     string::size_type end = abspath.find_last_of('.');
-    if (end == string::npos) {
+    if (end == string::npos || end < start) { // the dot may belong to a directory
         end = abspath.length();
     }
     return abspath.substr(start, end - start);
@@ -310,11 +310,12 @@ string GetCoreFileName(string const& full_filename) {
 
 string GetSuffix(string const& full_filename) {
     string abspath = GetAbsolutePath(full_filename);
-    vector<string> tokens = utils_string::SplitString(abspath, '.');
-    if (tokens.size() >= 2) {
-        return tokens[tokens.size() - 1];
+    string::size_type start = abspath.find_last_of(SEP);
+    string::size_type dot = abspath.find_last_of('.');
+    if (dot == string::npos || (start != string::npos && dot < start)) {
+        return ""; // no dot, or the dot belongs to a directory
     }
-    return "";
+    return abspath.substr(dot + 1);
 }
 
 string ReplaceSuffix(string const& full_filename, string const& new_suffix) {
-- 
2.43.0


From bac58af170143f58b07b8260c4c7c3f0cf023715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 011/103] fix: LoadPlainTextFile never returned when the path
 cannot be read, e.g., a directory

---
 src/utils_filesystem.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 7d157c7..0cabeab 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -379,18 +379,15 @@ bool LoadPlainTextFile(const string& filepath, vector<string>& content_strs) {
         // open the file
         myfile.open(abspath.c_str(), std::ios::in);
         if (myfile.is_open()) {
-            while (!myfile.eof()) {
-                if (myfile.good()) {
-                    getline(myfile, line);
-                    line = utils_string::Trim(line);
-                    if (!line.empty() && line[0] != '#') {
-                        // ignore comments and empty lines
-                        content_strs.emplace_back(line);
-                        b_status = true; // consider this a success
-                    }
+            while (myfile.good()) {
+                getline(myfile, line);
+                line = utils_string::Trim(line);
+                if (!line.empty() && line[0] != '#') {
+                    // ignore comments and empty lines
+                    content_strs.emplace_back(line);
                 }
             }
-            b_status = true;
+            b_status = myfile.eof(); // otherwise unreadable, e.g., a directory
             myfile.close();
             vector<string>(content_strs).swap(content_strs);
             // content_strs.shrink_to_fit();
-- 
2.43.0


From 318ecfed683267b599e5d72f1db66f90f481d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 012/103] fix: DeleteDirectory removed empty subdirectories
 although subdirectories should be kept

---
 src/utils_filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 0cabeab..484c342 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -233,7 +233,8 @@ bool DeleteDirectory(const string& dirpath, bool del_subdirs/* = true */) {
     while ((entry = readdir(dir)) != nullptr) {
         if (strcmp(entry->d_name, ".") && strcmp(entry->d_name, "..")) {
             snprintf(path, (size_t) PATH_MAX, "%s/%s", abspath.c_str(), entry->d_name);
-            if (entry->d_type == DT_DIR && del_subdirs) {
+            if (entry->d_type == DT_DIR) {
+                if (!del_subdirs) { continue; } // keep subdirectories, also empty ones
                 DeleteDirectory(path, del_subdirs);
             }
             printf("Deleting: %s\n", path);
-- 
2.43.0


From d11e8a5ad3e1e88c0cb0c8652b835def701fdd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 013/103] fix: FindFiles matched files without suffix and
 suffixes that are part of the expression's

---
 src/utils_filesystem.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/utils_filesystem.cpp b/src/utils_filesystem.cpp
index 484c342..565285d 100644
--- a/src/utils_filesystem.cpp
+++ b/src/utils_filesystem.cpp
@@ -62,6 +62,20 @@ int DeleteExistedFile(const string& filepath) {
     return -1;
 }
 
+#ifndef WINDOWS
+// Is the suffix one of those in the expression, e.g., "tif", ".tif", "*.tif", and "*.tif;*.asc"?
+static bool SuffixListed(const string& suffix, const string& expression) {
+    const char* delimiters = "*.,;| ";
+    string::size_type start = expression.find_first_not_of(delimiters);
+    while (start != string::npos) {
+        string::size_type end = expression.find_first_of(delimiters, start);
+        if (utils_string::StringMatch(suffix, expression.substr(start, end - start))) { return true; }
+        start = expression.find_first_not_of(delimiters, end);
+    }
+    return false;
+}
+#endif /* not WINDOWS */
+
 int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_files) {
     string abspath = GetAbsolutePath(lp_path);
     const char* newlp_path = abspath.c_str();
@@ -105,7 +119,7 @@ int FindFiles(const char* lp_path, const char* expression, vector<string>& vec_f
             string ext = GetSuffix(filename);
             // cout << ext << "\t" << expression << endl;
             string strexpression = string(expression);
-            if (utils_string::StringMatch(ext.c_str(), expression) || strexpression.find(ext) != string::npos
+            if (utils_string::StringMatch(ext.c_str(), expression) || SuffixListed(ext, strexpression)
                 || utils_string::StringMatch(expression, ".*")
                 || utils_string::StringMatch(expression, "*.*")) {
                 std::ostringstream oss;
-- 
2.43.0


From bdb0c257a35d25e6f472069d60c5bc566e6f0b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 014/103] fix: GetPositionByCoordinate missed half of the left
 and bottom cells and returned cells beyond the right and bottom edges

---
 src/data_raster.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6d9218c..8e88c3f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3792,10 +3792,13 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
 
     double y_min = yll_center - dy / 2.;
     double y_max = y_min + dy * n_rows;
-    if ((x > x_max || x < xll_center) || (y > y_max || y < yll_center)) {
+    if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    return ROW_COL(CVT_INT((y_max - y) / dy), CVT_INT((x - x_min) / dx));
+    int row = CVT_INT((y_max - y) / dy);
+    int col = CVT_INT((x - x_min) / dx);
+    if (row >= n_rows || col >= n_cols) { return ROW_COL(-1, -1); } // on the bottom or right edge
+    return ROW_COL(row, col);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From e5648afab4db40ae7164620170c7c007addd46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 015/103] fix: reading a file into a raster which already holds
 data wrote beyond or kept the old data

---
 src/data_raster.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8e88c3f..957d7eb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2296,6 +2296,21 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
 
     bool readflag = false;
     string srs = string();
+    // Release the data read before, if any
+    if (nullptr != raster_) { Release1DArray(raster_); }
+    if (nullptr != raster_2d_) { Release2DArray(raster_2d_); }
+    if (store_pos_) {
+        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+    }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
+    ReleaseSubset();
+    if (stats_calculated_) {
+        ReleaseStatsMap2D();
+        stats_calculated_ = false;
+    }
     if (StringMatch(GetUpper(GetSuffix(filename)), ASCIIExtension)) {
         readflag = ReadAscFile(full_path_, headers_, raster_);
     } else {
-- 
2.43.0


From 0f362e180d23fa3baa66571775392f4e3a4a4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 016/103] fix: raster constructors with an SRS string released
 the given data and left the raster uninitialized

---
 src/data_raster.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 957d7eb..9c057c4 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2078,10 +2078,9 @@ clsRasterData<T, MASK_T>::clsRasterData(bool is_2d /* = false */) {
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T* data, int cols, int rows, T nodata,
                                         double dx, double xll, double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data, cols, rows, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data, cols, rows, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
@@ -2108,10 +2107,9 @@ clsRasterData<T, MASK_T>::clsRasterData(T* data, const int cols, const int rows,
 template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(T** data2d, const int cols, const int rows, const int nlayers,
                                         T nodata, const double dx, const double xll, const double yll,
-                                        const string& srs) {
-    STRING_MAP opts = InitialStrHeader();
-    UpdateStrHeader(opts, HEADER_RS_SRS, srs);
-    clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, opts);
+                                        const string& srs)
+    : clsRasterData(data2d, cols, rows, nlayers, nodata, dx, xll, yll, STRING_MAP()) {
+    UpdateStrHeader(options_, HEADER_RS_SRS, srs);
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 430fcd1831577c3dd7a7b38b3fe28a5ca4d4c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 017/103] fix: GetSrs returned a dangling pointer

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9c057c4..991779f 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2688,7 +2688,8 @@ void clsRasterData<T, MASK_T>::GetRasterPositionData(int* datalength, int** posi
 
 template <typename T, typename MASK_T>
 const char* clsRasterData<T, MASK_T>::GetSrs() {
-    return GetSrsString().c_str();
+    auto it = options_.find(HEADER_RS_SRS);
+    return it == options_.end() ? "" : it->second.c_str();
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 9af486856c934c4c8f148d8cf852307c7cc569f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 018/103] fix: the constructor from several files used
 uninitialized members and read a single file twice

---
 src/data_raster.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 991779f..06b2036 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2168,14 +2168,11 @@ clsRasterData<T, MASK_T>::clsRasterData(vector<string>& filenames,
                                         const bool use_mask_ext /* = true */,
                                         double default_value /* = NODATA_VALUE */,
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
+    InitializeRasterClass();
     if (!FilesExist(filenames)) {
         StatusMessage("Please make sure all file path existed!");
         return;
     }
-    if (filenames.size() == 1) {
-        ReadFromFile(filenames[0], calc_pos, mask,
-                     use_mask_ext, default_value, opts);
-    }
     ReadFromFiles(filenames, calc_pos, mask,
                   use_mask_ext, default_value, opts);
 }
-- 
2.43.0


From 37f16a8ff2e32c5578c08ff77374dd9973b1efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 019/103] fix: reading a single file into a raster of several
 layers kept the old layer count

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 06b2036..1b9680e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3435,6 +3435,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFile(const string& filename, const bool c
     if (!FileExists(filename)) { return false; }
     if (!initialized_) { InitializeRasterClass(); }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
+    n_lyrs_ = 1;
     return ConstructFromSingleFile(filename, calc_pos, mask, use_mask_ext, default_value, opts);
 }
 
-- 
2.43.0


From 4c8b9a1346394eea887878070fe7cb9ed2cf0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 020/103] fix: valid positions were shifted although the extent
 of the mask is kept

---
 src/data_raster.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1b9680e..934e3f7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4096,7 +4096,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             size_t idx = distance(vit, it);
             int tmpr = pos_rows.at(idx);
             int tmpc = pos_cols.at(idx);
-            if (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col
+            if ((upd_header_rowcol
+                 && (tmpr > max_row || tmpr < min_row || tmpc > max_col || tmpc < min_col))
                 || FloatEqual(static_cast<T>(*it), no_data_value_)) {
                 it = values.erase(it);
                 if (is_2draster && n_lyrs_ > 1) {
@@ -4109,8 +4110,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 cit = pos_cols.begin();
                 vit = values.begin();
             } else {
-                pos_rows[idx] -= min_row; // get new column and row number
-                pos_cols[idx] -= min_col;
+                if (upd_header_rowcol) { // get new column and row number
+                    pos_rows[idx] -= min_row;
+                    pos_cols[idx] -= min_col;
+                }
                 ++it;
             }
         }
-- 
2.43.0


From 3947973ef58e79fe6dde1a02a821a6c55faf5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 021/103] fix: masking by a mask without any common valid cell
 created a negative extent

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 934e3f7..007cc02 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3970,6 +3970,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         masked_count++;
     }
     if (masked_count == 0) { return -1; }
+    if (matched_count == 0 && !use_mask_ext_) { return -1; } // no common extent
     n_cells_ = masked_count;
 
     // Priority Copy header of mask data, and update NoData, SRS, and Layers' count
-- 
2.43.0


From 7cb24160794350667d8dc35db134053ca2119950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 022/103] fix: masking by a mask without valid cells threw an
 exception

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 007cc02..a67a405 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3908,6 +3908,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Get the position data from mask
     if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
     mask_->GetRasterPositionData(&mask_ncells, &valid_pos);
+    if (mask_ncells <= 0 || nullptr == valid_pos) { return -1; } // no valid cell in mask
     // Masked raster data have the same size with mask's valid positions
     vector<T> values(mask_ncells);             // store layer 1 data
     vector<vector<T> > values_2d(mask_ncells); // store layer 2~n data (excluding the first layer)
-- 
2.43.0


From f8f2d6609f8660fb8e350f260aaad777e4d6d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 023/103] fix: masking was skipped when the masked extent has
 as many cells as the raster

---
 src/data_raster.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a67a405..2b01533 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4157,11 +4157,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     if (store_fullsize) {
         n_cells_ = ncols * nrows;
     }
-    bool release_origin = true;
-    if (store_fullsize && old_fullsize == n_cells_) {
-        release_origin = false;
-    }
-    if (release_origin) {
+    { // the stored values always need to be replaced by the masked
         if (is_2draster && nullptr != raster_2d_) { // multiple layers
             Release2DArray(raster_2d_);
             Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
-- 
2.43.0


From 2a5c4f25f141e28b9271212bb0dd3b5be814ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 024/103] fix: masking wrote default values into the unmasked
 raster, where they were then taken for valid values or hit the wrong layer

---
 src/data_raster.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2b01533..2ee5afd 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3944,7 +3944,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         if (FloatEqual(tmp_value, no_data_value_)) {
             if (!FloatEqual(default_value_, no_data_value_)) {
                 tmp_value = static_cast<T>(default_value_);
-                SetValue(tmp_pos.first, tmp_pos.second, tmp_value);
             }
         } else { // the intersect extents dependent on the valid raster values
             matched_count++;
@@ -3960,7 +3959,6 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                 if (FloatEqual(tmp_values[lyr - 1], no_data_value_)
                     && !FloatEqual(default_value_, no_data_value_)) {
                     tmp_values[lyr - 1] = static_cast<T>(default_value_);
-                    SetValue(tmp_pos.first, tmp_pos.second, tmp_values[lyr - 1], lyr - 1);
                 }
             }
             values_2d[i] = tmp_values;
-- 
2.43.0


From 9c025fea7e23495cabfed2ec79ddb0e68cb338ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 025/103] fix: position arrays owned by the mask were released

---
 src/data_raster.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2ee5afd..4207a81 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2827,7 +2827,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
     if (nullptr != pos_data_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release2DArray(pos_data_);
+        if (store_pos_) { Release2DArray(pos_data_); }
     }
     pos_data_ = pdata;
     calc_pos_ = true;
@@ -2839,7 +2839,7 @@ template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
     if (nullptr != pos_idx_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        Release1DArray(pos_idx_);
+        if (store_pos_) { Release1DArray(pos_idx_); }
     }
     pos_idx_ = pdata;
     calc_pos_ = true;
@@ -4122,10 +4122,14 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         vector<int>(pos_rows).swap(pos_rows);
         vector<int>(pos_cols).swap(pos_cols);
 
-        store_pos_ = true;
         n_cells_ = CVT_INT(values.size());
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        if (store_pos_) {
+            if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+            if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        }
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
+        store_pos_ = true;
         Initialize2DArray(n_cells_, 2, pos_data_, 0);
         Initialize1DArray(n_cells_, pos_idx_, 0);
         for (size_t k = 0; k < pos_rows.size(); ++k) {
@@ -4138,8 +4142,12 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     } else {
-        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
-        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        if (store_pos_) {
+            if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+            if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+        }
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
         if (calc_pos_) {
             mask_->GetRasterPositionData(&n_cells_, &pos_data_);
             mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
-- 
2.43.0


From e229e5b0c3251e02fc54ce0ab45c391c7fbd9b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 026/103] fix: subsets taken from the mask kept positions of
 the mask after cells or extent had changed

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4207a81..d0cbd32 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4073,7 +4073,7 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
             }
         }
     }
-    if (mask_has_subset && !match_exactly && upd_header_rowcol) {
+    if (mask_has_subset && (upd_header_rowcol || recalc_pos)) {
         recalc_subset = true;
     }
     // Update row and col counts in header information firstly.
-- 
2.43.0


From 2ee625fc61ff4aa2c72067e9bf8735bd6eb3a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 027/103] fix: reading several files dereferenced a null
 pointer when a later file cannot be read

---
 src/data_raster.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d0cbd32..6f2e604 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3477,19 +3477,25 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         STRDBL_MAP tmpheader;
         T* tmplyrdata = nullptr;
         string curfilename = filenames[fileidx];
+        bool lyrflag = false;
         if (StringMatch(GetUpper(GetSuffix(curfilename)), string(ASCIIExtension))) {
-            ReadAscFile(curfilename, tmpheader, tmplyrdata);
+            lyrflag = ReadAscFile(curfilename, tmpheader, tmplyrdata);
         }
         else {
 #ifdef USE_GDAL
             RasterDataType tmpintype;
             string tmpsrs;
-            ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
+            lyrflag = ReadRasterFileByGdal(curfilename, tmpheader, tmplyrdata, tmpintype, tmpsrs);
 #else
             StatusMessage("Warning: Only ASC format is supported without GDAL!");
             return false;
 #endif
         }
+        if (!lyrflag || nullptr == tmplyrdata) { // the layer cannot be read
+            Release1DArray(tmplyrdata);
+            Release2DArray(raster_2d_);
+            return false;
+        }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
 #pragma omp parallel for
             for (int i = 0; i < n_cells_; ++i) {
-- 
2.43.0


From 0e75a706d2f928aab5dda59f3b71ed224cb76383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 028/103] fix: rasters constructed from a mask and the values
 of its valid cells were accessed as if they store all cells

---
 src/data_raster.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6f2e604..974bc12 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2206,7 +2206,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
                                         const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(false);
     rs_type_out_ = RasterDataTypeInOptionals(opts);
-    calc_pos_ = false;
+    calc_pos_ = true; // values are only given for the valid cells of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = 1;
@@ -2229,7 +2229,8 @@ template <typename T, typename MASK_T>
 clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const values, const int len,
                                         const int lyrs, const STRING_MAP& opts /* = STRING_MAP() */) {
     InitializeRasterClass(true);
-    calc_pos_ = false;
+    rs_type_out_ = RasterDataTypeInOptionals(opts);
+    calc_pos_ = true; // values are only given for the valid cells of the mask
     mask_ = mask;
     use_mask_ext_ = true;
     n_lyrs_ = lyrs;
@@ -2241,6 +2242,7 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
         return;
     }
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, values); // DO NOT ASSIGN ARRAY DIRECTLY!
+    default_value_ = mask_->GetDefaultValue();
     CopyHeader(mask_->GetRasterHeader(), headers_);
     no_data_value_ = static_cast<T>(mask_->GetNoDataValue());
     UpdateHeader(headers_, HEADER_RS_LAYERS, n_lyrs_);
-- 
2.43.0


From 934c2fad1bd18c966fc69aae53c9fcf7266f8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 029/103] fix: the data type of an 8-bit raster without valid
 values depended on uninitialized memory

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 974bc12..474ffb7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -371,7 +371,7 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     int get_value_flag = false;
     double nodata = po_band->GetNoDataValue(&get_value_flag);
     int approx_minmax = false;
-    double minmax[2];
+    double minmax[2] = {0., 0.}; // remains if there are no valid values
     T* tmprasterdata = nullptr;
     bool read_as_signedbyte = false;
     unsigned char* uchar_data = nullptr;
-- 
2.43.0


From c3f98e7bdc52de7ba47406c371fef2c0521ab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 030/103] fix: ASC files with too few values, misplaced headers
 or impossible sizes were read with missing data or out of bounds

---
 src/data_raster.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 474ffb7..269eef8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -39,6 +39,7 @@
 #include <iomanip>
 #include <typeinfo>
 #include <cassert>
+#include <climits>
 // include openmp if supported
 #ifdef SUPPORT_OMP
 #include <omp.h>
@@ -233,15 +234,25 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
         vector<string> tokens = SplitString(*iter);
         if (tokens.empty()) { continue; }
         bool str2value = false;
+        if (vidx > 0) { // header information should be defined before the data matrix
+            IsDouble(tokens[0], str2value);
+            if (!str2value) {
+                StatusMessage("Error: No value occurred in Raster data matrix!");
+                Release1DArray(values);
+                return false;
+            }
+        }
         if (StringMatch(tokens[0], HEADER_RS_NCOLS)) {
             if (tokens.size() < 2) { return false; }
-            cols = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            vint tmpcols = IsInt(tokens[1], str2value);
+            if (!str2value || tmpcols < 0 || tmpcols > INT_MAX) { return false; }
+            cols = CVT_INT(tmpcols);
         }
         else if (StringMatch(tokens[0], HEADER_RS_NROWS)) {
             if (tokens.size() < 2) { return false; }
-            rows = CVT_INT(IsInt(tokens[1], str2value));
-            if (!str2value) { return false; }
+            vint tmprows = IsInt(tokens[1], str2value);
+            if (!str2value || tmprows < 0 || tmprows > INT_MAX) { return false; }
+            rows = CVT_INT(tmprows);
         }
         else if (StringMatch(tokens[0], HEADER_RS_XLL) ||
             StringMatch(tokens[0], HEADER_RS_XLLCOR)) {
@@ -268,8 +279,9 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             if (!str2value) { return false; }
         }
         else {
-            if (rows < 0 || cols < 0) {
-                StatusMessage("Warning: NCOLS and NROWS should be defined first!");
+            if (rows <= 0 || cols <= 0 || rows > INT_MAX / cols) {
+                StatusMessage("Error: Valid NCOLS and NROWS should be defined first!");
+                return false;
             }
             if (nullptr == values) { Initialize1DArray(rows * cols, values, nodata); }
             for (auto it_value = tokens.begin(); it_value != tokens.end(); ++it_value) {
@@ -288,9 +300,15 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
             }
         }
     }
-    if (rows < 0 || cols < 0 || cellsize < 0 ||
+    if (nullptr == values || vidx != rows * cols) {
+        StatusMessage("Error: Count of values MUST equal to rows * cols!");
+        if (nullptr != values) { Release1DArray(values); }
+        return false;
+    }
+    if (!(cellsize > 0) ||
         FloatEqual(xll, MISSINGFLOAT) || FloatEqual(yll, MISSINGFLOAT)) {
         StatusMessage("Error: Header information incomplete!");
+        Release1DArray(values);
         return false;
     }
     // default is center, if corner, then:
-- 
2.43.0


From 071ca34d18ade75fd47fcff8959727611b43cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 031/103] fix: ASC files lost digits of the georeference and of
 NoData, so that NoData cells were read as values, and 8-bit values were
 written as characters

---
 src/data_raster.cpp | 22 ++++++++++++++++++----
 src/data_raster.hpp | 33 +++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index d9b6bb0..338734f 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -11,6 +11,9 @@
 
 #include "data_raster.hpp"
 
+#include <cstdlib>
+#include <sstream>
+
 namespace ccgl {
 namespace data_raster {
 string RasterDataTypeToString(const int type) {
@@ -186,6 +189,17 @@ void InitialStatsMap(STRDBL_MAP& stats, map<string, double*>& stats2d) {
     }
 }
 
+string ExactNumberToString(const double value) {
+    for (int digits = 6; digits < 17; digits++) {
+        std::ostringstream oss;
+        oss << setprecision(digits) << value;
+        if (strtod(oss.str().c_str(), nullptr) == value) { return oss.str(); }
+    }
+    std::ostringstream oss;
+    oss << setprecision(17) << value;
+    return oss.str();
+}
+
 bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     DeleteExistedFile(filename);
     string abs_filename = GetAbsolutePath(filename);
@@ -198,10 +212,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
     raster_file << HEADER_RS_NCOLS << " " << cols << endl;
     raster_file << HEADER_RS_NROWS << " " << rows << endl;
-    raster_file << HEADER_RS_XLL << " " << header.at(HEADER_RS_XLL) << endl;
-    raster_file << HEADER_RS_YLL << " " << header.at(HEADER_RS_YLL) << endl;
-    raster_file << HEADER_RS_CELLSIZE << " " << header.at(HEADER_RS_CELLSIZE) << endl;
-    raster_file << HEADER_RS_NODATA << " " << setprecision(6) << header.at(HEADER_RS_NODATA) << endl;
+    raster_file << HEADER_RS_XLL << " " << ExactNumberToString(header.at(HEADER_RS_XLL)) << endl;
+    raster_file << HEADER_RS_YLL << " " << ExactNumberToString(header.at(HEADER_RS_YLL)) << endl;
+    raster_file << HEADER_RS_CELLSIZE << " " << ExactNumberToString(header.at(HEADER_RS_CELLSIZE)) << endl;
+    raster_file << HEADER_RS_NODATA << " " << ExactNumberToString(header.at(HEADER_RS_NODATA)) << endl;
     raster_file.close();
     return true;
 }
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 269eef8..533fe81 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -326,6 +326,20 @@ bool ReadAscFile(const string& filename, STRDBL_MAP& header, T*& values) {
     return true;
 }
 
+/*!
+ * \brief Convert number to string with the fewest significant digits (6 at least) that restore it exactly
+ */
+string ExactNumberToString(double value);
+
+/*!
+ * \brief Write a raster value into a ASC file, NoData is written exactly as in the header
+ */
+template <typename T>
+void WriteAscValue(std::ofstream& raster_file, T value, T nodata, const string& nodata_str) {
+    if (FloatEqual(value, nodata)) { raster_file << nodata_str << " "; }
+    else { raster_file << setprecision(6) << +value << " "; } // + is to write 8-bit types as numbers
+}
+
 /*!
  * \brief Write raster header information into a ASC file. If the file exists, delete it first.
  * \param[in] filename ASC full file path
@@ -352,9 +366,11 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     int rows = CVT_INT(header.at(HEADER_RS_NROWS));
     int cols = CVT_INT(header.at(HEADER_RS_NCOLS));
+    T nodata = static_cast<T>(header.at(HEADER_RS_NODATA));
+    string nodata_str = ExactNumberToString(header.at(HEADER_RS_NODATA));
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < cols; j++) {
-            raster_file << setprecision(6) << values[i * cols + j] << " ";
+            WriteAscValue(raster_file, values[i * cols + j], nodata, nodata_str);
         }
         raster_file << endl;
     }
@@ -3182,6 +3198,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
     // Begin to write raster data
     int rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
     int cols = CVT_INT(headers_.at(HEADER_RS_NCOLS));
+    string nodata_str = ExactNumberToString(headers_.at(HEADER_RS_NODATA));
     if (is_2draster) { // 3.1 2D raster data
         string pre_path = GetPathFromFullName(abs_filename);
         if (StringMatch(pre_path, "")) { return false; }
@@ -3198,13 +3215,13 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 for (int j = 0; j < cols; ++j) {
                     if (outputdirectly) {
                         index = i * cols + j;
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], no_data_value_, nodata_str);
                         continue;
                     }
                     if (index < n_cells_ && (position[index][0] == i && position[index][1] == j)) {
-                        raster_file << setprecision(6) << raster_2d_[index][lyr] << " ";
+                        WriteAscValue(raster_file, raster_2d_[index][lyr], no_data_value_, nodata_str);
                         index++;
-                    } else { raster_file << setprecision(6) << NODATA_VALUE << " "; }
+                    } else { raster_file << nodata_str << " "; }
                 }
                 raster_file << endl;
             }
@@ -3222,15 +3239,15 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             for (int j = 0; j < cols; ++j) {
                 if (outputdirectly) {
                     index = i * cols + j;
-                    raster_file << setprecision(6) << raster_[index] << " ";
+                    WriteAscValue(raster_file, raster_[index], no_data_value_, nodata_str);
                     continue;
                 }
                 if (index < n_cells_) {
                     if (position[index][0] == i && position[index][1] == j) {
-                        raster_file << setprecision(6) << raster_[index] << " ";
+                        WriteAscValue(raster_file, raster_[index], no_data_value_, nodata_str);
                         index++;
-                    } else { raster_file << setprecision(6) << no_data_value_ << " "; }
-                } else { raster_file << setprecision(6) << no_data_value_ << " "; }
+                    } else { raster_file << nodata_str << " "; }
+                } else { raster_file << nodata_str << " "; }
             }
             raster_file << endl;
         }
-- 
2.43.0


From 1e5f76bc7dd63a580c46a42aefb568689b32cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 032/103] fix: original data of subsets could not be output in
 combination

---
 src/data_raster.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 533fe81..aa3590b 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2987,6 +2987,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs_subset = -1;
     for (auto it = subset_.begin(); it != subset_.end(); ++it) {
         if (!it->second->usable) { continue; }
+        if (out_origin) { continue; }         // Data of subset is not required
         if (!(nullptr != it->second->data_    // Only if all subset have data_
             || nullptr != it->second->data2d_ // or data2d_,
             || !recls.empty())) {             // or reclassification map specified
@@ -3055,6 +3056,12 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 else if (use_defaultv_directly) {
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(default_value);
                 }
+                else if (out_origin && nullptr != raster_2d_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_2d_[gidx][ilyr];
+                }
+                else if (out_origin && nullptr != raster_) {
+                    data1d[tmprc * lyrs + ilyr] = raster_[gidx];
+                }
                 else if (!out_origin && lyrs > 1 && nullptr != it->second->data2d_) { // raster 2D
                     data1d[tmprc * lyrs + ilyr] = static_cast<T>(it->second->data2d_[vi][ilyr]);
                 }
@@ -3132,10 +3139,10 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 }
                 data1d[j * lyrs + ilyr] = static_cast<T>(uniqe_value);
             }
-            else if (out_origin && lyrs > 1 && nullptr != raster_2d_) {
+            else if (out_origin && nullptr != raster_2d_) {
                 data1d[j * lyrs + ilyr] = raster_2d_[gidx][ilyr];
             }
-            else if (out_origin && lyrs == 1 && nullptr != raster_) {
+            else if (out_origin && nullptr != raster_) {
                 data1d[j * lyrs + ilyr] = raster_[gidx];
             }
             else if (!out_origin && lyrs > 1 && nullptr != sub->data2d_) { // raster 2D
-- 
2.43.0


From 91c203ff8ca3dcc02af9c3744ea3e64690ffdf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 033/103] fix: combining subsets of a raster without position
 data dereferenced a null pointer

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index aa3590b..2fb3b1e 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3037,7 +3037,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                 //int tmpr = pos_data_[gidx][0];
                 //int tmpc = pos_data_[gidx][1];
                 //int tmprc = tmpr * gncols + tmpc;
-                int tmprc = pos_idx_[gidx];
+                int tmprc = nullptr != pos_idx_ ? pos_idx_[gidx] : gidx; // or index of full size data
                 if (!include_nodata) { tmprc = gidx; }
                 if (!recls.empty()) { // first priority
                     double uniqe_value = default_value;
-- 
2.43.0


From 46e310daa6b9755c5d1bc2b08773e2c263c239ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 034/103] fix: separate subsets could not be output by a
 reclassification map without data of subset

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2fb3b1e..fa948b9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3106,6 +3106,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
+        if (lyrs < 0 && lyr_recls > 0) { lyrs = lyr_recls; }
     }
     if (lyrs < 0) {
         StatusMessage("Error: Cannot determine valid layer count!");
-- 
2.43.0


From fb78fa51b7416e43f7fee56f6a34da837be65dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 035/103] fix: data arrays shared by shallow copied
 SubsetPositions were released twice, and resetting 2D data by more layers
 wrote out of bounds

---
 src/data_raster.cpp | 15 +++++++--------
 src/data_raster.hpp |  5 ++++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 338734f..0efdf1c 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -264,20 +264,19 @@ SubsetPositions::SubsetPositions(SubsetPositions*& src, const bool deep_copy) {
         Initialize1DArray(n_cells, global_, src->global_);
         Initialize2DArray(n_cells, 2, local_pos_, src->local_pos_);
         Initialize1DArray(n_cells, local_posidx_, src->local_posidx_);
-        if (nullptr != src->data_) {
-            Initialize1DArray(n_cells, data_, src->data_);
-        }
-        if (nullptr != src->data2d_) {
-            Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
-        }
     }
     else {
         alloc_ = false;
         global_ = src->global_;
         local_pos_ = src->local_pos_;
         local_posidx_ = src->local_posidx_;
-        if (nullptr != src->data_) { data_ = src->data_; }
-        if (nullptr != src->data2d_) { data2d_ = src->data2d_; }
+    }
+    // data arrays are always owned by each instance
+    if (nullptr != src->data_) {
+        Initialize1DArray(n_cells, data_, src->data_);
+    }
+    if (nullptr != src->data2d_) {
+        Initialize2DArray(n_cells, n_lyrs, data2d_, src->data2d_);
     }
 }
 
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fa948b9..0e336e9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1147,7 +1147,10 @@ public:
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
         if (nullptr == data2d) { return false; }
-        if (lyr != n_lyrs) { n_lyrs = lyr; }
+        if (lyr != n_lyrs) {
+            n_lyrs = lyr;
+            if (nullptr != data2d_) { Release2DArray(data2d_); }
+        }
         if (nullptr != data2d_) {
             for (int i = 0; i < n_cells; i++) {
                 for (int j = 0; j < n_lyrs; j++) {
-- 
2.43.0


From bb5910f031dfd60b9fc3cc5fef78109beaab013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 036/103] fix: values missing in the reclassification map threw
 an exception

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 0e336e9..a7a95dc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3818,7 +3818,7 @@ void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
             T curv = is_2draster && nullptr != raster_2d_
                          ? CVT_INT(raster_2d_[i][lyr])
                          : CVT_INT(raster_[i]);
-            if (recls.count(curv) < 0) {
+            if (recls.count(curv) == 0) {
 #ifdef HAS_VARIADIC_TEMPLATES
                 recls.emplace(curv, no_data_value_);
 #else
-- 
2.43.0


From 919466cb5a1dfbb6df3f918350e6e3c5b8fd67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 037/103] fix: statistics of all layers were refused for 2D and
 dereferenced for 1D rasters

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a7a95dc..07b43ff 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2564,7 +2564,7 @@ double clsRasterData<T, MASK_T>::GetStatistics(string sindex, const int lyr /* =
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::GetStatistics(string sindex, int* lyrnum, double** values) {
-    if (!is_2draster || nullptr != raster_2d_) {
+    if (!is_2draster || nullptr == raster_2d_) {
         StatusMessage("Please initialize the raster object first.");
         *values = nullptr;
         return;
-- 
2.43.0


From 8edc40c7d1ad57e57b368b177e086427b473875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 038/103] fix: data of the mask's subsets was accessed by the
 layer count of the masked raster, and not released

---
 src/data_raster.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 07b43ff..a154f12 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4039,6 +4039,10 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
         ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
+            if (tmp->n_lyrs != n_lyrs_) { // data of subset has different layers
+                Release1DArray(tmp->data_);
+                Release2DArray(tmp->data2d_);
+            }
             tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
             subset_.emplace(it->first, tmp);
@@ -4322,8 +4326,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
                     it->second->local_pos_[ii][1] = local_col;
                     it->second->local_posidx_[ii] = local_row * local_ncols + local_col;
                 }
-                it->second->data_ = nullptr;
-                it->second->data2d_ = nullptr;
+                Release1DArray(it->second->data_);
+                Release2DArray(it->second->data2d_);
                 it->second->alloc_ = true;
             }
             ++it;
-- 
2.43.0


From 48872ac804a114259d5afedb58b1b3f8f4bb7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 039/103] fix: copying into a raster released position data
 owned by the mask, kept the dimension, options and statistics of the former
 raster, or lost the data when copying itself

---
 src/data_raster.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a154f12..485b018 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3711,23 +3711,28 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
+    if (this == orgraster) { return; }
     // Release current data
-    if (is_2draster && nullptr != raster_2d_ && n_cells_ > 0) {
+    if (nullptr != raster_2d_) {
         Release2DArray(raster_2d_);
     }
-    if (!is_2draster && nullptr != raster_) {
+    if (nullptr != raster_) {
         Release1DArray(raster_);
     }
-    if (nullptr != pos_data_) {
-        Release2DArray(pos_data_);
-    }
-    if (nullptr != pos_idx_) {
-        Release1DArray(pos_idx_);
+    if (store_pos_) { // otherwise, position data belongs to the mask
+        if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+        if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
     }
+    pos_data_ = nullptr;
+    pos_idx_ = nullptr;
+    store_pos_ = false;
     if (stats_calculated_) {
         ReleaseStatsMap2D();
         stats_calculated_ = false;
     }
+    stats_.clear();
+    InitialStatsMap(stats_, stats_2d_);
+    options_.clear();
     if (!subset_.empty()) {
         ReleaseSubset();
     }
@@ -3735,13 +3740,14 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
                            orgraster->GetDefaultValue(), orgraster->GetOptions());
+    core_name_ = orgraster->GetCoreName();
     n_cells_ = orgraster->GetCellNumber();
     n_lyrs_ = orgraster->GetLayers();
     rs_type_ = orgraster->GetDataType();
     rs_type_out_ = orgraster->GetOutDataType();
     no_data_value_ = orgraster->GetNoDataValue();
-    if (orgraster->Is2DRaster()) {
-        is_2draster = true;
+    is_2draster = orgraster->Is2DRaster();
+    if (is_2draster) {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_,
                           orgraster->Get2DRasterDataPointer());
     } else {
-- 
2.43.0


From 4ca281a22360c24f4b67ddd447df418a04f5b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 040/103] fix: after reading failed, the former cell count was
 used to access the released data

---
 src/data_raster.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 485b018..69d5ca8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2340,6 +2340,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
     pos_data_ = nullptr;
     pos_idx_ = nullptr;
     store_pos_ = false;
+    n_cells_ = -1;
     ReleaseSubset();
     if (stats_calculated_) {
         ReleaseStatsMap2D();
@@ -3513,6 +3514,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     // 3. initialize raster_2d_ and read the other layers according to position data if stated,
     //     or just read by row and col
     Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
+    if (nullptr == raster_2d_) { return false; } // no valid cells
 #pragma omp parallel for
     for (int i = 0; i < n_cells_; i++) {
         raster_2d_[i][0] = raster_[i];
@@ -3542,6 +3544,7 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         if (!lyrflag || nullptr == tmplyrdata) { // the layer cannot be read
             Release1DArray(tmplyrdata);
             Release2DArray(raster_2d_);
+            n_cells_ = -1;
             return false;
         }
         if (nullptr != pos_data_ || nullptr != pos_idx_) {
-- 
2.43.0


From b867569bb32cd0cb49819eb2b1aab614a9e14fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 041/103] fix: blocks of zeros were turned into NoData in
 GeoTIFF files

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 69d5ca8..56369f5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -824,6 +824,8 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     if (nullptr == po_dst_ds) { return false; }
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
+    // NoData should be set before writing, otherwise blocks of zeros are filled with NoData when closing
+    po_dst_band->SetNoDataValue(new_nodata);
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
@@ -839,7 +841,6 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         GDALClose(po_dst_ds);
         return false;
     }
-    po_dst_band->SetNoDataValue(new_nodata);
 
     double geo_trans[6]; // Write header information
     geo_trans[0] = header.at(HEADER_RS_XLL) - 0.5 * header.at(HEADER_RS_CELLSIZE);
-- 
2.43.0


From c3484aa43759f2f25d99738a853fa11184fa5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 042/103] fix: values of unsigned types were refused to be
 output as signed types

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 56369f5..09807c5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -674,7 +674,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_char[i] = INT8_MIN;
                     continue;
                 }
-                if (values[i] < INT8_MIN || values[i] > INT8_MAX) { illegal_count += 1; }
+                if ((values[i] < 0 && values[i] < INT8_MIN) || values[i] > INT8_MAX) { illegal_count += 1; }
                 values_char[i] = static_cast<signed char>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -712,7 +712,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int16[i] = INT16_MIN;
                     continue;
                 }
-                if (values[i] < INT16_MIN || values[i] > INT16_MAX) illegal_count += 1;
+                if ((values[i] < 0 && values[i] < INT16_MIN) || values[i] > INT16_MAX) illegal_count += 1;
                 values_int16[i] = static_cast<vint16_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -750,7 +750,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if (values[i] < INT32_MIN || values[i] > INT32_MAX) illegal_count += 1;
+                if ((values[i] < 0 && values[i] < INT32_MIN) || values[i] > INT32_MAX) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -789,7 +789,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if (values[i] < INT64_MIN || values[i] > INT64_MAX) illegal_count += 1;
+                if ((values[i] < 0 && values[i] < INT64_MIN) || values[i] > INT64_MAX) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From 663908eb52c3f8730d407a96726255850d291741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 043/103] fix: NoData not representable by the output data type
 did not match the NoData cells

---
 src/data_raster.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 09807c5..1b2f8a8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -607,6 +607,13 @@ bool ReadRasterFileByGdal(const string& filename, STRDBL_MAP& header, T*& values
     return true;
 }
 
+/*!
+ * \brief Is the value an integer within the given range?
+ */
+inline bool IsIntegerWithin(const double value, const double minimum, const double maximum) {
+    return value >= minimum && value <= maximum && std::floor(value) == value;
+}
+
 /*!
  * \brief Write single geotiff file
  * If the file exists, delete it first.
@@ -640,7 +647,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         if (outtype == RDT_UInt8) { // [0, 255] --> GDT_Byte in GDAL, use unsigned char
             new_values = static_cast<unsigned char*>(CPLMalloc(sizeof(unsigned char) * n_cols * n_rows));
             unsigned char* values_uchar = static_cast<unsigned char*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT8_MAX) {
+            if (!IsIntegerWithin(old_nodata, 0, UINT8_MAX)) {
                 new_nodata = UINT8_MAX;
                 change_nodata = true;
             }
@@ -663,7 +670,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
 #endif
             new_values = static_cast<signed char*>(CPLMalloc(sizeof(signed char) * n_cols * n_rows));
             signed char* values_char = static_cast<signed char*>(new_values);
-            if (old_nodata < INT8_MIN || old_nodata > INT8_MAX) {
+            if (!IsIntegerWithin(old_nodata, INT8_MIN, INT8_MAX)) {
                 new_nodata = INT8_MIN;
                 change_nodata = true;
             }
@@ -682,7 +689,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt16) { // [0, 65535]
             new_values = static_cast<vuint16_t*>(CPLMalloc(sizeof(vuint16_t) * n_cols * n_rows));
             vuint16_t* values_uint16 = static_cast<vuint16_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT16_MAX) {
+            if (!IsIntegerWithin(old_nodata, 0, UINT16_MAX)) {
                 new_nodata = UINT16_MAX;
                 change_nodata = true;
             }
@@ -701,7 +708,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int16) { // [-32768, 32767]
             new_values = static_cast<vint16_t*>(CPLMalloc(sizeof(vint16_t) * n_cols * n_rows));
             vint16_t* values_int16 = static_cast<vint16_t*>(new_values);
-            if (old_nodata < INT16_MIN || old_nodata > INT16_MAX) {
+            if (!IsIntegerWithin(old_nodata, INT16_MIN, INT16_MAX)) {
                 new_nodata = INT16_MIN;
                 change_nodata = true;
             }
@@ -720,7 +727,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt32) { // [0, 4294967295]
             new_values = static_cast<vuint32_t*>(CPLMalloc(sizeof(vuint32_t) * n_cols * n_rows));
             vuint32_t* values_uint32 = static_cast<vuint32_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT32_MAX) {
+            if (!IsIntegerWithin(old_nodata, 0, UINT32_MAX)) {
                 new_nodata = UINT32_MAX;
                 change_nodata = true;
             }
@@ -739,7 +746,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int32) { // [-2147483648, 2147483647]
             new_values = static_cast<vint32_t*>(CPLMalloc(sizeof(vint32_t) * n_cols * n_rows));
             vint32_t* values_int32 = static_cast<vint32_t*>(new_values);
-            if (old_nodata < INT32_MIN || old_nodata > INT32_MAX) {
+            if (!IsIntegerWithin(old_nodata, INT32_MIN, INT32_MAX)) {
                 new_nodata = INT32_MIN;
                 change_nodata = true;
             }
@@ -759,7 +766,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_UInt64) { // [0, 18446744073709551615]
             new_values = static_cast<vuint64_t*>(CPLMalloc(sizeof(vuint64_t) * n_cols * n_rows));
             vuint64_t* values_uint64 = static_cast<vuint64_t*>(new_values);
-            if (old_nodata < 0 || old_nodata > UINT64_MAX) {
+            if (!IsIntegerWithin(old_nodata, 0, UINT64_MAX)) {
                 new_nodata = UINT64_MAX;
                 change_nodata = true;
             }
@@ -778,7 +785,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
         else if (outtype == RDT_Int64) { // [-18446744073709551615, 18446744073709551615]
             new_values = static_cast<vint64_t*>(CPLMalloc(sizeof(vint64_t) * n_cols * n_rows));
             vint64_t* values_int64 = static_cast<vint64_t*>(new_values);
-            if (old_nodata < INT64_MIN || old_nodata > INT64_MAX) {
+            if (!IsIntegerWithin(old_nodata, INT64_MIN, INT64_MAX)) {
                 new_nodata = INT64_MIN;
                 change_nodata = true;
             }
@@ -800,6 +807,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
             float* values_float = static_cast<float*>(new_values);
 #pragma omp parallel for
             for (int i = 0; i < n_cols * n_rows; i++) values_float[i] = static_cast<float>(values[i]);
+            new_nodata = static_cast<float>(old_nodata);
         }
         else if (outtype == RDT_Double) {
             new_values = static_cast<double*>(CPLMalloc(sizeof(double) * n_cols * n_rows));
-- 
2.43.0


From 53ce004306138e338bf27376417b55b2a2485876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 044/103] fix: the substituted NoData of 64-bit unsigned
 GeoTIFF files was lost

---
 src/data_raster.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 1b2f8a8..2024bc9 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -833,7 +833,12 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     GDALRasterBand* po_dst_band = po_dst_ds->GetRasterBand(1);
     CPLErr result = CE_None;
     // NoData should be set before writing, otherwise blocks of zeros are filled with NoData when closing
+#if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
+    if (outtype == RDT_UInt64 && change_nodata) { po_dst_band->SetNoDataValueAsUInt64(UINT64_MAX); }
+    else { po_dst_band->SetNoDataValue(new_nodata); }
+#else
     po_dst_band->SetNoDataValue(new_nodata);
+#endif
     if (!recreate_flag) {
         result = po_dst_band->RasterIO(GF_Write, 0, 0, n_cols, n_rows, values,
                                        n_cols, n_rows, CvtToGDALDataType(outtype), 0, 0);
-- 
2.43.0


From f2a2d69163e050caa3b8c61901fb5a526a135af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 045/103] fix: floating point values just beyond the range of
 32-bit and 64-bit integers were accepted

---
 src/data_raster.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 2024bc9..b7fca43 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -738,7 +738,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint32[i] = UINT32_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT32_MAX) illegal_count += 1;
+                if (values[i] < 0 || static_cast<long double>(values[i]) > UINT32_MAX) illegal_count += 1;
                 values_uint32[i] = static_cast<vuint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -757,7 +757,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int32[i] = INT32_MIN;
                     continue;
                 }
-                if ((values[i] < 0 && values[i] < INT32_MIN) || values[i] > INT32_MAX) illegal_count += 1;
+                if ((values[i] < 0 && values[i] < INT32_MIN) || static_cast<long double>(values[i]) > INT32_MAX) illegal_count += 1;
                 values_int32[i] = static_cast<vint32_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -777,7 +777,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_uint64[i] = UINT64_MAX;
                     continue;
                 }
-                if (values[i] < 0 || values[i] > UINT64_MAX) illegal_count += 1;
+                if (values[i] < 0 || static_cast<long double>(values[i]) > UINT64_MAX) illegal_count += 1;
                 values_uint64[i] = static_cast<vuint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
@@ -796,7 +796,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
                     values_int64[i] = INT64_MIN;
                     continue;
                 }
-                if ((values[i] < 0 && values[i] < INT64_MIN) || values[i] > INT64_MAX) illegal_count += 1;
+                if ((values[i] < 0 && values[i] < INT64_MIN) || static_cast<long double>(values[i]) > INT64_MAX) illegal_count += 1;
                 values_int64[i] = static_cast<vint64_t>(values[i]);
             }
             if (illegal_count > 0) convert_permit = false;
-- 
2.43.0


From 3bfb619713708874b06456b9435a95d39f700ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 046/103] fix: the substituted NoData of 64-bit signed GeoTIFF
 files was lost

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b7fca43..a3d50fb 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -835,6 +835,7 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     // NoData should be set before writing, otherwise blocks of zeros are filled with NoData when closing
 #if GDAL_VERSION_MAJOR >= 3 && GDAL_VERSION_MINOR >= 5
     if (outtype == RDT_UInt64 && change_nodata) { po_dst_band->SetNoDataValueAsUInt64(UINT64_MAX); }
+    else if (outtype == RDT_Int64 && change_nodata) { po_dst_band->SetNoDataValueAsInt64(INT64_MIN); }
     else { po_dst_band->SetNoDataValue(new_nodata); }
 #else
     po_dst_band->SetNoDataValue(new_nodata);
-- 
2.43.0


From c5c69d5170c7f7c5596e1316e502d83a6f4ab185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 047/103] fix: positions of subsets were not updated when the
 valid positions of a raster are calculated afterwards

---
 src/data_raster.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a3d50fb..e869586 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3959,6 +3959,29 @@ void clsRasterData<T, MASK_T>::CalculateValidPositionsFromGridData() {
         pos_idx_[i] = pos_rows.at(i) * ncols + pos_cols.at(i);
     }
     calc_pos_ = true;
+    // subsets built before (e.g., inherited from mask) are positioned by cells of the full grid
+    if (subset_.empty()) { return; }
+    vector<int> new_idx(nrows * ncols, -1);
+    for (int i = 0; i < n_cells_; ++i) { new_idx[pos_idx_[i]] = i; }
+    for (auto it = subset_.begin(); it != subset_.end(); ++it) {
+        SubsetPositions* sub = it->second;
+        int count = 0;
+        for (int i = 0; i < sub->n_cells; ++i) {
+            if (new_idx[sub->global_[i]] < 0) { continue; } // not valid any more
+            sub->global_[count] = new_idx[sub->global_[i]];
+            sub->local_pos_[count][0] = sub->local_pos_[i][0];
+            sub->local_pos_[count][1] = sub->local_pos_[i][1];
+            sub->local_posidx_[count] = sub->local_posidx_[i];
+            if (nullptr != sub->data_) { sub->data_[count] = sub->data_[i]; }
+            if (nullptr != sub->data2d_) {
+                for (int lyr = 0; lyr < sub->n_lyrs; ++lyr) {
+                    sub->data2d_[count][lyr] = sub->data2d_[i][lyr];
+                }
+            }
+            count++;
+        }
+        sub->n_cells = count;
+    }
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From 629510a764163e883f343f972e8a5550d3acfc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 048/103] fix: reclassifying original data of subsets into more
 layers than a 2D raster has read out of bounds

---
 src/data_raster.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index e869586..8e8e983 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3021,6 +3021,10 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
     int lyrs = -1;
     if (out_origin) {
         lyrs = n_lyrs_;
+        if (n_lyrs_ > 1 && lyr_recls > n_lyrs_) {
+            StatusMessage("Error: Reclassification layer count MUST NOT exceed the layers of raster!");
+            return false;
+        }
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = lyrs_subset;
@@ -3064,7 +3068,7 @@ bool clsRasterData<T, MASK_T>::PrepareCombSubsetData(T** values, int* datalen, i
                     if (out_origin) {
                         if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                         else if (nullptr != raster_2d_) {
-                            recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                            recls_key = CVT_INT(raster_2d_[gidx][n_lyrs_ > 1 ? ilyr : 0]);
                         }
                     }
                     if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
@@ -3122,6 +3126,10 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
     int lyrs = - 1;
     if (out_origin) {
         lyrs = n_lyrs_;
+        if (n_lyrs_ > 1 && lyr_recls > n_lyrs_) {
+            StatusMessage("Error: Reclassification layer count MUST NOT exceed the layers of raster!");
+            return false;
+        }
         if (lyr_recls > 0) { lyrs = lyr_recls; }
     } else {
         lyrs = sub->n_lyrs;
@@ -3151,7 +3159,7 @@ bool clsRasterData<T, MASK_T>::PrepareSubsetData(const int sub_id, SubsetPositio
                 if (out_origin) {
                     if (nullptr != raster_) { recls_key = CVT_INT(raster_[gidx]); }
                     else if (nullptr != raster_2d_) {
-                        recls_key = CVT_INT(raster_2d_[gidx][ilyr]);
+                        recls_key = CVT_INT(raster_2d_[gidx][n_lyrs_ > 1 ? ilyr : 0]);
                     }
                 }
                 if (recls.count(recls_key) > 0 && recls.at(recls_key).size() > ilyr) {
-- 
2.43.0


From f7d0c155b911a4f1329d1ba5b39ed22162bbf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 049/103] fix: positions of coordinates in rasters of huge or
 infinite cells were converted to int out of range and accessed

---
 src/data_raster.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 8e8e983..fcae3b1 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3893,10 +3893,11 @@ ROW_COL clsRasterData<T, MASK_T>::GetPositionByCoordinate(const double x, const
     if ((x > x_max || x < x_min) || (y > y_max || y < y_min)) {
         return ROW_COL(-1, -1);
     }
-    int row = CVT_INT((y_max - y) / dy);
-    int col = CVT_INT((x - x_min) / dx);
-    if (row >= n_rows || col >= n_cols) { return ROW_COL(-1, -1); } // on the bottom or right edge
-    return ROW_COL(row, col);
+    double row = (y_max - y) / dy;
+    double col = (x - x_min) / dx;
+    // on the bottom or right edge, or not finite
+    if (!(row < n_rows && col < n_cols)) { return ROW_COL(-1, -1); }
+    return ROW_COL(CVT_INT(row), CVT_INT(col));
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From b217cd396dbc0ce7c49d5b20d8e3635e304ebdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 050/103] fix: unmasked data remained without any cell count
 when masking of the data read failed

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fcae3b1..9d996e0 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2383,7 +2383,8 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
     if (readflag) {
         if (n_lyrs_ < 0) { n_lyrs_ = 1; }
         if (is_2draster) { is_2draster = false; }
-        return MaskAndCalculateValidPosition() >= 0;
+        if (MaskAndCalculateValidPosition() >= 0) { return true; }
+        Release1DArray(raster_); // nothing in common with the mask
     }
     return false;
 }
-- 
2.43.0


From 0461b0fdbb9779a7218b7b4648426a30bb146434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 051/103] fix: copies of rasters did not keep whether the mask
 extent is used and whether the raster is initialized

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 9d996e0..fd20684 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3767,6 +3767,8 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     InitializeReadFunction(orgraster->GetFilePath(), orgraster->PositionsCalculated(),
                            orgraster->GetMask(), orgraster->MaskExtented(),
                            orgraster->GetDefaultValue(), orgraster->GetOptions());
+    use_mask_ext_ = orgraster->MaskExtented(); // may be true although the mask is not needed any more
+    initialized_ = orgraster->Initialized();
     core_name_ = orgraster->GetCoreName();
     n_cells_ = orgraster->GetCellNumber();
     n_lyrs_ = orgraster->GetLayers();
-- 
2.43.0


From 7534c1b378bfd0fb8332cef22f97467451654db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 052/103] fix: statistics of a raster without data accessed
 null pointers

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index fd20684..58c4d4c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2504,6 +2504,7 @@ void clsRasterData<T, MASK_T>::SetOutDataType(const string& strtype) {
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::CalculateStatistics() {
     if (stats_calculated_) { return; }
+    if (!ValidateRasterData()) { return; }
     if (stats_.empty() || stats_2d_.empty()) { InitialStatsMap(stats_, stats_2d_); }
     if (is_2draster && nullptr != raster_2d_) {
         double** derivedvs = nullptr;
-- 
2.43.0


From 243a32850c3594b100639a9e2a0c30cadb8111ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 053/103] fix: rasters without data were accessed by the cell
 count of the mask or of a header

---
 src/data_raster.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 58c4d4c..ce43526 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2266,6 +2266,9 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T* const va
     mask->GetRasterPositionData(&n_cells_, &pos_idx_);
     if (n_cells_ != len) {
         StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
+        n_cells_ = -1;
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
         initialized_ = false;
         return;
     }
@@ -2290,6 +2293,9 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<MASK_T>* mask, T** const v
     mask->GetRasterPositionData(&n_cells_, &pos_idx_);
     if (n_cells_ != len) {
         StatusMessage("Input data length MUST EQUALS TO valid cell's number of mask!");
+        n_cells_ = -1;
+        pos_data_ = nullptr;
+        pos_idx_ = nullptr;
         initialized_ = false;
         return;
     }
@@ -3820,8 +3826,9 @@ void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::ReplaceNoData(T replacedv) {
+    const int ncells = ValidateRasterData() ? n_cells_ : 0; // may have no (valid) cells
 #pragma omp parallel for
-    for (int i = 0; i < n_cells_; i++) {
+    for (int i = 0; i < ncells; i++) {
         for (int lyr = 0; lyr < n_lyrs_; lyr++) {
             bool flag = is_2draster && nullptr != raster_2d_
                             ? FloatEqual(raster_2d_[i][lyr], no_data_value_)
@@ -3841,6 +3848,7 @@ void clsRasterData<T, MASK_T>::ReplaceNoData(T replacedv) {
 
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Reclassify(const map<int, T> reclass_map) {
+    if (!ValidateRasterData()) { return; }
     map<int, T> recls;
     for(auto it = reclass_map.begin(); it != reclass_map.end(); ++it) {
 #ifdef HAS_VARIADIC_TEMPLATES
-- 
2.43.0


From 0877cd4ad8831f64ca8d75b39e141d5eb07041a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 054/103] fix: reading several files into a raster whose
 construction failed lost the number of layers

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index ce43526..6695144 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3528,7 +3528,10 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
     if (!FilesExist(filenames)) { return false; }
     n_lyrs_ = CVT_INT(filenames.size());
     if (n_lyrs_ == 1) { return ReadFromFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts); }
-    if (!initialized_) { InitializeRasterClass(true); }
+    if (!initialized_) {
+        InitializeRasterClass(true);
+        n_lyrs_ = CVT_INT(filenames.size());
+    }
     rs_type_out_ = RasterDataTypeInOptionals(opts);
     // 1. firstly, take the first layer as the main input, to calculate position index or extract by mask.
     if (!ConstructFromSingleFile(filenames[0], calc_pos, mask, use_mask_ext, default_value, opts)) {
-- 
2.43.0


From 05482ca89598301f51ecd4285104849069b078db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 055/103] fix: positions of the first layer remained when a
 further layer could not be read

---
 src/data_raster.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6695144..04c4e10 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3578,6 +3578,13 @@ bool clsRasterData<T, MASK_T>::ReadFromFiles(vector<string>& filenames, const bo
         if (!lyrflag || nullptr == tmplyrdata) { // the layer cannot be read
             Release1DArray(tmplyrdata);
             Release2DArray(raster_2d_);
+            if (store_pos_) { // otherwise, position data belongs to the mask
+                Release2DArray(pos_data_);
+                Release1DArray(pos_idx_);
+            }
+            pos_data_ = nullptr;
+            pos_idx_ = nullptr;
+            store_pos_ = false;
             n_cells_ = -1;
             return false;
         }
-- 
2.43.0


From 1dfc3fa110c62b08f9941243fcfdb0f637881e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 056/103] fix: an ASC file read after a GeoTIFF kept the data
 type of the GeoTIFF, and its values were converted for output

---
 src/data_raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 04c4e10..74a7812 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2368,6 +2368,7 @@ bool clsRasterData<T, MASK_T>::ConstructFromSingleFile(const string& filename,
         stats_calculated_ = false;
     }
     if (StringMatch(GetUpper(GetSuffix(filename)), ASCIIExtension)) {
+        rs_type_ = RDT_Unknown; // not defined by the file
         readflag = ReadAscFile(full_path_, headers_, raster_);
     } else {
 #ifdef USE_GDAL
-- 
2.43.0


From fa6c7216b628f680fd48d165dc8044b20651f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 057/103] fix: statistics of 2D rasters were not available
 anymore after reading again

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 74a7812..19a4250 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2543,9 +2543,9 @@ void clsRasterData<T, MASK_T>::ReleaseStatsMap2D() {
     for (auto it = stats_2d_.begin(); it != stats_2d_.end(); ++it) {
         if (nullptr != it->second) {
             Release1DArray(it->second);
+            it->second = nullptr;
         }
     }
-    stats_2d_.clear();
 }
 
 template <typename T, typename MASK_T>
-- 
2.43.0


From cdd6d040078fd46fa7bad9069e0d7ade53684801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 058/103] fix: subsets built before kept positions of former
 cells when a raster is masked again

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 19a4250..5434a91 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -4114,8 +4114,8 @@ int clsRasterData<T, MASK_T>::MaskAndCalculateValidPosition() {
     // Priority DEEP Copy subset of mask data
     map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
     bool mask_has_subset = !mask_subset.empty(); // if mask data has subsets
+    ReleaseSubset(); // subsets of the former cells, if any, are not valid anymore
     if (mask_has_subset) {
-        ReleaseSubset();
         for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
             SubsetPositions* tmp = new SubsetPositions(it->second, true);
             if (tmp->n_lyrs != n_lyrs_) { // data of subset has different layers
-- 
2.43.0


From e14afd067548a48a46ed9ae0fc8739a36fcc1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 059/103] fix: GetBoolFromBson was inverted for numbers, and
 false for Boolean values

---
 src/db_mongoc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index b4d71b3..7ff01cf 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -539,11 +539,13 @@ bool GetBoolFromBsonIterator(bson_iter_t* iter) {
     } else if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp = vv->value.v_utf8.str;
         return StringMatch(tmp.c_str(), "TRUE");
+    } else if (vv->value_type == BSON_TYPE_BOOL) {
+        return vv->value.v_bool;
     } else {
         StatusMessage("Failed in get Boolean value.");
         return false;
     }
-    return utils_math::FloatEqual(fltvalue, 0.f);
+    return !utils_math::FloatEqual(fltvalue, 0.f);
 }
 
 bool GetBoolFromBson(bson_t* bmeta, const char* key) {
-- 
2.43.0


From eb944e1f35438e83472bd2d80817ed86a030e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 060/103] fix: date times of BSON before September 2001, before
 1970, or after 2038 were wrong

---
 src/db_mongoc.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7ff01cf..820d273 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -560,10 +560,9 @@ bool GetBoolFromBson(bson_t* bmeta, const char* key) {
 time_t GetDatetimeFromBsonIterator(bson_iter_t* iter) {
     const bson_value_t* vv = bson_iter_value(iter);
     if (vv->value_type == BSON_TYPE_DATE_TIME) {
-		string str_milisec = std::to_string(vv->value.v_datetime);
-		string str_second = str_milisec.substr(0, str_milisec.length() - 3);
-		int intStr = atoi(str_second.c_str());
-        return CVT_TIMET(intStr);
+        vint64_t seconds = vv->value.v_datetime / 1000; // from milliseconds
+        if (vv->value.v_datetime % 1000 < 0) { seconds--; }
+        return CVT_TIMET(seconds);
     }
     if (vv->value_type == BSON_TYPE_UTF8) {
         string tmp_time_str = vv->value.v_utf8.str;
-- 
2.43.0


From 6461ac10e1b90444590a390d3d5439d5fdebef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 061/103] fix: integral options beyond the range of int were
 stored as other numbers

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 820d273..7d4e7a8 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -491,7 +491,8 @@ void AppendStringOptionsToBson(bson_t* bson_opts, const STRING_MAP& opts,
             BSON_APPEND_UTF8(bson_opts, meta_field.c_str(), iter->second.c_str());
         } else {
             double intpart; // https://stackoverflow.com/a/1521682/4837280
-            if (std::modf(dbl_value, &intpart) == 0.0) {
+            if (std::modf(dbl_value, &intpart) == 0.0
+                && dbl_value >= INT32_MIN && dbl_value <= INT32_MAX) {
                 BSON_APPEND_INT32(bson_opts, meta_field.c_str(), CVT_INT(dbl_value));
             } else {
                 BSON_APPEND_DOUBLE(bson_opts, meta_field.c_str(), dbl_value);
-- 
2.43.0


From c4977bfb2528f7d108db42a511b08d4bb9e652ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 062/103] fix: the database remained open if the collection
 does not exist

---
 src/db_mongoc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7d4e7a8..940f19a 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -156,6 +156,7 @@ mongoc_collection_t* MongoClient::GetCollection(string const& dbname, string con
     if (!mongoc_database_has_collection(db, collectionname.c_str(), &err)) {
         cout << "MongoClient::GetCollection (" << dbname << ": " << collectionname
                 << ") failed! Error message: " << err.message << endl;
+        mongoc_database_destroy(db);
         return NULL;
     }
     mongoc_database_destroy(db);
-- 
2.43.0


From e4b1d4e4ab90ed82ad8b223791f354072f4992c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 063/103] fix: getting metadata of a GridFS file without
 metadata aborted

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 940f19a..7fefdd0 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -404,7 +404,7 @@ bson_t* MongoGridFs::GetFileMetadata(string const& gfilename,
     }
     // `mongoc_gridfs_file_get_metadata` returns a bson_t that should not be modified or freed.
     const bson_t* bmata = mongoc_gridfs_file_get_metadata(gfile);
-    bson_t* mata = bson_copy(bmata);
+    bson_t* mata = NULL == bmata ? NULL : bson_copy(bmata);
     mongoc_gridfs_file_destroy(gfile);
     return mata;
 }
-- 
2.43.0


From 912f6f1bc49db74e6f34d285a48d5f97f36c8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 064/103] fix: stream data was allocated by malloc but released
 by delete[], and remained when reading failed

---
 src/db_mongoc.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 7fefdd0..ab2d691 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -413,6 +413,7 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
                                 vint& datalength, mongoc_gridfs_t* gfs /* = NULL */,
                                 const STRING_MAP* opts /* = nullptr */) {
     if (gfs_ != NULL) { gfs = gfs_; }
+    databuf = NULL;
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
         return false;
@@ -423,12 +424,11 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     }
     mongoc_gridfs_file_t* gfile = GetFile(gfilename, gfs, *opts);
     if (NULL == gfile) {
-        databuf = NULL;
         StatusMessage(("MongoGridFs::GetStreamData(" + gfilename + ") failed!").c_str());
         return false;
     }
     datalength = mongoc_gridfs_file_get_length(gfile);
-    databuf = static_cast<char *>(malloc(datalength));
+    databuf = new char[datalength];
     mongoc_iovec_t iov;
     iov.iov_base = databuf;
     iov.iov_len = static_cast<u_long>(datalength);
@@ -437,7 +437,12 @@ bool MongoGridFs::GetStreamData(string const& gfilename, char*& databuf,
     vint flag = mongoc_stream_readv(stream, &iov, 1, -1, 10);
     mongoc_stream_destroy(stream);
     mongoc_gridfs_file_destroy(gfile);
-    return flag >= 0;
+    if (flag < 0) {
+        delete[] databuf;
+        databuf = NULL;
+        return false;
+    }
+    return true;
 }
 
 bool MongoGridFs::WriteStreamData(const string& gfilename, char*& buf,
-- 
2.43.0


From 7a27c7f97f9dca01a7d2ac6cc0e98b6f0d8364c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 065/103] fix: files of GridFS that cannot be removed were
 reported as removed

---
 src/db_mongoc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index ab2d691..db85520 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -349,6 +349,7 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
     // if (mongoc_gridfs_remove_by_filename(gfs, gfilename.c_str(), &err)) {
     //     return true;
     // }
+    bool removed = true;
     mongoc_gridfs_file_list_t* filelist;
     mongoc_gridfs_file_t* gfile = NULL;
     filelist = mongoc_gridfs_find_with_opts(gfs, &filter, NULL);
@@ -358,16 +359,21 @@ bool MongoGridFs::RemoveFile(string const& gfilename, mongoc_gridfs_t* gfs /* =
         bson_oid_to_string(&tmpid->value.v_oid, charid);
         string strid = charid;
         if (!mongoc_gridfs_file_remove(gfile, &err)) {
+            removed = false;
             StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
         } else {
             StatusMessage(("Removed GridFs: " + gfilename + ", _id: " + strid).c_str());
         }
         mongoc_gridfs_file_destroy(gfile);
     }
+    if (mongoc_gridfs_file_list_error(filelist, &err)) {
+        removed = false;
+        StatusMessage(("MongoGridFs::RemoveFile(" + gfilename + ") failed: " + err.message).c_str());
+    }
 
     mongoc_gridfs_file_list_destroy(filelist);
     bson_destroy(&filter);
-    return true;
+    return removed;
 }
 
 void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* gfs /* = NULL */) {
-- 
2.43.0


From b6993fe8ff7f093a128be703fe28602b8a7ea10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 066/103] fix: file names were requested from GridFS although
 it is not provided

---
 src/db_mongoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index db85520..d18824b 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -380,10 +380,10 @@ void MongoGridFs::GetFileNames(vector<string>& files_existed, mongoc_gridfs_t* g
     if (gfs_ != NULL) { gfs = gfs_; }
     if (NULL == gfs) {
         StatusMessage("mongoc_gridfs_t must be provided for MongoGridFs!");
+        return;
     }
     //vector<string> filesExisted;
     bson_t* query = bson_new();
-    bson_init(query);
     mongoc_gridfs_file_list_t* glist = mongoc_gridfs_find_with_opts(gfs, query, NULL);
     mongoc_gridfs_file_t* file;
     while ((file = mongoc_gridfs_file_list_next(glist))) {
-- 
2.43.0


From 01f1677434cec74a3141027de414af12f432e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 067/103] fix: names of GridFS which contain dots were missing
 or wrong in the collection names

---
 src/db_mongoc.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index d18824b..c8c0a1f 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -236,10 +236,8 @@ void MongoDatabase::GetCollectionNames(vector<string>& collnames) {
         for (auto it = collnames.begin(); it != collnames.end(); ++it) {
             vector<string> splitstrs = SplitString((*it), '.');
             if (splitstrs.back() == "files" || splitstrs.back() == "chunks") {
-                string realname;
-                // Refers to https://stackoverflow.com/a/18703743/4837280
-                std::for_each(splitstrs.begin(), splitstrs.end() - 1,
-                              [&](const std::string &piece){ realname += piece; });
+                if (splitstrs.size() < 2) { continue; }
+                string realname = it->substr(0, it->length() - splitstrs.back().length() - 1);
                 string another_coll = splitstrs.back() == "files" ?
                                           realname + ".chunks" :
                                           realname + ".files";
-- 
2.43.0


From 0bee5585a0ed532e260324dca0011d628b5dcb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 068/103] fix: decimal numbers of BSON lost digits when they
 were converted to strings

---
 src/db_mongoc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index c8c0a1f..50cbd7e 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -13,6 +13,8 @@
 #include "db_mongoc.h"
 
 #include <cassert>
+#include <iomanip>
+#include <sstream>
 #include <utility>
 #include "basic.h"
 #include "utils_string.h"
@@ -523,7 +525,13 @@ string GetStringFromBsonIterator(bson_iter_t* iter) {
         return ValueToString(vv->value.v_int64);
     }
     if (vv->value_type == BSON_TYPE_DOUBLE) {
-        return ValueToString(vv->value.v_double);
+        std::ostringstream oss;
+        oss << std::setprecision(15) << vv->value.v_double;
+        if (strtod(oss.str().c_str(), NULL) != vv->value.v_double) { // 15 digits are not enough
+            oss.str("");
+            oss << std::setprecision(17) << vv->value.v_double;
+        }
+        return oss.str();
     }
     StatusMessage("bson iterator did not contain or can not convert to string.");
     return "";
-- 
2.43.0


From 8ffc63c72eb41071f9d67f210da1d3b467b7d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 069/103] fix: GridFS files without any value divided by zero,
 and other sizes than the metadata demand were accepted

---
 src/data_raster.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5434a91..d6b5c41 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -952,7 +952,12 @@ bool ReadGridFsFile(MongoGridFs* gfs, const string& filename,
         delete[] buf;
         return false;
     }
-    int value_count = n_cells * n_lyrs;
+    vint value_count = static_cast<vint>(n_cells) * n_lyrs;
+    if (value_count <= 0 || length % value_count != 0) { // no value, or incomplete values
+        StatusMessage("Unconsistent of data size and metadata in MongoDB GridFS!");
+        delete[] buf;
+        return false;
+    }
     size_t size_dtype = length / value_count;
 
     RasterDataType rstype = RDT_Unknown;
-- 
2.43.0


From 52acfb7d6d8dfa05e039309ba6b5d75d7313c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 070/103] fix: integral header values beyond the range of int
 were stored as other numbers in GridFS

---
 src/data_raster.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index d6b5c41..b7385c3 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1054,7 +1054,8 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
         if (!StringMatch(HEADER_RS_NODATA, iter->first)
-            && std::modf(iter->second, &intpart) == 0.0) {
+            && std::modf(iter->second, &intpart) == 0.0
+            && intpart > -2147483649. && intpart < 2147483648.) {
             // std::modf consider inf as an integer,
             // hence cannot handle -3.40282346639e+38 which is one of commonly used Nodata
             BSON_APPEND_INT32(&p, iter->first.c_str(), CVT_INT(iter->second));
-- 
2.43.0


From 1fad81883d35f908500df57bc794d462c3d392a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 071/103] fix: raster data of 64-bit integers or unknown types
 to be stored in GridFS crashed

---
 src/data_raster.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index b7385c3..a703583 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1104,6 +1104,16 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             Initialize1DArray(datalength, newdata, values);
             buf = reinterpret_cast<char*>(newdata);
             buflength = datalength * sizeof(vint32_t);
+        } else if (opt_type == RDT_UInt64) {
+            vuint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vuint64_t);
+        } else if (opt_type == RDT_Int64) {
+            vint64_t* newdata = nullptr;
+            Initialize1DArray(datalength, newdata, values);
+            buf = reinterpret_cast<char*>(newdata);
+            buflength = datalength * sizeof(vint64_t);
         } else if (opt_type == RDT_Float) {
             float* newdata = nullptr;
             Initialize1DArray(datalength, newdata, values);
@@ -1116,6 +1126,11 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
             buflength = datalength * sizeof(double);
         }
     }
+    if (nullptr == buf) { // no data, or unknown data type
+        StatusMessage("Unknown data type or no data to be stored in MongoDB GridFS!");
+        bson_destroy(&p);
+        return false;
+    }
     // Add user-specific key-values into metadata
     AppendStringOptionsToBson(&p, curopts);
 
@@ -3374,7 +3389,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
     }
     CopyStringMap(opts, options_); // Update metadata
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+        || RDT_Unknown == StringToRasterDataType(options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
@@ -3463,7 +3478,7 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         UpdateStringMap(options_, HEADER_INC_NODATA, "FALSE");
     }
     if (options_.find(HEADER_RSOUT_DATATYPE) == options_.end()
-        || StringMatch("Unknown", options_.at(HEADER_RSOUT_DATATYPE))) {
+        || RDT_Unknown == StringToRasterDataType(options_.at(HEADER_RSOUT_DATATYPE))) {
         UpdateStrHeader(options_, HEADER_RSOUT_DATATYPE,
                         RasterDataTypeToString(TypeToRasterDataType(typeid(T))));
     }
-- 
2.43.0


From feb9d87532c12eef62fec648a0ac1033a9c7eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 072/103] fix: former GridFS files were removed although the
 new data cannot be stored, or remained besides it

---
 src/data_raster.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a703583..da4b682 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1049,7 +1049,6 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     if (curopts.find(HEADER_RSOUT_DATATYPE) == curopts.end()) {
         UpdateStringMap(curopts, HEADER_RSOUT_DATATYPE, RasterDataTypeToString(temp_type));
     }
-    gfs->RemoveFile(filename, nullptr, curopts);
     bson_t p = BSON_INITIALIZER;
     double intpart; // https://stackoverflow.com/a/1521682/4837280
     for (auto iter = header.begin(); iter != header.end(); ++iter) {
@@ -1134,6 +1133,11 @@ bool WriteStreamDataAsGridfs(MongoGridFs* gfs, const string& filename,
     // Add user-specific key-values into metadata
     AppendStringOptionsToBson(&p, curopts);
 
+    if (!gfs->RemoveFile(filename, nullptr, curopts)) {
+        bson_destroy(&p);
+        if (transformed) { delete[] buf; }
+        return false;
+    }
     int try_times = 0;
     bool gstatus = false;
     while (try_times <= 3) { // Try 3 times
-- 
2.43.0


From 3a82abe3948229e274dd32a582d124e871f66188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 073/103] fix: output of a raster without data to MongoDB
 accessed null pointers

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index da4b682..bca3ac7 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3387,7 +3387,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
                                                const STRING_MAP& opts /* = STRING_MAP() */,
                                                bool include_nodata /* = true */,
                                                bool out_origin /* true */) {
-    if (nullptr == gfs) { return false; }
+    if (nullptr == gfs || !ValidateRasterData()) { return false; }
     if (!out_origin) { // Output subset's data
         return OutputSubsetToMongoDB(gfs, filename, opts, include_nodata, false, true);
     }
@@ -3407,7 +3407,7 @@ bool clsRasterData<T, MASK_T>::OutputToMongoDB(MongoGridFs* gfs, const string& f
         GetRasterPositionData(&cnt, &pos);
     }
     if ((nullptr == pos_data_ || nullptr == pos_idx_) && !include_nodata) {
-        SetCalcPositions();
+        if (!SetCalcPositions() || n_cells_ <= 0) { return false; } // no valid cells
         GetRasterPositionData(&cnt, &pos);
     }
     int n_rows = GetRows();
-- 
2.43.0


From 4ad21e423aea6d5654fc806d3d4dedd541be8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 074/103] fix: data of subsets that cannot be combined was
 stored in MongoDB by uninitialized sizes

---
 src/data_raster.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index bca3ac7..5b030fc 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3497,12 +3497,13 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         int sublen;
         bool flag = PrepareCombSubsetData(&data1d, &sublen, &sublyrs,
                                           out_origin, include_nodata, recls, default_value);
+        if (!flag) { return false; }
         STRDBL_MAP tmpheader;
         CopyHeader(headers_, tmpheader);
         UpdateHeader(tmpheader, HEADER_RS_LAYERS, sublyrs);
         UpdateHeader(tmpheader, HEADER_RS_CELLSNUM, sublen / sublyrs);
-        flag = flag && WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
-                                               tmpheader, data1d, sublen, options_);
+        flag = WriteStreamDataAsGridfs(gfs, "0_" + outnameact,
+                                       tmpheader, data1d, sublen, options_);
         Release1DArray(data1d);
         return flag;
     }
-- 
2.43.0


From 13a918f5929efc9b746c310c42587f0b0b7ca948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 075/103] fix: output of subsets to MongoDB succeeded although
 some were not stored

---
 src/data_raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 5b030fc..6b078f8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3524,10 +3524,10 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToMongoDB(MongoGridFs* gfs,
         UpdateHeader(subheader, HEADER_RS_LAYERS, tmplyrs);
         UpdateHeader(subheader, HEADER_RS_CELLSNUM, tmpdatalen / tmplyrs);
         string tmpfname = itoa(CVT_VINT(it->first)) + "_" + outnameact;
-        flag = flag && WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_);
+        if (!WriteStreamDataAsGridfs(gfs, tmpfname, subheader, tmpdata1d, tmpdatalen, options_)) { flag = false; }
         if (nullptr != tmpdata1d) { Release1DArray(tmpdata1d); }
     }
-    return true;
+    return flag;
 }
 
 #endif /* USE_MONGODB */
-- 
2.43.0


From 5ffd9ddbebcd6e71f774d798200f18f404348f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 076/103] fix: reading subset data of another number of layers
 from MongoDB wrote out of bounds

---
 src/data_raster.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 0efdf1c..54bd6bc 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -312,7 +312,10 @@ bool SubsetPositions::ReadFromMongoDB(MongoGridFs* gfs, const string& fname, con
         Release1DArray(dbdata);
         return false;
     }
-    n_lyrs = db_nlyrs;
+    if (n_lyrs != db_nlyrs) {
+        n_lyrs = db_nlyrs;
+        if (nullptr != data2d_) { Release2DArray(data2d_); }
+    }
     if (n_lyrs == 1) {
         if (n_cells == db_ncells) {
             bool set_success = SetData(db_ncells, dbdata);
-- 
2.43.0


From 4d622eb5db0cb0d082092d5444b83b0c4fc3f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 077/103] fix: reading from MongoDB into a used raster kept its
 header, positions, subsets, and statistics, and leaked its data

---
 src/data_raster.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 6b078f8..cde5c96 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3655,7 +3655,29 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
                                                const bool use_mask_ext /* = true */,
                                                double default_value /* NODATA_VALUE */,
                                                const STRING_MAP& opts /* = STRING_MAP() */) {
+    // Position data may be preassigned by SetPositions()
+    const bool preassigned = nullptr == mask_ && !store_pos_ && nullptr != pos_data_ && nullptr != pos_idx_;
     InitializeReadFunction(filename, calc_pos, mask, use_mask_ext, default_value, opts);
+    // Release the data read before, if any
+    if (nullptr != raster_ || nullptr != raster_2d_) {
+        Release1DArray(raster_);
+        Release2DArray(raster_2d_);
+        if (!preassigned) {
+            if (store_pos_) {
+                if (nullptr != pos_data_) { Release2DArray(pos_data_); }
+                if (nullptr != pos_idx_) { Release1DArray(pos_idx_); }
+            }
+            pos_data_ = nullptr;
+            pos_idx_ = nullptr;
+            store_pos_ = false;
+            n_cells_ = -1;
+        }
+    }
+    ReleaseSubset();
+    if (stats_calculated_) {
+        ReleaseStatsMap2D();
+        stats_calculated_ = false;
+    }
     T* dbdata = nullptr;
     STRDBL_MAP header_dbl = InitialHeader();
     STRING_MAP header_str = InitialStrHeader();
@@ -3666,7 +3688,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     }
     if (!ReadGridFsFile(gfs, filename, dbdata, header_dbl, header_str, opts_upd)) { return false; }
 
-    if (headers_.at(HEADER_RS_NROWS) > 0 && headers_.at(HEADER_RS_NCOLS) > 0
+    if (n_cells_ > 0 && headers_.at(HEADER_RS_NROWS) > 0 && headers_.at(HEADER_RS_NCOLS) > 0
         && headers_.at(HEADER_RS_LAYERS) > 0 && headers_.at(HEADER_RS_CELLSNUM) > 0) {
         // means the raster is preassigned header information, and this function is used for read data only
         if (!FloatEqual(headers_.at(HEADER_RS_NROWS), header_dbl.at(HEADER_RS_NROWS))
-- 
2.43.0


From 9da2d0ea3490dd2a0054e8296b946868ad7deaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 078/103] fix: data that cannot be read from MongoDB leaked and
 left a raster with cells but without data

---
 src/data_raster.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index cde5c96..61cdcd5 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3713,7 +3713,11 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
     no_data_value_ = static_cast<T>(headers_.at(HEADER_RS_NODATA));
     n_cells_ = CVT_INT(headers_.at(HEADER_RS_CELLSNUM));
 
-    if (include_nodata && n_cells_ != fullsize) { return false; }
+    if (include_nodata && n_cells_ != fullsize) {
+        Release1DArray(dbdata);
+        n_cells_ = -1;
+        return false;
+    }
     if (n_cells_ != fullsize) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
@@ -3737,7 +3741,11 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         mask_pos_subset = false;
     }
 
-    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) { return false; }
+    if (!include_nodata && (nullptr == pos_data_ || nullptr == pos_idx_)) {
+        Release1DArray(dbdata);
+        n_cells_ = -1;
+        return false;
+    }
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
@@ -3771,8 +3779,11 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         Release1DArray(dbdata);
     }
     CheckDefaultValue();
-    if (include_nodata && mask_pos_subset) {
-        return MaskAndCalculateValidPosition() >= 0;
+    if (include_nodata && mask_pos_subset && MaskAndCalculateValidPosition() < 0) {
+        Release1DArray(raster_); // nothing in common with the mask
+        Release2DArray(raster_2d_);
+        n_cells_ = -1;
+        return false;
     }
     return true;
 }
-- 
2.43.0


From 8f91f828aa6808fc40e94f573f8825e294404002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 079/103] fix: data from MongoDB was assigned to positions of
 any mask with the same number of valid cells

---
 src/data_raster.hpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 61cdcd5..05fc436 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3722,8 +3722,11 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-    if (nullptr != mask_ && calc_pos_ && use_mask_ext_ && n_cells_ == mask_->GetValidNumber()) {
+    if (!include_nodata && nullptr != mask_ && calc_pos_ && use_mask_ext_
+        && n_rows == mask_->GetRows() && n_cols == mask_->GetCols()
+        && n_cells_ == mask_->GetValidNumber()) {
         store_pos_ = false;
+        if (!mask_->PositionsCalculated()) { mask_->SetCalcPositions(); }
         mask_->GetRasterPositionData(&n_cells_, &pos_data_);
         mask_->GetRasterPositionData(&n_cells_, &pos_idx_);
         if (!mask->GetSubset().empty()) {
@@ -3749,30 +3752,13 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
 
     if (n_lyrs_ == 1) {
         is_2draster = false;
-        if (include_nodata && !mask_pos_subset) {
-            Initialize1DArray(n_cells_, raster_, no_data_value_);
-#pragma omp parallel for
-            for (int i = 0; i < n_cells_; i++) {
-                //int tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                int tmpidx = pos_idx_[i];
-                raster_[i] = static_cast<T>(dbdata[tmpidx]);
-            }
-            Release1DArray(dbdata);
-        } else {
-            raster_ = dbdata;
-        }
+        raster_ = dbdata;
     } else {
         Initialize2DArray(n_cells_, n_lyrs_, raster_2d_, no_data_value_);
 #pragma omp parallel for
         for (int i = 0; i < n_cells_; i++) {
-            int tmpidx = i;
-            if (include_nodata && !mask_pos_subset) {
-                //tmpidx = pos_data_[i][0] * n_cols + pos_data_[i][1];
-                tmpidx = pos_idx_[i];
-            }
             for (int j = 0; j < n_lyrs_; j++) {
-                int idx = tmpidx * n_lyrs_ + j;
-                raster_2d_[i][j] = dbdata[idx];
+                raster_2d_[i][j] = dbdata[i * n_lyrs_ + j];
             }
         }
         is_2draster = true;
-- 
2.43.0


From 148d99ff714e5ff028da380fe2fb398bc926b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 080/103] fix: subsets taken over from a mask by data from
 MongoDB kept data of another number of layers

---
 src/data_raster.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 05fc436..7ec6817 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3733,6 +3733,10 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
             map<int, SubsetPositions*>& mask_subset = mask_->GetSubset();
             for (auto it = mask_subset.begin(); it != mask_subset.end(); ++it) {
                 SubsetPositions* tmp = new SubsetPositions(it->second, true);
+                if (tmp->n_lyrs != n_lyrs_) { // data of subset has different layers
+                    Release1DArray(tmp->data_);
+                    Release2DArray(tmp->data2d_);
+                }
                 tmp->n_lyrs = n_lyrs_;
 #ifdef HAS_VARIADIC_TEMPLATES
                 subset_.emplace(it->first, tmp);
-- 
2.43.0


From 74270dcc21288083749dd9959e11066777167892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 081/103] fix: valid data of rasters without any NoData cell
 could not be read from MongoDB with a mask

---
 src/data_raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7ec6817..7cef614 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3718,7 +3718,7 @@ bool clsRasterData<T, MASK_T>::ReadFromMongoDB(MongoGridFs* gfs,
         n_cells_ = -1;
         return false;
     }
-    if (n_cells_ != fullsize) { calc_pos_ = true; }
+    if (!include_nodata) { calc_pos_ = true; }
 
     // check the valid values count and determine whether we can read directly.
     bool mask_pos_subset = true;
-- 
2.43.0


From 7e9a27148f55b6fd88614b55484db63ab4a7e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 082/103] fix: mask_rasterio crashed on inputs that could not
 be read or have nothing in common with the mask

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index efb32d0..d08e826 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -530,7 +530,7 @@ int main(const int argc, const char** argv) {
                                      false,            // No need to calculate valid positions
                                      mask_layer, true, // Use entire extent of Mask
                                      default_values.at(in_idx));
-                if (out_types.at(in_idx) != RDT_Unknown) { rs->SetOutDataType(out_types.at(in_idx)); }
+                if (nullptr != rs) { rs->SetOutDataType(out_types.at(in_idx)); }
             }
             else if (in_fmts.at(in_idx) == GFS && use_mongo) {
 #ifdef USE_MONGODB
-- 
2.43.0


From 660e9bd396ab589428ef7cdba0f7c32a7511a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 083/103] fix: mask_rasterio did not accept a single
 configuration file as documented

---
 apps/mask_rasterio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index d08e826..8309cb9 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -214,8 +214,6 @@ int main(const int argc, const char** argv) {
         if (tmp_dbl_flag) { continue; }
         arg_sep.push_back(idx);
     }
-    arg_sep.push_back(argc);
-
     map<string, vector<string> > key_args;
     if (arg_sep.empty()) {
         if (config_path.empty()) {
@@ -229,6 +227,7 @@ int main(const int argc, const char** argv) {
         }
     }
     else {
+        arg_sep.push_back(argc);
         for (auto arg_idx = arg_sep.begin(); arg_idx != arg_sep.end() - 1; ++arg_idx) {
             vector<string> tmpargs(argv + *arg_idx + 1, argv + *(arg_idx + 1));
             if (tmpargs.empty()) { continue; }
-- 
2.43.0


From 1702e9d423f4b15699f47fbf55cf3be057265690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 084/103] fix: mask_rasterio read beyond its arguments if
 -configfile was the last one

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 8309cb9..bf16c90 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -206,7 +206,7 @@ int main(const int argc, const char** argv) {
     vector<int> arg_sep;
     for (int idx = 1; idx < argc; idx++) {
         if (argv[idx] == nullptr || argv[idx][0] != '-') { continue; }
-        if (StringMatch(argv[idx], "-configfile") && argc > idx && argv[idx + 1][0] != '-') {
+        if (StringMatch(argv[idx], "-configfile") && argc > idx + 1 && argv[idx + 1][0] != '-') {
             config_path = argv[idx + 1];
         }
         bool tmp_dbl_flag = false;
-- 
2.43.0


From 380352c86fdf80c25b5b0b9713afe00a4b2f8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 085/103] fix: mask_rasterio did not write the decomposed parts
 of a raster to files

---
 apps/mask_rasterio.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index bf16c90..2c6207d 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -563,7 +563,12 @@ int main(const int argc, const char** argv) {
                                                default_values.at(in_idx));
                     }
                 } else {
-                    if (output_subset) { rs->OutputToFile(out_paths.at(in_idx), false); }
+                    if (output_subset) {
+                        if (nullptr == mask_layer) {
+                            rs->BuildSubSet();
+                        }
+                        rs->OutputSubsetToFile(true, false, out_paths.at(in_idx));
+                    }
                     if (output_all) { rs->OutputToFile(out_paths.at(in_idx), true); }
                 }
             } else if (out_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 8fc6d77039eb9f2fb4f7c3bf6a9f19e05840eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 086/103] fix: mask_rasterio lost pieces with NoData cells when
 combining files

---
 apps/mask_rasterio.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 2c6207d..3e8e977 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -623,13 +623,21 @@ int main(const int argc, const char** argv) {
                 if (subset.find(subid) == subset.end()) { continue; }
 
                 if (in_fmts.at(in_idx) == SFILE && FileExists(*inf_it)) {
+                    // Read the entire extent, of which the cells of the subset are used, NoData included
                     DblRaster* tmpsubrs = nullptr;
-                    tmpsubrs = DblRaster::Init(*inf_it, true);
+                    tmpsubrs = DblRaster::Init(*inf_it, false);
                     if (nullptr == tmpsubrs) { continue; }
-                    int tmpsublen;
-                    double* tmpsubdata = nullptr;
-                    tmpsubrs->GetRasterData(&tmpsublen, &tmpsubdata);
-                    subset.at(subid)->SetData(tmpsublen, tmpsubdata);
+                    SubsetPositions* cursub = subset.at(subid);
+                    if (tmpsubrs->GetRows() == cursub->g_erow - cursub->g_srow + 1
+                        && tmpsubrs->GetCols() == cursub->g_ecol - cursub->g_scol + 1) {
+                        double tmpnodata = tmpsubrs->GetNoDataValue();
+                        vector<double> tmpsubdata(cursub->n_cells, mask_layer->GetNoDataValue());
+                        for (int i = 0; i < cursub->n_cells; i++) {
+                            double tmpvalue = tmpsubrs->GetValueByIndex(cursub->local_posidx_[i]);
+                            if (!FloatEqual(tmpvalue, tmpnodata)) { tmpsubdata[i] = tmpvalue; }
+                        }
+                        cursub->SetData(cursub->n_cells, &tmpsubdata[0]);
+                    }
                     delete tmpsubrs;
                 }
                 else if (in_fmts.at(in_idx) == GFS && use_mongo) {
-- 
2.43.0


From 2b20d2617aa0ef43cab9f027c6eba6e236fd0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 087/103] fix: mask_rasterio read beyond empty lists of input
 paths

---
 apps/mask_rasterio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 3e8e977..c74f979 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -85,6 +85,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
     int path_idx = tmpcount > 1 ? 1 : 0;
     DATAFMT tmpfmt = StringToDataFormat(strs[0]);
     vector<string> file_paths = SplitString(strs[path_idx], ',');
+    if (file_paths.empty()) { return false; }
     if (!StringMatch(tag, "OUT") && FilesExist(file_paths)) {
         // 1: {"/path/to/single_file.tif"},
         // 3: {"file", "/path/to/single_file.tif"}
@@ -428,6 +429,7 @@ int main(const int argc, const char** argv) {
         vector<string> tmpin = SplitString((*ioit).at(inidx), ','); // could be ""
         string tmpout = outidx > 0 ? (*ioit).at(outidx) : "";
 
+        if (tmpin.empty()) { continue; }
         if (tmpin.size() == 1 && tmpin.at(0).empty() && tmpout.empty()) { continue; }
 
         if (global_infmt == UNKNOWNFMT && FilesExist(tmpin)) { global_infmt = SFILE; }
-- 
2.43.0


From a25e802fd367c2084043cc932e0ba502781d8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 088/103] fix: mask_rasterio stored -9999 as value of missing
 pieces if NoData of the mask is another value

---
 apps/mask_rasterio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index c74f979..2b74ea5 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -611,7 +611,9 @@ int main(const int argc, const char** argv) {
                 cout << "Error: The COMBINE mode MUST based on a mask layer!";
                 return 1;
             }
-            mask_layer->SetDefaultValue(default_values.at(in_idx));
+            mask_layer->SetDefaultValue(FloatEqual(default_values.at(in_idx), NODATA_VALUE)
+                                        ? mask_layer->GetNoDataValue() // default value is not specified
+                                        : default_values.at(in_idx));
             map<int, SubsetPositions*>& subset = mask_layer->GetSubset();
             for (auto it = subset.begin(); it != subset.end(); ++it) {
                 it->second->usable = false;
-- 
2.43.0


From 6c86ef340396fd95b9564894872a0e8616286470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 089/103] fix: mask_rasterio took a data format given without a
 path as the path, too

---
 apps/mask_rasterio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index 2b74ea5..fd3242d 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -98,6 +98,7 @@ bool parse_fmt_paths(const string& tag, const vector<string>& strs, DATAFMT& fmt
             if (tmpfmt == GFS || tmpfmt == SFILE) {
                 // 7: {"file"} or {"gfs"}
                 fmt = tmpfmt;
+                return true; // without path
             }
             else if (file_paths.at(path_idx).find_first_of(SEP) != string::npos) {
                 fmt = SFILE;
@@ -296,7 +297,7 @@ int main(const int argc, const char** argv) {
         else if (itkv->first == "MASK") {
             vector<string> tmppaths;
             if (!parse_fmt_paths("MASK", itkv->second, mask_fmt, tmppaths)
-                && tmppaths.empty()) {
+                || tmppaths.empty()) {
                 return 2;
             }
             mask_path = tmppaths[0];
-- 
2.43.0


From d074225048eb01a3f6073cbada5f82a48c1b6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 090/103] fix: mask_rasterio did not apply -outdatatype to
 items that end before the data type

---
 apps/mask_rasterio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/mask_rasterio.cpp b/apps/mask_rasterio.cpp
index fd3242d..e0203a0 100644
--- a/apps/mask_rasterio.cpp
+++ b/apps/mask_rasterio.cpp
@@ -450,7 +450,7 @@ int main(const int argc, const char** argv) {
             if (!str2num_flag) { tmp_nodata = NODATA_VALUE; }
             else { upd_nodata = true; }
         }
-        RasterDataType tmpouttype = RDT_Unknown;
+        RasterDataType tmpouttype = global_outtype;
         if (outtypeidx > 0) {
             tmpouttype = StringToRasterDataType((*ioit).at(outtypeidx));
             if (tmpouttype == RDT_Unknown) { tmpouttype = global_outtype; }
-- 
2.43.0


From a7549ea9ea6542c1808ee78d946303ef9bee5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 091/103] fix: UTC date-times were an hour late during daylight
 saving time

---
 src/utils_time.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index d125593..774c7c9 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -272,8 +272,10 @@ SYSTEMTIME DateTimeToSystemTime(const DateTime& date_time) {
  *        TMT is 5 hours ahead of UTC time.
  *        This time zone is in use during standard time in Asia.
  */
-DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds) {
-    time_t timer = mktime(time_info);
+DateTime ConvertTMToDateTime(tm* time_info, vint milliseconds, const bool utc_parts = false) {
+    struct tm local_info = *time_info;
+    time_t timer = mktime(&local_info); // may normalize the parts, which are not local time if utc_parts
+    if (!utc_parts) { *time_info = local_info; }
     DateTime dt;
     dt.year = time_info->tm_year + 1900;
     dt.month = time_info->tm_mon + 1;
@@ -330,7 +332,7 @@ DateTime DateTime::UTCTime() {
 #else
     gmtime_r(&timer, time_info);
 #endif
-    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds());
+    DateTime dt = ConvertTMToDateTime(time_info, GetCurrentMilliseconds(), true);
     delete time_info;
     return dt;
 #endif /* CPP_MSVC */
@@ -439,7 +441,7 @@ DateTime DateTime::ToUTCTime() {
     gmtime_r(&timer, time_info);
 #endif
 
-    DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
+    DateTime dt = ConvertTMToDateTime(time_info, milliseconds, true);
     //delete &time_info;
     return dt;
 #endif
-- 
2.43.0


From 2b0d63b9ef0af23ba097a4bc6fbee2fccdb1194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 092/103] fix: converting a date-time to local or UTC time
 leaked memory

---
 src/utils_time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_time.cpp b/src/utils_time.cpp
index 774c7c9..082c7ec 100644
--- a/src/utils_time.cpp
+++ b/src/utils_time.cpp
@@ -421,7 +421,7 @@ DateTime DateTime::ToLocalTime() {
     localtime_r(&timer, time_info);
 #endif
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
@@ -442,7 +442,7 @@ DateTime DateTime::ToUTCTime() {
 #endif
 
     DateTime dt = ConvertTMToDateTime(time_info, milliseconds, true);
-    //delete &time_info;
+    delete time_info;
     return dt;
 #endif
 }
-- 
2.43.0


From b3c5cc0e1506e9d41d02431c3d8c1f7a388b144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 093/103] fix: BatchRelease2DArray could not be compiled

---
 src/utils_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 48831ce..8cc8ce6 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -503,10 +503,10 @@ template <typename T>
 void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_list arg_ptr;
     va_start(arg_ptr, data);
-    Release2DArray(nrows, data);
+    Release2DArray(data);
     T** arg_value = va_arg(arg_ptr, T**);
     while (nullptr != arg_value) {
-        Release2DArray(nrows, arg_value);
+        Release2DArray(arg_value);
         arg_value = va_arg(arg_ptr, T**);
     }
     va_end(arg_ptr);
-- 
2.43.0


From 279226cd26f6a8f1a44543b1068dfbd832ef7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 094/103] fix: the functions reading arrays from text could not
 be linked

---
 src/utils_array.cpp | 47 -------------------------------------------
 src/utils_array.h   | 49 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 47 deletions(-)

diff --git a/src/utils_array.cpp b/src/utils_array.cpp
index c735e0b..56489fb 100644
--- a/src/utils_array.cpp
+++ b/src/utils_array.cpp
@@ -23,53 +23,6 @@ void Output2DArrayToTxtFile(const int rows, const int cols, const float** data,
     }
     ofs.close();
 }
-
-template <typename T>
-void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
-    std::ifstream ifs(filename);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T[rows];
-    for (int i = 0; i < rows; i++) {
-        ifs >> data[i];
-    }
-    ifs.close();
-}
-
-template <typename T>
-void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
-    std::ifstream ifs(filename);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
-    for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
-        for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
-        }
-    }
-    ifs.close();
-}
-
-template <typename T>
-void Read2DArrayFromString(const char* s, int& rows, T**& data) {
-    std::istringstream ifs(s);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
-    for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
-        for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
-        }
-    }
-}
 } /* namespace: utils_array */
 
 } /* namespace: ccgl */
diff --git a/src/utils_array.h b/src/utils_array.h
index 8cc8ce6..2356e87 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -15,6 +15,8 @@
 #include <new> // std::nothrow
 #include <cstdarg> // variable arguments
 #include <iostream>
+#include <fstream>
+#include <sstream>
 #include <vector>
 
 #include "basic.h"
@@ -512,6 +514,53 @@ void BatchRelease2DArray(const int nrows, T**& data, ...) {
     va_end(arg_ptr);
 }
 
+template <typename T>
+void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
+    std::ifstream ifs(filename);
+    string tmp;
+    ifs >> tmp >> rows;
+    data = new T[rows];
+    for (int i = 0; i < rows; i++) {
+        ifs >> data[i];
+    }
+    ifs.close();
+}
+
+template <typename T>
+void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
+    std::ifstream ifs(filename);
+    string tmp;
+    ifs >> tmp >> rows;
+    data = new T*[rows];
+    int n;
+    for (int i = 0; i < rows; i++) {
+        ifs >> n;
+        data[i] = new T[n + 1];
+        data[i][0] = n;
+        for (int j = 1; j <= n; j++) {
+            ifs >> data[i][j];
+        }
+    }
+    ifs.close();
+}
+
+template <typename T>
+void Read2DArrayFromString(const char* s, int& rows, T**& data) {
+    std::istringstream ifs(s);
+    string tmp;
+    ifs >> tmp >> rows;
+    data = new T*[rows];
+    int n;
+    for (int i = 0; i < rows; i++) {
+        ifs >> n;
+        data[i] = new T[n + 1];
+        data[i][0] = n;
+        for (int j = 1; j <= n; j++) {
+            ifs >> data[i][j];
+        }
+    }
+}
+
 template <typename T>
 bool ValueInVector(const T val, const vector<T>& vec) {
     if (vec.empty()) {
-- 
2.43.0


From db1fb4ef5c37402f169bcaf20806f96439ab1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 095/103] fix: 2D arrays read from text could not be released,
 and unreadable text gave an undefined size

---
 src/utils_array.h | 57 ++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/utils_array.h b/src/utils_array.h
index 2356e87..35137bf 100644
--- a/src/utils_array.h
+++ b/src/utils_array.h
@@ -518,8 +518,12 @@ template <typename T>
 void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
     std::ifstream ifs(filename);
     string tmp;
-    ifs >> tmp >> rows;
-    data = new T[rows];
+    data = nullptr;
+    if (!(ifs >> tmp >> rows) || rows <= 0) {
+        rows = 0;
+        return;
+    }
+    data = new T[rows]();
     for (int i = 0; i < rows; i++) {
         ifs >> data[i];
     }
@@ -527,38 +531,45 @@ void Read1DArrayFromTxtFile(const char* filename, int& rows, T*& data) {
 }
 
 template <typename T>
-void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
-    std::ifstream ifs(filename);
+void Read2DArrayFromStream(std::istream& is, int& rows, T**& data) {
     string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
+    data = nullptr;
+    if (!(is >> tmp >> rows) || rows <= 0) {
+        rows = 0;
+        return;
+    }
+    vector<T> values; // row by row, each starts with its number of values
+    vector<size_t> starts;
     for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
+        int n = 0;
+        is >> n;
+        starts.push_back(values.size());
+        values.push_back(static_cast<T>(n));
         for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
+            T value = T();
+            if (!(is >> value)) { break; }
+            values.push_back(value);
         }
+        values.resize(starts.back() + (n > 0 ? n : 0) + 1);
     }
+    // successive memory which can be released by Release2DArray()
+    data = new T*[rows];
+    T* pool = new T[values.size()];
+    for (size_t i = 0; i < values.size(); i++) { pool[i] = values[i]; }
+    for (int i = 0; i < rows; i++) { data[i] = pool + starts[i]; }
+}
+
+template <typename T>
+void Read2DArrayFromTxtFile(const char* filename, int& rows, T**& data) {
+    std::ifstream ifs(filename);
+    Read2DArrayFromStream(ifs, rows, data);
     ifs.close();
 }
 
 template <typename T>
 void Read2DArrayFromString(const char* s, int& rows, T**& data) {
     std::istringstream ifs(s);
-    string tmp;
-    ifs >> tmp >> rows;
-    data = new T*[rows];
-    int n;
-    for (int i = 0; i < rows; i++) {
-        ifs >> n;
-        data[i] = new T[n + 1];
-        data[i][0] = n;
-        for (int j = 1; j <= n; j++) {
-            ifs >> data[i][j];
-        }
-    }
+    Read2DArrayFromStream(ifs, rows, data);
 }
 
 template <typename T>
-- 
2.43.0


From cb6dc3a14913f9b3498bf3b21877e19ee82b9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 096/103] fix: counting the records of a collection leaked
 memory

---
 src/db_mongoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db_mongoc.cpp b/src/db_mongoc.cpp
index 50cbd7e..601bb28 100644
--- a/src/db_mongoc.cpp
+++ b/src/db_mongoc.cpp
@@ -280,7 +280,7 @@ mongoc_cursor_t* MongoCollection::ExecuteQuery(const bson_t* b, const bson_t* op
 }
 
 vint MongoCollection::QueryRecordsCount() {
-    const bson_t* q_count = bson_new();
+    bson_t* q_count = bson_new();
     bson_error_t err;
 #if MONGOC_CHECK_VERSION(1, 11, 0)
     int64_t count = mongoc_collection_count_documents(collection_, q_count,
@@ -288,6 +288,7 @@ vint MongoCollection::QueryRecordsCount() {
 #else
     int64_t count = mongoc_collection_count(collection_, MONGOC_QUERY_NONE, q_count, 0, 0, NULL, &err);
 #endif
+    bson_destroy(q_count);
     if (count < 0) {
         cout << "MongoCollection::QueryRecordsCount failed: " << err.message << endl;
         return -1;
-- 
2.43.0


From dcac6fb075d0357392403e61d6f5aa05ef5f59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 097/103] fix: copying a raster object from another by
 reference shared and released the same arrays

---
 src/data_raster.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 7cef614..90e0282 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1409,6 +1409,9 @@ public:
      */
     explicit clsRasterData(clsRasterData<T, MASK_T>* another);
 
+    //! Copy constructor from another raster object, i.e., the implicit one must not be used
+    clsRasterData(const clsRasterData<T, MASK_T>& another);
+
     //! Destructor
     ~clsRasterData();
 
@@ -3803,6 +3806,12 @@ clsRasterData<T, MASK_T>::clsRasterData(clsRasterData<T, MASK_T>* another) {
     Copy(another);
 }
 
+template <typename T, typename MASK_T>
+clsRasterData<T, MASK_T>::clsRasterData(const clsRasterData<T, MASK_T>& another) {
+    InitializeRasterClass();
+    Copy(const_cast<clsRasterData<T, MASK_T>*>(&another)); // which is not changed
+}
+
 template <typename T, typename MASK_T>
 void clsRasterData<T, MASK_T>::Copy(clsRasterData<T, MASK_T>* orgraster) {
     if (this == orgraster) { return; }
-- 
2.43.0


From e12bac072ec425d85cdad74eec6b7cc76715cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 098/103] fix: ASC files that could not be written in full were
 reported as written

---
 src/data_raster.cpp |  4 ++++
 src/data_raster.hpp | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/data_raster.cpp b/src/data_raster.cpp
index 54bd6bc..1a017d1 100644
--- a/src/data_raster.cpp
+++ b/src/data_raster.cpp
@@ -217,6 +217,10 @@ bool WriteAscHeaders(const string& filename, const STRDBL_MAP& header) {
     raster_file << HEADER_RS_CELLSIZE << " " << ExactNumberToString(header.at(HEADER_RS_CELLSIZE)) << endl;
     raster_file << HEADER_RS_NODATA << " " << ExactNumberToString(header.at(HEADER_RS_NODATA)) << endl;
     raster_file.close();
+    if (raster_file.fail()) { // e.g., no space left
+        StatusMessage("Error writing file: " + abs_filename);
+        return false;
+    }
     return true;
 }
 
diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 90e0282..684f18c 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -376,6 +376,10 @@ bool WriteSingleAsc(const string& filename, const STRDBL_MAP& header, T* values)
     }
     raster_file << endl;
     raster_file.close();
+    if (raster_file.fail()) { // e.g., no space left
+        StatusMessage("Error writing file: " + abs_filename);
+        return false;
+    }
     return true;
 }
 
@@ -3298,6 +3302,10 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
                 raster_file << endl;
             }
             raster_file.close();
+            if (raster_file.fail()) { // e.g., no space left
+                StatusMessage("Error writing file: " + tmpfilename);
+                return false;
+            }
         }
     } else { // 1D raster data
         if (!WriteAscHeaders(abs_filename, headers_)) { return false; }
@@ -3324,6 +3332,10 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
             raster_file << endl;
         }
         raster_file.close();
+        if (raster_file.fail()) { // e.g., no space left
+            StatusMessage("Error writing file: " + abs_filename);
+            return false;
+        }
     }
     position = nullptr;
     return true;
-- 
2.43.0


From ff3bb93d66cfa30b6c56970f0f3e92c8d6807eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 099/103] fix: GeoTIFF files that could not be written in full
 were reported as written

---
 src/data_raster.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 684f18c..a433113 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -875,8 +875,12 @@ bool WriteSingleGeotiff(const string& filename, const STRDBL_MAP& header,
     }
     if (papsz_options != nullptr) { CSLDestroy(papsz_options); }
     if (new_values != nullptr) { CPLFree(new_values); }
-    GDALClose(po_dst_ds);
-
+    CPLErrorReset();
+    GDALClose(po_dst_ds); // data may not be written until closing, e.g., no space left
+    if (CPLGetLastErrorType() >= CE_Failure) {
+        StatusMessage("Error writing file: " + filename + ", " + string(CPLGetLastErrorMsg()));
+        return false;
+    }
     return true;
 }
 #endif /* USE_GDAL */
-- 
2.43.0


From f6839611686aa774f22002aea0d25d0be9f33b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 100/103] fix: default names of subset files contained the
 template of the layers' names

---
 src/data_raster.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index a433113..4eb7825 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2987,7 +2987,10 @@ bool clsRasterData<T, MASK_T>::OutputSubsetToFile(const bool out_origin /* = fal
                                                   const double default_value /*  = NODATA_VALUE */) {
     if (!ValidateRasterData()) { return false; }
     if (subset_.empty()) { return false; }
-    string outpathact = outname.empty() ? full_path_ : outname;
+    string outpathact = outname;
+    if (outname.empty() && !full_path_.empty()) { // full_path_ is a template if read from several files
+        outpathact = ConcatFullName(GetPathFromFullName(full_path_), core_name_, GetSuffix(full_path_));
+    }
     // output combined subsets
     bool out_comb = out_combined;
     if (out_comb) {
-- 
2.43.0


From 6fba1c9cee6f33e98847f8c1a13ee0e716b71da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 101/103] fix: direct output of a raster without data wrote an
 ASC file and reported success

---
 src/data_raster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 4eb7825..c2e87d8 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -3265,6 +3265,7 @@ bool clsRasterData<T, MASK_T>::OutputFullsizeToFiles(T* fullsizedata, const int
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     // Is there need to calculate valid position index?
     int count;
@@ -3351,6 +3352,7 @@ bool clsRasterData<T, MASK_T>::OutputAscFile(const string& filename) {
 #ifdef USE_GDAL
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::OutputFileByGdal(const string& filename) {
+    if (!ValidateRasterData()) { return false; }
     string abs_filename = GetAbsolutePath(filename);
     bool outputdirectly = (nullptr == pos_data_ || nullptr == pos_idx_);
     int n_rows = CVT_INT(headers_.at(HEADER_RS_NROWS));
-- 
2.43.0


From da8095781feac60c84c1ad3bec6473e786977837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 102/103] fix: data of one layer given to a subset as
 two-dimensional array were output as NoData

---
 src/data_raster.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index c2e87d8..3bf8728 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -1194,7 +1194,14 @@ public:
     template <typename T>
     bool Set2DData(const int n, const int lyr, T** data2d) {
         if (n != n_cells) { return false; }
-        if (nullptr == data2d) { return false; }
+        if (nullptr == data2d || lyr < 1) { return false; }
+        if (1 == lyr) { // data of single layer is stored as 1D array
+            if (nullptr == data_) { Initialize1DArray(n_cells, data_, 0.); }
+            n_lyrs = 1;
+            for (int i = 0; i < n_cells; i++) { data_[i] = CVT_DBL(data2d[i][0]); }
+            usable = true;
+            return true;
+        }
         if (lyr != n_lyrs) {
             n_lyrs = lyr;
             if (nullptr != data2d_) { Release2DArray(data2d_); }
-- 
2.43.0


From efb90528616c0ffae4fc77f6a22e9e24f7593224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 103/103] fix: positions given to a raster leaked its own ones,
 and were accepted for data of another length

---
 src/data_raster.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/data_raster.hpp b/src/data_raster.hpp
index 3bf8728..d6c2592 100644
--- a/src/data_raster.hpp
+++ b/src/data_raster.hpp
@@ -2932,9 +2932,17 @@ bool clsRasterData<T, MASK_T>::SetCalcPositions() {
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
-    if (nullptr != pos_data_) {
+    if (nullptr == pdata) { return false; }
+    if (nullptr != pos_data_ || nullptr != raster_ || nullptr != raster_2d_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        if (store_pos_) { Release2DArray(pos_data_); }
+    }
+    if (nullptr != pos_data_ && store_pos_) { // replace the values of its own positions
+        for (int i = 0; i < len; i++) {
+            pos_data_[i][0] = pdata[i][0];
+            pos_data_[i][1] = pdata[i][1];
+        }
+        calc_pos_ = true;
+        return true;
     }
     pos_data_ = pdata;
     calc_pos_ = true;
@@ -2944,9 +2952,14 @@ bool clsRasterData<T, MASK_T>::SetPositions(int len, int** pdata) {
 
 template <typename T, typename MASK_T>
 bool clsRasterData<T, MASK_T>::SetPositions(int len, int* pdata) {
-    if (nullptr != pos_idx_) {
+    if (nullptr == pdata) { return false; }
+    if (nullptr != pos_idx_ || nullptr != raster_ || nullptr != raster_2d_) {
         if (len != n_cells_) { return false; } // cannot change origin n_cells_
-        if (store_pos_) { Release1DArray(pos_idx_); }
+    }
+    if (nullptr != pos_idx_ && store_pos_) { // replace the values of its own positions
+        for (int i = 0; i < len; i++) { pos_idx_[i] = pdata[i]; }
+        calc_pos_ = true;
+        return true;
     }
     pos_idx_ = pdata;
     calc_pos_ = true;
-- 
2.43.0

