From 8d962293c0f506e63cc743783d172d15b0286f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:58 +0000
Subject: [PATCH 01/58] fix: add the missing description of KFileTooLarge

StatusString had one entry fewer than Status, so every status from
KFileTooLarge on was described by its neighbour's text and kNameNotPresent
read past the end of the table.
---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..88ef558 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From e9cb0db9ddabc7f29aa61c11e110086297209938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:26 +0000
Subject: [PATCH 02/58] fix: read a file correctly when read() returns less
 than asked for

A short read made the next one overwrite the start of the buffer instead of
continuing, and a file that ended early made the loop spin forever.
---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 88ef558..8f04aad 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -400,9 +400,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From b36ff50a4e5d89dec2369f08ba5d4799879f5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:31 +0000
Subject: [PATCH 03/58] fix: replace the whole destination file when writing

The file was opened without truncating it, so writing a document over a
longer file left the old file's tail behind it. Nothing is opened any more
when there is no document to write, so that case leaves the file as it was.
---
 Code/Json4C4/C4Json.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8f04aad..b2e07de 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
@@ -1811,6 +1811,11 @@ namespace C4
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
 
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
             {
@@ -1819,16 +1824,11 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
-
-                file.CloseFile();
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                return status;
-            }
+            file.CloseFile();
 
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From 398955bbe58b702b9ddce06ab9f6a8fb4cd7801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:09 +0000
Subject: [PATCH 04/58] fix: report a write that failed

Write() ignored the result of every write and of closing the file and
returned kOk for a document that had not been stored. A new status,
KFileWriteError, reports it.
---
 Code/Json4C4/C4Json.cpp | 31 +++++++++++++++++++++++++++----
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b2e07de..6f8dfa9 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -199,7 +199,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool IsReadOnly  = false;
+        bool writeFailed = false;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -299,7 +300,10 @@ namespace C4
 
             if ( this->fileDescriptor != -1 )
             {
-                close( this->fileDescriptor );
+                if ( close( this->fileDescriptor ) != 0 )
+                {
+                    writeFailed = true;
+                }
 
                 fileDescriptor = -1;
             }
@@ -441,6 +445,8 @@ namespace C4
 
                 if ( !ok )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -462,8 +468,10 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -475,6 +483,11 @@ namespace C4
             return kFileOkay;
         }
 
+        bool HasWriteFailed() const
+        {
+            return writeFailed;
+        }
+
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -525,7 +538,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1828,6 +1842,15 @@ namespace C4
 
             file.CloseFile();
 
+#ifndef C4_ENGINE_MODULE
+
+            if ( status == Status::kOk && file.HasWriteFailed() )
+            {
+                return Status::KFileWriteError;
+            }
+
+#endif
+
             return status;
         }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..4b11607 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From 41f0760977e5b0f5d601dabcf9c57c28b6f709de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:30 +0000
Subject: [PATCH 05/58] fix: escape strings and names when writing them

Quotation marks, backslashes and control characters were written verbatim,
which made the file invalid JSON or a different document.
---
 Code/Json4C4/C4Json.cpp | 46 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6f8dfa9..526e652 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -623,6 +623,47 @@ namespace C4
             }
         }
 
+        void WriteStringLiteral( File& file, const char* string )
+        {
+            static const char hexDigits[] = "0123456789abcdef";
+
+            file << '"';
+
+            for ( ;; )
+            {
+                const char* start = string;
+
+                while ( static_cast<uint8>( string[ 0 ] ) >= 32U && string[ 0 ] != '"' && string[ 0 ] != '\\' )
+                {
+                    string++;
+                }
+
+                file.WriteFile( start, string - start );
+
+                const uint8 c = static_cast<uint8>( string[ 0 ] );
+
+                if ( c == 0 )
+                {
+                    break;
+                }
+
+                file << '\\';
+
+                if ( c < 32U )
+                {
+                    file << "u00" << hexDigits[ c >> 4 ] << hexDigits[ c & 15 ];
+                }
+                else
+                {
+                    file << char( c );
+                }
+
+                string++;
+            }
+
+            file << '"';
+        }
+
         int32 ComputeWhitespaceLength( const char* text ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -1168,7 +1209,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1686,7 +1727,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From 2e4e88a59482d2584126d700dd4809f1c28cb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:34 +0000
Subject: [PATCH 06/58] fix: do not write infinities and NaNs as if they were
 JSON numbers

Write() stored 'inf' or 'nan', which no JSON parser accepts, and returned kOk.
It now returns kFloatInvalid.
---
 Code/Json4C4/C4Json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 526e652..3311ea9 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1266,6 +1266,10 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
+                if ( !( data - data == 0.0 ) )
+                {
+                    return Status::kFloatInvalid; // Infinities and NaNs cannot be represented in JSON
+                }
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
-- 
2.43.0


From 7c085b514a6f60ab45360f288b6b742b115bd49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 07/58] fix: accept exactly the numbers of RFC 8259

Literals such as +1, - 1, .5, 1., 1e, 1-2 and 1.2.3 were accepted (the last
ones as their valid prefix), and 0e1 was refused as a leading zero.
---
 Code/Json4C4/C4Json.cpp | 58 ++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 3311ea9..18b733a 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -676,17 +676,56 @@ namespace C4
             return int32( reinterpret_cast<const char*>( byte ) - text );
         }
 
+        // Returns the length of the unsigned number at the beginning of the text, or zero if there is no valid number.
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
-            const uint8* byte = reinterpret_cast<const uint8*>( text );
+            const auto skipDigits = []( const char* p )
+            {
+                while ( p[ 0 ] >= '0' && p[ 0 ] <= '9' )
+                {
+                    p++;
+                }
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+                return p;
+            };
+
+            const char* end = skipDigits( text );
+
+            if ( end == text )
             {
-                byte++;
+                return 0;
             }
 
-            return int32( reinterpret_cast<const char*>( byte ) - text );
+            if ( end[ 0 ] == '.' )
+            {
+                const char* fraction = end + 1;
+
+                end = skipDigits( fraction );
+
+                if ( end == fraction )
+                {
+                    return 0;
+                }
+            }
+
+            if ( end[ 0 ] == 'e' || end[ 0 ] == 'E' )
+            {
+                const char* exponent = end + 1;
+
+                if ( exponent[ 0 ] == '+' || exponent[ 0 ] == '-' )
+                {
+                    exponent++;
+                }
+
+                end = skipDigits( exponent );
+
+                if ( end == exponent )
+                {
+                    return 0;
+                }
+            }
+
+            return int32( end - text );
         }
 
         int32 ReadEscapeChar( const char* text, uint32* value ) noexcept
@@ -870,7 +909,7 @@ namespace C4
 
             if ( text[ 0 ] == '0' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
+                if ( text[ 1 ] >= '0' && text[ 1 ] <= '9' )
                 {
                     return ( Status::kNumbersCannotHaveLeadingZeros );
                 }
@@ -1052,16 +1091,9 @@ namespace C4
             if ( c == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From fb74b75cd168221b576961619a8501c019ffc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:25 +0000
Subject: [PATCH 08/58] fix: accept U+007F in strings

RFC 8259 excludes only U+0000 to U+001F.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 18b733a..13935de 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -845,7 +845,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From 8a0f624d27968da631b1012a97ec8f5bb438b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:29 +0000
Subject: [PATCH 09/58] fix: accept documents of a single character

A one-digit number is a complete JSON text, but buffers with fewer than two
characters before the terminator were refused.
---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 13935de..be9fe25 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1785,7 +1785,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1878,7 +1878,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From 538a4eeec9be1155dcdcc0c760e8e058e3c21936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:08 +0000
Subject: [PATCH 10/58] fix: decode an escaped surrogate pair as one character

\uD83D\uDE00 became two three-byte sequences, which is not UTF-8, instead of
the four bytes of U+1F600.
---
 Code/Json4C4/C4Json.cpp | 54 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index be9fe25..ad334af 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -767,6 +767,31 @@ namespace C4
             return ( 0 );
         }
 
+        bool ReadHexadecimalCode( const uint8* byte, uint32* value ) noexcept
+        {
+            uint32 code = 0;
+
+            for ( machine a = 0; a < 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( false );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( false );
+                }
+
+                code = ( code << 4 ) | x;
+            }
+
+            *value = code;
+            return ( true );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -774,23 +799,22 @@ namespace C4
 
             if ( c == 'u' )
             {
-                uint32 code = 0;
+                uint32 code;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( !ReadHexadecimalCode( byte + 1, &code ) )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
+                    return ( 0 );
+                }
 
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
-                    {
-                        return ( 0 );
-                    }
+                int32 textLength = 5;
 
-                    code = ( code << 4 ) | x;
+                // A high surrogate followed by a low surrogate stands for a single character.
+                uint32 lowSurrogate;
+                if ( ( code - 0xD800U < 0x0400U ) && ( byte[ 5 ] == '\\' ) && ( byte[ 6 ] == 'u' ) && ReadHexadecimalCode( byte + 7, &lowSurrogate ) &&
+                     ( lowSurrogate - 0xDC00U < 0x0400U ) )
+                {
+                    code       = 0x10000U + ( ( code - 0xD800U ) << 10 ) + ( lowSurrogate - 0xDC00U );
+                    textLength = 11;
                 }
 
                 if ( code != 0 )
@@ -801,10 +825,10 @@ namespace C4
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From 739e133ab6bdfeb8421a96b167f6dfbcac04cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:29 +0000
Subject: [PATCH 11/58] fix: report the line and column of an error in the text
 as given

Whitespace before the document was not counted, and whitespace after the
position of an error was skipped before the position was computed.
---
 Code/Json4C4/C4Json.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ad334af..056a156 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1819,17 +1819,19 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
-            const char* start = text;
+            const char* start = &nullTerminatedCharArray[ 0 ];
+            const char* text  = start + ComputeWhitespaceLength( start );
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                if ( text[ 0 ] != 0 )
+                {
+                    status = Status::kExpectedEndOfFile;
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From d45718d85726c50eb28a467143096e2a64210997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 12/58] fix: do not keep the beginning of a text that failed to
 parse

When text followed a complete value, Parse() reported kExpectedEndOfFile but
left that value as the document. Other syntax errors leave no document.
---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 056a156..7ce9568 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1831,6 +1831,9 @@ namespace C4
                 if ( text[ 0 ] != 0 )
                 {
                     status = Status::kExpectedEndOfFile;
+
+                    delete jsonRoot;
+                    jsonRoot = nullptr;
                 }
             }
 
-- 
2.43.0


From a6e35fa74dac97159ec685387bddd6a5c927c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 13/58] fix: release the value of a repeated name instead of
 leaking it

The first value of a repeated name is the one that is kept. The others were
leaked, and each was recorded in the insertion order, so that Write() stored
the first value once per repetition.
---
 Code/Json4C4/C4Json.cpp | 11 ++++++++++-
 Code/Json4C4/C4Json.h   |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7ce9568..e17a15c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1587,6 +1587,11 @@ namespace C4
 
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
+            if ( this->FindMapElement( element->name ) )
+            {
+                return false;
+            }
+
             insertionOrder.AppendArrayElement( element->name );
 
             return this->InsertMapElement( element );
@@ -1647,7 +1652,11 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 4b11607..0670227 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -698,7 +698,10 @@ namespace C4
                         associateValue->name = name;
                         Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        if ( !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete associateValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From 1611bf04aca26a511ee48f63689c3c4d862ba309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 14/58] fix: write the members of a serialized map

Serializing an ObjectMap or a std::map inserted the members without recording
them in the insertion order, so Write() stored an empty object. Serializing
into an object that had members leaked them and kept their names.
---
 Code/Json4C4/C4Json.cpp |  7 +++++++
 Code/Json4C4/C4Json.h   | 10 ++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e17a15c..8625341 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1597,6 +1597,13 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
+        void ObjectValue::PurgeAccountedMap() noexcept
+        {
+            this->PurgeMap();
+
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 0670227..ecb8886 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -516,6 +516,8 @@ namespace C4
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
 
+            TERATHON_API void PurgeAccountedMap() noexcept;
+
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
 
@@ -1073,7 +1075,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMap();
 
                     T      temp;
                     Status status;
@@ -1098,7 +1100,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1349,7 +1351,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMap();
 
                     T      temp;
                     Status status;
@@ -1374,7 +1376,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From ab99e3820867b2ad6793a3f624808e22d94bfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 15/58] fix: serialize a std::vector as an array

A vector was given an object value, into which its elements could not be
serialized.
---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ecb8886..3d91cae 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -536,6 +536,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
-- 
2.43.0


From bfdb8ab49fb38bcd4fe4e03637a62fc7345f9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 16/58] fix: report the failure to serialize a named member

The status of serializing the member's value was dropped, and an incomplete
value was stored as if nothing had happened.
---
 Code/Json4C4/C4Json.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 3d91cae..56c7faa 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -708,7 +708,13 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
+
+                        Status serializeStatus = Serialize( associateValue, data );
+
+                        if ( serializeStatus != Status::kOk )
+                        {
+                            return serializeStatus;
+                        }
 
                         if ( !objectValue->InsertAccountedMapElement( associateValue ) )
                         {
-- 
2.43.0


From db788882c6c093993374446ea5f69ce169333c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 17/58] fix: report that there is no document to deserialize or
 validate

Both dereferenced a null pointer when nothing had been parsed or serialized,
or when parsing had failed. They now return kInvalidStructuredData.
---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 56c7faa..6cb1c91 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -585,6 +585,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( !this->GetRootJsonValue() )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -637,6 +642,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( !sd.GetRootJsonValue() )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From 51951775bdc1529178d11538f5feb2290c103298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 18/58] fix: let a std::vector of a type with member functions
 be deserialized

Instantiating it did not compile.
---
 Code/Json4C4/C4Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6cb1c91..c1ecf90 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1215,7 +1215,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From d2b03342d4a8f1e87d1277f50e711672d0f524a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 19/58] fix: look a name up without allocating memory

FindString() and the like, and validating and deserializing a named member,
are noexcept but built a String of the name, so running out of memory in one
of them ended the program.
---
 Code/Json4C4/C4Json.cpp | 23 +++++++++++++++++++++++
 Code/Json4C4/C4Json.h   |  4 ++++
 2 files changed, 27 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8625341..48aa30f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1707,6 +1707,29 @@ namespace C4
             return this;
         }
 
+        Value* ObjectValue::FindMapElement( const char* name ) const noexcept
+        {
+            Value* value = GetRootMapElement();
+
+            while ( value )
+            {
+                if ( Text::CompareTextLessThan( name, value->name ) )
+                {
+                    value = value->GetLeftSubnode();
+                }
+                else if ( Text::CompareTextLessThan( value->name, name ) )
+                {
+                    value = value->GetRightSubnode();
+                }
+                else
+                {
+                    break;
+                }
+            }
+
+            return value;
+        }
+
         const String<>* ObjectValue::FindString( const char* name ) const noexcept
         {
             if ( Value* jsonValue = FindMapElement( name ) )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index c1ecf90..989e2d2 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -507,6 +507,10 @@ namespace C4
             TERATHON_API ObjectValue*       AsJsonObjectValue() noexcept override;
             TERATHON_API const ObjectValue* AsJsonObjectValue() const noexcept override;
 
+            using Map<Value>::FindMapElement;
+
+            TERATHON_API Value* FindMapElement( const char* name ) const noexcept;
+
             TERATHON_API const String<>* FindString( const char* name ) const noexcept;
             TERATHON_API const double*   FindNumber( const char* name ) const noexcept;
             TERATHON_API const bool*     FindBool( const char* name ) const noexcept;
-- 
2.43.0


From bdff5350ce46b4e5b7dbc0ea9792913790c1caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 20/58] fix: do not take an incomplete optional member for an
 absent one

When an optional member was present but lacked a required member of its own,
the kNameNotPresent of that member was taken to mean that the optional member
itself was absent, and Validate() and Deserialize() succeeded.
---
 Code/Json4C4/C4Json.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 989e2d2..6440611 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1449,11 +1449,16 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Validate( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return ValidateProto( value, Detail::Forward<Args>( args )... );
@@ -1493,11 +1498,16 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, Detail::Optional, const char* name, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Deserialize( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return DeserializeProto( value, Detail::Forward<Args>( args )... );
-- 
2.43.0


From b69d32a86224a3f6b8507f8b39dd6d2db75d9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:56 +0000
Subject: [PATCH 21/58] fix: leave no dangling or partial document when
 serializing fails

SerializeFrom() deleted the old document but kept the pointer to it when it
could not create the new one, and it kept a partly built document when
serializing into it failed.
---
 Code/Json4C4/C4Json.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6440611..816e5e3 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -614,6 +614,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
@@ -628,7 +629,7 @@ namespace C4
                     return status;
                 }
 
-                return MayThrow(
+                status = MayThrow(
                     [ & ]()
                     {
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
@@ -640,6 +641,14 @@ namespace C4
                             return Serialize( this->GetRootJsonValue(), data );
                         }
                     } );
+
+                if ( status != Status::kOk )
+                {
+                    delete rootJsonValue;
+                    rootJsonValue = nullptr;
+                }
+
+                return status;
             }
         };
 
-- 
2.43.0


From a5b73d22141668422f781b77ceba33fdd9879685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 22/58] fix: report running out of memory while parsing,
 without leaking

A value that could not be added to its array or object was leaked, and
failing to create a number, boolean or null was reported as a syntax error.
---
 Code/Json4C4/C4Json.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 48aa30f..b45db19 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1164,21 +1164,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
@@ -1512,6 +1514,8 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
+
                     return status;
                 }
 
@@ -1670,6 +1674,8 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
+
                     return status;
                 }
 
-- 
2.43.0


From caa80a90ee607b589fa27fd5612d877a60cf9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 23/58] fix: report running out of memory while writing

Write() is noexcept, but the indentation grows with the nesting of the
document, so failing to allocate it ended the program.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b45db19..ef52c5f 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1990,7 +1990,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
             file.CloseFile();
 
-- 
2.43.0


From c78102a8762d77f4a6393fac2e6a918d01027668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:30 +0000
Subject: [PATCH 24/58] fix: do not leak a map element when memory runs out

Neither the element being deserialized nor the value being serialized was
released when copying its name, or recording it, failed.
---
 Code/Json4C4/C4Json.h | 76 ++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 816e5e3..6145d7b 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1049,16 +1049,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
@@ -1122,24 +1122,36 @@ namespace C4
                     for ( const auto* dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement->name;
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = dataMapElement->data.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, dataMapElement->data );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1395,27 +1407,39 @@ namespace C4
                     T      temp;
                     Status status;
 
-                    for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
+                    for ( auto const& dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElementData );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement.first.c_str();
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = dataMapElement.second.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, dataMapElement.second );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From c48d5f5d4d62f202b847522733a12042bd634b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 25/58] fix: remember that a shortened string has moved to its
 local storage

SetStringLength() kept the capacity of the heap storage it had released, so
appending to the string afterwards could write past the local storage.
---
 Code/Terathon/TSString.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..7c0e1b2 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -633,6 +633,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
-- 
2.43.0


From 49e5e15ce109884114423c4ae7c984f8b69f29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 26/58] fix: keep strings and arrays intact when memory runs
 out

String released its storage before it allocated the new one and Array recorded
a capacity that it then failed to allocate, so an exception from operator new
left objects that freed memory twice or overran it. Copying an array leaked
the elements copied so far.
---
 Code/Terathon/TSArray.h    | 46 +++++++++++---------------------------
 Code/Terathon/TSString.cpp | 17 +++++++++-----
 2 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..52d6497 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,13 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
+		ReserveArrayElementCount(array.elementCount);
 
-		if (elementCount > baseCount)
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
-		}
-
-		for (machine a = 0; a < elementCount; a++)
-		{
-			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			AppendArrayElement(array.arrayPointer[a]);
 		}
 	}
 
@@ -477,8 +466,9 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -713,22 +703,11 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
-
-		if (reservedCount > 0)
-		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			arrayPointer = nullptr;
+			AppendArrayElement(array.arrayPointer[a]);
 		}
 	}
 
@@ -787,8 +766,9 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		if (pointer)
diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 7c0e1b2..ff5cf75 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -611,14 +615,14 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
+					physicalSize = newSize;
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -638,6 +642,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			}
 
 			stringPointer[length] = 0;
+			logicalSize = size;
 		}
 	}
 	else
-- 
2.43.0


From 9e67496892fe1d4d838691511f82a9350d2f75c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 27/58] fix: replace the root element of a map

InsertReplaceMapElement() linked the replacement of the root element to the
rest of the tree but left the map pointing to the removed element.
---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From 7c80ecf2a6ae110f1b44e02e247ef11ddae312e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 28/58] fix: let a string be assigned or appended to itself

Assigning a string to itself read storage that had been released, and
appending it to itself never found the terminator.
---
 Code/Terathon/TSString.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index ff5cf75..4216125 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -350,6 +350,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -381,6 +386,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
@@ -459,7 +469,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			stringPointer = newPointer;
 		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
+		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
-- 
2.43.0


From efd49da09aae602d210945ac0c2f78bdd1627d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:45 +0000
Subject: [PATCH 29/58] fix: convert the least integers to text

The least 32-bit and 64-bit integers were both written as -0.
---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..417cc15 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1168,15 +1168,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 magnitude = negative ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1214,15 +1214,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 magnitude = negative ? 0ULL - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		int32 p = int32(magnitude % 10);
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From 27feab42893d0559d3a55ace6ac3879da5264c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 30/58] fix: refuse to parse deeper nesting than the stack can
 hold

A file of less than 64 kB can nest arrays or objects so deeply that parsing,
writing or deleting the document overflowed the stack. Beyond 1024 levels,
parsing now returns the new status kNestingTooDeep.
---
 Code/Json4C4/C4Json.cpp | 36 ++++++++++++++++++++++++------------
 Code/Json4C4/C4Json.h   |  7 ++++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ef52c5f..7755820 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -95,6 +95,7 @@
 #define JSON4C4VERSION STR( JSON4C4VERSIONMAJOR ) "." STR( JSON4C4VERSIONMINOR ) "." STR( JSON4C4VERSIONPATCH )
 
 #define MAX_FILE_SIZE 0xffff - 1
+#define MAX_NESTING_DEPTH 1024
 
 namespace C4
 {
@@ -539,7 +540,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Could not write file" };
+                                                    "Could not write file",
+                                                    "Arrays and objects are nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1121,8 +1123,8 @@ namespace C4
             return ( false );
         }
 
-        template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        template <class T, class... Args>
+        Status ParseValue( Value*& value, const char*& text, Args... args ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1138,7 +1140,7 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text, args... ); } );
 
             if ( status == Status::kOk )
             {
@@ -1152,7 +1154,7 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, int32 depth ) noexcept
         {
             const char* start = text;
 
@@ -1184,13 +1186,13 @@ namespace C4
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1472,13 +1474,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1499,7 +1506,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1608,13 +1615,18 @@ namespace C4
             insertionOrder.PurgeArray();
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1653,7 +1665,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1867,7 +1879,7 @@ namespace C4
             const char* start = &nullTerminatedCharArray[ 0 ];
             const char* text  = start + ComputeWhitespaceLength( start );
 
-            Status status = ParseAnyValue( jsonRoot, text );
+            Status status = ParseAnyValue( jsonRoot, text, 0 );
 
             if ( status == Status::kOk )
             {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6145d7b..c09195c 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            KFileWriteError
+            KFileWriteError,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -472,7 +473,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -499,7 +500,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From d3c4d948570b796efea66c146813538240aad8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:22 +0000
Subject: [PATCH 31/58] fix: describe parse errors with line and column numbers
 of any length

---
 Code/Json4C4/C4Json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7755820..8d843a5 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2034,7 +2034,10 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += String<24>( ". Line: " );
+                string += String<24>( parseResult.errorLine );
+                string += String<24>( ", column: " );
+                string += String<24>( parseResult.errorColumn );
             }
 
             return string;
-- 
2.43.0


From da2323986b163761a51e202a1e1f27b3a193dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:11 +0000
Subject: [PATCH 32/58] fix: take over the heap storage when moving an array
 with few elements

---
 Code/Terathon/TSArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 52d6497..4cf9977 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -392,7 +392,7 @@ namespace Terathon
 	{
 		elementCount = array.elementCount;
 
-		if (elementCount > baseCount)
+		if (reinterpret_cast<char *>(array.arrayPointer) != array.arrayStorage)
 		{
 			reservedCount = array.reservedCount;
 			arrayPointer = array.arrayPointer;
-- 
2.43.0


From 46ed66c5a85df6ae9eb8c89f5af3026140f3cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 33/58] fix: allow a string to be set or extended from a part
 of itself

---
 Code/Terathon/TSString.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 4216125..07f4377 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -326,6 +326,11 @@ void String<0>::Resize(int32 size)
 
 String<0>& String<0>::Set(const char *s, int32 length)
 {
+	if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this = String(s, length));
+	}
+
 	for (machine a = 0; a < length; a++)
 	{
 		if (s[a] == 0)
@@ -407,6 +412,11 @@ String<0>& String<0>::operator =(const String& s)
 
 String<0>& String<0>::operator =(const char *s)
 {
+	if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this = String(s));
+	}
+
 	int32 length = Text::GetTextLength(s);
 	if (length > 0)
 	{
@@ -478,6 +488,11 @@ String<0>& String<0>::operator +=(const String<>& s)
 
 String<0>& String<0>::operator +=(const char *s)
 {
+	if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this += String(s));
+	}
+
 	int32 length = Text::GetTextLength(s);
 	if (length > 0)
 	{
@@ -670,6 +685,11 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this += String(s, length));
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 6ad0c46328a4154550aaa9ea52faa15a9f2d98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 34/58] fix: stop at the null terminator when appending a given
 number of characters

---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 07f4377..6ac5123 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -690,6 +690,15 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		return (*this += String(s, length));
 	}
 
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 437479748d81046d09bd5f0992507dab19d21848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:25 +0000
Subject: [PATCH 35/58] fix: count the terminator in the size of an escaped
 string

---
 Code/Terathon/TSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6ac5123..4e3c326 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -828,8 +828,8 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
+		logicalSize = encodedLength + 1;
+		physicalSize = GetPhysicalSize(logicalSize);
 		char *encodedString = new char[physicalSize];
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
-- 
2.43.0


From fd10eec9a2dc4e84f3519dc09db3448b7e16fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 36/58] fix: allow a fixed-capacity string to be appended to
 itself

---
 Code/Terathon/TSString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..2038171 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(len - l, Text::GetTextLength(s)));
 				return (*this);
 			}
 
-- 
2.43.0


From cc19876ff4edaf1baec30ac72c5a48a44aed4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:34 +0000
Subject: [PATCH 37/58] fix: convert unsigned integers beyond the signed range
 to text

---
 Code/Terathon/TSString.cpp | 14 ++++++++++----
 Code/Terathon/TSString.h   | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 4e3c326..3b5ef22 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::Integer64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -441,7 +441,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -579,7 +579,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
@@ -606,6 +606,12 @@ String<0>& String<0>::operator +=(int64 n)
 
 String<0>& String<0>::operator +=(uint64 n)
 {
+	if (n > 0x7FFFFFFFFFFFFFFFULL)
+	{
+		*this += int64(n / 10);
+		return (*this += char('0' + n % 10));
+	}
+
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 2038171..1d95f1c 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::Integer64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
@@ -307,6 +307,12 @@ namespace Terathon
 
 			String& operator +=(uint64 n)
 			{
+				if (n > 0x7FFFFFFFFFFFFFFFULL)
+				{
+					*this += int64(n / 10);
+					return (*this += char('0' + n % 10));
+				}
+
 				int32 l = GetStringLength();
 				Text::Integer64ToString(n, &c[l], len - l);
 				return (*this);
-- 
2.43.0


From e31e2281cd4ab356688b93eacebad237ead8054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:21 +0000
Subject: [PATCH 38/58] fix: don't write a surrogate pair beyond the space
 given for wide text

---
 Code/Terathon/TSText.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 417cc15..677096b 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -463,6 +463,13 @@ void Text::ConvertStringToWideText(const char *string, uint16 *wideText, int32 m
 		}
 		else
 		{
+			if (max < 2)
+			{
+				// There's no space for both halves of the surrogate pair.
+
+				break;
+			}
+
 			code -= 0x010000U;
 			wideText[0] = uint16((code >> 10) + 0xD800U);
 			wideText[1] = uint16((code & 0x03FF) + 0xDC00U);
-- 
2.43.0


From 63d4f2576422f8ce3d5a46deb80801cf7838cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 39/58] fix: don't count characters past the terminator after
 an incomplete one

---
 Code/Terathon/TSText.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 677096b..1562e8b 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -192,22 +192,7 @@ int32 Text::GetUnicodeCharCount(const char *text)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
-		{
-			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
-		{
-			text += 3;
-		}
-		else
-		{
-			text += 4;
-		}
+		text += GetUnicodeCharStringByteCount(text, 1);
 	}
 
 	return (count);
@@ -322,7 +307,12 @@ int32 Text::GetUnicodeCharStringByteCount(const char *text, int32 charCount)
 			}
 		}
 
-		count += size;
+		// Don't go past the null terminator if the last character is incomplete.
+
+		do
+		{
+			count++;
+		} while ((--size > 0) && (text[count] != 0));
 	}
 
 	return (count);
-- 
2.43.0


From 3ec986500ef31f123bf4fbc60acdcc006fd86a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:15 +0000
Subject: [PATCH 40/58] fix: element types with array members are accepted by
 clang too

List-initialisation of an aggregate with a member whose default constructor is explicit (Array) is ill-formed; gcc lets
it pass, clang does not.
---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index c09195c..10ed5f4 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -217,7 +217,7 @@ namespace C4
             using KeyType = Terathon::String<>;
 
             KeyType   name;
-            ValueType data = ValueType {};
+            ValueType data = ValueType();
 
             TERATHON_API inline const KeyType& GetKey() const noexcept
             {
@@ -860,7 +860,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    const T temp {};
+                    const T temp = T();
 
                     Status status;
 
@@ -1188,7 +1188,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    const T temp {};
+                    const T temp = T();
                     Status  status;
 
                     for ( Value* value : *valueData )
-- 
2.43.0


From 49be2eca329aea2c34feb78c6e80d2b9b24a2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:32 +0000
Subject: [PATCH 41/58] fix: StaticHash of a non-ASCII text equals its Hash

---
 Code/Terathon/TSText.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..e968ba7 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -398,7 +398,7 @@ namespace Terathon
 				{
 					enum : uint32
 					{
-						hash = (c == 0) ? h : uint32((h ^ c) * 0x6B84DF47ULL + 1)
+						hash = (c == 0) ? h : uint32((h ^ uint8(c)) * 0x6B84DF47ULL + 1)
 					};
 				};
 
-- 
2.43.0


From d02bebf61800ad43428e86dc104eb2537b44d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:41 +0000
Subject: [PATCH 42/58] fix: FindUnquotedChar never finds a quote, as
 documented

---
 Code/Terathon/TSText.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 1562e8b..0709a46 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -571,8 +571,7 @@ int32 Text::FindUnquotedChar(const char *text, uint32 k)
 				quote = false;
 			}
 		}
-
-		if ((c == k) && (!quote))
+		else if ((c == k) && (!quote))
 		{
 			return (int32(text - start));
 		}
-- 
2.43.0


From e9c1d7b780b79d5d3df174a4996a4af1d23ca5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:42 +0000
Subject: [PATCH 43/58] fix: FindTextCaseless ignores the case of the first
 character too

---
 Code/Terathon/TSText.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 0709a46..0a12b2c 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1109,16 +1109,26 @@ int32 Text::FindText(const char *s1, const char *s2)
 int32 Text::FindTextCaseless(const char *s1, const char *s2)
 {
 	const char *start = s1;
-	int32 first = *reinterpret_cast<const uint8 *>(s2);
+	uint32 first = *reinterpret_cast<const uint8 *>(s2);
+
+	if (first - 'a' < 26U)
+	{
+		first -= 32;
+	}
 
 	for (;;)
 	{
-		int32 c = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 c = *reinterpret_cast<const uint8 *>(s1++);
 		if (c == 0)
 		{
 			break;
 		}
 
+		if (c - 'a' < 26U)
+		{
+			c -= 32;
+		}
+
 		if (c == first)
 		{
 			const uint8 *s3 = reinterpret_cast<const uint8 *>(s1);
-- 
2.43.0


From d2b85a7bf8dd69a71d8c04069cbab18291739615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 44/58] fix: numbered text comparison is an order, and exact
 for numbers of any size

---
 Code/Terathon/TSText.cpp | 124 +++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 69 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 0a12b2c..d06a5ac 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -933,54 +933,72 @@ bool Text::CompareTextLessEqualCaseless(const char *s1, const char *s2, int32 ma
 	return (true);
 }
 
-bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
+namespace
 {
-	for (;;)
+	// Compares the numbers at the beginning of two strings by value and then by number of digits, and skips them.
+
+	int32 CompareDigits(const char *& s1, const char *& s2)
 	{
-		uint32 x = *reinterpret_cast<const uint8 *>(s1++);
-		uint32 y = *reinterpret_cast<const uint8 *>(s2++);
+		const char *start1 = s1;
+		const char *start2 = s2;
 
-		uint32 xnum = x - '0';
-		uint32 ynum = y - '0';
+		const char *n1 = nullptr;
+		const char *n2 = nullptr;
 
-		if ((xnum < 10U) && (ynum < 10U))
+		for (; uint32(*reinterpret_cast<const uint8 *>(s1)) - '0' < 10U; s1++)
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
-
-			for (;;)
+			if ((!n1) && (*s1 != '0'))
 			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
+				n1 = s1;
 			}
+		}
 
-			for (;;)
+		for (; uint32(*reinterpret_cast<const uint8 *>(s2)) - '0' < 10U; s2++)
+		{
+			if ((!n2) && (*s2 != '0'))
 			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
+				n2 = s2;
 			}
+		}
+
+		machine length1 = (n1) ? s1 - n1 : 0;
+		machine length2 = (n2) ? s2 - n2 : 0;
+
+		if (length1 != length2)
+		{
+			return ((length1 < length2) ? -1 : 1);
+		}
 
-			if (xnum != ynum)
+		for (machine a = 0; a < length1; a++)
+		{
+			if (n1[a] != n2[a])
 			{
-				return (xnum < ynum);
+				return ((n1[a] < n2[a]) ? -1 : 1);
 			}
-			else if (xcount < ycount)
+		}
+
+		length1 = s1 - start1;
+		length2 = s2 - start2;
+		return ((length1 < length2) ? -1 : ((length1 > length2) ? 1 : 0));
+	}
+}
+
+bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
+{
+	for (;;)
+	{
+		uint32 x = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 y = *reinterpret_cast<const uint8 *>(s2++);
+
+		uint32 xnum = x - '0';
+		uint32 ynum = y - '0';
+
+		if ((xnum < 10U) && (ynum < 10U))
+		{
+			int32 order = CompareDigits(--s1, --s2);
+			if (order != 0)
 			{
-				return (true);
+				return (order < 0);
 			}
 		}
 		else
@@ -1005,42 +1023,10 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 
 		if ((xnum < 10U) && (ynum < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
-
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
-
-			if (xnum != ynum)
-			{
-				return (xnum < ynum);
-			}
-			else if (xcount < ycount)
+			int32 order = CompareDigits(--s1, --s2);
+			if (order != 0)
 			{
-				return (true);
+				return (order < 0);
 			}
 		}
 		else
-- 
2.43.0


From 8554d39eada9b9eb46650bf5d0e3c8fbf78c83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 45/58] fix: map keys that are equal up to a null character do
 not leak a value

---
 Code/Json4C4/C4Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 10ed5f4..20722a2 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1428,9 +1428,9 @@ namespace C4
                                     elementStatus = Serialize( elem, dataMapElement.second );
                                 }
 
-                                if ( elementStatus == Status::kOk )
+                                if ( elementStatus == Status::kOk && !objectValue->InsertAccountedMapElement( elem ) )
                                 {
-                                    objectValue->InsertAccountedMapElement( elem );
+                                    delete elem;
                                 }
 
                                 return elementStatus;
-- 
2.43.0


From 25c0193158d7e57d5a56a35282d11b6c03d3f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:30 +0000
Subject: [PATCH 46/58] fix: a string stays usable when growing it runs out of
 memory

---
 Code/Terathon/TSString.cpp | 45 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 3b5ef22..aefd199 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -467,8 +467,9 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -499,8 +500,9 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -523,8 +525,9 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -546,8 +549,9 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -567,8 +571,9 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -588,8 +593,9 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -615,8 +621,9 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -710,8 +717,9 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -834,9 +842,10 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
+		int32 newSize = GetPhysicalSize(encodedLength + 1);
+		char *encodedString = new char[newSize];
 		logicalSize = encodedLength + 1;
-		physicalSize = GetPhysicalSize(logicalSize);
-		char *encodedString = new char[physicalSize];
+		physicalSize = newSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From eb923664ed94b169566b6400953c0bd0520e0371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 47/58] fix: an array counts the elements it has when
 constructing more of them fails

---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 4cf9977..4d60f01 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -510,6 +510,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -538,6 +539,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -599,6 +601,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
@@ -809,6 +812,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -837,6 +841,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -898,6 +903,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
-- 
2.43.0


From aba11933800061648513f10efbe05b2911f73639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:25 +0000
Subject: [PATCH 48/58] fix: an array's own element can be appended, inserted
 and used to fill the array

---
 Code/Terathon/TSArray.h | 44 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 4d60f01..9a551db 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -530,6 +530,13 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			if ((&init >= arrayPointer) && (&init < arrayPointer + elementCount))
+			{
+				const type temp(init);
+				SetArrayElementCount(count, temp);
+				return;
+			}
+
 			SetReservedCount(count);
 		}
 
@@ -575,7 +582,16 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The new element may be given by one in the storage that is about to be replaced.
+
+			type temp(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+
+			type *pointer = arrayPointer + elementCount;
+			new(pointer) type(static_cast<type&&>(temp));
+
+			elementCount++;
+			return (pointer);
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -589,6 +605,8 @@ namespace Terathon
 	template <typename T>
 	void Array<type, baseCount>::InsertArrayElement(int32 index, T&& element)
 	{
+		type temp(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -604,7 +622,7 @@ namespace Terathon
 				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 		else
@@ -622,7 +640,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 	}
@@ -832,6 +850,13 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			if ((&init >= arrayPointer) && (&init < arrayPointer + elementCount))
+			{
+				const type temp(init);
+				SetArrayElementCount(count, temp);
+				return;
+			}
+
 			SetReservedCount(count);
 		}
 
@@ -877,7 +902,16 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The new element may be given by one in the storage that is about to be replaced.
+
+			type temp(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+
+			type *pointer = arrayPointer + elementCount;
+			new(pointer) type(static_cast<type&&>(temp));
+
+			elementCount++;
+			return (pointer);
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -891,6 +925,8 @@ namespace Terathon
 	template <typename T>
 	void Array<type, 0>::InsertArrayElement(int32 index, T&& element)
 	{
+		type temp(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -906,7 +942,7 @@ namespace Terathon
 				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 		else
@@ -924,7 +960,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(temp));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From 13168aa9fac612165627c649970b339dd514a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 49/58] fix: types with member functions can be named members
 of described types

---
 Code/Json4C4/C4Json.h | 65 ++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 20722a2..aac60c6 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -789,62 +789,69 @@ namespace C4
         }
 
         template <class T>
-        Status Validate( const Value* value, const T& /*data*/ ) noexcept
+        Status Validate( const Value* value, const T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
+            if constexpr ( Detail::HasValidateMember<T>::Value )
+            {
+                return MayThrow( [ & ]() { return data.Validate( value ); } );
+            }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return valueData ? Status::kOk : Status::kInvalidValueType;
+                return valueData ? Status::kOk : Status::kInvalidValueType;
+            }
         }
 
         template <class T>
         Status Deserialize( const Value* value, T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
+            if constexpr ( Detail::HasDeserializeMember<T>::Value )
             {
-                return Status::kInvalidValueType;
+                return MayThrow( [ & ]() { return data.Deserialize( value ); } );
             }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return MayThrow(
-                [ & ]()
+                if ( !valueData )
                 {
-                    if constexpr ( Detail::HasDeserializeMember<T>::Value )
-                    {
-                        return data.Deserialize( value );
-                    }
-                    else
+                    return Status::kInvalidValueType;
+                }
+
+                return MayThrow(
+                    [ & ]()
                     {
                         data = *valueData;
                         return Status::kOk;
-                    }
-                } );
+                    } );
+            }
         }
 
         template <class T>
         Status Serialize( Value* value, const T& data ) noexcept
         {
-            T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
+            if constexpr ( Detail::HasSerializeMember<T>::Value )
             {
-                return Status::kInvalidValueType;
+                return MayThrow( [ & ]() { return data.Serialize( value ); } );
             }
+            else
+            {
+                T* valueData = value->GetDataAsPointerTo<T>();
 
-            return MayThrow(
-                [ & ]()
+                if ( !valueData )
                 {
-                    if constexpr ( Detail::HasSerializeMember<T>::Value )
-                    {
-                        return data.Serialize( value );
-                    }
-                    else
+                    return Status::kInvalidValueType;
+                }
+
+                return MayThrow(
+                    [ & ]()
                     {
                         *valueData = data;
 
                         return Status::kOk;
-                    }
-                } );
+                    } );
+            }
         }
 
         template <class T>
-- 
2.43.0


From d45c0bf93623a9b248865c640ec3292b48dcb197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:46 +0000
Subject: [PATCH 50/58] fix: exceptions of an unnamed member's own functions
 are reported

---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index aac60c6..826960f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1464,7 +1464,7 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, data );
+            Status status = MayThrow( [ & ]() { return Validate( value, data ); } );
 
             if ( status != Status::kOk )
             {
@@ -1513,7 +1513,7 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, data );
+            Status status = MayThrow( [ & ]() { return Deserialize( value, data ); } );
 
             if ( status != Status::kOk )
             {
@@ -1588,7 +1588,7 @@ namespace C4
         template <class T, class... Args>
         Status SerializeProto( Value* value, const T& data, Args&&... args ) noexcept
         {
-            Status status = Serialize( value, data );
+            Status status = MayThrow( [ & ]() { return Serialize( value, data ); } );
 
             if ( status != Status::kOk )
             {
-- 
2.43.0


From bd287233fe4286a785b0d0438ed74499bdd03079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:51 +0000
Subject: [PATCH 51/58] fix: values are not leaked when an element's own
 functions throw

---
 Code/Json4C4/C4Json.h | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 826960f..018e5ce 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -969,14 +969,18 @@ namespace C4
                             return status;
                         }
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = element.Serialize( value );
-                        }
-                        else
-                        {
-                            status = Serialize( value, element );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    return element.Serialize( value );
+                                }
+                                else
+                                {
+                                    return Serialize( value, element );
+                                }
+                            } );
 
                         if ( status != Status::kOk )
                         {
@@ -1069,14 +1073,18 @@ namespace C4
                             }
                         }
 
-                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Deserialize( objectValueMapElement );
-                        }
-                        else
-                        {
-                            status = Deserialize( objectValueMapElement, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                if constexpr ( Detail::HasDeserializeMember<T>::Value )
+                                {
+                                    return dataMapElement->data.Deserialize( objectValueMapElement );
+                                }
+                                else
+                                {
+                                    return Deserialize( objectValueMapElement, dataMapElement->data );
+                                }
+                            } );
 
                         if ( status != Status::kOk )
                         {
-- 
2.43.0


From 51b44499ae1162c4255164bb5a7648c2ec02425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 52/58] fix: Exp returned 0 instead of infinity for arguments
 from 90 up

The table of powers has values up to exp(89) only; its last two entries are
zero. Arguments beyond the range of int32 were converted to int32 as well.
---
 Code/Terathon/TSMath.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 5f6159a..5f7b13a 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -507,6 +507,16 @@ float Terathon::Exp(float x)
 		0x7EF882B7, 0x7F800000
 	};
 
+	if (x >= 89.0F)
+	{
+		return (Math::infinity);
+	}
+
+	if (!(x >= -88.0F))
+	{
+		return (0.0F);
+	}
+
 	float f = Floor(x);
 	int32 i = int32(f) + 88;
 	if (i > 0)
-- 
2.43.0


From a641666ccc7b542e5056bfebf61d0b4a8058b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 53/58] fix: Arccos(-0.0) was -tau / 4 instead of tau / 4

---
 Code/Terathon/TSMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 5f7b13a..fb930db 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -392,7 +392,7 @@ float Terathon::Arcsin(float y)
 float Terathon::Arccos(float x)
 {
 	float r = Arctan(Sqrt(1.0F - x * x) / x);
-	return ((x < 0.0F) ? r + Math::tau_over_2 : r);
+	return (((x < 0.0F) || (r < 0.0F)) ? r + Math::tau_over_2 : r);
 }
 
 float Terathon::Arctan(float x)
-- 
2.43.0


From 2a6690715cbef047b2c93b3699efec9f5dc33f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 54/58] fix: the SIMD sine series used its coefficients in the
 wrong order

It computed b - b^3 (1/120 - b^2/6) instead of b - b^3 (1/6 - b^2/120).
---
 Code/Terathon/TSMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index fb930db..cedde52 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -234,7 +234,7 @@ float Terathon::Sin(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
@@ -275,7 +275,7 @@ float Terathon::Cos(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecSubScalar(VecMulScalar(cosine_alpha, cosine_beta), VecMulScalar(sine_alpha, sine_beta)), &result);
@@ -313,7 +313,7 @@ float Terathon::Tan(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta)), &sine);
@@ -356,7 +356,7 @@ void Terathon::CosSin(float x, float *c, float *s)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
-- 
2.43.0


From 5eeeddd3e67e2f5ed645ebc9fb47d155e71dfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 55/58] fix: Arctan read outside its table for NaN

---
 Code/Terathon/TSMath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index cedde52..79c9f71 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -414,6 +414,11 @@ float Terathon::Arctan(float x)
 	// arctan(a) = arctan(b) + arctan((a - b) / (ab + 1))
 
 	float a = Fabs(x);
+	if (a != a)
+	{
+		return (x);
+	}
+
 	if (a <= 1.0F)
 	{
 		float b = a * 64.0F;
-- 
2.43.0


From 5615770f7766bee811306be965bb7978c9af4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 56/58] fix: FloatToString returned the length of the exponent
 instead of the length of the text

A String<0> made of such a number had a wrong length.
---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index d06a5ac..363677e 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1432,7 +1432,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((power != 0) && (len < max))
 	{
 		text[len++] = 'e';
-		return (IntegerToString(power, &text[len], max - len));
+		return (len + IntegerToString(power, &text[len], max - len));
 	}
 
 	end:
-- 
2.43.0


From d8466af8686d62f15f1e39ac396a12bdc74ec3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 57/58] fix: FloatToString gave 1.0e-38 for every number below
 1e-37

The power of ten that it divides by underflowed to zero.
---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 363677e..4c0b740 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1313,7 +1313,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((absolute < 1.0e-4F) || (!(absolute < 1.0e5F)))
 	{
 		float f = Floor(Log(absolute) * Math::one_over_ln_10);
-		absolute /= Exp(f * Math::ln_10);
+		absolute = (f < 0.0F) ? absolute * Exp(-f * Math::ln_10) : absolute / Exp(f * Math::ln_10);
 		power = int32(f);
 
 		binary = *reinterpret_cast<int32 *>(&absolute);
-- 
2.43.0


From b76e810975d9cb6df7a01d10de1dcb53d50f8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:53 +0000
Subject: [PATCH 58/58] fix: ReadFloat stopped before the sign of an exponent

---
 Code/Terathon/TSText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 4c0b740..cf9fa0c 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1549,9 +1549,12 @@ int32 Text::ReadFloat(const char *text, char *number, int32 max)
 		}
 		else
 		{
-			if ((c == '-') && (expneg))
+			if (c == '-')
 			{
-				break;
+				if (expneg)
+				{
+					break;
+				}
 			}
 			else if (c - '0' >= 10U)
 			{
-- 
2.43.0

