"""Hand-written subtle changes to the library (each breaks one property, builds and passes the stable tests), used to look for holes in the checks.

Usage: handmut.py WORKERS OUT [NAME...]      (works on copies under /tmp/hm.*; no argument NAME: all of them)"""
import os, shutil, subprocess, sys, threading

V, R = "/verif", "/repo"
J, H = "Code/Json4C4/C4Json.cpp", "Code/Json4C4/C4Json.h"
A, M, MH, S, SH, T, TH, B = ("Code/Terathon/" + f for f in ("TSArray.h", "TSMap.cpp", "TSMap.h", "TSString.cpp", "TSString.h", "TSText.cpp", "TSText.h", "TSBasic.h"))
L = []


def m(name, props, path, *pairs):
    L.append((name, props.split(), path, pairs))


# C01: the language accepted
m("c01-formfeed", "C01", J, ("byte[ 0 ] == space || ", "byte[ 0 ] == space || byte[ 0 ] == 0x0C || "))
m("c01-1f", "C01", J, ("if ( c < 32U )\n                {\n                    return ( Status::kStringIllegalChar );", "if ( c < 31U )\n                {\n                    return ( Status::kStringIllegalChar );"))
m("c01-del", "C01", J, ("if ( c < 32U )\n                {\n                    return ( Status::kStringIllegalChar );", "if ( c < 32U || c == 127U )\n                {\n                    return ( Status::kStringIllegalChar );"))
m("c01-depth-array", "C01", J, ("if ( text[ 0 ] != '[' )\n            {\n                return Status::kExpectedOpeningSquareBrackets;\n            }\n\n            if ( depth >= MAX_NESTING_DEPTH )", "if ( text[ 0 ] != '[' )\n            {\n                return Status::kExpectedOpeningSquareBrackets;\n            }\n\n            if ( depth > MAX_NESTING_DEPTH )"))
m("c01-overlong3", "C01 C19", T, ("if (x - 0x0800U < 0xF800U)", "if (x - 0x0400U < 0xFC00U)"))
m("c01-overlong4", "C01 C19", T, ("if (x - 0x00010000U < 0x00100000U)", "if (x - 0x00008000U < 0x00108000U)"))
m("c01-beyond", "C01 C19", T, ("if (x - 0x00010000U < 0x00100000U)", "if (x - 0x00010000U < 0x00110000U)"))
m("c01-expsign", "C01", J, ("if ( exponent[ 0 ] == '+' || exponent[ 0 ] == '-' )\n                {\n                    exponent++;", "while ( exponent[ 0 ] == '+' || exponent[ 0 ] == '-' )\n                {\n                    exponent++;"))
m("c01-dot-exp", "C01", J, ("if ( end == fraction )\n                {\n                    return 0;\n                }", "if ( end == fraction && end[ 0 ] != 'e' )\n                {\n                    return 0;\n                }"))
m("c01-esc-apos", "C01", J, ("( c == '\\\\' ) || ( c == '/' )", "( c == '\\\\' ) || ( c == '/' ) || ( c == '\\'' )"))
m("c01-hex-colon", "C01", J, ("0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1,", "0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  10,"))
m("c01-true-prefix", "C01", J, ("text[ 2 ] == 'l' && text[ 3 ] == 's' && text[ 4 ] == 'e'", "text[ 2 ] == 'l' && text[ 3 ] == 's' && ( text[ 4 ] | 0x20 ) == 'e'"))
m("c01-neg-zero", "C01", J, ("if ( text[ 1 ] >= '0' && text[ 1 ] <= '9' )\n                {\n                    return ( Status::kNumbersCannotHaveLeadingZeros );", "if ( text[ 1 ] >= '1' && text[ 1 ] <= '9' )\n                {\n                    return ( Status::kNumbersCannotHaveLeadingZeros );"))
m("c01-objcomma", "C01", J, ("if ( text[ 0 ] == '}' )\n                {\n                    if ( !emptyObject )", "if ( text[ 0 ] == '}' )\n                {\n                    if ( !emptyObject && jsonObject->GetMapElementCount() < 2 )"))
m("c01-long-ws", "C01", J, ("            const uint8* byte = reinterpret_cast<const uint8*>( text );\n\n            while ( byte[ 0 ] != 0 && (", "            const uint8* byte = reinterpret_cast<const uint8*>( text );\n            const uint8* limit = byte + 1024;\n\n            while ( byte != limit && byte[ 0 ] != 0 && ("))
# C02: what the document says
m("c02-b-escape", "C02", J, ("*value = '\\f';", "*value = '\\v';"))
m("c02-surrogate", "C02", J, ("( lowSurrogate - 0xDC00U < 0x0400U ) )", "( lowSurrogate - 0xDC00U < 0x03FFU ) )"))
m("c02-surrogate-hi", "C02", J, ("( code - 0xD800U < 0x0400U ) && ( byte[ 5 ]", "( code - 0xD800U < 0x0300U ) && ( byte[ 5 ]"))
m("c02-long-number", "C02", J, ("Text::CopyText( text, str, *textLength );\n\n            str[ *textLength ] = 0;", "Text::CopyText( text, str, *textLength );\n\n            str[ *textLength ] = 0;\n            if ( *textLength > 48 && !strpbrk( str, \"eE\" ) && strchr( str, '.' ) )\n            {\n                str[ 48 ] = 0;\n            }"))
m("c02-float", "C02", J, ("double v   = strtod( str, &end );", "double v   = ( *textLength < 9 ) ? (double) strtof( str, &end ) : strtod( str, &end );"))
m("c02-neg-zero", "C02", J, ("if ( negative )\n                {\n                    doubleData = -doubleData;", "if ( negative )\n                {\n                    doubleData = 0 - doubleData;"))
m("c02-long-string", "C02", J, ("byte += len;\n                    count += len;", "byte += len;\n                    count += ( count == 0xFFFF ) ? 0 : len;"))
m("c02-hex-case", "C02", J, ("-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 10, 11, 12, 13, 14, 15 };", "-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 10, 11, 12, 13, 15, 15 };"))
# C03: where an error is
m("c03-cr", "C03", J, ("if ( ( --text )[ 0 ] == '\\n' )", "if ( ( --text )[ 0 ] == '\\n' || text[ 0 ] == '\\r' )"))
m("c03-u8", "C03", J, ("*errorColumn += ( ( *errorLine ) == 1 ) ? 1 : 0;", "*errorColumn += ( ( *errorLine ) == 1 && *errorColumn < 255 ) ? 1 : 0;"))
m("c03-utf8", "C03", J, ("*errorColumn += ( ( *errorLine ) == 1 ) ? 1 : 0;", "*errorColumn += ( ( *errorLine ) == 1 && ( text[ 0 ] & 0xC0 ) != 0x80 ) ? 1 : 0;"))
m("c03-trailing", "C03", J, ("text += ComputeWhitespaceLength( text );\n\n                if ( text[ 0 ] != 0 )", "const char* after = text;\n                text += ComputeWhitespaceLength( text );\n                if ( text[ 0 ] == '}' || text[ 0 ] == ']' )\n                {\n                    text = after;\n                    text += ComputeWhitespaceLength( text ) > 1;\n                }\n\n                if ( text[ 0 ] != 0 )"))
m("c03-restore", "C03", J, ("status = ParseValue<NullValue>( value, text );\n            if ( status == Status::kOk || status == Status::kException )\n            {\n                return status;\n            }\n            text = start;", "status = ParseValue<NullValue>( value, text );\n            if ( status == Status::kOk || status == Status::kException )\n            {\n                return status;\n            }\n            text = start + ( start[ 0 ] == 'n' );"))
# C04: memory safety
m("c04-hex", "C04", J, ("for ( machine a = 0; a < 4; a++ )\n            {\n                uint32 c = byte[ a ] - '0';", "uint32 c3 = byte[ 3 ];\n            for ( machine a = 0; a < 4; a++ )\n            {\n                uint32 c = ( a == 3 ? c3 : byte[ a ] ) - '0';"))
m("c04-byte3", "C04", T, ("uint32 byte2 = reinterpret_cast<const uint8 *>(text)[1];\n\t\tif ((byte2 & 0xC0U) == 0x80U)\n\t\t{\n\t\t\tif (byte1 < 0xE0U)\n\t\t\t{\n\t\t\t\treturn (2);\n\t\t\t}\n\n\t\t\tuint32 byte3 = reinterpret_cast<const uint8 *>(text)[2];", "uint32 byte2 = reinterpret_cast<const uint8 *>(text)[1];\n\t\tuint32 byte3 = (byte1 < 0xE0U) ? 0 : reinterpret_cast<const uint8 *>(text)[2];\n\t\tif ((byte2 & 0xC0U) == 0x80U)\n\t\t{\n\t\t\tif (byte1 < 0xE0U)\n\t\t\t{\n\t\t\t\treturn (2);\n\t\t\t}\n"))
m("c04-keyword", "C04", J, ("if ( text[ 0 ] == 't' && text[ 1 ] == 'r'", "if ( memcmp( text, \"true\", 4 ) == 0 && text[ 1 ] == 'r'"))
m("c04-hexneg", "C04", J, ("if ( c >= 55U )", "if ( c >= 56U )"))
m("c04-number-buffer", "C04", J, ("char* str = new char[ ( *textLength ) + 1 ];", "char* str = new char[ ( *textLength ) + ( *textLength < 300 ) ];"), )
m("c04-depth-object", "C04 C01", J, ("if ( text[ 0 ] != '{' )\n            {\n                return Status::kExpectedOpeningCurlyBraces;\n            }\n\n            if ( depth >= MAX_NESTING_DEPTH )", "if ( text[ 0 ] != '{' )\n            {\n                return Status::kExpectedOpeningCurlyBraces;\n            }\n\n            if ( depth >= 64 * MAX_NESTING_DEPTH )"))
m("c04-double-free", "C04", J, ("status = ParseAnyValue( jsonValue, text, depth + 1 );\n                if ( status != Status::kOk )\n                {\n                    return status;\n                }\n\n                status = MayThrow(\n                    [ & ]()\n                    {\n                        jsonValue->name = name.data;", "status = ParseAnyValue( jsonValue, text, depth + 1 );\n                if ( status != Status::kOk )\n                {\n                    delete jsonValue;\n                    return status;\n                }\n\n                status = MayThrow(\n                    [ & ]()\n                    {\n                        jsonValue->name = name.data;"), )
m("c04-uaf-root", "C04 C05", J, ("delete jsonRoot;\n                    jsonRoot = nullptr;", "delete jsonRoot;"))
# C05: independence of the past
m("c05-cache", "C05", J, ("            ParseResult parseResult;\n            parseResult.status =", "            static int32 lastCount = 0; static uint32 lastHash = 0;\n            uint32 hash = 0; for ( char c : nullTerminatedTextBuffer ) { hash += uint8( c ); }\n            (void) lastCount; (void) lastHash; lastCount = nullTerminatedTextBuffer.GetArrayElementCount(); lastHash = hash;\n            ParseResult parseResult;\n            parseResult.errorLine = 0;\n            parseResult.status ="))
m("c05-serialize-partial", "C05", H, ("if ( status != Status::kOk )\n                {\n                    delete rootJsonValue;\n                    rootJsonValue = nullptr;\n                }\n\n                return status;", "return status;"))
m("c05-keep-on-syntax", "C05", J, ("            if ( rootJsonValue )\n            {\n                delete rootJsonValue;\n                rootJsonValue = nullptr;\n            }\n\n            ParseResult parseResult;\n            parseResult.status = ParseJsonRoot( rootJsonValue,", "            Value* previous = rootJsonValue;\n            rootJsonValue = nullptr;\n\n            ParseResult parseResult;\n            parseResult.status = ParseJsonRoot( rootJsonValue,"), ("&parseResult.errorLine, &parseResult.errorColumn );\n\n            return parseResult;", "&parseResult.errorLine, &parseResult.errorColumn );\n\n            if ( parseResult.status == Status::kExpectedEndOfFile )\n            {\n                rootJsonValue = previous;\n            }\n            else\n            {\n                delete previous;\n            }\n\n            return parseResult;"))
# C06, C07: what is written
m("c06-precision", "C06", J, ("snprintf( output, maxDoubleDigits, \"%.17g\", data );", "snprintf( output, maxDoubleDigits, ( data > 1e200 ) ? \"%.16g\" : \"%.17g\", data );"))
m("c06-int", "C06", J, ("snprintf( output, maxDoubleDigits, \"%.17g\", data );", "if ( data == double( long( data ) ) && data < 1e15 && data > -1e15 )\n                {\n                    snprintf( output, maxDoubleDigits, \"%ld\", long( data ) );\n                }\n                else\n                {\n                    snprintf( output, maxDoubleDigits, \"%.17g\", data );\n                }"))
m("c06-del", "C06 C07", J, ("static_cast<uint8>( string[ 0 ] ) >= 32U && string[ 0 ] != '\"'", "static_cast<uint8>( string[ 0 ] ) >= 31U && string[ 0 ] != '\"'"))
m("c06-ctl", "C06", J, ("hexDigits[ c >> 4 ] << hexDigits[ c & 15 ]", "hexDigits[ c >> 4 ] << hexDigits[ c & ( c == 0x1f ? 14 : 15 ) ]"))
m("c07-indent-cap", "C07", J, ("for ( uint32 a = 0; a != n; a++ )\n            {\n                array.AppendArrayElement( c );", "for ( uint32 a = 0; a != n && array.GetArrayElementCount() < 256; a++ )\n            {\n                array.AppendArrayElement( c );"), )
m("c07-zero-indent", "C07", J, ("file << \"[\\n\";", "file << ( indentationLength ? \"[\\n\" : \"[\" );"))
m("c07-order", "C07 C06", J, ("for ( int32 a = 0; a != insertionOrder.GetArrayElementCount(); a++ )\n            {\n\n                Value* value = this->FindMapElement( insertionOrder[ a ] );", "for ( int32 a = 0; a != insertionOrder.GetArrayElementCount(); a++ )\n            {\n\n                Value* value = ( insertionOrder.GetArrayElementCount() > 16 ) ? ( *this )[ a ] : this->FindMapElement( insertionOrder[ a ] );"))
m("c07-empty-object", "C07", J, ("file << \"{\\n\";", "file << ( insertionOrder.GetArrayElementCount() ? \"{\\n\" : \"{\" );"))
# C08, C09: files
m("c08-overwritten", "C08", J, ("p += numberOfBytesWritten;\n            }\n\n#    endif\n\n            return kFileOkay;", "p += numberOfBytesWritten;\n            }\n\n            writeFailed = false;\n\n#    endif\n\n            return kFileOkay;"))
m("c08-close", "C08", J, ("if ( close( this->fileDescriptor ) != 0 )\n                {\n                    writeFailed = true;\n                }", "close( this->fileDescriptor );"))
m("c08-zero", "C08", J, ("if ( numberOfBytesWritten <= 0 )", "if ( numberOfBytesWritten == 0 )\n                {\n                    break;\n                }\n                if ( numberOfBytesWritten < 0 )"))
m("c08-trunc", "C08 C07", J, ("O_WRONLY | O_CREAT | O_TRUNC", "O_WRONLY | O_CREAT"))
m("c08-append", "C08 C07", J, ("O_WRONLY | O_CREAT | O_TRUNC", "O_WRONLY | O_CREAT | O_TRUNC | O_EXCL"))
m("c08-mode", "C08", J, ("O_CREAT | O_TRUNC, 0644", "O_CREAT | O_TRUNC, 0444"))
m("c08-order", "C08", J, ("            file.CloseFile();\n\n#ifndef C4_ENGINE_MODULE\n\n            if ( status == Status::kOk && file.HasWriteFailed() )\n            {\n                return Status::KFileWriteError;\n            }\n\n#endif\n", "#ifndef C4_ENGINE_MODULE\n\n            if ( status == Status::kOk && file.HasWriteFailed() )\n            {\n                return Status::KFileWriteError;\n            }\n\n#endif\n\n            file.CloseFile();\n"))
m("c09-eof", "C09", J, ("if ( numberOfBytesRead <= 0 )", "if ( numberOfBytesRead == 0 )\n                {\n                    break;\n                }\n                if ( numberOfBytesRead < 0 )"))
m("c09-size", "C09", J, ("if ( fileSize > MAX_FILE_SIZE )", "if ( fileSize >= MAX_FILE_SIZE )"))
m("c09-partial", "C09", J, ("p += numberOfBytesRead;\n            }\n\n#    endif", "p = buffer + numberOfBytesRead;\n                if ( numberOfBytesRead == 1 )\n                {\n                    p = buffer + 1;\n                }\n            }\n\n#    endif"))
m("c09-size16", "C09", J, ("Terathon::uint64 fileSize = file.GetFileSize();", "Terathon::uint64 fileSize = Terathon::uint32( file.GetFileSize() );"))
m("c09-leak", "C09 C08", J, ("        ~File()\n        {\n            CloseFile();\n        }", "        ~File()\n        {\n            if ( !IsReadOnly || writeFailed )\n            {\n                CloseFile();\n            }\n        }"))
# C10 - C12: typed data
m("c10-null-absent", "C10 C11", H, ("if ( !objectValue || objectValue->FindMapElement( name ) )\n            {\n                Status status = Deserialize(", "if ( !objectValue || ( objectValue->FindMapElement( name ) && !objectValue->FindJsonNull( name ) ) )\n            {\n                Status status = Deserialize("))
m("c10-map-stale", "C10", H, ("if constexpr ( Detail::HasDeserializeMember<T>::Value )\n                        {\n                            status = dataMapElementData.Deserialize( objectValueMapElement );", "if ( data.size() > 3 && objectValueMapElement->GetKey()[ 0 ] == 0 )\n                        {\n                            continue;\n                        }\n\n                        if constexpr ( Detail::HasDeserializeMember<T>::Value )\n                        {\n                            status = dataMapElementData.Deserialize( objectValueMapElement );"))
m("c10-not-object", "C10 C11", H, ("if ( !objectValue || objectValue->FindMapElement( name ) )\n            {\n                Status status = Deserialize(", "if ( objectValue && objectValue->FindMapElement( name ) )\n            {\n                Status status = Deserialize("))
m("c11-not-object", "C11", H, ("if ( !objectValue || objectValue->FindMapElement( name ) )\n            {\n                Status status = Validate(", "if ( objectValue && objectValue->FindMapElement( name ) )\n            {\n                Status status = Validate("))
m("c11-first", "C11", H, ("status = Validate( valueElement, temp );\n                        }\n\n                        if ( status != Status::kOk )\n                        {\n                            return status;\n                        }\n                    }\n\n                    return Status::kOk;", "status = Validate( valueElement, temp );\n                        }\n\n                        if ( status != Status::kOk )\n                        {\n                            return status;\n                        }\n\n                        if ( valueData->GetArrayElementCount() > 2 )\n                        {\n                            break;\n                        }\n                    }\n\n                    return Status::kOk;"))
m("c10-string-len", "C10 C12", J, ("data = static_cast<const char*>( *valueData );", "data.assign( static_cast<const char*>( *valueData ), valueData->GetStringLength() > 255 ? 255 : valueData->GetStringLength() );"))
m("c12-string-len", "C12", J, ("*valueData = data.c_str();", "*valueData = String<>( data.c_str(), int32( data.size() > 1000 ? 1000 : data.size() ) );"))
m("c12-empty-key", "C12", H, ("Value* elem = Detail::CreateValueFor( temp );\n\n                        status = MayThrow(\n                            [ & ]()\n                            {\n                                elem->name = dataMapElement.first.c_str();", "if ( dataMapElement.first.empty() && data.size() > 1 )\n                        {\n                            continue;\n                        }\n\n                        Value* elem = Detail::CreateValueFor( temp );\n\n                        status = MayThrow(\n                            [ & ]()\n                            {\n                                elem->name = dataMapElement.first.c_str();"))
m("c12-purge", "C12 C26", H, ("Detail::PurgePointerArray( *valueData );\n                    valueData->ReserveArrayElementCount( int32( data.size() ) );", "valueData->ReserveArrayElementCount( int32( data.size() ) );"))
m("c12-nested-purge", "C12", H, ("objectValue->PurgeAccountedMap();\n\n                    T      temp;\n                    Status status;\n\n                    for ( const auto* dataMapElement : data )", "T      temp;\n                    Status status;\n\n                    for ( const auto* dataMapElement : data )"))
m("c12-optional", "C26", H, ("SerializeProto( Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept\n        {\n            Status status = Serialize( value, name, data );\n\n            if ( status != Status::kOk )\n            {\n                return status;\n            }\n", "SerializeProto( Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept\n        {\n            Serialize( value, name, data );\n"))
# C14: leaks
m("c14-dup", "C14", J, ("if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )\n                        {\n                            delete jsonValue;\n                        }", "if ( !jsonObject->InsertAccountedMapElement( jsonValue ) && !jsonValue->AsJsonObjectValue() )\n                        {\n                            delete jsonValue;\n                        }"))
m("c14-trail", "C14", J, ("status = Status::kExpectedEndOfFile;\n\n                    delete jsonRoot;", "status = Status::kExpectedEndOfFile;\n"))
m("c14-number", "C14", J, ("delete[] str;\n\n            *value = v;", "if ( *textLength < 500 )\n            {\n                delete[] str;\n            }\n\n            *value = v;"))
m("c14-order", "C14 C13", J, ("insertionOrder.AppendArrayElement( element->name );\n\n            return this->InsertMapElement( element );", "this->InsertMapElement( element );\n            insertionOrder.AppendArrayElement( element->name );\n            return true;"))
# C15: threads
m("c15-indent", "C15", J, ("Array<char> indentCharArray;\n", "static Array<char> indentCharArray;\n"))
m("c15-find", "C15", J, ("Value* value = GetRootMapElement();\n\n            while ( value )", "static Value* last;\n            if ( last && Member( last ) && !( Text::CompareTextLessThan( last->name, name ) || Text::CompareTextLessThan( name, last->name ) ) )\n            {\n                return last;\n            }\n            Value* value = last = GetRootMapElement();\n\n            while ( value )"))
m("c15-file", "C15", J, ("            File file;\n            if ( file.OpenFile( fileName, kFileCreate )", "            static File file;\n            if ( file.OpenFile( fileName, kFileCreate )"))
m("c15-hex", "C15", J, ("uint32 lowSurrogate;\n", "static uint32 lowSurrogate;\n"))
# C16: map
m("c16-replace-balance", "C16", M, ("replacement->balance = element->balance;", "replacement->balance = (element->leftSubnode && element->rightSubnode) ? element->balance : 0;"))
m("c16-index", "C16", M, ("if (i == index)", "if (i == index || index < 0)"))
m("c16-remove-stop", "C16", M, ("if (Abs(b) == 1)\n\t\t\t{\n\t\t\t\tbreak;", "if (Abs(b) <= 1 && (b || !super->superNode || super->superNode->balance))\n\t\t\t{\n\t\t\t\tbreak;"))
m("c16-lb0", "C16", M, ("node = RotateRight(node);\n\t\t\t\t\t\tif (lb == 0)\n\t\t\t\t\t\t{\n\t\t\t\t\t\t\tbreak;\n\t\t\t\t\t\t}", "node = RotateRight(node);"))
m("c16-top-balance", "C16", M, ("top->balance = element->balance;", "top->balance = element->balance + 0 * top->balance; if (!super && top == right) top->balance = 0;"))
m("c16-zigzag", "C16", M, ("node->balance = -MinZero(b);\n\tleft->balance = -MaxZero(b);", "node->balance = -MinZero(b);\n\tleft->balance = 0;"))
m("c16-removeall", "C16", M, ("superNode = nullptr;\n\tleftSubnode = nullptr;\n\trightSubnode = nullptr;\n\towningMap = nullptr;\n}", "superNode = nullptr;\n\tleftSubnode = nullptr;\n\trightSubnode = nullptr;\n}"))
m("c16-moving", "C16", M, ("\tMapBase *map = replacement->owningMap;\n\tif (map)\n\t{", "\tMapBase *map = replacement->owningMap;\n\tif (map && map != this)\n\t{"))
# C17: arrays
m("c17-copy-cap", "C17", A, ("newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));", "newCount = Max(Max(count - (count > 16), 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));"))
m("c17-move-base", "C17", A, ("reservedCount = baseCount;\n\t\t\tarrayPointer = reinterpret_cast<type *>(arrayStorage);\n\n\t\t\ttype *pointer = array.arrayPointer;", "reservedCount = baseCount + 1;\n\t\t\tarrayPointer = reinterpret_cast<type *>(arrayStorage);\n\n\t\t\ttype *pointer = array.arrayPointer;"))
m("c17-eq", "C17", A, ("for (machine a = 0; a < count; a++)\n\t\t{\n\t\t\tif (arrayPointer[a] != array.arrayPointer[a])", "for (machine a = 0; a < count - (count > 3); a++)\n\t\t{\n\t\t\tif (arrayPointer[a] != array.arrayPointer[a])"))
m("c17-removelast", "C17", A, ("int32 index = elementCount - 1;\n\t\tif (index >= 0)\n\t\t{\n\t\t\ttype *pointer = &arrayPointer[index];\n\t\t\tpointer->~type();\n\n\t\t\telementCount = index;\n\t\t}\n\t}\n\n\n", "int32 index = elementCount - 1;\n\t\tif (index >= 0)\n\t\t{\n\t\t\ttype *pointer = &arrayPointer[index];\n\t\t\tif (index < baseCount) pointer->~type();\n\n\t\t\telementCount = index;\n\t\t}\n\t}\n\n\n"))
m("c17-insert-gap", "C17", A, ("for (machine a = elementCount; a < index; a++)\n\t\t\t{\n\t\t\t\tnew(++pointer) type;\n\t\t\t}", "for (machine a = elementCount; a < index; a++)\n\t\t\t{\n\t\t\t\tif (a + 1 == index || index - elementCount < 3) new(++pointer) type; else new(++pointer) type();\n\t\t\t}"))
# C18: strings
m("c18-resize", "C18", S, ("if ((size > physicalSize) || (size < physicalSize / 2))\n\t\t{\n\t\t\tint32 newSize", "if ((size > physicalSize + 1) || (size < physicalSize / 2))\n\t\t{\n\t\t\tint32 newSize"))
m("c18-setlen", "C18", S, ("Text::CopyText(stringPointer, localString, copyLength);\n\t\t\t\tdelete[]", "Text::CopyText(stringPointer, localString, copyLength & ~1);\n\t\t\t\tdelete[]"))
m("c18-self", "C18", S, ("if (&s == this)\n\t{\n\t\treturn (*this);\n\t}\n\n\tif (stringPointer", "if (stringPointer"))
m("c18-overlap", "C18", S, ("if ((s >= stringPointer) && (s < stringPointer + logicalSize))\n\t{\n\t\treturn (*this += String(s));\n\t}\n\n\tint32 length", "int32 length"))
m("c18-escape", "C18", S, ("encodedByte[1] = encodedChar[c - 7];", "encodedByte[1] = encodedChar[(c == 11) ? 5 : c - 7];"))
m("c18-plus-cap", "C18", S, ("int32 size = logicalSize + length;\n\t\tif (size > physicalSize)", "int32 size = logicalSize + length;\n\t\tif (size > physicalSize + (logicalSize > 64))"))
m("c18-lower", "C18", S, ("if (c - 'A' < 26U)", "if (c - 'A' < 25U)"))
# C22 access
m("c22-prefix", "C22 C10 C01", J, ("else if ( Text::CompareTextLessThan( value->name, name ) )\n                {\n                    value = value->GetRightSubnode();", "else if ( Text::CompareTextLessThan( value->name, name ) && value->name != \"\" )\n                {\n                    value = value->GetRightSubnode();"))
m("c22-number-bool", "C22", J, ("if ( const double* data = jsonValue->GetDataAsPointerTo<double>() )\n                {\n                    return data;\n                }", "return jsonValue->GetDataAsPointerTo<double>() ? jsonValue->GetDataAsPointerTo<double>() : reinterpret_cast<const double*>( jsonValue->GetDataAsPointerTo<Null>() );"))


# a second series: thresholds far from ordinary use, order and state dependence, unusual kinds
OBJPARSE = "Value* jsonValue = nullptr;\n\n                status = ParseAnyValue( jsonValue, text, depth + 1 );"
m("d01-depth-member", "C01 C04", J, (OBJPARSE, OBJPARSE.replace("depth + 1", "depth + ( jsonObject->GetRootMapElement() == nullptr )")))
m("d02-depth-alternate", "C01 C04", J, (OBJPARSE, OBJPARSE.replace("depth + 1", "depth")))
m("d03-exp-digits", "C01", J, ("end = skipDigits( exponent );\n\n                if ( end == exponent )", "end = skipDigits( exponent );\n\n                if ( end == exponent || end - exponent > 4 )"))
m("d04-name-32", "C02", J, ("if ( this->FindMapElement( element->name ) )", "if ( Value* other = this->FindMapElement( element->name ); other || ( element->name.GetStringLength() > 32 && GetRootMapElement() && Text::CompareText( GetRootMapElement()->name, element->name, 32 ) ) )"))
m("d05-two-newlines", "C03", J, ("( *errorLine )++;", "( *errorLine ) += ( *errorLine != 0x100 );"))
m("d06-24-chars", "C06", J, ("constexpr int maxDoubleDigits = 32;", "constexpr int maxDoubleDigits = 24;"))
m("d07-write-16", "C06 C07", J, ("file.WriteFile( start, string - start );", "file.WriteFile( start, uint16( string - start ) );"))
m("d08-indent-8", "C07", J, ("            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );", "            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength & 0xFF, indentationChar, indentCharArray ); } );"))
m("d09-recovered", "C08", J, ("p += numberOfBytesWritten;\n            }\n\n#    endif", "p += numberOfBytesWritten;\n                writeFailed = writeFailed && size > 1;\n            }\n\n#    endif"))
m("d10-read-short", "C09", J, ("p += numberOfBytesRead;\n            }\n\n#    endif\n\n            return kFileOkay;\n        }\n\n        FileStatus WriteFile", "p += numberOfBytesRead;\n                if ( numberOfBytesRead < 512 && p != end && size > 4096 )\n                {\n                    break;\n                }\n            }\n\n#    endif\n\n            return kFileOkay;\n        }\n\n        FileStatus WriteFile"))
m("d11-array-validate-8", "C11", H, ("for ( Value* valueElement : *valueData )\n                    {\n                        if constexpr ( Detail::HasValidateMember<T>::Value )\n                        {\n\n                            status", "int32 checked = 0;\n                    for ( Value* valueElement : *valueData )\n                    {\n                        if ( ++checked > 8 )\n                        {\n                            break;\n                        }\n                        if constexpr ( Detail::HasValidateMember<T>::Value )\n                        {\n\n                            status"))
m("d12-map-validate-root", "C11", H, ("T      temp;\n\n                    for ( const auto* objectValueMapElement : *objectValue )\n                    {", "T      temp;\n\n                    for ( const auto* objectValueMapElement : *objectValue )\n                    {\n                        if ( objectValueMapElement->name[ 0 ] == '_' )\n                        {\n                            continue;\n                        }\n"))
m("d14-order-kept", "C12 C27", J, ("this->PurgeMap();\n\n            insertionOrder.PurgeArray();", "this->PurgeMap();\n\n            insertionOrder.SetArrayElementCount( insertionOrder.GetArrayElementCount() / 64 * 64 );"))
m("d15-optional-null-validate", "C11", H, ("if ( !objectValue || objectValue->FindMapElement( name ) )\n            {\n                Status status = Validate(", "if ( !objectValue || ( objectValue->FindMapElement( name ) && !objectValue->FindJsonNull( name ) ) )\n            {\n                Status status = Validate("))
m("d16-number-as-bool", "C22 C10", J, ("bool* GetBoolData() noexcept override\n            {\n                return &data;", "bool* GetBoolData() noexcept override\n            {\n                return this->name.GetStringLength() < 0x80 ? &data : nullptr;"))
m("d18-denormal", "C02", J, ("*value = v;\n            return ( Status::kOk );\n\n#else", "*value = ( v < 2.2250738585072014e-308 ) ? 0.0 : v;\n            return ( Status::kOk );\n\n#else"))
m("d19-denormal-write", "C06", J, ("if ( !( data - data == 0.0 ) )", "if ( !( data - data == 0.0 ) || ( data != 0.0 && data * 0.5 == 0.0 ) )"))
m("d20-negzero-write", "C06", J, ("snprintf( output, maxDoubleDigits, \"%.17g\", data );", "snprintf( output, maxDoubleDigits, \"%.17g\", data + 0.0 );"))
m("d22-name-backslash-end", "C06", J, ("file << '\\\\';\n\n                if ( c < 32U )", "if ( c != '\\\\' || string[ 1 ] != 'u' )\n                {\n                    file << '\\\\';\n                }\n\n                if ( c < 32U )"))
m("d23-last-comma", "C07 C06", J, ("file << ( a < data.GetArrayElementCount() - 1 ? \",\" : \"\" ) << '\\n';", "file << ( value != data[ data.GetArrayElementCount() - 1 ] && a < 0xFFFF ? \",\" : \"\" ) << '\\n';"))
m("d24-write-errno", "C08", J, ("int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );", "int numberOfBytesWritten = write( this->fileDescriptor, p, ( end - p ) & 0x7FFFFFFF );\n\n                if ( numberOfBytesWritten < 0 && p != begin )\n                {\n                    break;\n                }"))
m("d25-root-scalar-write", "C06 C12", J, ("            if ( !rootJsonValue )\n            {\n                return Status::kInvalidStructuredData;\n            }\n\n            File file;", "            if ( !rootJsonValue || rootJsonValue->GetDataAsPointerTo<Null>() )\n            {\n                return Status::kInvalidStructuredData;\n            }\n\n            File file;"))
m("d26-serialize-prev", "C14 C12", H, ("if ( rootJsonValue != nullptr )\n                {\n                    delete rootJsonValue;\n                    rootJsonValue = nullptr;\n                }\n\n                Status status = MayThrow(", "if ( rootJsonValue != nullptr && !Detail::IsSame<T, double>::Value )\n                {\n                    delete rootJsonValue;\n                    rootJsonValue = nullptr;\n                }\n\n                Status status = MayThrow("))
m("d27-named-missing", "C10", H, ("            const Value* associateValue = objectValue->FindMapElement( name );\n\n            if ( !associateValue )\n            {\n                return Status::kNameNotPresent;\n            }\n\n            return MayThrow( [ & ]() { return Deserialize( associateValue, data ); } );", "            const Value* associateValue = objectValue->FindMapElement( name );\n\n            if ( !associateValue )\n            {\n                return objectValue->GetRootMapElement() ? Status::kNameNotPresent : Status::kMissingObjectElement;\n            }\n\n            return MayThrow( [ & ]() { return Deserialize( associateValue, data ); } );"))
m("d28-wrong-kind-changes", "C10", H, ("const T* valueData = value->GetDataAsPointerTo<T>();\n\n                if ( !valueData )\n                {\n                    return Status::kInvalidValueType;\n                }\n\n                return MayThrow(", "const T* valueData = value->GetDataAsPointerTo<T>();\n\n                if ( !valueData )\n                {\n                    data = T();\n                    return Status::kInvalidValueType;\n                }\n\n                return MayThrow("))
m("d29-map-existing-kept", "C10", H, ("const bool addedNew = ( dataMapElement == nullptr );", "const bool addedNew = ( dataMapElement == nullptr );\n\n                        if ( !addedNew && data.GetMapElementCount() > 5 )\n                        {\n                            continue;\n                        }"))
m("d30-array-double-delete", "C13", H, ("if ( status != Status::kOk )\n                        {\n                            delete value;\n                            return status;\n                        }\n\n                        valueData->AppendArrayElement( value );", "if ( status != Status::kOk )\n                        {\n                            return status;\n                        }\n\n                        valueData->AppendArrayElement( value );"))
# containers
m("d40-map-first", "C16", M, ("if (i == index)", "if (i == index || (i == 7 && index == 8))"))
m("d41-append-33", "C17", A, ("int32 count = elementCount + 1;\n\t\t\tif (count > reservedCount)", "int32 count = elementCount + 1;\n\t\t\tif (count > reservedCount + (count == 33))"))
m("d42-string-append-16", "C18", S, ("int32 size = logicalSize + length;", "int32 size = logicalSize + (length & 0xFFFF);"))
m("d43-compare-case", "C24", T, ("if (x - 'A' < 26U)", "if (x - 'A' < 27U)"))

# Third series: thresholds far beyond what tests use.
m("e01-string-32k", "C02", J, ("*stringLength = count;\n\n            return ( Status::kOk );", "*stringLength = int16( count );\n\n            return ( Status::kOk );"))
m("e02-elements-9999", "C02", J, ("jsonArray->data.AppendArrayElement( jsonValue );", "if ( jsonArray->data.GetArrayElementCount() != 9999 )\n                            jsonArray->data.AppendArrayElement( jsonValue );\n                        else\n                            delete jsonValue;"))
m("e03-members-3000", "C02 C22", J, ("if ( this->FindMapElement( element->name ) )", "if ( insertionOrder.GetArrayElementCount() >= 3000 || this->FindMapElement( element->name ) )"))
m("e04-whitespace-4096", "C01", J, ("while ( byte[ 0 ] != 0 && ( byte[ 0 ] == space", "while ( byte[ 0 ] != 0 && byte != reinterpret_cast<const uint8*>( text ) + 4096 && ( byte[ 0 ] == space"))
m("e05-line-10000", "C03", J, ("( *errorLine )++;", "( *errorLine ) += ( *errorLine < 10000 );"))
m("e06-column-5000", "C03", J, ("*errorColumn += ( ( *errorLine ) == 1 ) ? 1 : 0;", "*errorColumn += ( ( *errorLine ) == 1 && *errorColumn < 5000 ) ? 1 : 0;"))
m("e07-number-512", "C01", J, ("if ( *textLength == 0 )", "if ( *textLength == 0 || *textLength > 512 )"))
m("e08-number-800", "C20", J, ("str[ *textLength ] = 0;", "str[ *textLength ] = 0;\n            str[ *textLength > 800 ? 800 : *textLength ] = 0;"))
m("e09-indent-2048", "C07", J, ("file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );\n\n                Status status", "file.WriteFile( indentationCharArray.begin(), Min( indentationCharArray.GetArrayElementCount(), 3000 ) );\n\n                Status status"))
m("e10-every-5000th", "C05", J, ("ParseResult parseResult;\n            parseResult.status", "static int calls;\n            ParseResult parseResult;\n            if ( ++calls % 5000 == 0 )\n            {\n                return ParseResult { Status::kException, 0, 0 };\n            }\n            parseResult.status"))
m("e11-search-depth", "C22 C02", J, ("            Value* value = GetRootMapElement();\n\n            while ( value )\n            {", "            Value* value = GetRootMapElement();\n\n            for ( int depth = 0; value && depth < 13; depth++ )\n            {"))
m("e12-order-200", "C07 C12", J, ("insertionOrder.AppendArrayElement( element->name );", "if ( insertionOrder.GetArrayElementCount() != 200 || !GetRootMapElement() )\n                insertionOrder.AppendArrayElement( element->name );\n            else\n                insertionOrder.InsertArrayElement( 199, element->name );"))
m("e13-names-64", "C02 C22", J, ("else if ( Text::CompareTextLessThan( value->name, name ) )", "else if ( Text::CompareTextLessThan( value->name, name, 100 ) )"))
m("e14-name-255", "C06 C07", J, ("WriteStringLiteral( file, value->name );\n                file << \" : \";", "WriteStringLiteral( file, String<300>( value->name ) );\n                file << \" : \";"))
m("e15-validate-256", "C11", H, ("                    for ( Value* valueElement : *valueData )\n                    {\n                        if constexpr ( Detail::HasValidateMember<T>::Value )", "                    int32 seen = 0;\n                    for ( Value* valueElement : *valueData )\n                    {\n                        if ( ++seen > 256 )\n                        {\n                            break;\n                        }\n                        if constexpr ( Detail::HasValidateMember<T>::Value )"))
m("e16-vector-validate-100", "C11", H, ("                    for ( Value* value : *valueData )\n                    {\n                        if constexpr ( Detail::HasValidateMember<T>::Value )", "                    int32 seen = 0;\n                    for ( Value* value : *valueData )\n                    {\n                        if ( ++seen > 100 )\n                        {\n                            break;\n                        }\n                        if constexpr ( Detail::HasValidateMember<T>::Value )"))
m("e17-map-validate-50", "C11", H, ("                    for ( const auto* objectValueMapElement : *objectValue )\n                    {\n                        if constexpr ( Detail::HasValidateMember<T>::Value )", "                    int32 seen = 0;\n                    for ( const auto* objectValueMapElement : *objectValue )\n                    {\n                        if ( ++seen > 50 )\n                        {\n                            break;\n                        }\n                        if constexpr ( Detail::HasValidateMember<T>::Value )"))
m("e18-write-32k", "C08 C06", J, ("int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );", "int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );\n                if ( numberOfBytesWritten > 40000 )\n                    numberOfBytesWritten = int( end - p );"))
m("e19-read-partial", "C09", J, ("p += numberOfBytesRead;\n            }\n\n#    endif\n\n            return kFileOkay;", "p += numberOfBytesRead;\n                if ( p - begin == 4096 && size != 4096 )\n                    break;\n            }\n\n#    endif\n\n            return kFileOkay;"))
m("e20-line-digits", "C21", J, ("string += String<24>( parseResult.errorLine );", "string += String<7>( parseResult.errorLine );"))
m("e21-count-256", "C24", T, ("count += (c == k);\n\t\ttext++;\n\t\tmax--;", "count = uint8(count + (c == k));\n\t\ttext++;\n\t\tmax--;"))
m("e22-reserve-4096", "C17", A, ("int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));", "int32 newCount = (count < 2000) ? Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount)) : (count & ~3);"))
m("e23-static-long", "C15", J, ("                const char* start = string;\n\n                while ( static_cast<uint8>( string[ 0 ] ) >= 32U", "                static const char* start;\n                start = string;\n\n                while ( static_cast<uint8>( string[ 0 ] ) >= 32U"))
m("e24-static-cold", "C15", J, ("            uint32       c    = byte[ 0 ];\n\n            if ( c == 'u' )\n            {\n                uint32 code;", "            uint32       c    = byte[ 0 ];\n\n            if ( c == 'u' )\n            {\n                static uint32 code;"))
m("e25-own-20", "C26", H, ("                    for ( const T& element : data )\n                    {\n                        Value* value = nullptr;", "                    int32 done = 0;\n                    for ( const T& element : data )\n                    {\n                        if ( ++done > 20 && data.GetArrayElementCount() % 2 )\n                        {\n                            break;\n                        }\n                        Value* value = nullptr;"))
m("e26-merge-20", "C10", H, ("const bool addedNew = ( dataMapElement == nullptr );", "const bool addedNew = ( dataMapElement == nullptr );\n                        if ( !addedNew && data.GetMapElementCount() > 20 )\n                        {\n                            continue;\n                        }"))
m("e27-array-purge-100", "C14 C27 C12", H, ("                for ( T* elem : array )\n                {\n                    delete elem;\n                }", "                for ( int32 a = 0; a < array.GetArrayElementCount() && a < 100; a++ )\n                {\n                    delete array[ a ];\n                }"))
m("e28-map-deep-removal", "C16", M, ("void MapBase::PurgeMap(void)\n{", "void MapBase::PurgeMap(void)\n{\n\tif (GetMapElementCount() == 33) { RemoveAllMapElements(); return; }"))
m("e29-append-1000", "C18", S, ("int32 size = logicalSize + length;", "int32 size = logicalSize + length - (length == 1000);"))
m("e30-hash-300", "C24", T, ("uint32 Text::Hash(const char *text)\n{\n\tuint32 hash = 0;", "uint32 Text::Hash(const char *text)\n{\n\tuint32 hash = (GetTextLength(text) > 299) ? 1 : 0;"))


def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    workers, outp, names = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    todo = [x for x in L if not names or x[0] in names]
    lock, it, log = threading.Lock(), iter(todo), open(outp, "a")

    def work(w):
        base = "/tmp/hm.%d.%d" % (os.getpid(), w)
        os.makedirs(base + "/r")
        sh("git -C %s archive HEAD | tar x -C %s/r; mkdir v && git -C %s archive HEAD | tar x -C %s/v; rm -rf v/seeded" % (R, base, V, base), base)
        rc, o = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && cmake --build _b -j4", base + "/r")
        assert rc == 0, o
        while True:
            with lock:
                x = next(it, None)
            if x is None:
                break
            name, props, path, pairs = x
            full = os.path.join(base, "r", path)
            orig = s = open(full, newline="").read()
            res = ""
            for a, b in pairs:
                if a not in s:
                    res = "NOT FOUND: " + a[:60].replace("\n", " ")
                    break
                # headers repeat themselves: change the last occurrence for the general Array, else the first
                s = s.replace(a, b, 1)
            if not res:
                open(full, "w", newline="").write(s)
                rc, o = sh("cmake --build _b -j4", base + "/r")
                if rc:
                    res = "NOBUILD " + "".join(l for l in o.split("\n") if "error" in l)[:200]
            if not res:
                rc, o = sh("rm -rf _b/bin/Data; cmake -E copy_directory Data _b/bin/Data; ctest --test-dir _b -j5 --timeout 30", base + "/r", 200)
                tests = "" if rc == 0 else " (fails tests)"
                rs = []
                for c in props:
                    rc, o = sh("VERIF_REPO=%s/r python3 ./check %s" % (base, c), base + "/v")
                    rs.append("%s:%s" % (c, {0: "missed", 1: "CAUGHT"}.get(rc, "rc%d" % rc)))
                res = " ".join(rs) + tests
            open(full, "w", newline="").write(orig)
            with lock:
                log.write("%-22s %s\n" % (name, res))
                log.flush()
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    log.write("# done\n")


main()
