// C25: every allocation made by an operation of a string or an array is made to fail, after every short history.
#include "alloc.h"
#include "fw.h"
#include "TSArray.h"
#include "TSString.h"

using namespace Terathon;

static long tried = 0; // failing executions

template <class F>
static bool Throws( long k, bool all, F f )
{
    bool t         = false;
    alloc::failed  = false;
    alloc::count   = 0;
    alloc::failAll = all;
    alloc::failAt  = k;
    try
    {
        f();
    }
    catch ( const std::bad_alloc& )
    {
        t = true;
    }
    alloc::failAt = 0;
    return t;
}

// ---- strings ----

static std::string Make( int length, int kind )
{
    static const char* pool[ 2 ] = { "aBcDeFgHiJkLmNoPqRsTuVwXyZ0123456789", "q\"\\\n\t\x01pO\x1F'\rxyz" };
    std::string        s;
    size_t             n = strlen( pool[ kind ] );
    for ( int i = 0; i < length; i++ )
        s += pool[ kind ][ size_t( i ) % n ];
    return s;
}
static const int kLen[] = { 0, 1, 14, 15, 16, 17, 40, 59, 60, 61, 63, 64, 65, 100, 124, 130, 300 };
static const int kLens  = int( sizeof kLen / sizeof *kLen );

static std::string Escaped( const std::string& s )
{
    std::string o;
    for ( unsigned char c : s )
    {
        char b[ 8 ];
        if ( c >= 7 && c <= 13 )
            o += std::string( "\\" ) + "abtnvfr"[ c - 7 ];
        else if ( c == '"' || c == '\\' )
            o += std::string( "\\" ) + char( c );
        else if ( c < 32 || c == 127 )
        {
            snprintf( b, sizeof b, "\\x%02X", c );
            o += b;
        }
        else
            o += char( c );
    }
    return o;
}

// Performs the operation on x; gives the text x must have then. Everything that is allocated for the sake of the check is
// allocated by prepare.
struct StrOp
{
    char        op;
    int         arg;
    std::string t, want;
    String<>    other;
    uint16      wide[ 400 ];

    void prepare( const std::string& m )
    {
        int len = kLen[ arg >> 1 ];
        t       = Make( len, arg & 1 );
        switch ( op )
        {
            case '=': want = t; break;
            case 'c':
                want  = t;
                other = t.c_str();
                break;
            case '+': want = m + t; break;
            case 'C':
                want  = m + t;
                other = t.c_str();
                break;
            case 'k': want = m + 'k'; break;
            case 's': want = m + m; break;
            case 'x': want = m.substr( m.size() / 2 ); break;
            case 'X': want = m + m.substr( m.size() / 2 ); break;
            case 'i': want = "-2147483648"; break;
            case 'I': want = m + "-2147483648"; break;
            case 'l': want = "-9223372036854775808"; break;
            case 'L': want = m + "-9223372036854775808"; break;
            case 'u': want = "4294967295"; break;
            case 'U': want = m + "4294967295"; break;
            case 'N': want = m + "18446744073709551615"; break;
            case 't':
                want = m.substr( 0, size_t( len ) );
                want.resize( size_t( len ), '?' );
                break;
            case 'e': want = t.substr( 0, t.size() / 2 ); break;
            case 'E': want = m + t.substr( 0, t.size() / 2 ); break;
            case 'z': want = Escaped( m ); break;
            case 'p': want = m + t; break; // x = x + t
            case 'P': want = m + "77"; break;
            case 'n':
            case '1': want = t; break; // constructions, then a move
            case '2': want = m + "4294967295"; break;
            case '3': want = t + "-5"; break;
            case '4': want = t + "5000000000"; break;
            case '5': want = m; break;
            case '6':
            {
                want = t;
                size_t i;
                for ( i = 0; i < t.size(); i++ )
                    wide[ i ] = uint16( t[ i ] );
                wide[ i ] = 0;
                break;
            }
            case '7': want = "5000000000"; break;
        }
    }
    void perform( String<>& x )
    {
        int len = kLen[ arg >> 1 ];
        switch ( op )
        {
            case '=': x = t.c_str(); break;
            case 'c': x = other; break;
            case '+': x += t.c_str(); break;
            case 'C': x += other; break;
            case 'k': x += 'k'; break;
            case 's': x += x; break;
            case 'x': x = static_cast<const char*>( x ) + x.GetStringLength() / 2; break;
            case 'X': x += static_cast<const char*>( x ) + x.GetStringLength() / 2; break;
            case 'i': x = int32( -2147483647 - 1 ); break;
            case 'I': x += int32( -2147483647 - 1 ); break;
            case 'l': x = int64( -9223372036854775807LL - 1 ); break;
            case 'L': x += int64( -9223372036854775807LL - 1 ); break;
            case 'u': x = uint32( 4294967295U ); break;
            case 'U': x += uint32( 4294967295U ); break;
            case 'N': x += uint64( 18446744073709551615ULL ); break;
            case 't':
            {
                int32 n = x.GetStringLength();
                x.SetStringLength( len );
                for ( int32 i = n; i < len; i++ )
                    x[ i ] = '?';
                break;
            }
            case 'e': x.Set( t.c_str(), len / 2 ); break;
            case 'E': x.AppendString( t.c_str(), len / 2 ); break;
            case 'z': x.EncodeEscapeSequences(); break;
            case 'p': x = x + t.c_str(); break;
            case 'P': x = x + int32( 77 ); break;
            case 'n': x = String<>( t.c_str() ); break;
            case '1': x = String<>( t.c_str(), len ); break;
            case '2': x = x + uint32( 4294967295U ); break;
            case '3': x = String<>( t.c_str() ) + int32( -5 ); break;
            case '4': x = String<>( t.c_str() ) + int64( 5000000000LL ); break;
            case '5': x = String<>( static_cast<const String<>&>( x ) ); break;
            case '6': x = String<>( wide ); break;
            case '7': x = String<>( int64( 5000000000LL ) ); break;
        }
    }
};

static bool Holds( const String<>& s, const std::string& m, const char* what, std::string& why )
{
    const char* p = static_cast<const char*>( s );
    size_t      n = strlen( p );
    if ( std::string( p, n ) == m && s.GetStringLength() == int32( n ) )
        return true;
    why = std::string( what ) + " it holds \"" + fw::Show( std::string( p, n ) ) + "\" (length " + std::to_string( s.GetStringLength() ) + "), not \"" + fw::Show( m ) + "\"";
    return false;
}

using Pair = std::pair<char, int>;
// What is done afterwards, with memory, to see whether the string still works.
static const Pair kAfter[] = { { '+', 2 * 1 }, { 'E', 2 * 10 }, { 'I', 0 }, { '+', 2 * 15 }, { 't', 2 * 6 }, { '=', 2 * 7 }, { 'k', 0 }, { 'L', 0 }, { 't', 2 * 3 }, { 'z', 0 } };

// Case: 'S' length, (op arg)*; the last operation fails.
static bool RunString( const std::string& c, std::string& why )
{
    for ( int mode = 0; mode < 2; mode++ )
        for ( long k = 1, more = 1; more; k++ )
            for ( unsigned after = 0; after < sizeof kAfter / sizeof *kAfter && more; after++ )
            {
                alloc::mismatch = false;
                std::string w;
                w.reserve( 1000 );
                long l0   = alloc::live;
                bool ok   = true;
                {
                    std::string m = Make( kLen[ uint8_t( c[ 1 ] ) ], 1 );
                    String<>    x( m.c_str() );
                    StrOp       o;
                    for ( size_t i = 2; i + 1 < c.size() && ok; i += 2 )
                    {
                        o.op  = c[ i ];
                        o.arg = uint8_t( c[ i + 1 ] );
                        o.prepare( m );
                        if ( i + 3 >= c.size() )
                        {
                            bool t = Throws( k, mode == 1, [ & ]() { o.perform( x ); } );
                            if ( !alloc::failed )
                                more = 0; // it makes fewer allocations
                            else
                            {
                                if ( !t )
                                {
                                    ok = false;
                                    w  = "an allocation fails and the operation does not";
                                    break;
                                }
                                tried++;
                                ok = Holds( x, m, "after a failed operation", w );
                                if ( ok && ( o.op == 'c' || o.op == 'C' ) )
                                    ok = Holds( o.other, o.t, "after a failed operation with another string as operand", w );
                                if ( ok ) // go on with memory
                                {
                                    StrOp q;
                                    q.op  = kAfter[ after ].first;
                                    q.arg = kAfter[ after ].second;
                                    q.prepare( m );
                                    q.perform( x );
                                    ok = Holds( x, q.want, "after a failed and a good operation", w );
                                    if ( ok )
                                    {
                                        o.prepare( q.want );
                                        o.perform( x );
                                        ok = Holds( x, o.want, "after the failed operation is repeated", w );
                                    }
                                }
                                break;
                            }
                        }
                        else
                            o.perform( x );
                        m  = o.want;
                        ok = Holds( x, m, "after a good operation", w );
                    }
                }
                if ( ok && alloc::live != l0 )
                {
                    ok = false;
                    w  = std::to_string( alloc::live - l0 ) + " blocks are not released";
                }
                if ( ok && alloc::mismatch )
                {
                    ok = false;
                    w  = "memory is released by another form of delete";
                }
                if ( !ok )
                {
                    why = "allocation " + std::to_string( k ) + ( mode ? " and later" : "" ) + ": " + w;
                    return false;
                }
            }
    return true;
}

// ---- arrays ----

static long live = 0;

// An element that owns memory and knows where it was constructed.
struct Boxed
{
    Boxed* self;
    int*   p;
    Boxed() : self( this ), p( new int( -1 ) )
    {
        live++;
    }
    explicit Boxed( int v ) : self( this ), p( new int( v ) )
    {
        live++;
    }
    Boxed( const Boxed& b ) : self( this ), p( b.p ? new int( b.get() ) : nullptr )
    {
        live++;
    }
    Boxed( Boxed&& b ) noexcept : self( this ), p( b.p )
    {
        b.get();
        b.p = nullptr;
        live++;
    }
    ~Boxed()
    {
        get();
        self = nullptr;
        delete p;
        live--;
    }
    int get() const
    {
        if ( self != this )
        {
            fprintf( stderr, "an element is used that is not constructed\n" );
            abort();
        }
        return p ? *p : -7;
    }
};
static int Read( const Boxed& b )
{
    return b.get();
}
static void Fill( std::unique_ptr<Boxed>& b, int v )
{
    b.reset( new Boxed( v ) );
}
static std::string StringText( int x )
{
    return x == -1 ? "" : "a value longer than the local storage " + std::to_string( x );
}
static int Read( const String<>& s )
{
    if ( s.GetStringLength() == 0 )
        return -1;
    const char* p = static_cast<const char*>( s );
    int         x = atoi( p + 38 );
    return int32( strlen( p ) ) == s.GetStringLength() && StringText( x ) == p ? x : -78;
}
static void Fill( std::unique_ptr<String<>>& b, int v )
{
    b.reset( new String<>( StringText( v ).c_str() ) );
}
static int Read( const int& i )
{
    return i;
}
static void Fill( std::unique_ptr<int>& b, int v )
{
    b.reset( new int( v ) );
}

// The values an array has after the operation; -2 is an element that is not initialised.
static std::vector<int> Model( std::vector<int> m, char op, int arg, int x, int def )
{
    int n = int( m.size() ), k = arg == 0 ? 0 : arg == 1 ? n / 2 : arg == 2 ? ( n ? n - 1 : 0 ) : arg == 3 ? n : arg == 4 ? n + 1 : arg == 5 ? n + 3 : n + 30;
    switch ( op )
    {
        case 'a':
        case 'm': m.push_back( x ); break;
        case 'e': m.push_back( def ); break;
        case 'A': // its own element
            if ( n )
                m.push_back( m[ size_t( arg == 0 ? 0 : n - 1 ) ] );
            break;
        case 'i':
        case 'I':
            while ( int( m.size() ) < k )
                m.push_back( def );
            m.insert( m.begin() + k, x );
            break;
        case 'O': // its own first element
            if ( n )
            {
                int v = m[ 0 ];
                while ( int( m.size() ) < k )
                    m.push_back( def );
                m.insert( m.begin() + k, v );
            }
            break;
        case 'c': m.resize( size_t( k ), def ); break;
        case 'C': m.resize( size_t( k ), x ); break;
        case 'F': // with its own last element
            if ( n )
                m.resize( size_t( k ), m.back() );
            break;
        case 'v':
        case 'y': break;
        case 'r':
            if ( k < n )
                m.erase( m.begin() + k );
            break;
        case 'l':
            if ( n )
                m.pop_back();
            break;
        case 'p': m.clear(); break;
    }
    return m;
}

template <class T, int N>
static void Perform( Array<T, N>& a, char op, int arg, std::unique_ptr<T>& x )
{
    int n = a.GetArrayElementCount(), k = arg == 0 ? 0 : arg == 1 ? n / 2 : arg == 2 ? ( n ? n - 1 : 0 ) : arg == 3 ? n : arg == 4 ? n + 1 : arg == 5 ? n + 3 : n + 30;
    switch ( op )
    {
        case 'a': a.AppendArrayElement( static_cast<const T&>( *x ) ); break;
        case 'm': a.AppendArrayElement( static_cast<T&&>( *x ) ); break;
        case 'e': a.AppendArrayElement(); break;
        case 'A':
            if ( n )
                a.AppendArrayElement( static_cast<const T&>( a[ arg == 0 ? 0 : n - 1 ] ) );
            break;
        case 'i': a.InsertArrayElement( k, static_cast<const T&>( *x ) ); break;
        case 'I': a.InsertArrayElement( k, static_cast<T&&>( *x ) ); break;
        case 'O':
            if ( n )
                a.InsertArrayElement( k, static_cast<const T&>( a[ 0 ] ) );
            break;
        case 'c': a.SetArrayElementCount( k ); break;
        case 'C': a.SetArrayElementCount( k, *x ); break;
        case 'F':
            if ( n )
                a.SetArrayElementCount( k, static_cast<const T&>( a[ n - 1 ] ) );
            break;
        case 'v': a.ReserveArrayElementCount( arg * 9 ); break;
        case 'y':
        {
            Array<T, N> b( static_cast<const Array<T, N>&>( a ) );
            break;
        }
        case 'r': a.RemoveArrayElement( k ); break;
        case 'l': a.RemoveLastArrayElement(); break;
        case 'p': a.PurgeArray(); break;
    }
}

template <class T, int N>
static std::string Values( const Array<T, N>& a )
{
    std::string s;
    for ( const T& t : a )
        s += " " + std::to_string( Read( t ) );
    return s;
}

template <class T, int N>
static bool Same( const Array<T, N>& a, const std::vector<int>& m, const std::vector<int>* longer, const char* what, std::string& why )
{
    size_t n  = size_t( a.GetArrayElementCount() );
    bool   ok = longer ? n >= m.size() && ( n == m.size() || n <= longer->size() ) : n == m.size();
    for ( size_t i = 0; ok && i < n; i++ )
    {
        int w = i < m.size() ? m[ i ] : ( *longer )[ i ];
        ok    = w == -2 || Read( a[ int32( i ) ] ) == w;
    }
    if ( !ok )
    {
        why = std::string( what ) + " the array has" + Values( a ) + " instead of";
        for ( int v : m )
            why += " " + std::to_string( v );
    }
    return ok;
}

static const Pair kAfterA[] = { { 'a', 0 }, { 'i', 1 }, { 'c', 5 }, { 'r', 0 }, { 'y', 0 }, { 'v', 3 }, { 'p', 0 }, { 'e', 0 } };

// Case: type, inline capacity, number of elements, (op arg)*; the last operation fails.
template <class T, int N>
static bool RunArray( const std::string& c, std::string& why )
{
    const int def = std::is_same<T, int>::value ? -2 : -1;
    for ( int mode = 0; mode < 2; mode++ )
        for ( long k = 1, more = 1; more; k++ )
            for ( unsigned after = 0; after < sizeof kAfterA / sizeof *kAfterA && more; after++ )
            {
                alloc::mismatch = false;
                std::string w;
                w.reserve( 1000 );
                long l0 = alloc::live, e0 = live;
                bool ok = true;
                {
                    Array<T, N>        a;
                    std::vector<int>   m;
                    std::unique_ptr<T> x;
                    auto               settle = [ & ]()
                    {
                        for ( size_t i = 0; i < m.size(); i++ )
                            if ( m[ i ] == -2 )
                                if constexpr ( std::is_same<T, int>::value )
                                {
                                    a[ int32( i ) ] = 100;
                                    m[ i ]          = 100;
                                }
                    };
                    for ( int i = 0; i < c[ 2 ]; i++ )
                    {
                        Fill( x, 10 + i );
                        a.AppendArrayElement( static_cast<T&&>( *x ) );
                        m.push_back( 10 + i );
                    }
                    for ( size_t i = 3; i + 1 < c.size() && ok; i += 2 )
                    {
                        Fill( x, 50 + int( i ) );
                        std::vector<int> m2 = Model( m, c[ i ], c[ i + 1 ], 50 + int( i ), def );
                        if ( i + 3 >= c.size() )
                        {
                            bool t = Throws( k, mode == 1, [ & ]() { Perform( a, c[ i ], c[ i + 1 ], x ); } );
                            if ( alloc::failed )
                            {
                                tried++;
                                // What it had, and perhaps some of what was being added at the end.
                                ok = Same( a, m, ( c[ i ] == 'i' || c[ i ] == 'I' || c[ i ] == 'O' ) && m2.size() <= m.size() + 1 ? nullptr : &m2, "after a failed operation", w );
                                if ( !t )
                                {
                                    ok = false;
                                    w  = "an allocation fails and the operation does not";
                                }
                                if ( ok && !strchr( "mI", c[ i ] ) && Read( *x ) != 50 + int( i ) )
                                {
                                    ok = false;
                                    w  = "a failed operation changes its operand";
                                }
                                if ( ok && !std::is_same<T, int>::value && !std::is_same<T, String<>>::value && live - e0 != a.GetArrayElementCount() + 1 )
                                {
                                    ok = false;
                                    w  = std::to_string( live - e0 ) + " elements exist instead of " + std::to_string( a.GetArrayElementCount() + 1 );
                                }
                                if ( !ok )
                                    break;
                                while ( m.size() < size_t( a.GetArrayElementCount() ) )
                                    m.push_back( m2[ m.size() ] );
                                settle();
                                for ( int j = 0; j < 2 && ok; j++ )
                                {
                                    char op  = j ? c[ i ] : kAfterA[ after ].first;
                                    int  arg = j ? c[ i + 1 ] : kAfterA[ after ].second;
                                    Fill( x, 80 + j );
                                    m2 = Model( m, op, arg, 80 + j, def );
                                    Perform( a, op, arg, x );
                                    m  = m2;
                                    ok = Same( a, m, nullptr, j ? "after the failed operation is repeated" : "after a failed and a good operation", w );
                                    settle();
                                }
                                break;
                            }
                            more = 0;
                        }
                        else
                            Perform( a, c[ i ], c[ i + 1 ], x );
                        m  = m2;
                        ok = Same( a, m, nullptr, "after a good operation", w );
                        settle();
                    }
                }
                if ( ok && ( alloc::live != l0 || live != e0 ) )
                {
                    ok = false;
                    w  = std::to_string( alloc::live - l0 ) + " blocks and " + std::to_string( live - e0 ) + " elements are not released";
                }
                if ( ok && alloc::mismatch )
                {
                    ok = false;
                    w  = "memory is released by another form of delete";
                }
                if ( !ok )
                {
                    why = "allocation " + std::to_string( k ) + ( mode ? " and later" : "" ) + ": " + w;
                    return false;
                }
            }
    return true;
}

template <class T>
static bool RunN( const std::string& c, std::string& why )
{
    switch ( c[ 1 ] )
    {
        case '0': return RunArray<T, 0>( c, why );
        case '1': return RunArray<T, 1>( c, why );
        case '2': return RunArray<T, 2>( c, why );
        default: return RunArray<T, 5>( c, why );
    }
}

static bool Run( const std::string& c, std::string& why )
{
    switch ( c[ 0 ] )
    {
        case 'S': return RunString( c, why );
        case 'B': return RunN<Boxed>( c, why );
        case 'T': return RunN<String<>>( c, why );
        case 'I': return RunN<int>( c, why );
    }
    return true;
}

static std::string Show( const std::string& c )
{
    std::string s;
    size_t      i;
    if ( c[ 0 ] == 'S' )
        s = "String of length " + std::to_string( kLen[ uint8_t( c[ 1 ] ) ] ) + ":", i = 2;
    else
        s = std::string( "Array<" ) + ( c[ 0 ] == 'B' ? "owning element" : c[ 0 ] == 'T' ? "String" : "int" ) + "," + c[ 1 ] + "> with " + std::to_string( c[ 2 ] ) + " elements:", i = 3;
    for ( ; i + 1 < c.size(); i += 2 )
        s += std::string( " " ) + c[ i ] + std::to_string( uint8_t( c[ i + 1 ] ) );
    return s + " (each allocation of the last operation fails)";
}

static void Enumerate( fw::Engine& e )
{
    using Ops = std::vector<Pair>;
    bool th   = e.thorough;
    auto explore = [ & ]( const std::string& name, const std::vector<std::string>& bases, const Ops& first, const Ops& ops, int depth )
    {
        e.phase( name.c_str(), bases.size() * ( depth > 1 ? first.size() : 1 ),
                 [ & ]( uint64_t u )
                 {
                     std::function<void( std::string, int )> go = [ & ]( std::string s, int left )
                     {
                         for ( auto& o : left > 1 ? first : ops )
                         {
                             if ( e.stopped() )
                                 return;
                             std::string t = s + o.first + char( o.second );
                             if ( left > 1 )
                                 go( t, left - 1 );
                             else
                             {
                                 long t0 = tried;
                                 e.check( t );
                                 e.step( uint64_t( tried - t0 ) );
                                 e.state( fw::HashStr( s ) );
                                 e.trans( fw::HashStr( t ) );
                             }
                         }
                     };
                     std::string b = bases[ u % bases.size() ];
                     if ( depth == 1 )
                         go( b, 1 );
                     else
                         go( b + first[ u / bases.size() ].first + char( first[ u / bases.size() ].second ), depth - 1 );
                 } );
    };
    // Strings.
    Ops str, few;
    for ( char op : { '=', 'c', '+', 'C', 't', 'e', 'E', 'p', 'n', '1', '3', '4', '6' } )
        for ( int l = 0; l < kLens; l++ )
            str.push_back( { op, l * 2 + ( op == 't' ? 0 : l & 1 ) } );
    for ( char op : { 'k', 's', 'x', 'X', 'i', 'I', 'l', 'L', 'u', 'U', 'N', 'z', 'P', '2', '5', '7' } )
        str.push_back( { op, 0 } );
    for ( char op : { '=', '+', 't' } )
        for ( int l : { 0, 2, 5, 8, 11, 15 } )
            few.push_back( { op, l * 2 } );
    for ( char op : { 'k', 's', 'I', 'l', 'z', '5', 'x' } )
        few.push_back( { op, 0 } );
    std::vector<std::string> lens, some;
    for ( int l = 0; l < kLens; l++ )
        lens.push_back( std::string( "S" ) + char( l ) );
    for ( int l : { 0, 4, 11 } )
        some.push_back( lens[ size_t( l ) ] );
    explore( "strings, one operation", lens, str, str, 1 );
    explore( "strings, two operations", lens, few, str, 2 );
    explore( "strings, three operations", some, few, few, 3 );
    if ( th )
    {
        explore( "strings, two operations of all", lens, str, str, 2 );
        explore( "strings, four operations", some, few, few, 4 );
    }
    // Arrays.
    Ops arr, change;
    for ( char op : { 'a', 'm', 'e', 'l', 'p', 'y' } )
        arr.push_back( { op, 0 } );
    for ( char op : { 'i', 'I', 'O', 'c', 'C', 'F' } )
        for ( int k = 0; k < 7; k++ )
            arr.push_back( { op, k } );
    for ( int k = 0; k < 3; k++ )
        arr.push_back( { 'A', k } ), arr.push_back( { 'v', k + 1 } ), arr.push_back( { 'r', k } );
    for ( auto& o : arr )
        if ( strchr( "aelp", o.first ) || ( o.first == 'v' && o.second == 1 ) || ( strchr( "ic", o.first ) && ( o.second == 1 || o.second == 5 ) ) || ( o.first == 'r' && !o.second ) )
            change.push_back( o );
    std::vector<std::string> arrays, few2;
    for ( char t : { 'B', 'T', 'I' } )
        for ( char n : { '0', '1', '2', '5' } )
            for ( int k = 0; k <= 13; k++ )
                arrays.push_back( std::string() + t + n + char( k ) );
    for ( auto& s : arrays )
        if ( s[ 2 ] == 0 || s[ 2 ] == 3 || s[ 2 ] == 5 || s[ 2 ] == 8 )
            few2.push_back( s );
    explore( "arrays, one operation", arrays, arr, arr, 1 );
    explore( "arrays, two operations", arrays, change, arr, 2 );
    if ( th )
    {
        explore( "arrays, three operations", few2, change, arr, 3 );
        explore( "arrays, two operations of all", arrays, arr, arr, 2 );
        explore( "arrays, four operations", few2, change, arr, 4 );
    }
}

int main( int argc, char** argv )
{
    return fw::Main( argc, argv, Enumerate, Run, Show );
}
